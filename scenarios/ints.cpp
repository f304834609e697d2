/* S10: shared int arrays and slices of them, used and dropped by several threads */
#include "sim.h"
#include <gutil_ints.h>
#include <gutil_intarray.h>
#include <sanitizer/asan_interface.h>
#include <string.h>
#include <limits.h>
#include <vector>

/* That's what g_free is for the library */
extern "C" void simw_g_free(gpointer);

namespace {

enum { MAX_THR = 4, MAX_BASE = 8, MAX_NODE = 40 };
enum BaseKind { FREEFUNC, COPY, TAKE, STATIC, ARRAY, TAKE_OTHER, NO_ARG };
static const char* const kind_name[] = { "freefunc", "copy", "take", "static", "array", "take-other", "no-arg" };

struct Base {
    int id;
    BaseKind kind;
    std::vector<int> v;
    int* buf;                  /* what has been given to the library */
    gpointer other;            /* TAKE_OTHER: what g_free gets called for */
    bool alive, released, given_away;
};

struct Node {
    int id, base, parent;
    GUtilInts* p;
    guint off, n;
    int held;                  /* handles */
    int lent;                  /* calls in progress using a handle */
    int children;              /* live slices made directly from it */
    int mine[MAX_THR + 1];
    bool dead;
};

static Base base[MAX_BASE];
static Node node[MAX_NODE];
static int nbase, nnode, nthr, inflight;

static Base* no_arg;               /* The one which is released without an argument */

static void released(gpointer data)
{
    Base* b = data ? (Base*)data : no_arg;
    if (!b || (b->kind == NO_ARG) != !data)
        sim::fail("C15", "release-argument", "wrong argument for the release function");
    sim::log("  base %d is released", b->id);
    sim::checked();
    if (b->released) sim::fail("C15,C13", "released-twice", "data %d released twice", b->id);
    if (b->alive) sim::fail("C15,C13", "released-early", "data %d released while in use", b->id);
    b->released = true;
    memset(b->buf, 0xaa, b->v.size() * sizeof(int));
}

/* Somebody's last handle or slice is gone */
static void maybe_dead(int i)
{
    while (i >= 0) {
        Node* n = node + i;
        if (n->dead || n->held || n->children) return;
        n->dead = true;
        if (n->parent < 0) { base[n->base].alive = false; return; }
        node[n->parent].children--;
        i = n->parent;
    }
}

static bool gone(Base* b)
{
    switch (b->kind) {
    case FREEFUNC: case NO_ARG: return b->released;
    case TAKE: return __asan_address_is_poisoned(b->buf);
    case TAKE_OTHER: return __asan_address_is_poisoned(b->other);
    default: return !b->alive;
    }
}

static void settled()
{
    if (inflight) return;
    for (int i = 0; i < nbase; i++) {
        Base* b = base + i;
        sim::checked();
        if (b->given_away) continue;
        if (!b->alive && !gone(b)) sim::fail("C15,C13,C22", "never-released", "data %d (%s) is not used by anyone but has not been released", i, kind_name[b->kind]);
        if (b->alive && gone(b)) sim::fail("C15,C13", "released-early", "data %d (%s) has been released while in use", i, kind_name[b->kind]);
    }
}

static void same(const char* what, Node* n, const int* d, guint count)
{
    sim::checked();
    if (count != n->n) sim::fail("C15", "count", "%s: handle %d has %u elements rather than %u", what, n->id, count, n->n);
    const Base* b = base + n->base;
    for (guint i = 0; i < count; i++) {
        if (__asan_address_is_poisoned((void*)(d + i)))
            sim::fail("C15,C13", "contents-gone", "%s: contents of handle %d are gone", what, n->id);
        if (d[i] != b->v[n->off + i])
            sim::fail("C15", "contents", "%s: element %u of handle %d is %d rather than %d", what, i, n->id, d[i], b->v[n->off + i]);
        if (!(i & 3)) sched::yield();
    }
}

static Node* add_node(GUtilInts* p, int b, int parent, guint off, guint n, int who)
{
    Node* x = node + nnode;
    x->id = nnode++;
    x->p = p;
    x->base = b;
    x->parent = parent;
    x->off = off;
    x->n = n;
    x->held = 1;
    x->mine[who] = 1;
    if (parent >= 0) node[parent].children++;
    return x;
}

static void new_base(int who)
{
    if (nbase >= MAX_BASE || nnode >= MAX_NODE) return;
    static const guint sizes[] = { 3, 1, 2, 5, 8, 13, 40, 3, 1, 2, 5, 8, 13, 300 };
    Base* b = base + nbase;
    b->id = nbase++;
    b->kind = (BaseKind)sim::choose(7);
    if (b->kind == NO_ARG) {
        if (no_arg) b->kind = FREEFUNC; else no_arg = b;
    }
    guint n = sizes[sim::choose(14)];
    for (guint i = 0; i < n; i++) b->v.push_back(sim::choose(3) ? (int)sim::choose(6) - 2 : sim::choose(2) ? INT_MIN : INT_MAX);
    b->alive = true;
    b->buf = (int*)g_memdup2(b->v.data(), n * sizeof(int));
    sim::log("t%d creates %d: %s of %u", who, b->id, kind_name[b->kind], n);
    GUtilInts* p = NULL;
    inflight++;
    switch (b->kind) {
    case FREEFUNC: p = gutil_ints_new_with_free_func(b->buf, n, released, b); break;
    case NO_ARG: p = gutil_ints_new_with_free_func(b->buf, n, released, NULL); break;
    case TAKE:
        p = sim::choose(2) ? gutil_ints_new_take(b->buf, n) :
            gutil_ints_new_with_free_func(b->buf, n, simw_g_free, b->buf);
        break;
    case STATIC: p = gutil_ints_new_static(b->buf, n); break;
    case TAKE_OTHER:
        b->other = g_malloc(16);
        p = gutil_ints_new_with_free_func(b->buf, n, simw_g_free, b->other);
        break;
    case COPY:
        p = gutil_ints_new(b->buf, n);
        memset(b->buf, 0x55, n * sizeof(int));
        g_free(b->buf);
        b->buf = NULL;
        break;
    case ARRAY: {
        GUtilIntArray* a = gutil_int_array_new_from_vals(b->buf, n);
        p = gutil_int_array_free_to_ints(a);
        memset(b->buf, 0x55, n * sizeof(int));
        g_free(b->buf);
        b->buf = NULL;
        break;
    }
    }
    inflight--;
    if (!p) sim::fail("C15", "no-handle", "no handle for %u ints", n);
    add_node(p, b->id, -1, 0, n, who);
}

static Node* pick(int who, bool spare)
{
    int c[MAX_NODE], k = 0;
    for (int i = 0; i < nnode; i++) if (node[i].mine[who] > 0) c[k++] = i;
    (void)spare;
    return k ? node + c[sim::choose((uint32_t)k)] : NULL;
}

static void slice(int who)
{
    Node* x = pick(who, false);
    if (!x || nnode >= MAX_NODE) return;
    guint off, cnt;
    switch (sim::choose(6)) {
    default: off = sim::choose(x->n); break;
    case 4: off = x->n + sim::choose(2); break;
    case 5: off = sim::choose(2) ? UINT_MAX : (guint)INT_MAX + sim::choose(2); break;
    }
    switch (sim::choose(8)) {
    default: cnt = 1 + sim::choose(x->n); break;
    case 5: cnt = UINT_MAX - sim::choose(x->n + 2); break;
    case 6: cnt = 0; break;
    case 7: cnt = sim::choose(2) ? UINT_MAX - off : 0u - off; break;
    }
    const guint n = off < x->n ? MIN(cnt, x->n - off) : 0;
    sim::log("t%d slices handle %d at %u, %u {", who, x->id, off, cnt);
    if (cnt > x->n) sim::probe("ints.clamped_slice");
    x->mine[who]--;
    inflight++;
    GUtilInts* s = gutil_ints_new_from_ints(x->p, off, cnt);
    inflight--;
    x->mine[who]++;
    sim::log("}");
    sim::checked();
    if (!s != !n) sim::fail("C15", "slice", "slice of %u elements of handle %d at %u, %u%s", n, x->id, off, cnt, s ? "" : " is missing");
    if (!s) return;
    if (nnode >= MAX_NODE) { inflight++; gutil_ints_unref(s); inflight--; return; } /* others were faster */
    if (s == x->p) {
        /* The whole thing, that would be fine too */
        x->held++;
        x->mine[who]++;
        if (x->n != n) sim::fail("C15", "slice", "slice of %u elements is the same as its parent", n);
    } else {
        Node* y = add_node(s, x->base, x->id, x->off + off, n, who);
        guint c2 = 12345;
        const int* d = gutil_ints_get_data(s, &c2);
        same("slice", y, d, c2);
    }
}

static void consume(Node* x, int who)
{
    x->mine[who]--;
    x->held--;
    maybe_dead(x->id);
}

static void to_data(Node* x, int who)
{
    Base* b = base + x->base;
    guint n = 12345;
    /* Saved, because it may be gone afterwards */
    Node copy = *x;
    sim::log("t%d turns handle %d into data {", who, x->id);
    consume(x, who);
    inflight++;
    const bool counted = sim::choose(8) != 0;
    int* d = gutil_ints_unref_to_data(copy.p, counted ? &n : NULL);
    sim::log("}");
    if (!counted) n = copy.n;
    if (!d) sim::fail("C15", "no-data", "no data from handle %d", copy.id);
    same("plain data", &copy, d, n);
    sim::checked();
    if (d == b->buf) {
        if (b->kind != TAKE || b->alive || copy.parent >= 0)
            sim::fail("C15", "not-private", "handle %d has given away data which does not belong to it", copy.id);
        b->given_away = true;
        sim::probe("ints.data_handed_over");
    } else {
        sim::probe("ints.data_copied");
    }
    /* It's ours now */
    for (guint i = 0; i < n; i++) d[i] = 0x77777777;
    sched::yield();
    g_free(d);
    inflight--;
    settled();
}

static void unref(Node* x, int who)
{
    sim::log("t%d unref handle %d (%d)", who, x->id, x->held - 1);
    GUtilInts* p = x->p;
    consume(x, who);
    inflight++;
    gutil_ints_unref(p);
    inflight--;
    settled();
}

static void use(Node* x, int who)
{
    Base* b = base + x->base;
    guint n = 12345;
    x->mine[who]--;            /* stays ours during the call */
    switch (sim::choose(6)) {
    case 0: {
        sim::log("t%d reads handle %d", who, x->id);
        const int* d = gutil_ints_get_data(x->p, &n);
        same("data", x, d, n);
        break;
    }
    case 1:
        if (gutil_ints_get_count(x->p) != x->n) sim::fail("C15", "count", "count of handle %d is wrong", x->id);
        break;
    case 2: {
        int v = sim::choose(3) ? b->v[x->off + sim::choose(x->n)] : 99, at = -1;
        for (guint i = 0; i < x->n && at < 0; i++) if (b->v[x->off + i] == v) at = (int)i;
        int f = gutil_ints_find(x->p, v);
        bool c = gutil_ints_contains(x->p, v);
        sim::checked();
        if (f != at || c != (at >= 0)) sim::fail("C15", "find", "%d found in handle %d at %d (contains %d) rather than %d", v, x->id, f, c, at);
        break;
    }
    case 3: case 4: {
        Node* y = pick(who, false);
        if (!y) break;
        y->mine[who]--;
        bool eq = x->n == y->n;
        for (guint i = 0; i < x->n && eq; i++) eq = b->v[x->off + i] == base[y->base].v[y->off + i];
        bool e = gutil_ints_equal(x->p, y->p);
        int c1 = gutil_ints_compare(x->p, y->p), c2 = gutil_ints_compare(y->p, x->p);
        sim::checked();
        if (e != eq || (c1 == 0) != eq || (c1 > 0) != (c2 < 0) || (c1 < 0) != (c2 > 0))
            sim::fail("C15", "compare", "handles %d and %d: equal %d rather than %d, compare %d and %d", x->id, y->id, e, eq, c1, c2);
        if (eq && gutil_ints_hash(x->p) != gutil_ints_hash(y->p))
            sim::fail("C15", "hash", "equal handles %d and %d have different hashes", x->id, y->id);
        y->mine[who]++;
        break;
    }
    case 5: {
        sim::log("t%d ref handle %d (%d)", who, x->id, x->held);
        if (x->held > 8) break;
        x->held++;
        if (gutil_ints_ref(x->p) != x->p) sim::fail("C15", "ref-result", "bad ref");
        x->mine[who]++;
        break;
    }
    }
    x->mine[who]++;
}

static void action(int who)
{
    static const int w[7] = { 12, 6, 6, 5, 3, 3, 1 };
    Node* x;
    switch (sim::pickw(w, 7)) {
    case 0: if ((x = pick(who, false))) { inflight++; use(x, who); inflight--; settled(); } break;
    case 1: slice(who); break;
    case 2: if ((x = pick(who, false))) unref(x, who); break;
    case 3: if ((x = pick(who, false))) to_data(x, who); break;
    case 4: new_base(who); break;
    case 5:
        if ((x = pick(who, false)) && nthr > 1) {
            /* Give one to somebody else */
            int to = (int)sim::choose((uint32_t)nthr);
            sim::log("t%d gives handle %d to t%d", who, x->id, to);
            x->mine[who]--;
            x->mine[to]++;
        }
        break;
    case 6: {
        guint n = 5;
        if (gutil_ints_unref_to_data(NULL, &n) || n || gutil_ints_get_count(NULL) || gutil_ints_ref(NULL) ||
            gutil_ints_new_from_ints(NULL, 0, 1) || gutil_ints_new(NULL, 3) || gutil_ints_new_static(NULL, 0) ||
            gutil_ints_get_data(NULL, NULL) || gutil_ints_contains(NULL, 0) || gutil_ints_find(NULL, 0) >= 0)
            sim::fail("C15", "null", "NULL was taken for something");
        gutil_ints_unref(NULL);
        break;
    }
    }
}

static void body(gpointer arg)
{
    const int who = GPOINTER_TO_INT(arg);
    while (sim::more(14)) {
        action(who);
        sched::yield();
    }
    sim::span();
    for (int i = 0; i < nnode; i++) while (node[i].mine[who] > 0) {
        if (sim::choose(4)) unref(node + i, who);
        else to_data(node + i, who);
    }
}

static void run()
{
    static const char* const names[] = { "t0", "t1", "t2", "t3" };
    nthr = 1 + (int)sim::choose(4);
    int k = 1 + (int)sim::choose(2);
    while (k--) {
        new_base(nthr);
        Node* x = node + nnode - 1;
        for (int t = 0; t < nthr; t++) { gutil_ints_ref(x->p); x->held++; x->mine[t]++; }
        if (sim::choose(2)) unref(x, nthr);
    }
    if (sim::faults_enabled()) sched::set_preemption(2 + 4 * (int)sim::choose(4), 20 << sim::choose(4));
    for (int t = 0; t < nthr; t++) sched::spawn(body, GINT_TO_POINTER(t), names[t]);
    sched::run();
    sim::span();
    /* Handles given to threads which had already exited are left, too */
    for (int t = 0; t <= nthr; t++) for (int i = 0; i < nnode; i++) while (node[i].mine[t] > 0) {
        if (sim::choose(4)) unref(node + i, t);
        else to_data(node + i, t);
    }
    for (int i = 0; i < nnode; i++) if (!node[i].dead) sim::harness_error("handle %d is alive", i);
    settled();
    uint64_t h = nthr;
    for (int i = 0; i < nnode; i++) h = sim::mix(h, node[i].parent * 64 + node[i].n);
    sim::state(h);
    if (nnode > 3) sim::nontrivial();
    for (int i = 0; i < nbase; i++) {
        Base* b = base + i;
        if (b->kind == STATIC || b->kind == FREEFUNC || b->kind == NO_ARG || b->kind == TAKE_OTHER) {
            sim::checked();
            if (__asan_address_is_poisoned(b->buf)) sim::fail("C15", "freed-foreign", "data %d does not belong to the library but is gone", i);
            if (b->kind != FREEFUNC && b->kind != NO_ARG && memcmp(b->buf, b->v.data(), b->v.size() * sizeof(int)))
                sim::fail("C15", "changed-foreign", "data %d does not belong to the library but has changed", i);
            g_free(b->buf);
        }
        std::vector<int>().swap(b->v);
    }
    sim::ledger_check("C15,C13,C22");
}

} // namespace

SCENARIO(ints, "ints", "C15", run, "gutil_ints.c, gutil_intarray.c",
    "thread scheduling (all switches decided by the seed)")
