/* S7: ring buffers shared by producers and consumers, with re-entrant free functions */
#include "sim.h"
#include <gutil_ring.h>
#include <string.h>
#include <limits.h>
#include <deque>
#include <vector>

namespace {

struct Ring;

/* What an API call on the stack may do to the elements */
struct Frame {
    Ring* r;
    bool front, back;          /* which end it may free from */
    int allowed;               /* how many */
    int freed;
    bool touched;              /* somebody else has removed something meanwhile */
    bool final;
    int old_max;
};

struct Ring {
    int id;
    GUtilRing* obj;
    int refs, max;
    bool has_free;
    std::deque<int> q;
    std::vector<int> finalizing;
};

struct Elem { Ring* r; bool inside, freed, given_back; };

static std::vector<Ring*> rings;
static std::vector<Elem> elems;
static std::vector<Frame*> st;
static int depth, max_depth, reent;
static int w[24];
static bool quiet;

static void action(Ring* r, bool nested);

static gpointer P(int id) { return GINT_TO_POINTER(id + 1); }

static void look(Ring* r)
{
    const int n = gutil_ring_size(r->obj);
    sim::checked();
    if (n != (int)r->q.size()) sim::fail("C11,C12", "size", "ring %d has %d elements rather than %d", r->id, n, (int)r->q.size());
    for (int i = 0; i < n; i++) {
        if (gutil_ring_data_at(r->obj, i) != P(r->q[i]))
            sim::fail("C11", "order", "element %d of ring %d is #%d rather than #%d", i, r->id,
                GPOINTER_TO_INT(gutil_ring_data_at(r->obj, i)) - 1, r->q[i]);
    }
    if (gutil_ring_data_at(r->obj, n) || gutil_ring_data_at(r->obj, -1))
        sim::fail("C11", "order", "ring %d has something outside of its bounds", r->id);
}

static void sync_max(Ring* r)
{
    /* While the limit is being changed, either value is fine */
    const int m = gutil_ring_max_size(r->obj);
    bool ok = m == r->max;
    for (Frame* f : st) if (f->r == r && f->old_max != INT_MIN && m == f->old_max) ok = true;
    sim::checked();
    if (!ok) sim::fail("C11", "max-size", "maximum size of ring %d is %d rather than %d", r->id, m, r->max);
}

static void on_free(gpointer data)
{
    const int id = GPOINTER_TO_INT(data) - 1;
    sim::log("#%d freed", id);
    sim::checked();
    if (id < 0 || id >= (int)elems.size()) sim::fail("C12", "free-garbage", "free function called for something that has never been in the ring");
    Elem& e = elems[id];
    if (e.freed) sim::fail("C12", "freed-twice", "#%d freed twice", id);
    if (e.given_back) sim::fail("C12", "freed-taken", "#%d freed though it has been taken out of the ring", id);
    Frame* f = st.empty() ? NULL : st.back();
    Ring* r = e.r;
    if (!f || f->r != r) sim::fail("C12", "freed-early", "#%d of ring %d freed for no reason", id, r->id);
    if (f->freed >= f->allowed) sim::fail("C12", "freed-too-many", "#%d freed, too many", id);
    e.freed = true;
    e.inside = false;
    f->freed++;
    if (f->front && !r->q.empty() && r->q.front() == id) r->q.pop_front();
    else if (f->back && !r->q.empty() && r->q.back() == id) r->q.pop_back();
    else sim::fail("C11,C12", "free-order", "#%d freed, that's a wrong one", id);
    sim::state(sim::mix(sim::mix(r->q.size(), (uint64_t)r->max), st.size() * 8 + f->front * 4 + f->back * 2 + f->final));
    if (f->final) return;
    if (sim::faults_enabled()) look(r);
    if (quiet || !sim::faults_enabled() || depth >= max_depth) return;
    depth++;
    while (sim::flip(reent)) {
        sim::nontrivial();
        sim::fault("reentrant_free_function");
        action(r, true);
    }
    depth--;
}

struct Scope {
    Frame f;
    Scope(Ring* r, bool front, bool back, int allowed)
    {
        f.r = r; f.front = front; f.back = back; f.allowed = allowed; f.freed = 0;
        f.touched = f.final = false; f.old_max = INT_MIN;
        st.push_back(&f);
    }
    ~Scope() { st.pop_back(); }
};

/* Somebody removes an element in the middle of another call */
static void touch(Ring* r) { for (Frame* f : st) if (f->r == r) f->touched = true; }

static void gone(Ring* r, bool front)
{
    int id = front ? r->q.front() : r->q.back();
    if (front) r->q.pop_front(); else r->q.pop_back();
    elems[id].inside = false;
    if (!r->has_free) elems[id].freed = true;   /* nobody is going to tell */
}

static void finish(Scope& s, const char* what, int ret, bool check_ret)
{
    Ring* r = s.f.r;
    if (!r->has_free) {
        for (int i = 0; i < s.f.allowed; i++) gone(r, s.f.front);
        s.f.freed = s.f.allowed;
    }
    sim::checked();
    if (!s.f.touched && s.f.freed != s.f.allowed)
        sim::fail("C11,C12", "freed-too-few", "%s has freed %d elements rather than %d", what, s.f.freed, s.f.allowed);
    if (check_ret && ret != s.f.allowed && (!s.f.touched || ret != s.f.freed))
        sim::fail("C11", "drop-count", "%s returned %d rather than %d", what, ret, s.f.allowed);
}

static void do_put(Ring* r, bool front)
{
    if (elems.size() >= 1500) return;
    sync_max(r);
    const int max = gutil_ring_max_size(r->obj);
    const bool ok = max < 0 || (int)r->q.size() < max;
    const int id = (int)elems.size();
    elems.push_back({ r, true, false, false });
    const bool can = gutil_ring_can_put(r->obj, 1);
    const bool res = front ? gutil_ring_put_front(r->obj, P(id)) : gutil_ring_put(r->obj, P(id));
    sim::log("put%s #%d: %d", front ? " front" : "", id, res);
    sim::checked();
    if (can != ok) sim::fail("C11", "can-put", "can put %d with %d elements, max %d", can, (int)r->q.size(), max);
    if (res != ok) sim::fail("C11", "put-limit", "put %s with %d elements, max %d", res ? "succeeded" : "failed", (int)r->q.size(), max);
    if (!res) {
        sim::probe("ring.put_refused");
        elems[id].inside = false;
        elems[id].given_back = true;
        return;
    }
    if (front) r->q.push_front(id); else r->q.push_back(id);
}

static void do_get(Ring* r, bool front)
{
    gpointer p = front ? gutil_ring_get(r->obj) : gutil_ring_get_last(r->obj);
    sim::log("get%s: #%d", front ? "" : " last", GPOINTER_TO_INT(p) - 1);
    sim::checked();
    if (r->q.empty()) {
        if (p) sim::fail("C11", "get", "got something from an empty ring");
        return;
    }
    int id = front ? r->q.front() : r->q.back();
    if (p != P(id)) sim::fail("C11", "get", "got #%d rather than #%d", GPOINTER_TO_INT(p) - 1, id);
    gone(r, front);
    elems[id].given_back = true;
    touch(r);
}

static void do_drop(Ring* r, bool front)
{
    static const int some[] = { 1, 2, 3, 0, -1, INT_MAX, 5, 1 };
    int n = some[sim::choose(8)];
    if (sim::choose(4) == 3) n = (int)r->q.size() - (int)sim::choose(3);
    const int k = n <= 0 ? 0 : MIN(n, (int)r->q.size());
    sim::log("drop%s %d of %d {", front ? "" : " last", n, (int)r->q.size());
    if (k) touch(r);
    /* If that's everything, it doesn't matter what goes first */
    const bool all = k == (int)r->q.size();
    Scope s(r, front || all, !front || all, k);
    int ret = front ? gutil_ring_drop(r->obj, n) : gutil_ring_drop_last(r->obj, n);
    sim::log("} %d", ret);
    if (!r->has_free && !front) s.f.front = false;
    finish(s, front ? "drop" : "drop_last", ret, true);
}

static void do_clear(Ring* r)
{
    sim::log("clear {");
    if (!r->q.empty()) touch(r);
    Scope s(r, true, false, (int)r->q.size());
    gutil_ring_clear(r->obj);
    sim::log("}");
    finish(s, "clear", 0, false);
}

static void do_set_max(Ring* r)
{
    int m = sim::choose(4) ? (int)sim::choose(9) : -1 - (int)sim::choose(2) * 5;
    if (r->q.size() > 8 && sim::choose(3)) m = (int)r->q.size() + (int)sim::choose(7) - 3;
    const int eff = m < 0 ? -1 : m;
    const int k = eff >= 0 && (int)r->q.size() > eff ? (int)r->q.size() - eff : 0;
    sim::log("max size %d -> %d {", r->max, m);
    if (k) touch(r);
    bool changing = false;
    for (Frame* f : st) if (f->r == r && f->old_max != INT_MIN) changing = true;
    if (changing) touch(r);
    Scope s(r, true, k == (int)r->q.size(), k);
    s.f.touched = changing;
    s.f.old_max = gutil_ring_max_size(r->obj);
    const int old = r->max;
    r->max = eff;
    gutil_ring_set_max_size(r->obj, m);
    sim::log("}");
    if (!r->has_free) s.f.back = false;
    if (k && old >= 0) sim::probe("ring.limit_lowered_with_excess");
    finish(s, "lowering the maximum size", 0, false);
    s.f.old_max = INT_MIN;
    sim::checked();
    if (s.f.touched && !changing) { /* re-entrant calls may have changed the limit again */
        int now = gutil_ring_max_size(r->obj);
        if (now != eff && now != r->max) sim::fail("C11", "max-size", "maximum size is %d", now);
        r->max = now;
        s.f.old_max = INT_MIN;
    }
    if (!changing && r->max >= 0 && gutil_ring_size(r->obj) > r->max)
        sim::fail("C11", "max-exceeded", "ring %d has %d elements, max %d", r->id, gutil_ring_size(r->obj), r->max);
}

static void new_ring()
{
    Ring* r = new Ring();
    r->id = (int)rings.size();
    r->max = sim::choose(3) ? (int)sim::choose(9) : -1;
    int reserved = sim::choose(2) ? (int)sim::choose(12) : 0;
    r->has_free = sim::flip(700);
    switch (sim::choose(3)) {
    case 0: r->obj = gutil_ring_new_full(reserved, r->max < 0 ? -3 : r->max, r->has_free ? on_free : NULL); break;
    case 1: r->obj = gutil_ring_sized_new(reserved, r->max); gutil_ring_set_free_func(r->obj, r->has_free ? on_free : NULL); break;
    case 2: r->obj = gutil_ring_new(); r->max = -1; gutil_ring_set_free_func(r->obj, r->has_free ? on_free : NULL); break;
    }
    if (!r->obj) sim::fail("C11,C12", "not-created", "no ring");
    r->refs = 1;
    sim::log("ring %d: max %d, reserved %d%s", r->id, r->max, reserved, r->has_free ? ", free function" : "");
    rings.push_back(r);
}

static void unref(Ring* r)
{
    sim::log("unref ring %d%s {", r->id, r->refs == 1 ? " (last)" : "");
    if (--r->refs) {
        gutil_ring_unref(r->obj);
    } else {
        Scope s(r, true, false, (int)r->q.size());
        s.f.final = true;
        gutil_ring_unref(r->obj);
        finish(s, "last unref", 0, false);
        r->obj = NULL;
    }
    sim::log("}");
}

static void do_flatten(Ring* r)
{
    gint n = -1;
    const bool ask = sim::choose(5) > 0;
    gpointer* p = gutil_ring_flatten(r->obj, ask ? &n : NULL);
    if (!ask) n = (int)r->q.size();
    sim::log("flatten: %d", n);
    sim::checked();
    if (n != (int)r->q.size()) sim::fail("C11", "flatten", "flattened %d elements rather than %d", n, (int)r->q.size());
    if (!n && p) sim::fail("C11", "flatten", "flattening an empty ring gave something");
    for (int i = 0; i < n; i++) if (p[i] != P(r->q[i]))
        sim::fail("C11", "flatten", "flattened element %d is #%d rather than #%d", i, GPOINTER_TO_INT(p[i]) - 1, r->q[i]);
}

static void can_put(Ring* r)
{
    static const int some[] = { 1, 2, 3, 5, 0, INT_MAX, INT_MAX - 1 };
    int n = some[sim::choose(7)];
    sync_max(r);
    int max = gutil_ring_max_size(r->obj);
    bool ok = max < 0 || (gint64)r->q.size() + n <= max;
    bool res = gutil_ring_can_put(r->obj, n);
    sim::checked();
    if (ok != res) sim::fail("C11", "can-put", "can put %d more: %d, with %d elements and max %d", n, res, (int)r->q.size(), max);
}

static void action(Ring* r, bool nested)
{
    switch (sim::pickw(w, nested ? 11 : 17)) {
    case 0: for (int n = nested ? 1 : sim::burst(400); n > 0; n--) do_put(r, false); break;
    case 1: for (int n = nested ? 1 : sim::burst(400); n > 0; n--) do_put(r, true); break;
    case 2: for (int n = nested ? 1 : sim::burst(300); n > 0; n--) do_get(r, true); break;
    case 3: do_get(r, false); break;
    case 4: do_drop(r, true); break;
    case 5: do_drop(r, false); break;
    case 6: do_clear(r); break;
    case 7: do_set_max(r); break;
    case 8: look(r); break;
    case 9: can_put(r); break;
    case 10: {
        /* May have no effect that can be seen */
        static const int res[] = { 1, 4, 16, 7, 0, -1, 33, 300 };
        int n = res[sim::choose(8)];
        sim::log("reserve %d", n);
        sync_max(r);
        const int max = gutil_ring_max_size(r->obj);
        const bool ok = gutil_ring_reserve(r->obj, n);
        if (!ok && (max < 0 || n <= max)) sim::fail("C11", "reserve", "no room for %d elements, max is %d", n, max);
        break;
    }
    case 11: do_flatten(r); break;
    case 12: sim::log("compact"); gutil_ring_compact(r->obj); break;
    case 13: if (r->refs < 4) { r->refs++; if (gutil_ring_ref(r->obj) != r->obj) sim::fail("C12", "ref-result", "bad ref"); } break;
    case 14: if (r->refs > 1 || sim::choose(4) == 3) unref(r); break;
    case 15: if (rings.size() < 5) new_ring(); break;
    case 16:
        if (gutil_ring_size(NULL) || gutil_ring_get(NULL) || gutil_ring_get_last(NULL) || gutil_ring_put(NULL, P(0)) ||
            gutil_ring_put_front(NULL, P(0)) || gutil_ring_can_put(NULL, 1) || gutil_ring_drop(NULL, 1) ||
            gutil_ring_drop_last(NULL, 1) || gutil_ring_data_at(NULL, 0) || gutil_ring_max_size(NULL) || gutil_ring_ref(NULL))
            sim::fail("C11", "null", "NULL was taken for a ring");
        gutil_ring_clear(NULL);
        gutil_ring_compact(NULL);
        gutil_ring_unref(NULL);
        gutil_ring_set_max_size(NULL, 1);
        gutil_ring_set_free_func(NULL, NULL);
        break;
    }
}

static void run()
{
    static const int base[17] = { 40, 14, 14, 8, 5, 5, 2, 5, 4, 3, 3, 6, 4, 1, 1, 1, 1 };
    for (int i = 0; i < 17; i++) w[i] = base[i] * (int)sim::choose(4);
    w[0] += 20;
    reent = sim::faults_enabled() ? 50 + 150 * sim::choose(4) : 0;
    max_depth = 1 + sim::choose(2);
    elems.reserve(1600);
    new_ring();
    int mean = 20 + 30 * sim::choose(4);
    while (sim::more(mean)) {
        std::vector<Ring*> l;
        for (Ring* r : rings) if (r->obj) l.push_back(r);
        if (l.empty()) { new_ring(); continue; }
        Ring* r = l[sim::choose((uint32_t)l.size())];
        action(r, false);
        if (r->obj) {
            look(r);
            sync_max(r);
            uint64_t h = sim::mix(r->q.size(), (uint64_t)(r->max + 2));
            sim::state(sim::mix(h, r->has_free));
            if (r->max >= 0 && (int)r->q.size() > r->max)
                sim::fail("C11", "max-exceeded", "ring %d has %d elements, max %d", r->id, (int)r->q.size(), r->max);
        }
    }
    sim::span();
    quiet = true;
    if (elems.size() > 5) sim::nontrivial();
    for (Ring* r : rings) while (r->refs) unref(r);
    for (size_t i = 0; i < elems.size(); i++) {
        sim::checked();
        if (!elems[i].freed && !elems[i].given_back) sim::fail("C12,C22", "never-freed", "#%d was never freed", (int)i);
    }
}

} // namespace

SCENARIO(ring, "ring", "C11,C12", run, "gutil_ring.c", "none")
