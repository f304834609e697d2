/* S14: object vectors of several threads which share the objects */
#include "sim.h"
#include <gutil_objv.h>
#include <gutil_misc.h>
#include <glib-object.h>
#include <sanitizer/asan_interface.h>
#include <string.h>
#include <vector>

namespace {

enum { MAX_THR = 4, MAX_OBJS = 16, MAX_VEC = 20 };

struct Item {
    int id;
    GObject* obj;
    int refs;                  /* entries and outside references */
    int mine[MAX_THR + 1];
    bool dead;
};
struct SimItem { GObject parent; Item* t; };
struct SimItemClass { GObjectClass parent; };

struct Vec {
    int id;
    GObject** v;
    std::vector<Item*> m;
    int owner;                 /* -1: gone */
    bool busy;
};

static GType type, type2;
static GObjectClass* parent_class;
static GObjectClass* parent_class2;
static Item item[MAX_OBJS];
static Vec vec[MAX_VEC];
static int nitem, nthr, inflight, depth;
static bool closing;

static void action(int who);
static int me() { return sched::self() >= 0 ? sched::self() : nthr; }

static void on_finalize(GObject* o)
{
    Item* t = ((SimItem*)o)->t;
    sim::log("  #%d is finalized", t->id);
    sim::checked();
    if (t->dead) sim::fail("C21", "finalized-twice", "object %d finalized twice", t->id);
    if (t->refs) sim::fail("C21", "finalized-early", "object %d is finalized though there are %d references to it", t->id, t->refs);
    t->dead = true;
    if (sim::faults_enabled() && !closing && depth < 2 && sim::choose(3) == 1) {
        sim::fault("action_from_finalize");
        depth++;
        action(me());
        depth--;
    }
    (G_OBJECT_TYPE(o) == type2 ? parent_class2 : parent_class)->finalize(o);
}

static void class_init(gpointer k, gpointer)
{
    parent_class = (GObjectClass*)g_type_class_peek_parent(k);
    ((GObjectClass*)k)->finalize = on_finalize;
}

static void class2_init(gpointer k, gpointer)
{
    parent_class2 = (GObjectClass*)g_type_class_peek_parent(k);
    ((GObjectClass*)k)->finalize = on_finalize;
}

static void warmup()
{
    /* This one is floating */
    type2 = g_type_register_static_simple(G_TYPE_INITIALLY_UNOWNED, "SimFloatingItem", sizeof(SimItemClass), class2_init, sizeof(SimItem), NULL, (GTypeFlags)0);
    g_type_class_ref(type2);
    type = g_type_register_static_simple(G_TYPE_OBJECT, "SimItem", sizeof(SimItemClass), class_init, sizeof(SimItem), NULL, (GTypeFlags)0);
    g_type_class_ref(type);
}
static sim::WReg wreg(warmup);

static void settled()
{
    if (inflight) return;
    for (int i = 0; i < nitem; i++) {
        Item* t = item + i;
        sim::checked();
        if (!t->refs) {
            if (!t->dead) sim::fail("C21,C22", "leaked", "object %d is not referred to by anyone but it's still alive", i);
        } else if (__asan_address_is_poisoned(t->obj)) {
            sim::fail("C21", "finalized-early", "object %d is gone though there are %d references to it", i, t->refs);
        } else if ((int)t->obj->ref_count != t->refs) {
            sim::fail("C21", "references", "object %d has %u references rather than %d", i, t->obj->ref_count, t->refs);
        }
    }
}

static void begin() { inflight++; }
static void end() { inflight--; settled(); }

/* Entries against the model */
static void verify(Vec* x)
{
    sim::checked();
    const size_t n = x->m.size();
    if (!x->v) {
        if (n) sim::fail("C21", "entries", "vector %d is gone", x->id);
        return;
    }
    for (size_t i = 0; i <= n; i++) {
        GObject* want = i < n ? x->m[i]->obj : NULL;
        if (__asan_address_is_poisoned(x->v + i)) sim::fail("C21", "entries", "vector %d is too short, there should be %d entries", x->id, (int)n);
        if (x->v[i] != want) sim::fail("C21", "entries", "entry %d of vector %d is wrong, there should be %d of them", (int)i, x->id, (int)n);
    }
}

static Vec* free_slot()
{
    for (int i = 0; i < MAX_VEC; i++) if (vec[i].owner < 0 && !vec[i].busy) return vec + i;
    return NULL;
}

static Vec* pick_vec(int who)
{
    Vec* c[MAX_VEC];
    int n = 0;
    for (int i = 0; i < MAX_VEC; i++) if (vec[i].owner == who && !vec[i].busy) c[n++] = vec + i;
    return n ? c[sim::choose((uint32_t)n)] : NULL;
}

static Item* new_item(int who)
{
    if (nitem >= MAX_OBJS) return NULL;
    Item* t = item + nitem;
    t->id = nitem++;
    t->refs = 1;
    t->mine[who] = 1;
    inflight++;
    t->obj = (GObject*)g_object_new(sim::choose(4) == 3 ? type2 : type, NULL);
    inflight--;
    ((SimItem*)t->obj)->t = t;
    sim::log("t%d creates #%d", who, t->id);
    return t;
}

/* An object which this thread has a reference to, directly or in one of its vectors */
static Item* pick_item(int who)
{
    Item* c[64];
    int n = 0;
    for (int i = 0; i < nitem && n < 64; i++) if (item[i].mine[who] > 0) c[n++] = item + i;
    for (int i = 0; i < MAX_VEC; i++) if (vec[i].owner == who && !vec[i].busy) for (Item* t : vec[i].m) if (n < 64) c[n++] = t;
    if (!n || (nitem < MAX_OBJS && sim::choose(4) == 1)) { Item* t = new_item(who); if (t) return t; }
    return n ? c[sim::choose((uint32_t)n)] : NULL;
}

/* Keeps it alive during a call. Not a reference, a promise not to drop the one we have. */
static void hold(Item* t) { t->refs++; inflight++; g_object_ref(t->obj); inflight--; }
static void unhold(Item* t) { t->refs--; inflight++; g_object_unref(t->obj); inflight--; settled(); }

static Vec* take_slot(int who)
{
    Vec* x = free_slot();
    if (x) { x->owner = who; x->busy = true; x->m.clear(); x->v = NULL; }
    return x;
}

static void create(int who)
{
    Vec* x = take_slot(who);
    if (!x) return;
    const int n = (int)sim::choose(5);
    Item* t[4] = {};
    for (int i = 0; i < n && i < 4; i++) {
        t[i] = pick_item(who);
        if (!t[i]) break;
        hold(t[i]);
        t[i]->refs++;
        x->m.push_back(t[i]);
    }
    sim::log("t%d creates vector %d of %d", who, x->id, (int)x->m.size());
    begin();
    if (n || sim::choose(2)) {
        x->v = gutil_objv_new(t[0] ? t[0]->obj : NULL, t[1] ? t[1]->obj : NULL, t[2] ? t[2]->obj : NULL, t[3] ? t[3]->obj : NULL, NULL);
        if (!x->v) sim::fail("C21", "entries", "no vector");
    }
    verify(x);
    end();
    x->busy = false;
    for (int i = 0; i < 4; i++) if (t[i]) unhold(t[i]);
}

static void release(Vec* x)
{
    sim::log("t%d frees vector %d of %d", me(), x->id, (int)x->m.size());
    x->busy = true;
    begin();
    for (Item* t : x->m) t->refs--;
    x->m.clear();
    /* Entries which come later aren't finalized yet but they will be */
    gutil_objv_free(x->v);
    x->v = NULL;
    x->owner = -1;
    end();
    x->busy = false;
}

static void change(int who)
{
    Vec* x = pick_vec(who);
    if (!x) return;
    const size_t n = x->m.size();
    if (n > 300 || (n > 24 && sim::choose(3))) return;
    x->busy = true;
    switch (sim::choose(8)) {
    case 0: {
        Item* t = pick_item(who);
        if (!t) break;
        hold(t);
        sim::log("t%d adds #%d to vector %d", who, t->id, x->id);
        for (int k = sim::burst(140); k > 0; k--) {
            t->refs++;
            x->m.push_back(t);
            begin();
            x->v = gutil_objv_add(x->v, t->obj);
            verify(x);
            end();
        }
        unhold(t);
        break;
    }
    case 1: {
        Item* t = pick_item(who);
        if (!t) break;
        size_t pos = sim::choose((uint32_t)n + 2);
        if (!sim::choose(8)) pos = (size_t)-1;
        hold(t);
        sim::log("t%d inserts #%d into vector %d at %d", who, t->id, x->id, (int)pos);
        t->refs++;
        x->m.insert(x->m.begin() + (long)MIN(pos, n), t);
        begin();
        x->v = gutil_objv_insert(x->v, t->obj, pos);
        verify(x);
        end();
        unhold(t);
        break;
    }
    case 2: {
        Vec* y = pick_vec(who);        /* not itself */
        if (!y) break;
        y->busy = true;
        sim::log("t%d appends vector %d to %d", who, y->id, x->id);
        for (Item* t : y->m) t->refs++;
        x->m.insert(x->m.end(), y->m.begin(), y->m.end());
        begin();
        x->v = gutil_objv_append(x->v, y->v);
        verify(x);
        verify(y);
        end();
        y->busy = false;
        break;
    }
    case 3: case 4: {
        const bool all = sim::choose(2);
        Item* t = n && sim::choose(6) ? x->m[sim::choose((uint32_t)n)] : pick_item(who);
        if (!t) break;
        int k = 0;
        size_t i = 0;
        /* It's fine if the vector has the only reference */
        sim::log("t%d removes %s#%d from vector %d", who, all ? "every " : "", t->id, x->id);
        inflight++;
        while (i < x->m.size()) {
            if (x->m[i] == t && (!k || all)) { x->m.erase(x->m.begin() + (long)i); k++; }
            else i++;
        }
        if (k > 1) sim::probe("objv.several_removed");
        t->refs -= k;
        if (k && !t->refs) sim::probe("objv.last_reference_removed");
        x->v = gutil_objv_remove(x->v, t->obj, all);
        verify(x);
        end();
        break;
    }
    case 5: {
        size_t pos = sim::choose((uint32_t)n + 2);
        if (!sim::choose(8)) pos = (size_t)-1;
        sim::log("t%d removes entry %d of vector %d", who, (int)pos, x->id);
        inflight++;
        if (pos < n) {
            x->m[pos]->refs--;
            x->m.erase(x->m.begin() + (long)pos);
        }
        x->v = gutil_objv_remove_at(x->v, pos);
        verify(x);
        end();
        break;
    }
    case 6: {
        Vec* y = take_slot(who);
        if (!y) break;
        sim::log("t%d copies vector %d to %d", who, x->id, y->id);
        for (Item* t : x->m) t->refs++;
        y->m = x->m;
        begin();
        y->v = gutil_objv_copy(x->v);
        if (!x->v != !y->v) sim::fail("C21", "copy", "copy of %s is %s", x->v ? "a vector" : "NULL", y->v ? "a vector" : "NULL");
        if (y->v && y->v == x->v) sim::fail("C21", "copy", "not a copy");
        verify(y);
        verify(x);
        end();
        y->busy = false;
        break;
    }
    case 7:
        x->busy = false;
        release(x);
        return;
    }
    x->busy = false;
}

static void query(int who)
{
    Vec* x = pick_vec(who);
    if (!x) return;
    x->busy = true;
    const size_t n = x->m.size();
    Item* t = n && sim::choose(4) ? x->m[sim::choose((uint32_t)n)] : pick_item(who);
    Vec* y = pick_vec(who);
    if (y) y->busy = true;
    if (t) hold(t);
    begin();
    sim::checked();
    if (t) {
        long first = -1, last = -1;
        for (size_t i = 0; i < n; i++) if (x->m[i] == t) { if (first < 0) first = (long)i; last = (long)i; }
        if (gutil_objv_find(x->v, t->obj) != first || gutil_objv_find_last(x->v, t->obj) != last ||
            !gutil_objv_contains(x->v, t->obj) != (first < 0))
            sim::fail("C21", "find", "object %d is in vector %d at %ld (last %ld), contains %d, rather than %ld and %ld", t->id, x->id,
                (long)gutil_objv_find(x->v, t->obj), (long)gutil_objv_find_last(x->v, t->obj), gutil_objv_contains(x->v, t->obj), first, last);
    }
    if (gutil_objv_find(x->v, NULL) >= 0 || gutil_objv_find_last(x->v, NULL) >= 0 || gutil_objv_contains(x->v, NULL)) sim::fail("C21", "find", "NULL found");
    if (gutil_objv_first(x->v) != (n ? x->m[0]->obj : NULL) || gutil_objv_last(x->v) != (n ? x->m[n - 1]->obj : NULL))
        sim::fail("C21", "first-last", "first or last entry of vector %d is wrong", x->id);
    for (size_t i = 0; i < n + 3; i++) if (gutil_objv_at(x->v, i) != (i < n ? x->m[i]->obj : NULL)) sim::fail("C21", "at", "wrong object at %d", (int)i);
    if (gutil_ptrv_length(x->v) != n || !gutil_ptrv_is_empty(x->v) != !!n) sim::fail("C21", "length", "length of vector %d is wrong", x->id);
    if (y) {
        bool eq = x->m == y->m;
        if (!gutil_objv_equal(x->v, y->v) == eq || !gutil_objv_equal(y->v, x->v) == eq) sim::fail("C21", "equal", "vectors %d and %d", x->id, y->id);
        if (eq && n) sim::probe("objv.equal");
    }
    if (!gutil_objv_equal(x->v, x->v) || !gutil_objv_equal(x->v, NULL) != !!n) sim::fail("C21", "equal", "vector %d and itself or NULL", x->id);
    verify(x);
    end();
    if (y) y->busy = false;
    x->busy = false;
    if (t) unhold(t);
}

static void nothing(int who)
{
    Vec* x = pick_vec(who);
    if (!x) return;
    x->busy = true;
    begin();
    GObject** v = x->v;
    GObject* none[1] = { NULL };
    if (gutil_objv_add(v, NULL) != v || gutil_objv_insert(v, NULL, 0) != v || gutil_objv_append(v, NULL) != v || gutil_objv_append(v, none) != v ||
        gutil_objv_remove(v, NULL, TRUE) != v || gutil_objv_copy(NULL) || gutil_objv_remove(NULL, NULL, TRUE) || gutil_objv_remove_at(NULL, 0) ||
        gutil_objv_at(NULL, 0) || gutil_objv_first(NULL) || gutil_objv_last(NULL) || !gutil_objv_equal(NULL, none))
        sim::fail("C21", "nothing", "nothing was taken for something");
    gutil_objv_free(NULL);
    verify(x);
    end();
    x->busy = false;
}

static void outside(int who)
{
    Item* t;
    switch (sim::choose(4)) {
    case 0:
        if ((t = pick_item(who))) {
            sim::log("t%d ref #%d", who, t->id);
            t->refs++;
            t->mine[who]++;
            begin();
            if (sim::choose(2)) gutil_object_ref(t->obj); else g_object_ref(t->obj);
            end();
        }
        break;
    default: {
        Item* c[MAX_OBJS];
        int n = 0;
        for (int i = 0; i < nitem; i++) if (item[i].mine[who] > 0) c[n++] = item + i;
        if (!n) break;
        t = c[sim::choose((uint32_t)n)];
        if (sim::choose(4) == 1 && nthr > 1) {
            const int to = (int)sim::choose((uint32_t)nthr);
            sim::log("t%d gives #%d to t%d", who, t->id, to);
            t->mine[who]--;
            t->mine[to]++;
        } else {
            sim::log("t%d unref #%d (%d)", who, t->id, t->refs - 1);
            t->mine[who]--;
            inflight++;
            t->refs--;
            if (sim::choose(2)) gutil_object_unref(t->obj); else g_object_unref(t->obj);
            end();
        }
        break;
    }
    }
}

static void give(int who)
{
    Vec* x = pick_vec(who);
    if (!x || nthr < 2) return;
    x->owner = (int)sim::choose((uint32_t)nthr);
    sim::log("t%d gives vector %d to t%d", who, x->id, x->owner);
}

static void action(int who)
{
    static const int w[6] = { 10, 4, 5, 3, 1, 1 };
    switch (sim::pickw(w, 6)) {
    case 0: change(who); break;
    case 1: create(who); break;
    case 2: outside(who); break;
    case 3: query(who); break;
    case 4: nothing(who); break;
    case 5: give(who); break;
    }
}

static void cleanup(int who)
{
    for (int i = 0; i < MAX_VEC; i++) if (vec[i].owner == who && !vec[i].busy) release(vec + i);
    for (int i = 0; i < nitem; i++) while (item[i].mine[who] > 0) {
        item[i].mine[who]--;
        inflight++;
        item[i].refs--;
        g_object_unref(item[i].obj);
        end();
    }
}

static void body(gpointer arg)
{
    const int who = GPOINTER_TO_INT(arg);
    while (sim::more(16)) {
        action(who);
        sched::yield();
    }
    sim::span();
    cleanup(who);
}

static void run()
{
    static const char* const names[] = { "t0", "t1", "t2", "t3" };
    for (int i = 0; i < MAX_VEC; i++) { vec[i].id = i; vec[i].owner = -1; }
    nthr = 1 + (int)sim::choose(4);
    /* Something to share */
    for (int k = 0; k < 2; k++) {
        Item* t = new_item(nthr);
        for (int i = 0; i < nthr; i++) { g_object_ref(t->obj); t->refs++; t->mine[i]++; }
    }
    if (sim::faults_enabled()) sched::set_preemption(2 + 4 * (int)sim::choose(4), 20 << sim::choose(4));
    for (int t = 0; t < nthr; t++) sched::spawn(body, GINT_TO_POINTER(t), names[t]);
    sched::run();
    sim::span();
    closing = true;
    for (int t = 0; t <= nthr; t++) cleanup(t);
    settled();
    for (int i = 0; i < MAX_VEC; i++) std::vector<Item*>().swap(vec[i].m);
    uint64_t h = (uint64_t)nthr;
    for (int i = 0; i < nitem; i++) { h = sim::mix(h, item[i].dead); if (!item[i].dead) sim::fail("C21,C22", "leaked", "object %d is still alive", i); }
    sim::state(sim::mix(h, (uint64_t)nitem));
    if (nitem > 3) sim::nontrivial();
    sim::ledger_check("C21,C22");
}

} // namespace

SCENARIO(objv, "objv", "C21", run, "gutil_objv.c, gutil_misc.c (ptrv, memdup and object helpers)",
    "thread scheduling (all switches decided by the seed)")
