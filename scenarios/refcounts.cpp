/* S8: several threads taking and dropping references to the same objects */
#include "sim.h"
#include <gutil_idlepool.h>
#include <gutil_idlequeue.h>
#include <gutil_history.h>
#include <gutil_intarray.h>
#include <gutil_ints.h>
#include <gutil_ring.h>
#include <gutil_weakref.h>
#include <glib-object.h>
#include <sanitizer/asan_interface.h>
#include <string.h>

namespace {

enum Kind { POOL, QUEUE, HISTORY, INTARRAY, INTS, RING, WEAKREF, SLICE, KINDS };
static const char* const kind_name[] = { "pool", "queue", "history", "intarray", "ints", "ring", "weakref", "slice" };
enum { MAX_OBJ = 4, MAX_THR = 4, MAX_PAYLOAD = 4 };

struct Payload { int obj; bool released; bool ran; };

struct Obj {
    Kind kind;
    gpointer p;
    int held;                  /* references which belong to somebody */
    int mine[MAX_THR + 1];     /* per thread, the last one is the main thread */
    int mailbox;               /* on the way from one thread to another */
    int npayload;
    Payload payload[MAX_PAYLOAD];
    bool in_pool;              /* the pool holds something, hence its source holds a reference */
};

static Obj obj[MAX_OBJ];
static int nobj, nthr;
static bool loop_thread;
static int iterating = -1;
static int slice_parent_freed;
static int vals[8] = { 1, 2, 3, 4, 5, 6, 7, 8 };
static GObject* target;

static void released(gpointer data)
{
    Payload* p = (Payload*)data;
    Obj* o = obj + p->obj;
    sim::log("%s %d releases payload %d", kind_name[o->kind], p->obj, (int)(p - o->payload));
    sim::checked();
    if (p->released) sim::fail("C13", "released-twice", "%s %d has released its contents twice", kind_name[o->kind], p->obj);
    p->released = true;
    if (o->kind == QUEUE && p->ran) return;
    if (o->kind == POOL) {
        if (iterating != nthr && (!loop_thread || o->held)) sim::fail("C13,C04", "released-early", "contents of pool %d released before idle", p->obj);
        return;
    }
    if (o->held) sim::fail("C13", "released-early", "%s %d released while there are %d references to it",
        kind_name[o->kind], p->obj, o->held);
}

static void ran(gpointer data)
{
    Payload* p = (Payload*)data;
    sim::log("queue %d runs payload %d", p->obj, (int)(p - obj[p->obj].payload));
    if (p->released || p->ran) sim::fail("C13,C01,C03", "ran-late", "a callback has been called after it was released");
    p->ran = true;
    sched::yield();
}

static gpointer do_ref(Obj* o)
{
    switch (o->kind) {
    case POOL: return gutil_idle_pool_ref((GUtilIdlePool*)o->p);
    case QUEUE: return gutil_idle_queue_ref((GUtilIdleQueue*)o->p);
    case HISTORY: return gutil_int_history_ref((GUtilIntHistory*)o->p);
    case INTARRAY: return gutil_int_array_ref((GUtilIntArray*)o->p);
    case INTS: case SLICE: return gutil_ints_ref((GUtilInts*)o->p);
    case RING: return gutil_ring_ref((GUtilRing*)o->p);
    case WEAKREF: return gutil_weakref_ref((GUtilWeakRef*)o->p);
    default: return NULL;
    }
}

static void do_unref(Obj* o)
{
    switch (o->kind) {
    case POOL: gutil_idle_pool_unref((GUtilIdlePool*)o->p); break;
    case QUEUE: gutil_idle_queue_unref((GUtilIdleQueue*)o->p); break;
    case HISTORY: gutil_int_history_unref((GUtilIntHistory*)o->p); break;
    case INTARRAY: gutil_int_array_unref((GUtilIntArray*)o->p); break;
    case INTS: case SLICE: gutil_ints_unref((GUtilInts*)o->p); break;
    case RING: gutil_ring_unref((GUtilRing*)o->p); break;
    case WEAKREF: gutil_weakref_unref((GUtilWeakRef*)o->p); break;
    default: break;
    }
}

static void alive(Obj* o, const char* when)
{
    sim::checked();
    if (__asan_address_is_poisoned(o->p))
        sim::fail("C13", "dead-with-references", "%s %d is gone %s, %d reference(s) left", kind_name[o->kind],
            (int)(o - obj), when, o->held);
}

static void take(Obj* o, int who)
{
    sim::log("t%d ref %s %d (%d)", who, kind_name[o->kind], (int)(o - obj), o->held);
    o->held++;
    if (do_ref(o) != o->p) sim::fail("C13", "ref-result", "ref of %s has returned something else", kind_name[o->kind]);
    o->mine[who]++;
    alive(o, "after ref");
}

static void drop(Obj* o, int who)
{
    o->mine[who]--;
    o->held--;
    sim::log("t%d unref %s %d (%d)", who, kind_name[o->kind], (int)(o - obj), o->held);
    if (!o->held) sim::probe("refcounts.last_reference_dropped_by_thread");
    do_unref(o);
    if (o->mine[who]) alive(o, "after unref");
}

static void use(Obj* o, int who)
{
    alive(o, "during use");
    guint n = 0;
    /* Only what's allowed to be done in parallel */
    switch (o->kind) {
    case INTS: case SLICE: {
        const int* d = gutil_ints_get_data((GUtilInts*)o->p, &n);
        if (n != (o->kind == INTS ? 8u : 5u) || memcmp(d, vals + (o->kind == INTS ? 0 : 2), n * sizeof(int)))
            sim::fail("C13,C15", "contents", "contents of %s %d have changed", kind_name[o->kind], (int)(o - obj));
        break;
    }
    case RING:
        if (gutil_ring_size((GUtilRing*)o->p) != o->npayload)
            sim::fail("C13", "contents", "contents of ring %d have changed", (int)(o - obj));
        break;
    case INTARRAY: {
        GUtilIntArray* a = (GUtilIntArray*)o->p;
        if (a->count != 8 || memcmp(a->data, vals, sizeof(vals)))
            sim::fail("C13", "contents", "contents of int array %d have changed", (int)(o - obj));
        break;
    }
    case WEAKREF: {
        gpointer t = gutil_weakref_get((GUtilWeakRef*)o->p);
        if (t != target) sim::fail("C13,C14", "contents", "weak reference %d has changed", (int)(o - obj));
        g_object_unref(t);
        break;
    }
    default: break;
    }
    sim::checked();
    (void)who;
}

static void body(gpointer arg)
{
    const int me = GPOINTER_TO_INT(arg);
    const bool loop = loop_thread && me == 0;
    while (sim::more(8)) {
        Obj* o = obj + sim::choose((uint32_t)nobj);
        static const int w[6] = { 6, 8, 4, 3, 3, 4 };
        switch (sim::pickw(w, 6)) {
        case 0: if (o->mine[me] && o->held < 12) take(o, me); break;
        case 1:
            /* The thread which runs the main loop keeps its queues alive */
            if (o->mine[me] > ((loop && o->kind == QUEUE) ? 1 : 0)) drop(o, me);
            break;
        case 2: if (o->mine[me]) use(o, me); break;
        case 3:
            if (o->mine[me] > 1 || (o->mine[me] && !(loop && o->kind == QUEUE))) {
                sim::log("t%d passes on %s %d", me, kind_name[o->kind], (int)(o - obj));
                o->mine[me]--;
                o->mailbox++;
            }
            break;
        case 4: if (o->mailbox) { sim::log("t%d gets %s %d", me, kind_name[o->kind], (int)(o - obj)); o->mailbox--; o->mine[me]++; } break;
        case 5:
            if (loop) {
                sim::log("t%d iterates the main loop", me);
                iterating = me;
                world::iterate();
                iterating = -1;
            }
            break;
        }
        sched::yield();
    }
    for (int i = 0; i < nobj; i++) while (obj[i].mine[me]) drop(obj + i, me);
}

static void make(Obj* o)
{
    const int i = (int)(o - obj);
    o->npayload = 1 + (int)sim::choose(3);
    for (int k = 0; k < MAX_PAYLOAD; k++) o->payload[k].obj = i;
    switch (o->kind) {
    case POOL:
        o->p = sim::choose(2) ? gutil_idle_pool_get(NULL) : gutil_idle_pool_new();
        o->npayload = (int)sim::choose(3);
        for (int k = 0; k < o->npayload; k++) gutil_idle_pool_add((GUtilIdlePool*)o->p, o->payload + k, released);
        break;
    case QUEUE:
        o->p = gutil_idle_queue_new();
        for (int k = 0; k < o->npayload; k++) gutil_idle_queue_add_full((GUtilIdleQueue*)o->p, ran, o->payload + k, released);
        break;
    case HISTORY:
        o->npayload = 0;
        o->p = gutil_int_history_new(4, 1000000);
        gutil_int_history_add((GUtilIntHistory*)o->p, 1);
        break;
    case INTARRAY:
        o->npayload = 0;
        o->p = gutil_int_array_new_from_vals(vals, 8);
        break;
    case INTS:
        o->npayload = 1;
        o->p = gutil_ints_new_with_free_func(vals, 8, released, o->payload);
        break;
    case SLICE: {
        o->npayload = 1;
        GUtilInts* parent = gutil_ints_new_with_free_func(vals, 8, released, o->payload);
        o->p = gutil_ints_new_from_ints(parent, 2, 5);
        gutil_ints_unref(parent);
        break;
    }
    case RING:
        o->p = gutil_ring_new_full(2, -1, released);
        for (int k = 0; k < o->npayload; k++) gutil_ring_put((GUtilRing*)o->p, o->payload + k);
        break;
    case WEAKREF:
        o->npayload = 0;
        o->p = gutil_weakref_new(target);
        break;
    default: break;
    }
    if (!o->p) sim::fail("C13", "not-created", "object %d (%s) was not created", i, kind_name[o->kind]);
    o->held = 1;
    o->mine[nthr] = 1;
}

static void warmup()
{
    gutil_weakref_unref(gutil_weakref_new(NULL));
}
static sim::WReg wreg(warmup);

static void run()
{
    static const char* const names[] = { "t0", "t1", "t2", "t3" };
    nthr = 2 + (int)sim::choose(3);
    nobj = 1 + (int)sim::choose(3);
    loop_thread = sim::choose(2) != 0;
    target = (GObject*)g_object_new(G_TYPE_OBJECT, NULL);
    for (int i = 0; i < nobj; i++) {
        Obj* o = obj + i;
        o->kind = (Kind)sim::choose(KINDS);
        make(o);
        for (int t = 0; t < nthr; t++) {
            int n = 1 + (int)sim::choose(2);
            while (n--) take(o, t);
        }
        /* Does the main thread let it go before or after the others? */
        if (!sim::choose(3)) drop(o, nthr);
    }
    if (sim::faults_enabled()) sched::set_preemption(2 + 4 * (int)sim::choose(4), 20 << sim::choose(4));
    for (int t = 0; t < nthr; t++) sched::spawn(body, GINT_TO_POINTER(t), names[t]);
    sched::run();
    sim::span();
    for (int i = 0; i < nobj; i++) {
        Obj* o = obj + i;
        o->mine[nthr] += o->mailbox;
        o->mailbox = 0;
        while (o->mine[nthr]) { use(o, nthr); drop(o, nthr); }
    }
    iterating = nthr;
    while (world::iterate()) {}
    iterating = -1;
    for (int i = 0; i < nobj; i++) {
        Obj* o = obj + i;
        sim::checked();
        for (int k = 0; k < o->npayload; k++) if (!o->payload[k].released)
            sim::fail("C13,C22", "never-released", "%s %d has never been released", kind_name[o->kind], i);
        if (!__asan_address_is_poisoned(o->p))
            sim::fail("C13,C22", "never-released", "%s %d is still there after its last reference is gone", kind_name[o->kind], i);
    }
    uint64_t h = nthr;
    for (int i = 0; i < nobj; i++) h = sim::mix(h, obj[i].kind);
    sim::state(h);
    if (target->ref_count != 1) sim::fail("C13,C14", "target", "the target of weak references has %d references", (int)target->ref_count);
    g_object_unref(target);
    sim::ledger_check("C13,C22");
}

} // namespace

SCENARIO(refcounts, "refcounts", "C13", run,
    "gutil_idlepool.c, gutil_idlequeue.c, gutil_history.c, gutil_intarray.c, gutil_ints.c, gutil_ring.c, gutil_weakref.c",
    "thread scheduling (all switches decided by the seed), clock, poll")
