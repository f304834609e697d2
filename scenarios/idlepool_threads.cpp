/* S3: threads with idle pools and main contexts of their own */
#include "sim.h"
#include <gutil_idlepool.h>
#include <gutil_log.h>
#include <glib-object.h>
#include <string.h>
#include <deque>
#include <vector>

namespace {

enum { MAX_THR = 4, MAX_POOLS = 24, MAX_ITEMS = 200, MAX_BY = 24 };
enum Role { OWN_CTX, MAIN_CTX, NO_CTX };

struct Pool {
    int id, owner;
    GUtilIdlePool* p;
    bool is_default;
    int refs;                  /* held by the owner explicitly */
    int busy;                  /* the owner is inside of a call which may release */
    std::deque<int> items;
};
struct Item { int id, pool; bool released; };
struct Bystander { int thread; guint n; GSource* src; int ctx; bool alive; };

static Pool pool[MAX_POOLS];
static Item item[MAX_ITEMS];
static Bystander by[MAX_BY];
static int npools, nitems, nby, nthr;
static Role role[MAX_THR + 1];
static GMainContext* ctx[MAX_THR + 1];
static bool alive[MAX_THR + 1], leaving[MAX_THR + 1];
static GUtilIdlePool* defpool[MAX_THR + 1];
static int iterating[MAX_THR + 1];
static int depth[MAX_THR + 1];
static int reent;
static __thread int self_id = -1;   /* valid until the very end of the thread */

static int me() { return self_id >= 0 ? self_id : nthr; }
static void add(Pool* p, int who);

static void release(gpointer data)
{
    Item* it = (Item*)data;
    Pool* p = pool + it->pool;
    const int who = me();
    sim::log("  t%d releases %d of pool %d", who, it->id, p->id);
    sim::checked();
    if (it->released) sim::fail("C04,C05", "released-twice", "%d released twice", it->id);
    it->released = true;
    if (p->items.empty() || p->items.front() != it->id)
        sim::fail("C04", "order", "%d of pool %d is not the oldest one", it->id, p->id);
    p->items.pop_front();
    if (who != p->owner) {
        /* Only if the owner can't do it any more */
        if (!leaving[p->owner]) sim::fail("C05", "wrong-thread", "%d of thread %d released by thread %d", it->id, p->owner, who);
        sim::probe("idlepool_threads.released_by_survivor");
    } else if (!p->busy && !iterating[who] && !leaving[who]) {
        sim::fail("C04", "released-early", "%d of pool %d released for no reason", it->id, p->id);
    }
    sched::yield();
    if (sim::faults_enabled() && who == p->owner && depth[who] < 3 && sim::flip(reent)) {
        depth[who]++;
        if (!leaving[who]) {
            sim::fault("add_from_release_function");
            add(p, who);
        } else if (nitems < MAX_ITEMS && npools < MAX_POOLS) {
            /* Into the default pool of a thread which is about to exit: that may be a new one */
            sim::fault("add_while_thread_exits");
            Pool* q = pool + npools;
            q->id = npools++;
            q->owner = who;
            q->is_default = true;
            Item* i2 = item + nitems;
            i2->id = nitems++;
            i2->pool = q->id;
            q->items.push_back(i2->id);
            sim::log("  t%d adds %d while leaving", who, i2->id);
            gutil_idle_pool_add(NULL, i2, release);
        }
        depth[who]--;
    }
}

static void add(Pool* p, int who)
{
    if (nitems >= MAX_ITEMS) return;
    Item* it = item + nitems;
    it->id = nitems++;
    it->pool = p->id;
    p->items.push_back(it->id);
    const bool null = p->is_default && sim::choose(2);
    sim::log("t%d adds %d to pool %d%s", who, it->id, p->id, null ? " (NULL)" : "");
    if (gutil_idle_pool_add(null ? NULL : p->p, it, release) != it)
        sim::fail("C04", "add-result", "adding %d has returned something else", it->id);
}

static Pool* default_pool(int who)
{
    GUtilIdlePool* p = gutil_idle_pool_get_default();
    sim::checked();
    if (!p) sim::fail("C05", "no-default", "thread %d has no default pool", who);
    if (defpool[who]) {
        if (defpool[who] != p) sim::fail("C05", "default-changed", "default pool of thread %d has changed", who);
        for (int i = 0; i < npools; i++) if (pool[i].p == p && pool[i].owner == who && pool[i].is_default) return pool + i;
    }
    for (int i = 0; i <= nthr; i++) if (i != who && alive[i] && defpool[i] == p)
        sim::fail("C05", "default-shared", "threads %d and %d have the same default pool", who, i);
    if (npools >= MAX_POOLS) return NULL;
    defpool[who] = p;
    Pool* x = pool + npools;
    x->id = npools++;
    x->owner = who;
    x->p = p;
    x->is_default = true;
    sim::log("t%d has default pool %d", who, x->id);
    return x;
}

static gboolean bystander(gpointer data)
{
    Bystander* b = (Bystander*)data;
    b->n++;
    return G_SOURCE_CONTINUE;
}
static void bystander_gone(gpointer data) { ((Bystander*)data)->alive = false; }

static void add_bystander(int who)
{
    if (nby >= MAX_BY) return;
    Bystander* b = by + nby++;
    b->thread = who;
    b->alive = true;
    b->ctx = role[who] == OWN_CTX ? who : -1;
    b->src = g_idle_source_new();
    g_source_set_callback(b->src, bystander, b, bystander_gone);
    g_source_attach(b->src, b->ctx < 0 ? NULL : ctx[who]);
    sim::log("t%d attaches somebody else's source %d", who, nby - 1);
}

static void check_bystanders(int c)
{
    for (int i = 0; i < nby; i++) if (by[i].ctx == c) {
        sim::checked();
        if (!by[i].alive || g_source_is_destroyed(by[i].src))
            sim::fail("C05", "bystander", "somebody else's event source %d has been removed", i);
    }
}

static void iterate(int who)
{
    GMainContext* c = role[who] == OWN_CTX ? ctx[who] : NULL;
    guint before[MAX_BY], n = (guint)nby;
    const int ci = c ? who : -1;
    bool any = false;
    for (guint i = 0; i < n; i++) before[i] = by[i].n;
    sim::log("t%d iterates", who);
    iterating[who]++;
    for (int i = 0; i < 2; i++) any |= world::iterate(c);
    iterating[who]--;
    for (guint i = 0; i < n; i++) if (by[i].ctx == ci) {
        sim::checked();
        if (by[i].n < before[i] + 2) sim::fail("C05", "bystander-delayed", "somebody else's event source %u has not been dispatched", i);
        if (by[i].n > before[i] + 2 && by[i].ctx == who) sim::fail("C05", "bystander-twice", "somebody else's event source %u has been dispatched too often", i);
    }
    check_bystanders(ci);
    for (int i = 0; i < npools; i++) if (pool[i].owner == who && !pool[i].items.empty() && !depth[who])
        sim::fail("C04,C05", "not-released", "%d of pool %d not released at idle", pool[i].items.front(), i);
    (void)any;
}

/* If there's nothing to do then the main loop can sleep */
static void asleep(int who)
{
    for (int i = 0; i < nby; i++) if (by[i].ctx == who) return;
    for (int i = 0; i < npools; i++) if (pool[i].owner == who && !pool[i].items.empty()) return;
    const char* why = world::awake(who < 0 ? NULL : ctx[who]);
    sim::checked();
    sim::probe("idlepool_threads.asleep");
    if (why) sim::fail("C30", "awake", "main loop %d can't sleep though no pool has anything to release: %s", who, why);
}

static Pool* pick(int who, bool held)
{
    int c[MAX_POOLS], k = 0;
    for (int i = 0; i < npools; i++) if (pool[i].owner == who && pool[i].p && (pool[i].is_default || pool[i].refs)) c[k++] = i;
    (void)held;
    return k ? pool + c[sim::choose((uint32_t)k)] : NULL;
}

static void body(gpointer arg)
{
    const int who = GPOINTER_TO_INT(arg);
    Pool* p;
    self_id = who;
    alive[who] = true;
    if (role[who] == OWN_CTX) {
        ctx[who] = g_main_context_new();
        g_main_context_push_thread_default(ctx[who]);
    }
    if (role[who] != NO_CTX && sim::choose(2)) add_bystander(who);
    while (sim::more(14)) {
        static const int w[8] = { 12, 8, 6, 3, 3, 2, 2, 2 };
        switch (sim::pickw(w, 8)) {
        case 0: if ((p = pick(who, true))) add(p, who); else default_pool(who); break;
        case 1: if ((p = default_pool(who))) add(p, who); break;
        case 2: if (role[who] != NO_CTX) iterate(who); break;
        case 3:
            if (role[who] == NO_CTX || npools >= MAX_POOLS) break;
            p = pool + npools;
            p->id = npools++;
            p->owner = who;
            p->p = gutil_idle_pool_new();
            if (!p->p) sim::fail("C04,C05", "not-created", "no pool");
            p->refs = 1;
            sim::log("t%d creates pool %d", who, p->id);
            break;
        case 4:
            if (!(p = pick(who, true))) break;
            sim::log("t%d drains pool %d {", who, p->id);
            p->busy++;
            gutil_idle_pool_drain(p->is_default && sim::choose(2) ? NULL : p->p);
            p->busy--;
            sim::log("}");
            sim::checked();
            if (!p->items.empty()) sim::fail("C04", "not-drained", "pool %d is not empty after drain", p->id);
            break;
        case 5:
            if (!(p = pick(who, true)) || p->is_default) break;
            if (sim::choose(2)) {
                sim::log("t%d destroys pool %d {", who, p->id);
                p->refs--;
                p->busy++;
                gutil_idle_pool_destroy(p->p);
                p->busy--;
                sim::log("}");
                if (!p->items.empty()) sim::fail("C04", "not-drained", "pool %d is not empty after being destroyed", p->id);
            } else {
                sim::log("t%d unrefs pool %d", who, p->id);
                p->refs--;
                gutil_idle_pool_unref(p->p);
            }
            break;
        case 6: if (role[who] != NO_CTX) add_bystander(who); break;
        case 7: default_pool(who); break;
        }
        sched::yield();
    }
    sim::span();
    if (role[who] != NO_CTX && sim::choose(2)) iterate(who);
    if (role[who] == OWN_CTX) {
        check_bystanders(who);
        asleep(who);
    }
    sim::log("t%d leaves", who);
    leaving[who] = true;
    for (int i = 0; i < npools; i++) if (pool[i].owner == who && !pool[i].is_default) {
        while (pool[i].refs) { pool[i].refs--; gutil_idle_pool_unref(pool[i].p); }
    }
    if (role[who] == OWN_CTX) {
        for (int i = 0; i < nby; i++) if (by[i].ctx == who) { g_source_destroy(by[i].src); g_source_unref(by[i].src); by[i].ctx = -2; }
        g_main_context_pop_thread_default(ctx[who]);
        g_main_context_unref(ctx[who]);
        ctx[who] = NULL;
    }
    alive[who] = false;
}

static void warmup()
{
    GMainContext* c = g_main_context_new();
    g_main_context_push_thread_default(c);
    g_main_context_pop_thread_default(c);
    g_main_context_unref(c);
}
static sim::WReg wreg(warmup);

static void run()
{
    static const char* const names[] = { "t0", "t1", "t2", "t3" };
    gutil_log_default.level = GLOG_LEVEL_NONE;
    nthr = 2 + (int)sim::choose(3);
    reent = sim::faults_enabled() ? 50 * (int)sim::choose(5) : 0;
    const bool main_loop = sim::choose(2) != 0;
    role[nthr] = MAIN_CTX;
    for (int t = 0; t < nthr; t++) role[t] = !t && main_loop ? MAIN_CTX : sim::choose(3) ? OWN_CTX : NO_CTX;
    if (sim::faults_enabled()) sched::set_preemption(2 + 4 * (int)sim::choose(4), 20 << sim::choose(5));
    for (int t = 0; t < nthr; t++) sched::spawn(body, GINT_TO_POINTER(t), names[t]);
    sched::run();
    sim::span();
    /* Whatever has been left behind is released by the main loop */
    check_bystanders(-1);
    for (int i = 0; i < nby; i++) if (by[i].ctx == -1) { g_source_destroy(by[i].src); g_source_unref(by[i].src); by[i].ctx = -2; }
    for (int i = 0; i < 100 && world::iterate(); i++) {}
    asleep(-1);
    for (int i = 0; i < nitems; i++) {
        sim::checked();
        if (!item[i].released) sim::fail("C04,C05,C22", "never-released", "%d of pool %d has never been released", i, item[i].pool);
    }
    uint64_t h = nthr * 2 + main_loop;
    for (int i = 0; i < nthr; i++) h = sim::mix(h, role[i]);
    sim::state(sim::mix(sim::mix(h, npools), nitems));
    if (nitems > 2) sim::nontrivial();
    for (int i = 0; i < npools; i++) std::deque<int>().swap(pool[i].items);
    sim::ledger_check("C04,C05,C22");
}

} // namespace

SCENARIO(idlepool_threads, "idlepool_threads", "C04,C05,C30", run, "gutil_idlepool.c",
    "thread scheduling (all switches decided by the seed), clock, poll")
