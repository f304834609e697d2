/* S9: weak references shared by several threads which also own the objects */
#include "sim.h"
#include <gutil_weakref.h>
#include <glib-object.h>
#include <sanitizer/asan_interface.h>
#include <string.h>
#include <vector>

namespace {

enum { MAX_THR = 4, MAX_OBJS = 24, MAX_REFS = 6 };

struct Target {
    int id;
    GObject* obj;
    int strong;                    /* references which belong to somebody */
    int mine[MAX_THR + 1];
    uint64_t zero_until;           /* there was no strong reference until this moment */
    bool dying, dead;
};

struct SetOp { int target; /* -1 for nothing */ uint64_t b, e; };

struct Weak {
    GUtilWeakRef* w;
    int held;
    int mine[MAX_THR + 1];
    std::vector<SetOp> sets;
};

struct TestObj { GObject parent; Target* t; };
struct TestObjClass { GObjectClass parent; };
static GType type;
static GObjectClass* parent_class;

static Target target[MAX_OBJS];
static int ntargets;
static Weak weak[MAX_REFS];
static int nweak, nthr;
static uint64_t now;
static int inflight;               /* calls in progress */
static int depth;
static bool quiet, closing[MAX_THR + 1];

static int me() { return sched::self() >= 0 ? sched::self() : nthr; }
static Target* by_obj(gpointer p)
{
    for (int i = 0; i < ntargets; i++) if (target[i].obj == p && !target[i].dead) return target + i;
    return NULL;
}

static void action(int who);
static gpointer get(int wi, int who);

static void on_dispose(GObject* o)
{
    Target* t = ((TestObj*)o)->t;
    sim::log("  #%d is disposed of", t->id);
    sim::checked();
    if (t->strong) sim::fail("C14,C13", "object-affected", "#%d is being destroyed while there are %d references to it", t->id, t->strong);
    t->dying = true;
    sched::yield();
    if (sim::faults_enabled() && !quiet && !closing[me()] && depth < 2) {
        depth++;
        /* What do the others see while it's dying? */
        for (int i = 0; i < nweak; i++) if (weak[i].mine[me()] && sim::choose(2)) {
            sim::fault("weak_get_from_dispose");
            gpointer p = get(i, me());
            Target* x = by_obj(p);
            if (x) { x->strong--; x->mine[me()]--; now++; inflight++; g_object_unref(p); inflight--; }
        }
        if (!sim::choose(4)) { sim::fault("action_from_dispose"); action(me()); }
        depth--;
    }
    parent_class->dispose(o);
}

static void on_finalize(GObject* o)
{
    Target* t = ((TestObj*)o)->t;
    sim::log("  #%d is finalized", t->id);
    if (t->dead) sim::fail("C14", "finalized-twice", "#%d finalized twice", t->id);
    t->dead = true;
    sched::yield();
    parent_class->finalize(o);
}

static void class_init(gpointer k, gpointer)
{
    parent_class = (GObjectClass*)g_type_class_peek_parent(k);
    ((GObjectClass*)k)->dispose = on_dispose;
    ((GObjectClass*)k)->finalize = on_finalize;
}

static void warmup()
{
    type = g_type_register_static_simple(G_TYPE_OBJECT, "SimWeakTarget", sizeof(TestObjClass), class_init,
        sizeof(TestObj), NULL, (GTypeFlags)0);
    g_type_class_ref(type);
    GObject* o = (GObject*)g_object_new(G_TYPE_OBJECT, NULL);
    GUtilWeakRef* w = gutil_weakref_new(o);
    g_object_unref(gutil_weakref_get(w));
    gutil_weakref_set(w, NULL);
    gutil_weakref_set(w, o);
    g_object_unref(o);
    gutil_weakref_unref(w);
}
static sim::WReg wreg(warmup);

static Target* new_target(int who)
{
    if (ntargets >= MAX_OBJS) return NULL;
    Target* t = target + ntargets;
    t->id = ntargets++;
    t->obj = (GObject*)g_object_new(type, NULL);
    ((TestObj*)t->obj)->t = t;
    t->strong = 1;
    t->mine[who] = 1;
    t->zero_until = ++now;
    sim::log("t%d creates #%d", who, t->id);
    return t;
}

static void gain(Target* t, int who)
{
    now++;
    if (!t->strong++) t->zero_until = now;
    t->mine[who]++;
}

/* When nobody is in the middle of a call, nothing else can be keeping it */
static void settled()
{
    if (inflight || depth) return;
    for (int i = 0; i < ntargets; i++) {
        Target* t = target + i;
        sim::checked();
        if (!t->strong && !t->dead) sim::fail("C14,C13,C22", "kept-alive", "#%d is still alive, nobody holds a reference to it", t->id);
        if (t->strong && t->dead) sim::fail("C14,C13", "object-affected", "#%d is dead, with %d references", t->id, t->strong);
        if (t->strong && (int)t->obj->ref_count != t->strong)
            sim::fail("C14,C13", "object-affected", "#%d has %d references rather than %d", t->id, (int)t->obj->ref_count, t->strong);
    }
}

static void drop(Target* t, int who)
{
    t->mine[who]--;
    t->strong--;
    now++;
    sim::log("t%d unref #%d (%d)", who, t->id, t->strong);
    inflight++;
    g_object_unref(t->obj);
    inflight--;
    settled();
}

static gpointer get(int wi, int who)
{
    Weak* w = weak + wi;
    const uint64_t b = ++now;
    sim::log("t%d get w%d {", who, wi);
    inflight++;
    gpointer p = gutil_weakref_get(w->w);
    inflight--;
    const uint64_t e = ++now;
    Target* t = p ? by_obj(p) : NULL;
    sim::checked();
    if (p) {
        if (!t) sim::fail("C14", "dead-object", "weak reference %d has given something which is not a live object", wi);
        sim::log("} = #%d", t->id);
        if (t->dying || t->dead) sim::fail("C14", "dead-object", "weak reference %d has given #%d which is dying", wi, t->id);
        bool possible = false;
        for (auto& s : w->sets) {
            if (s.target != t->id || s.b > e) continue;
            bool overwritten = false;
            for (auto& o : w->sets) if (o.b > s.e && o.e < b) overwritten = true;
            if (!overwritten) { possible = true; break; }
        }
        if (!possible) sim::fail("C14", "stale-target", "weak reference %d has given #%d, but it does not point to that", wi, t->id);
        gain(t, who);
        if (t->strong == 1) sim::probe("weakref.get_raced_with_last_unref");
    } else {
        sim::log("} = none");
        for (size_t i = 0; i < w->sets.size(); i++) {
            const SetOp& s = w->sets[i];
            if (s.target < 0 || s.e >= b) continue;
            bool certain = true;
            for (size_t j = 0; j < w->sets.size(); j++)
                if (j != i && w->sets[j].e > s.b && w->sets[j].b < e) certain = false;
            Target* x = target + s.target;
            if (certain && x->strong && x->zero_until < b)
                sim::fail("C14", "live-object-not-found", "weak reference %d has given nothing though #%d is alive", wi, s.target);
        }
        sim::probe("weakref.get_nothing");
    }
    return p;
}

static void forget(Weak* w)
{
    /* Sets which have definitely been overwritten */
    if (w->sets.size() < 40 || inflight || depth) return;
    SetOp last = w->sets[0];
    for (auto& s : w->sets) if (s.b > last.b) last = s;
    std::vector<SetOp> keep;
    for (auto& s : w->sets) if (s.e >= last.b) keep.push_back(s);
    w->sets = keep;
}

static void action(int who)
{
    int wi = (int)sim::choose((uint32_t)nweak);
    Weak* w = weak + wi;
    static const int wt[9] = { 12, 8, 6, 8, 5, 3, 3, 3, 2 };
    switch (sim::pickw(wt, 9)) {
    case 0:
        if (w->mine[who]) { get(wi, who); settled(); }
        break;
    case 1: {           /* repoint */
        if (!w->mine[who]) break;
        Target* t = NULL;
        if (sim::choose(6)) {
            std::vector<Target*> c;
            for (int i = 0; i < ntargets; i++) if (target[i].mine[who]) c.push_back(target + i);
            if (c.empty() || !sim::choose(5)) t = new_target(who);
            else t = c[sim::choose((uint32_t)c.size())];
        }
        size_t k = w->sets.size();
        w->sets.push_back({ t ? t->id : -1, ++now, UINT64_MAX });
        sim::log("t%d set w%d to #%d {", who, wi, t ? t->id : -1);
        /* Nobody else drops the reference which is in use */
        if (t) t->mine[who]--;
        inflight++;
        gutil_weakref_set(w->w, t ? t->obj : NULL);
        inflight--;
        if (t) t->mine[who]++;
        w->sets[k].e = ++now;
        sim::log("}");
        forget(w);
        settled();
        break;
    }
    case 2: new_target(who); break;
    case 3: case 4: {   /* drop or take a strong reference */
        std::vector<Target*> c;
        for (int i = 0; i < ntargets; i++) if (target[i].mine[who]) c.push_back(target + i);
        if (c.empty()) break;
        Target* t = c[sim::choose((uint32_t)c.size())];
        if (!sim::choose(3)) {
            sim::log("t%d ref #%d", who, t->id);
            inflight++;
            g_object_ref(t->obj);
            inflight--;
            gain(t, who);
        } else {
            drop(t, who);
        }
        break;
    }
    case 5:             /* one more holder */
        if (w->mine[who] && w->held < 9) {
            sim::log("t%d ref w%d (%d)", who, wi, w->held);
            w->held++;
            inflight++;
            if (gutil_weakref_ref(w->w) != w->w) sim::fail("C14", "ref-result", "bad ref");
            inflight--;
            w->mine[who]++;
            settled();
        }
        break;
    case 6:
        if (w->mine[who] > (depth ? 1 : 0)) {
            w->held--;
            w->mine[who]--;
            sim::log("t%d unref w%d (%d)", who, wi, w->held);
            if (!w->held) sim::probe("weakref.last_holder_gone");
            inflight++;
            gutil_weakref_unref(w->w);
            inflight--;
            settled();
        }
        break;
    case 7: {           /* hand an object over to another thread */
        std::vector<Target*> c;
        for (int i = 0; i < ntargets; i++) if (target[i].mine[who]) c.push_back(target + i);
        if (c.empty() || nthr < 2) break;
        Target* t = c[sim::choose((uint32_t)c.size())];
        int to = (int)sim::choose((uint32_t)nthr);
        t->mine[who]--;
        t->mine[nthr]++;     /* for the main thread to drop in the end */
        sim::log("t%d gives #%d away", who, t->id);
        (void)to;
        break;
    }
    case 8:
        if (gutil_weakref_get(NULL) || gutil_weakref_ref(NULL)) sim::fail("C14", "null", "NULL was taken for a weak reference");
        gutil_weakref_set(NULL, NULL);
        gutil_weakref_unref(NULL);
        break;
    }
}

static void body(gpointer arg)
{
    const int who = GPOINTER_TO_INT(arg);
    while (sim::more(14)) {
        action(who);
        sched::yield();
    }
    sim::span();
    closing[who] = true;
    for (int i = 0; i < ntargets; i++) while (target[i].mine[who]) drop(target + i, who);
    for (int i = 0; i < nweak; i++) {
        Weak* w = weak + i;
        while (w->mine[who]) {
            w->mine[who]--;
            w->held--;
            sim::log("t%d unref w%d (%d)", who, i, w->held);
            if (!w->held) sim::probe("weakref.last_holder_gone");
            inflight++;
            gutil_weakref_unref(w->w);
            inflight--;
            settled();
        }
    }
}

static void run()
{
    static const char* const names[] = { "t0", "t1", "t2", "t3" };
    nthr = 1 + (int)sim::choose(4);
    nweak = 1 + (int)sim::choose(3);
    for (int i = 0; i < nweak; i++) {
        Weak* w = weak + i;
        Target* t = sim::choose(4) ? new_target(nthr) : NULL;
        w->w = gutil_weakref_new(t ? t->obj : NULL);
        if (!w->w) sim::fail("C14", "not-created", "no weak reference");
        w->sets.push_back({ t ? t->id : -1, now, now });
        now++;
        for (int k = 0; k < nthr; k++) { w->held++; w->mine[k]++; gutil_weakref_ref(w->w); }
        if (sim::choose(2)) { gutil_weakref_unref(w->w); }
        else { w->held++; w->mine[nthr]++; }
        if (t) {
            for (int k = 0; k < nthr; k++) if (sim::choose(2)) { g_object_ref(t->obj); gain(t, k); }
            if (sim::choose(2)) drop(t, nthr);
        }
    }
    if (sim::faults_enabled()) sched::set_preemption(2 + 4 * (int)sim::choose(4), 15 << sim::choose(4));
    for (int t = 0; t < nthr; t++) sched::spawn(body, GINT_TO_POINTER(t), names[t]);
    sched::run();
    sim::span();
    /* What's left is checked by one thread, and therefore exactly */
    quiet = true;
    for (int i = 0; i < nweak; i++) {
        Weak* w = weak + i;
        if (!w->mine[nthr]) continue;
        gpointer p = get(i, nthr);
        Target* t = by_obj(p);
        if (t) drop(t, nthr);
        else if (sim::choose(2)) {
            t = new_target(nthr);
            if (t) {
                size_t k = w->sets.size();
                w->sets.push_back({ t->id, ++now, 0 });
                gutil_weakref_set(w->w, t->obj);
                w->sets[k].e = ++now;
                if (get(i, nthr) == t->obj) drop(t, nthr);
            }
        }
    }
    bool refs_first = sim::choose(2) != 0;
    for (int k = 0; k < 2; k++) {
        if ((k == 0) == refs_first) {
            for (int i = 0; i < nweak; i++) while (weak[i].mine[nthr]) {
                weak[i].mine[nthr]--;
                weak[i].held--;
                sim::log("unref w%d (%d)", i, weak[i].held);
                gutil_weakref_unref(weak[i].w);
                settled();
            }
        } else {
            for (int i = 0; i < ntargets; i++) while (target[i].mine[nthr]) drop(target + i, nthr);
        }
    }
    settled();
    uint64_t h = nthr;
    for (int i = 0; i < nweak; i++) h = sim::mix(h, weak[i].sets.size());
    sim::state(sim::mix(h, ntargets));
    if (ntargets > 3) sim::nontrivial();
    for (int i = 0; i < nweak; i++) weak[i].sets = std::vector<SetOp>();
    sim::ledger_check("C14,C13,C22");
}

} // namespace

SCENARIO(weakref, "weakref", "C13,C14", run, "gutil_weakref.c",
    "thread scheduling (all switches decided by the seed)")
