/* S1: idle queues under a simulated main loop, with re-entrant callbacks */
#include "sim.h"
#include <gutil_idlequeue.h>
#include <vector>
#include <stdio.h>

namespace {

enum ItemState { PENDING, RUNNING, RAN, CANCELLING, CANCELLED };
static const char* const state_name[] = { "pending", "running", "ran", "being cancelled", "cancelled" };

struct Queue;
struct Item {
    int id;
    Queue* q;                /* NULL if submitted to NULL */
    guintptr tag;
    ItemState state;
    bool has_run, has_destroy;
    int runs, destroys;
    bool added_in_dispatch;
    uint64_t added_seq;
    bool late_free;          /* added in the middle of the final gutil_idle_queue_free */
};

struct Queue {
    int id;
    GUtilIdleQueue* obj;
    int refs;                /* held by the harness */
    int pins;                /* API calls on the stack which need the queue */
    bool freeing;            /* the last gutil_idle_queue_free is on the stack */
    bool dead;               /* no references left */
    bool died_in_dispatch;
    uint64_t died_iter;
    int dispatch_depth;      /* callbacks of this queue invoked by the main loop */
    std::vector<Item*> pending;
};

enum FrameKind { F_API, F_ITER, F_CB };
struct Frame { FrameKind kind; Queue* q; uint64_t seq; bool cancels; Item* item; };

static std::vector<Frame> stack_;
static std::vector<Item*> items;
static std::vector<Queue*> queues;
static uint64_t seq;
static int max_depth;
static int reent;            /* permille, how often callbacks do something */
static int w_action[12];
static int iterations;
static bool quiet;           /* callbacks do nothing any more */
static bool final_phase;

static void action(bool top);

static Frame* top_frame() { return stack_.empty() ? NULL : &stack_.back(); }
static uint64_t innermost_iter()
{
    for (size_t i = stack_.size(); i-- > 0; ) if (stack_[i].kind == F_ITER) return stack_[i].seq;
    return 0;
}
static int cb_depth()
{
    int n = 0;
    for (auto& f : stack_) if (f.kind == F_CB) n++;
    return n;
}
static bool in_iter()
{
    for (auto& f : stack_) if (f.kind == F_ITER) return true;
    return false;
}

/* Is the main loop invoking callbacks of this queue right now? Somebody else's
 * event source, invoked by a nested main loop, does not count as such. */
static bool in_dispatch_of(Queue* q)
{
    for (size_t i = stack_.size(); i-- > 0 && stack_[i].kind != F_ITER; ) {
        if (stack_[i].kind == F_CB && stack_[i].q == q && q->dispatch_depth > 0) return true;
    }
    return false;
}

struct Scope {
    Scope(FrameKind k, Queue* q = NULL, bool cancels = false, Item* item = NULL)
    {
        Frame f = { k, q, ++seq, cancels, item };
        stack_.push_back(f);
        if (k == F_API && q) q->pins++;
    }
    ~Scope()
    {
        Frame f = stack_.back();
        stack_.pop_back();
        if (f.kind == F_API && f.q) f.q->pins--;
    }
};

static void remove_pending(Item* it)
{
    Queue* q = it->q;
    for (size_t i = 0; i < q->pending.size(); i++) {
        if (q->pending[i] == it) { q->pending.erase(q->pending.begin() + i); return; }
    }
}

static bool has_pending(Queue* q, guintptr tag)
{
    for (Item* it : q->pending) if (it->tag == tag) return true;
    return false;
}
static bool has_cancelling(Queue* q, guintptr tag)
{
    for (Item* it : items) if (it->q == q && it->tag == tag && it->state == CANCELLING) return true;
    return false;
}

static void note_state(Queue* q)
{
    uint64_t h = 7;
    for (Item* it : q->pending) h = sim::mix(h, it->tag * 4 + it->has_run * 2 + it->has_destroy);
    h = sim::mix(h, q->refs * 64 + q->dispatch_depth * 8 + cb_depth());
    h = sim::mix(h, stack_.size());
    sim::state(h);
}

static void maybe_act(Item* it)
{
    if (quiet || !sim::faults_enabled()) return;
    if (cb_depth() > max_depth) return;
    while (sim::flip(reent)) {
        sim::nontrivial();
        sim::count("reentrant_actions");
        action(false);
    }
}

static void on_run(gpointer data)
{
    Item* it = (Item*)data;
    Queue* q = it->q;
    Frame* f = top_frame();

    sim::log("q%d: run #%d", q ? q->id : -1, it->id);
    sim::checked();
    if (!f || f->kind != F_ITER) {
        sim::fail("C01", "ran-outside-main-loop", "callback #%d ran outside of the main loop", it->id);
    }
    if (it->runs) sim::fail("C01,C02,C03", "ran-twice", "callback #%d ran twice", it->id);
    if (it->state == CANCELLED || it->state == CANCELLING)
        sim::fail("C02", "cancelled-ran", "callback #%d ran after it was cancelled", it->id);
    if (it->destroys) sim::fail("C03", "ran-after-destroy", "callback #%d ran after its data was destroyed", it->id);
    if (q->dead) sim::fail("C03", "ran-after-last-unref",
        "callback #%d ran after the last reference to its queue was dropped", it->id);
    if (it->state != PENDING) sim::fail("C01", "bad-state", "callback #%d ran while it was %s", it->id, state_name[it->state]);
    if (it->added_in_dispatch && innermost_iter() < it->added_seq) {
        sim::fail("C01", "not-deferred", "callback #%d ran in the same main loop iteration which submitted it "
            "from a callback of its queue", it->id);
    }
    if (q->pending.front() != it) {
        sim::fail("C01", "order", "callback #%d ran before #%d which was submitted earlier", it->id, q->pending.front()->id);
    }
    remove_pending(it);
    it->state = RUNNING;
    it->runs++;
    q->dispatch_depth++;
    note_state(q);
    {
        Scope s(F_CB, q, false, it);
        maybe_act(it);
    }
    q->dispatch_depth--;
    it->state = RAN;
}

static void on_destroy(gpointer data)
{
    Item* it = (Item*)data;
    Queue* q = it->q;
    Frame* f = top_frame();

    sim::log("q%d: destroy #%d", q ? q->id : -1, it->id);
    sim::checked();
    if (it->destroys) sim::fail("C03", "destroyed-twice", "data of callback #%d destroyed twice", it->id);
    it->destroys++;
    if (!f || f->kind == F_CB)
        sim::fail("C03", "destroyed-out-of-the-blue", "data of callback #%d destroyed for no reason", it->id);
    if (!q) {
        if (f->kind != F_API) sim::fail("C03", "null-queue", "#%d not destroyed immediately", it->id);
        it->state = CANCELLED;
        Scope s(F_CB, NULL, false, it);
        maybe_act(it);
        return;
    }
    bool dispatched = false;
    if (q->dead) {
        /* The rest is going away with the queue */
        if (it->state == PENDING) { remove_pending(it); it->state = CANCELLED; }
        else if (it->state == CANCELLING) it->state = CANCELLED;
        else if (it->state != RAN) sim::fail("C03", "destroyed-early", "data of callback #%d destroyed while %s", it->id, state_name[it->state]);
    } else switch (it->state) {
    case RAN:
        dispatched = f->kind == F_ITER;
        break;
    case CANCELLING:
        it->state = CANCELLED;
        break;
    case CANCELLED:
        break;
    case RUNNING:
        sim::fail("C03", "destroyed-while-running", "data of callback #%d destroyed while it was running", it->id);
    case PENDING:
        if (f->kind == F_ITER && !it->has_run) {
            /* It has no callback, destroying it is running it */
            if (it->added_in_dispatch && innermost_iter() < it->added_seq) {
                sim::fail("C01,C03", "not-deferred", "#%d handled in the same main loop iteration which submitted it", it->id);
            }
            if (q->pending.front() != it) {
                sim::fail("C01", "order", "#%d handled before #%d which was submitted earlier",
                    it->id, q->pending.front()->id);
            }
            remove_pending(it);
            it->state = RAN;
            dispatched = true;
        } else if (f->kind == F_API && f->q == q && f->cancels && q->freeing && it->late_free) {
            remove_pending(it);
            it->state = CANCELLED;
        } else {
            sim::fail(f->kind == F_API && f->cancels ? "C02,C03" : "C03", "destroyed-for-no-reason",
                "data of callback #%d destroyed without a reason while it was pending", it->id);
        }
        break;
    }
    if (dispatched) q->dispatch_depth++;
    note_state(q);
    {
        Scope s(F_CB, q, false, it);
        maybe_act(it);
    }
    if (dispatched) q->dispatch_depth--;
}

/* Is the queue usable by whoever is running now? */
static bool usable(Queue* q)
{
    if (q->dead || q->refs <= 0) return false;
    /* What gets added in the middle of the last gutil_idle_queue_free goes
     * away together with the queue, it must leave the queue alone */
    for (auto& f : stack_) if (f.kind == F_CB && f.q == q && f.item && f.item->late_free) return false;
    return true;
}

static void check_dead(Queue* q)
{
    for (Item* it : items) {
        if (it->q == q && it->has_destroy && !it->destroys) {
            /* The one whose callback is still running is destroyed after that */
            if (it->state == RUNNING) continue;
            bool running = false;
            for (auto& f : stack_) if (f.kind == F_CB && f.item == it) running = true;
            if (running) continue;
            sim::fail("C03,C22", "not-destroyed", "data of callback #%d (%s) was not destroyed with its queue",
                it->id, state_name[it->state]);
        }
    }
    sim::checked();
}

static void do_add(Queue* q, bool null_queue)
{
    Item* it = new Item();
    it->id = (int)items.size();
    it->q = null_queue ? NULL : q;
    it->tag = sim::choose(4);
    it->has_run = !sim::flip(80);
    it->has_destroy = !it->has_run || sim::flip(700);
    it->state = PENDING;
    it->added_in_dispatch = !null_queue && in_dispatch_of(q);
    it->added_seq = ++seq;
    it->late_free = !null_queue && q->freeing;
    if (it->late_free) sim::probe("idlequeue.add_while_freeing");
    items.push_back(it);
    sim::log("q%d: add #%d tag %d%s%s%s", null_queue ? -1 : q->id, it->id, (int)it->tag,
        it->has_run ? "" : " no callback", it->has_destroy ? " with destroy" : "",
        it->added_in_dispatch ? " (from a callback)" : "");
    if (!null_queue) {
        q->pending.push_back(it);
        if (it->added_in_dispatch) sim::probe("idlequeue.add_from_callback");
    }
    GUtilIdleFunc run = it->has_run ? on_run : NULL;
    GUtilIdleQueue* obj = null_queue ? NULL : q->obj;
    {
        Scope s(F_API, null_queue ? NULL : q);
        if (!it->tag && !it->has_destroy) gutil_idle_queue_add(obj, run, it);
        else if (!it->tag) gutil_idle_queue_add_full(obj, run, it, on_destroy);
        else if (!it->has_destroy) gutil_idle_queue_add_tag(obj, it->tag, run, it);
        else gutil_idle_queue_add_tag_full(obj, it->tag, run, it, on_destroy);
    }
    if (null_queue) {
        if (it->has_destroy && it->destroys != 1)
            sim::fail("C03", "null-queue", "data #%d submitted to NULL queue was not destroyed", it->id);
        it->state = CANCELLED;
    }
}

static void do_query(Queue* q)
{
    guintptr tag = sim::choose(5);
    bool expect = has_pending(q, tag);
    bool got = gutil_idle_queue_contains_tag(q->obj, tag);
    sim::log("q%d: contains tag %d -> %d", q->id, (int)tag, got);
    sim::checked();
    /* Those which are about to be cancelled may or may not count */
    if (got && has_cancelling(q, tag)) return;
    if (got != expect) sim::fail("C02", "contains", "tag %d is %spending but the query says %s", (int)tag,
        expect ? "" : "not ", got ? "yes" : "no");
}

static void do_cancel_tag(Queue* q)
{
    guintptr tag = sim::choose(5);
    Item* victim = NULL;
    for (Item* it : q->pending) if (it->tag == tag) { victim = it; break; }
    /* Those which are about to be cancelled may or may not count */
    const bool vague = has_cancelling(q, tag);
    if (vague) {
        if (victim) return;
        sim::probe("idlequeue.cancel_tag_while_cancelling_all");
    }
    sim::log("q%d: cancel tag %d (expect #%d)", q->id, (int)tag, victim ? victim->id : -1);
    bool got;
    if (victim) {
        remove_pending(victim);
        victim->state = CANCELLING;
        if (q->dispatch_depth) sim::probe("idlequeue.cancel_from_callback");
    }
    {
        Scope s(F_API, q, true);
        got = gutil_idle_queue_cancel_tag(q->obj, tag);
    }
    sim::checked();
    if (got != (victim != NULL) && !vague)
        sim::fail("C02", "cancel-result", "cancel of tag %d returned %d", (int)tag, got);
    if (victim) {
        if (victim->has_destroy && victim->destroys != 1)
            sim::fail("C02,C03", "cancel-not-destroyed", "data of cancelled callback #%d not destroyed", victim->id);
        victim->state = CANCELLED;
    }
}

static void mark_cancelling(Queue* q, std::vector<Item*>& v)
{
    v = q->pending;
    for (Item* it : v) it->state = CANCELLING;
    q->pending.clear();
}

static void check_cancelled(Queue* q, const std::vector<Item*>& v)
{
    for (Item* it : v) {
        if (it->has_destroy && it->destroys != 1)
            sim::fail("C02,C03", "cancel-not-destroyed", "data of cancelled callback #%d not destroyed", it->id);
        it->state = CANCELLED;
    }
    sim::checked();
}

static void do_cancel_all(Queue* q)
{
    std::vector<Item*> v;
    sim::log("q%d: cancel all (%d pending)", q->id, (int)q->pending.size());
    if (q->dispatch_depth && !q->pending.empty()) sim::probe("idlequeue.cancel_all_from_callback");
    mark_cancelling(q, v);
    {
        Scope s(F_API, q, true);
        gutil_idle_queue_cancel_all(q->obj);
    }
    check_cancelled(q, v);
}

static void do_ref(Queue* q)
{
    sim::log("q%d: ref", q->id);
    if (gutil_idle_queue_ref(q->obj) != q->obj) sim::fail("C03", "ref-result", "ref returned something else");
    q->refs++;
}

static void do_unref(Queue* q, bool free_it)
{
    bool last = q->refs == 1;
    if (last && q->pins) return;         /* the caller further up needs it */
    std::vector<Item*> v;
    sim::log("q%d: %s%s%s", q->id, free_it ? "free" : "unref", last ? " (last)" : "",
        q->dispatch_depth ? " from a callback" : "");
    if (last && q->dispatch_depth) {
        sim::fault("last_unref_inside_callback");
        if (!q->pending.empty()) sim::probe("idlequeue.last_unref_in_callback_with_pending");
    }
    if (free_it) {
        mark_cancelling(q, v);
        if (last) q->freeing = true; else q->refs--;
    } else {
        q->refs--;
        if (last) { q->dead = true; q->died_in_dispatch = q->dispatch_depth > 0; }
    }
    GUtilIdleQueue* obj = q->obj;
    {
        Scope s(F_API, q, true);
        if (free_it) gutil_idle_queue_free(obj); else gutil_idle_queue_unref(obj);
    }
    if (free_it) {
        check_cancelled(q, v);
        if (last) {
            q->freeing = false;
            /* A destroy function may have taken another reference */
            if (!--q->refs) {
                q->dead = true;
                q->died_in_dispatch = q->dispatch_depth > 0;
            }
            for (Item* it : q->pending) it->late_free = false;
        }
    }
    if (q->dead) {
        q->obj = NULL;
        q->died_iter = innermost_iter();
        /* If that was done by a callback which the main loop is running,
         * the rest may also go away as soon as that has returned */
        if (!q->died_in_dispatch) check_dead(q);
    }
}

static void new_queue()
{
    Queue* q = new Queue();
    q->id = (int)queues.size();
    q->obj = gutil_idle_queue_new();
    if (!q->obj) sim::fail("C01,C02,C03", "not-created", "no queue");
    q->refs = 1;
    queues.push_back(q);
    sim::log("q%d: new", q->id);
}

static void do_iterate()
{
    uint64_t my;
    iterations++;
    sim::log("main loop iteration {");
    {
        Scope s(F_ITER);
        my = stack_.back().seq;
        if (in_iter() && stack_.size() > 1) sim::probe("idlequeue.nested_main_loop");
        world::iterate();
    }
    sim::log("}");
    for (Queue* q : queues) {
        if (q->dead && q->died_in_dispatch && !q->dispatch_depth && q->died_iter >= my) check_dead(q);
    }
}

static int others;                  /* event sources of somebody else */

static bool nothing_to_do()
{
    for (Queue* q : queues) if (!q->dead && !q->pending.empty()) return false;
    return !others;
}

/* If there's nothing to do then the main loop can sleep */
static void do_settle()
{
    const unsigned save = world::faults.poll_eintr;
    world::faults.poll_eintr = 0;
    for (int i = 0; i < 4 && !nothing_to_do(); i++) do_iterate();
    if (nothing_to_do()) {
        do_iterate();
        if (nothing_to_do()) {
            const char* why = world::awake();
            sim::checked();
            sim::probe("idlequeue.asleep");
            if (why) sim::fail("C30", "awake", "the main loop can't sleep though no queue has anything pending: %s", why);
        }
    }
    world::faults.poll_eintr = save;
}

/* Somebody else's event source which uses the queues */
static gboolean other_source(gpointer)
{
    others--;
    if (!quiet) {
        Queue* q = queues[sim::choose((uint32_t)queues.size())];
        if (usable(q)) {
            Scope s(F_CB);
            sim::log("another source:");
            sim::probe("idlequeue.add_from_other_source");
            do_add(q, false);
        }
    }
    return G_SOURCE_REMOVE;
}

static bool iterable()
{
    /* Not in the middle of an API call, and not from destroy functions */
    for (auto& f : stack_) if (f.kind == F_API) return false;
    if (stack_.empty()) return true;
    return stack_.back().kind == F_CB && stack_.back().item && stack_.back().item->state == RUNNING &&
        stack_.size() < 6;
}

static void action(bool top)
{
    Queue* q = queues[sim::choose((uint32_t)queues.size())];
    int a = sim::pickw(w_action, 12);
    if (items.size() > 150 && !sim::choose(20)) return;
    if (items.size() > 500) return;
    if (!usable(q)) {
        if (a == 9 && queues.size() < 3) new_queue();
        return;
    }
    switch (a) {
    case 0: for (int n = top ? sim::burst(150) : 1; n > 0; n--) do_add(q, false); break;
    case 1: if (iterable()) do_iterate(); break;
    case 2: do_query(q); break;
    case 3: do_cancel_tag(q); break;
    case 4: do_cancel_all(q); break;
    case 5: do_ref(q); break;
    case 6: do_unref(q, false); break;
    case 7: do_unref(q, true); break;
    case 8: do_add(q, true); break;
    case 9: if (queues.size() < 3) new_queue(); break;
    case 10: others++; g_idle_add_full(sim::choose(2) ? G_PRIORITY_DEFAULT_IDLE : G_PRIORITY_HIGH_IDLE, other_source, NULL, NULL); break;
    case 11: if (top) do_settle(); break;
    }
}

static void run()
{
    static const int base[12] = { 30, 20, 10, 12, 3, 4, 5, 2, 1, 2, 3, 2 };
    int mean = 10 + 10 * sim::choose(5);
    max_depth = 1 + sim::choose(3);
    reent = sim::faults_enabled() ? 100 + 150 * sim::choose(4) : 0;
    for (int i = 0; i < 12; i++) w_action[i] = base[i] * (1 + (int)sim::choose(3));
    if (sim::faults_enabled() && sim::flip(300)) world::faults.poll_eintr = 200;
    new_queue();
    while (sim::more(mean)) action(true);

    /* Faults stop. Everything left must now run within a bounded number of steps */
    quiet = final_phase = true;
    world::faults.poll_eintr = 0;
    sim::span();
    int limit = 4;
    for (int i = 0; i < limit; i++) do_iterate();
    for (Queue* q : queues) {
        if (usable(q) && !q->pending.empty()) {
            sim::fail("C01,C02", "never-ran", "callback #%d of q%d never ran although the main loop keeps iterating",
                q->pending.front()->id, q->id);
        }
        sim::checked();
    }
    for (Item* it : items) {
        if (!it->has_destroy || (it->q && it->q->dead)) continue;
        if (it->destroys != 1) sim::fail("C03,C22", "not-destroyed", "data of callback #%d (%s) not destroyed",
            it->id, state_name[it->state]);
    }
    do_settle();
    for (Queue* q : queues) {
        while (usable(q)) do_unref(q, sim::flip(100));
        check_dead(q);
    }
    for (int i = 0; i < 3; i++) do_iterate();
    do_settle();
    if (iterations && items.size() > 2) sim::nontrivial();
    for (Item* it : items) delete it;
    for (Queue* q : queues) delete q;
    items.clear(); queues.clear();
}

static void warmup()
{
    GUtilIdleQueue* q = gutil_idle_queue_new();
    gutil_idle_queue_add(q, (GUtilIdleFunc)g_free, NULL);
    g_main_context_iteration(NULL, FALSE);
    gutil_idle_queue_unref(q);
}

} // namespace

static sim::WReg wreg(warmup);
SCENARIO(idlequeue, "idlequeue", "C01,C02,C03,C30", run,
    "gutil_idlequeue.c, gutil_misc.c (source helpers), GLib main loop",
    "poll(2), clocks")
