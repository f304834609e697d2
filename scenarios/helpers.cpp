/*
 * S13: event sources and signal handlers which are being removed through the
 * helper functions, from anywhere: straight-line code, callbacks of the
 * sources and handlers, destroy notifications
 */
#include "sim.h"
#include <gutil_misc.h>
#include <glib-object.h>
#include <string.h>
#include <vector>

namespace {

enum { MAX_SRC = 40, MAX_HND = 48, MAX_OBJ = 2, SLOTS = 6 };

/* Somebody who keeps an id around */
struct Holder {
    guint source;
    int owner_src;             /* goes away with that source if >= 0 */
};

struct Src {
    int id;
    guint gid;
    int kind;                  /* 0 idle, 1 timeout, 2 idle on another context */
    bool alive;
    int running, calls, destroyed;
    Holder* holder;            /* where the id is kept */
    bool own_holder;           /* the destroy function frees it */
    bool clearing;             /* gutil_source_clear in progress */
};

struct Hnd {
    int id;
    int obj, slot;
    gulong gid;
    bool connected;
    bool going;                /* being disconnected by a call in progress */
    int running, destroyed;
};

static Src src[MAX_SRC];
static Hnd hnd[MAX_HND];
static int nsrc, nhnd, depth, emitting;
static GMainContext* other;
static GObject* obj[MAX_OBJ];
static gulong* slots[MAX_OBJ];     /* exactly SLOTS ids */
static Hnd* in_slot[MAX_OBJ][SLOTS];
static int busy[MAX_OBJ][SLOTS];   /* being disconnected by calls in progress */
static bool closing;

struct SimEmitter { GObject parent; };
struct SimEmitterClass { GObjectClass parent; };
static GType type;
static guint signal_id[2];

static void class_init(gpointer k, gpointer)
{
    for (int i = 0; i < 2; i++)
        signal_id[i] = g_signal_new(i ? "two" : "one", G_TYPE_FROM_CLASS(k), G_SIGNAL_RUN_FIRST, 0, NULL, NULL, NULL,
            G_TYPE_NONE, 0);
}
static void dummy(GObject*, gpointer) {}
static void warmup()
{
    type = g_type_register_static_simple(G_TYPE_OBJECT, "SimEmitter", sizeof(SimEmitterClass), class_init,
        sizeof(SimEmitter), NULL, (GTypeFlags)0);
    g_type_class_ref(type);
    /* GObject's own tables */
    GObject* o = (GObject*)g_object_new(type, NULL);
    gulong id = g_signal_connect(o, "one", G_CALLBACK(dummy), NULL);
    gulong id2 = g_signal_connect(o, "two", G_CALLBACK(dummy), NULL);
    g_signal_emit(o, signal_id[0], 0);
    g_signal_emit(o, signal_id[1], 0);
    g_signal_handler_disconnect(o, id);
    g_signal_handler_disconnect(o, id2);
    g_object_unref(o);
}
static sim::WReg wreg(warmup);

static void action();

static void maybe_act()
{
    if (closing || depth >= 2) return;
    depth++;
    while (sim::flip(400)) {
        sim::nontrivial();
        action();
    }
    depth--;
}

/* ---- sources ---- */

static gboolean on_source(gpointer data)
{
    Src* s = (Src*)data;
    sim::log("%*ssource %d runs", depth * 2, "", s->id);
    sim::checked();
    if (!s->alive) sim::fail("C20", "called-after-removal", "source %d is called after it had been removed", s->id);
    s->calls++;
    s->running++;
    maybe_act();
    s->running--;
    if (!s->alive) { sim::probe("helpers.removed_from_own_callback"); return (gboolean)sim::choose(2); }
    if (!closing && sim::choose(4) == 1) {
        /* goes away by itself; whoever has its id must forget it */
        sim::log("%*ssource %d is done", depth * 2, "", s->id);
        s->alive = false;
        if (s->holder) s->holder->source = 0;
        return G_SOURCE_REMOVE;
    }
    return G_SOURCE_CONTINUE;
}

static void on_destroy(gpointer data)
{
    Src* s = (Src*)data;
    sim::log("%*s  source %d is destroyed", depth * 2, "", s->id);
    sim::checked();
    if (s->destroyed++) sim::fail("C20", "destroyed-twice", "destroy function of source %d is called again", s->id);
    if (s->alive) sim::fail("C20", "destroyed", "source %d is destroyed though nobody has removed it", s->id);
    if (s->clearing && s->holder && s->holder->source)
        sim::fail("C20", "not-zeroed", "source %d is being cleared but its id is still there for the destroy function to see", s->id);
    if (s->holder && !closing) {
        Holder* h = s->holder;
        if (sim::faults_enabled() && s->own_holder && s->clearing) {
            /* That's how it ends if the owner gets released together with the source */
            sim::fault("id_freed_by_destroy_function");
            s->holder = NULL;
            memset(h, 0xff, sizeof(*h));
            g_free(h);
        } else if (!h->source && sim::choose(3)) {
            /* The usual cleanup, not knowing who has started it */
            sim::fault("clear_from_destroy_function");
            if (gutil_source_clear(&h->source)) sim::fail("C20", "result", "cleared twice");
        }
    }
    maybe_act();
}

static void add_source()
{
    if (nsrc >= MAX_SRC) return;
    Src* s = src + nsrc;
    s->id = nsrc++;
    s->alive = true;
    s->kind = (int)sim::choose(3);
    s->holder = (Holder*)g_new0(Holder, 1);
    s->own_holder = sim::choose(2);
    const int prio = (int)sim::choose(3) * 100;
    const guint ms = sim::choose(4) * 10;
    if (s->kind == 1) {
        s->gid = g_timeout_add_full(prio, ms, on_source, s, on_destroy);
    } else {
        GSource* g = g_idle_source_new();
        g_source_set_priority(g, prio);
        g_source_set_callback(g, on_source, s, on_destroy);
        s->gid = g_source_attach(g, s->kind == 2 ? other : NULL);
        g_source_unref(g);
    }
    if (s->kind != 2) s->holder->source = s->gid;
    sim::log("%*snew source %d, kind %d, priority %d", depth * 2, "", s->id, s->kind, prio);
}

static Src* pick_source()
{
    Src* c[MAX_SRC];
    int n = 0;
    for (int i = 0; i < nsrc; i++) if (src[i].alive && src[i].kind != 2) c[n++] = src + i;
    return n ? c[sim::choose((uint32_t)n)] : NULL;
}

static void removed(Src* s, bool ok, const char* how)
{
    sim::checked();
    if (!ok) sim::fail("C20", "result", "%s of source %d says that there was nothing to remove", how, s->id);
    if (s->destroyed != 1 && !s->running) sim::fail("C20", "not-removed", "source %d has not been removed by %s", s->id, how);
}

static void remove_source()
{
    Src* s = pick_source();
    if (!s) return;
    if (s->running) sim::fault("source_removed_while_running");
    s->alive = false;
    if (s->holder && sim::choose(2)) {
        Holder* h = s->holder;
        const bool own = s->own_holder;
        sim::log("%*sclear source %d {", depth * 2, "", s->id);
        s->clearing = true;
        bool ok = gutil_source_clear(&h->source);
        sim::log("%*s}", depth * 2, "");
        removed(s, ok, "gutil_source_clear");
        if (s->holder) {
            if (h->source) sim::fail("C20", "not-zeroed", "id of source %d has not been zeroed", s->id);
            if (gutil_source_clear(&h->source) || h->source) sim::fail("C20", "result", "source %d has been cleared twice", s->id);
        }
        if (!s->running) s->clearing = false;
        (void)own;
    } else {
        sim::log("%*sremove source %d {", depth * 2, "", s->id);
        if (s->holder) s->holder->source = 0;
        bool ok = gutil_source_remove(s->gid);
        sim::log("%*s}", depth * 2, "");
        removed(s, ok, "gutil_source_remove");
    }
}

/* ---- handlers ---- */

static void disconnect();

static void on_signal(GObject* o, gpointer data)
{
    Hnd* h = (Hnd*)data;
    sim::log("%*shandler %d is called", depth * 2, "", h->id);
    sim::checked();
    if (!h->connected) sim::fail("C20", "called-after-removal", "handler %d is called after it had been disconnected", h->id);
    if (obj[h->obj] != o) sim::fail("C20", "object", "wrong object");
    h->running++;
    maybe_act();
    h->running--;
}

static void on_hnd_destroy(gpointer data, GClosure*)
{
    Hnd* h = (Hnd*)data;
    sim::log("%*s  handler %d is destroyed", depth * 2, "", h->id);
    sim::checked();
    if (h->destroyed++) sim::fail("C20", "destroyed-twice", "destroy function of handler %d is called again", h->id);
    if (h->connected && !h->going) sim::fail("C20", "destroyed", "handler %d is destroyed though nobody has disconnected it", h->id);
    if (h->going && !closing && sim::choose(2)) {
        /* The usual cleanup, not knowing who has started it */
        sim::fault("disconnect_from_destroy_function");
        depth++;
        disconnect();
        depth--;
    }
    maybe_act();
}

static void connect()
{
    const int o = (int)sim::choose(MAX_OBJ), s = (int)sim::choose(SLOTS);
    if (nhnd >= MAX_HND || slots[o][s] || busy[o][s]) return;
    Hnd* h = hnd + nhnd;
    h->id = nhnd++;
    h->obj = o;
    h->slot = s;
    h->connected = true;
    h->gid = slots[o][s] = g_signal_connect_data(obj[o], sim::choose(2) ? "two" : "one", G_CALLBACK(on_signal), h, on_hnd_destroy, (GConnectFlags)0);
    in_slot[o][s] = h;
    sim::log("%*shandler %d of object %d at %d", depth * 2, "", h->id, o, s);
}

static void disconnect()
{
    const int o = (int)sim::choose(MAX_OBJ);
    const int first = (int)sim::choose(SLOTS), count = (int)sim::choose((uint32_t)(SLOTS - first) + 1);
    std::vector<Hnd*> going;
    if (depth > 4) return;
    if (sim::choose(10) == 1) {
        /* Nothing to do */
        gutil_disconnect_handlers(NULL, slots[o], SLOTS);
        gutil_disconnect_handlers(obj[o], NULL, SLOTS);
        gutil_disconnect_handlers(obj[o], slots[o], 0);
        gutil_disconnect_handlers(obj[o], slots[o], -1);
        for (int i = 0; i < SLOTS; i++) if (!busy[o][i] && !slots[o][i] != !in_slot[o][i]) sim::fail("C20", "zeroed", "id %d of object %d has been zeroed", i, o);
        return;
    }
    sim::log("%*sdisconnect object %d: %d from %d {", depth * 2, "", o, count, first);
    for (int i = first; i < first + count; i++) {
        busy[o][i]++;
        if (in_slot[o][i]) {
            if (emitting) sim::fault("handler_disconnected_during_emission");
            in_slot[o][i]->going = true;
            going.push_back(in_slot[o][i]);
        }
    }
    gutil_disconnect_handlers(obj[o], slots[o] + first, count);
    sim::log("%*s}", depth * 2, "");
    for (int i = first; i < first + count; i++) {
        busy[o][i]--;
        in_slot[o][i] = NULL;
    }
    for (Hnd* h : going) { h->connected = false; }
    for (int i = 0; i < SLOTS; i++) if (!busy[o][i]) {
        sim::checked();
        if (!slots[o][i] != !in_slot[o][i])
            sim::fail("C20", "zeroed", "id %d of object %d %s zero, %d from %d have been disconnected", i, o, slots[o][i] ? "is not" : "is", count, first);
    }
    for (Hnd* h : going) if (g_signal_handler_is_connected(obj[o], h->gid)) sim::fail("C20", "not-removed", "handler %d is still connected", h->id);
    for (int i = 0; i < nhnd; i++) if (hnd[i].connected && !hnd[i].going && !g_signal_handler_is_connected(obj[hnd[i].obj], hnd[i].gid))
        sim::fail("C20", "bystander", "handler %d has been disconnected, too", i);
}

static void emit()
{
    if (emitting >= 2) return;
    const int o = (int)sim::choose(MAX_OBJ);
    sim::log("%*semit {", depth * 2, "");
    emitting++;
    g_signal_emit(obj[o], signal_id[sim::choose(2)], 0);
    emitting--;
    sim::log("%*s}", depth * 2, "");
}

static void nothing()
{
    guint zero = 0;
    sim::checked();
    if (gutil_source_remove(0) || gutil_source_clear(NULL) || gutil_source_clear(&zero) || zero)
        sim::fail("C20", "result", "nothing has been removed");
    gutil_object_unref(NULL);
    if (gutil_object_ref(NULL)) sim::fail("C20", "result", "reference to nothing");
    GObject* o = obj[sim::choose(MAX_OBJ)];
    const guint was = o->ref_count;
    if (gutil_object_ref(o) != o || o->ref_count != was + 1) sim::fail("C20", "reference", "reference has not been taken");
    gutil_object_unref(o);
    if (o->ref_count != was) sim::fail("C20", "reference", "reference has not been dropped");
}

static void settled()
{
    if (depth || emitting) return;
    for (int i = 0; i < nsrc; i++) {
        Src* s = src + i;
        sim::checked();
        if (!s->alive && s->destroyed != 1) sim::fail("C20,C22", "not-destroyed", "source %d is gone but it was destroyed %d times", i, s->destroyed);
    }
    for (int i = 0; i < nhnd; i++) {
        Hnd* h = hnd + i;
        if (!h->connected && h->destroyed != 1) sim::fail("C20,C22", "not-destroyed", "handler %d is gone but it was destroyed %d times", i, h->destroyed);
    }
}

static void any_action(const int* w)
{
    switch (sim::pickw(w, 6)) {
    case 0: add_source(); break;
    case 1: remove_source(); break;
    case 2: connect(); break;
    case 3: disconnect(); break;
    case 4: emit(); break;
    case 5: nothing(); break;
    }
}

static void action()
{
    static const int w[6] = { 6, 6, 4, 4, 4, 1 };
    /* Sources are those of the global default context, whichever the thread's one is */
    const bool push = sim::choose(5) == 4;
    if (push) {
        sim::probe("helpers.thread_default_context");
        sim::log("%*swith another default context {", depth * 2, "");
        g_main_context_push_thread_default(other);
    }
    any_action(w);
    if (push) {
        g_main_context_pop_thread_default(other);
        sim::log("%*s}", depth * 2, "");
    }
}

static void run()
{
    other = g_main_context_new();
    for (int i = 0; i < MAX_OBJ; i++) {
        obj[i] = (GObject*)g_object_new(type, NULL);
        slots[i] = g_new0(gulong, SLOTS);
    }
    while (sim::more(20)) {
        switch (sim::choose(4)) {
        case 0: case 1: action(); break;
        case 2:
            sim::log("iterate");
            world::iterate(sim::choose(4) ? NULL : other);
            break;
        case 3: world::advance_ns((int64_t)sim::choose(30) * 1000000); break;
        }
        settled();
        int alive = 0, conn = 0;
        for (int i = 0; i < nsrc; i++) alive += src[i].alive;
        for (int i = 0; i < nhnd; i++) conn += hnd[i].connected;
        sim::state(sim::mix((uint64_t)alive, (uint64_t)conn));
    }
    sim::span();
    /* Those which have not been removed are still working */
    closing = true;
    int calls[MAX_SRC];
    for (int i = 0; i < nsrc; i++) calls[i] = src[i].calls;
    for (int k = 0; k < 12; k++) {
        world::advance_ns(50000000);
        for (int j = 0; j < 4; j++) { world::iterate(NULL); world::iterate(other); }
    }
    /* Lower priority ones wait for the others, which never end: remove them step by step */
    for (int prio = 0; prio < 3; prio++) {
        for (int i = 0; i < nsrc; i++) {
            Src* s = src + i;
            GSource* g = s->alive ? g_main_context_find_source_by_id(s->kind == 2 ? other : NULL, s->gid) : NULL;
            sim::checked();
            if (s->alive && !g) sim::fail("C20", "bystander", "source %d has disappeared", i);
            if (!g || g_source_get_priority(g) != prio * 100) continue;
            if (s->calls == calls[i]) sim::fail("C20", "bystander", "source %d does not work any more", i);
        }
        for (int i = 0; i < nsrc; i++) {
            Src* s = src + i;
            GSource* g = s->alive ? g_main_context_find_source_by_id(s->kind == 2 ? other : NULL, s->gid) : NULL;
            if (!g || g_source_get_priority(g) != prio * 100) continue;
            s->alive = false;
            if (s->kind == 2) g_source_destroy(g);
            else if (sim::choose(2)) removed(s, gutil_source_remove(s->gid), "gutil_source_remove");
            else removed(s, gutil_source_clear(&s->gid), "gutil_source_clear");
        }
        for (int k = 0; k < 6; k++) {
            world::advance_ns(50000000);
            for (int j = 0; j < 4; j++) { world::iterate(NULL); world::iterate(other); }
        }
    }
    for (int i = 0; i < MAX_OBJ; i++) {
        for (int j = 0; j < SLOTS; j++) if (in_slot[i][j]) { in_slot[i][j]->connected = false; in_slot[i][j] = NULL; }
        gutil_disconnect_handlers(obj[i], slots[i], SLOTS);
        for (int j = 0; j < SLOTS; j++) if (slots[i][j]) sim::fail("C20", "zeroed", "id %d of object %d is not zero", j, i);
    }
    settled();
    for (int i = 0; i < MAX_OBJ; i++) {
        g_object_unref(obj[i]);
        g_free(slots[i]);
    }
    for (int i = 0; i < nsrc; i++) g_free(src[i].holder);
    g_main_context_unref(other);
    sim::ledger_check("C20,C22");
}

} // namespace

SCENARIO(helpers, "helpers", "C20", run, "gutil_misc.c (event source, signal and object helpers)", "clock, main loop's poll()")
