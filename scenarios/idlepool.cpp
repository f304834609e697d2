/* S2: idle pools on one thread with several main contexts and other event sources */
#include "sim.h"
#include <gutil_idlepool.h>
#include <glib-object.h>
#include <sanitizer/asan_interface.h>
#include <vector>
#include <algorithm>
#include <string.h>

namespace {

enum Kind { K_RAW, K_OBJECT, K_VARIANT, K_PTRARRAY, K_BYTES, K_STRV, K_OBJECT_REF, K_VARIANT_REF, K_PTRARRAY_REF, K_BYTES_REF, K_COUNT };
static const char* const kind_name[] = { "raw", "object", "variant", "ptr array", "bytes", "strv", "object ref", "variant ref", "ptr array ref", "bytes ref" };
enum PoolKind { P_EXPLICIT, P_SHARED, P_DEFAULT };

struct Pool;
struct Item {
    int id;
    Pool* pool;
    Kind kind;
    gpointer ptr;
    bool in_pool;        /* the pool still has it */
    bool user_ref;       /* the harness has a reference of its own */
    std::vector<void*> str; /* the strings of a vector */
    bool silent;         /* its release can't be seen */
    bool freed;
    uint64_t seq;
};

struct Pool {
    int id;
    bool reentered;      /* since it has last been drained */
    PoolKind kind;
    int slot;                  /* shared variable */
    GUtilIdlePool* obj;
    int refs;                  /* user's references */
    int reserved;              /* refs which calls on the stack are going to drop */
    bool self_item;            /* shared pool is in its own list */
    int src_ctx;               /* context which its idle source is attached to, -1 none */
    uint64_t src_seq;
    bool dead;
    bool finalizing;
    std::vector<Item*> pending;
};

struct Ctx {
    int id;
    GMainContext* obj;         /* NULL for default */
    int pushed, iterating;
    int busy;                  /* ready default priority sources */
    bool dead;
};

struct Bystander {
    int id, ctx;
    guint sid;
    GSource* src;
    int dispatched, notified;
    bool alive;
    uint64_t since;
};

enum FrameKind { F_ITER, F_DRAIN, F_FINAL, F_CTX, F_CB };
struct Frame { FrameKind kind; Pool* pool; int ctx; uint64_t seq; bool busy; std::vector<Pool*> draining; std::vector<Pool*> due; };

static std::vector<Frame*> st;
static std::vector<Item*> items;
static std::vector<Pool*> pools;
static std::vector<Ctx*> ctxs;
static std::vector<Bystander*> byst;
static std::vector<int> ctx_stack;
static GUtilIdlePool* shared_var[2];
static Pool* shared_pool[2];
static Pool* default_pool;
static uint64_t seq;
static bool quiet;
static int reent, max_depth;
static int w[20];

static void action();
static void drained(Pool* p, const char* how);

static Frame* top() { return st.empty() ? NULL : st.back(); }
static int cb_depth() { int n = 0; for (auto f : st) if (f->kind == F_CB) n++; return n; }

struct Scope {
    Frame f;
    Scope(FrameKind k, Pool* p = NULL, int ctx = -1)
    {
        f.kind = k; f.pool = p; f.ctx = ctx; f.seq = ++seq; f.busy = false;
        st.push_back(&f);
    }
    ~Scope() { st.pop_back(); }
};

static bool draining(Frame* f, Pool* p)
{
    if ((f->kind == F_DRAIN || f->kind == F_FINAL) && f->pool == p) return true;
    for (Pool* x : f->draining) if (x == p) return true;
    return false;
}
static int drain_depth(Pool* p)
{
    int n = 0;
    for (auto f : st) if (draining(f, p)) n++;
    return n;
}

static bool pool_has_owner(Pool* p)
{
    return p->refs > 0 || p->kind == P_DEFAULT || p->self_item || p->src_ctx >= 0;
}

static void remove_pending(Item* it)
{
    Pool* p = it->pool;
    it->in_pool = false;
    for (size_t i = 0; i < p->pending.size(); i++) {
        if (p->pending[i] == it) { p->pending.erase(p->pending.begin() + i); break; }
    }
}

/* String vectors don't tell when they are released. How many of its blocks are? */
static size_t strv_released(Item* it)
{
    size_t n = __asan_address_is_poisoned(it->ptr) ? 1 : 0;
    for (void* x : it->str) if (__asan_address_is_poisoned(x)) n++;
    return n;
}

static void silent_gone(Item* it)
{
    it->in_pool = false;
    if (it->kind == K_STRV) {
        sim::checked();
        if (strv_released(it) != it->str.size() + 1)
            sim::fail("C04,C22", "lost", "#%d (%d strings) was not completely released", it->id, (int)it->str.size());
        it->freed = true;
    }
}

static void check_strv(Pool* p)
{
    /* Something nested could have released them */
    if (p->reentered) return;
    for (Item* it : p->pending) {
        if (it->kind == K_STRV && strv_released(it))
            sim::fail("C04", "released-early", "#%d (strv) released too early", it->id);
    }
}

static void skip_silent(Pool* p)
{
    while (!p->pending.empty() && p->pending.front()->silent) {
        silent_gone(p->pending.front());
        p->pending.erase(p->pending.begin());
    }
}

/* A release function has been called for this one */
static void released(Item* it, bool by_pool_fn)
{
    Pool* p = it->pool;
    sim::log("#%d (%s) released, pool %d", it->id, kind_name[it->kind], p->id);
    sim::checked();
    if (it->freed) sim::fail("C04", "released-twice", "#%d released twice", it->id);
    it->freed = true;
    Frame* f = top();
    if (!it->in_pool) {
        sim::fail("C04", "released-twice", "#%d released though it is not in the pool any more", it->id);
    }
    /* By whom? */
    bool ok = false;
    const char* why = "for no reason";
    if (f) switch (f->kind) {
    case F_ITER:
        ok = p->src_ctx == f->ctx;
        if (!ok) why = "by an iteration of another main context";
        if (ok && f->busy) { ok = false; why = "though the main loop was not idle"; }
        break;
    case F_DRAIN: ok = f->pool == p; break;
    case F_FINAL: ok = f->pool == p; break;
    case F_CTX: ok = f->ctx == p->src_ctx && !p->refs && p->kind != P_DEFAULT; break;
    case F_CB: break;
    }
    if (!ok && drain_depth(p) > 0 && f && f->kind != F_CB) ok = true;
    if (!ok) {
        /* Maybe the last reference just went away with the source */
        sim::fail("C04", "released-early", "#%d released %s", it->id, why);
    }
    if (f->kind == F_ITER) {
        /* Those which have been dispatched before are done with */
        std::vector<Pool*> over;
        for (Pool* q : f->draining) if (q != p) over.push_back(q);
        for (Pool* q : over) {
            f->draining.erase(std::remove(f->draining.begin(), f->draining.end(), q), f->draining.end());
            if (!q->dead && !drain_depth(q)) drained(q, "its idle source was dispatched");
        }
        /* GLib dispatches the idle sources in the order of attachment */
        for (Pool* q : f->due) {
            if (q != p && !q->dead && q->src_ctx == f->ctx && q->src_seq < p->src_seq && p->src_seq < f->seq) {
                if (!drain_depth(q)) drained(q, "its idle source was dispatched");
            }
        }
    }
    if (f->kind != F_CB && !draining(f, p)) f->draining.push_back(p);
    if (drain_depth(p) == 1) {
        skip_silent(p);
        p->self_item = false;
        if (p->pending.front() != it) sim::fail("C04", "order", "#%d released before #%d which is older",
            it->id, p->pending.front()->id);
        remove_pending(it);
        check_strv(p);
    } else {
        sim::probe("idlepool.nested_drain");
        remove_pending(it);
    }
    uint64_t h = sim::mix(p->pending.size(), p->kind * 16 + p->refs);
    for (auto x : st) h = sim::mix(h, x->kind * 4 + (x->pool ? x->pool->kind : 3));
    sim::state(h);
    if (quiet || !sim::faults_enabled() || cb_depth() >= max_depth) return;
    Scope s(F_CB, p);
    while (sim::flip(reent)) {
        sim::nontrivial();
        p->reentered = true;
        action();
    }
}

static void release_raw(gpointer data) { released((Item*)data, true); }
static void release_bytes(gpointer data)
{
    Item* it = (Item*)data;
    if (it->user_ref) sim::fail("C04", "ref-variant", "#%d freed though the caller has a reference", it->id);
    released(it, false);
}

/* An object which tells when it's finalized */
typedef struct { GObject o; Item* item; } TestObj;
typedef GObjectClass TestObjClass;
static GObjectClass* parent_class;
static void testobj_finalize(GObject* o)
{
    Item* it = ((TestObj*)o)->item;
    if (it) release_bytes(it);
    parent_class->finalize(o);
}
static void testobj_class_init(gpointer k, gpointer)
{
    parent_class = (GObjectClass*)g_type_class_peek_parent(k);
    ((GObjectClass*)k)->finalize = testobj_finalize;
}
static GType testobj_type()
{
    static GType t;
    if (!t) t = g_type_register_static_simple(G_TYPE_OBJECT, "SimPoolObj", sizeof(TestObjClass),
        (GClassInitFunc)testobj_class_init, sizeof(TestObj), NULL, (GTypeFlags)0);
    return t;
}

static char data16[16] = "fifteen chars..";

static bool usable(Pool* p)
{
    if (p->dead || p->finalizing) return false;
    if (p->kind == P_DEFAULT || p->refs > p->reserved) return true;
    /* A shared pool can be used through its variable */
    return p->kind == P_SHARED && shared_var[p->slot] == p->obj && pool_has_owner(p) &&
        (p->self_item || drain_depth(p) > 0);
}

static bool movable(Pool* p, int ctx)
{
    /* GLib does not dispatch a source recursively */
    (void)p; (void)ctx;
    return true;
}

static void pool_died(Pool* p)
{
    p->dead = true;
    p->obj = NULL;
    for (Item* it : p->pending) {
        if (it->silent) silent_gone(it);
        else sim::fail("C04,C22", "lost", "#%d was not released with its pool", it->id);
    }
    p->pending.clear();
    if (p->kind == P_SHARED && shared_pool[p->slot] == p) {
        if (shared_var[p->slot]) sim::fail("C05", "shared-not-reset", "shared variable not reset when the pool has gone");
        shared_pool[p->slot] = NULL;
    }
}

/* Is the pool about to die because nobody has a reference? */
static void reap(Pool* p)
{
    if (!p->dead && !pool_has_owner(p) && !drain_depth(p)) pool_died(p);
}

static void do_add(Pool* p)
{
    Item* it = new Item();
    it->id = (int)items.size();
    it->pool = p;
    it->kind = (Kind)sim::choose(K_COUNT);
    it->in_pool = true;
    it->seq = ++seq;
    items.push_back(it);
    bool null_pool = p->kind == P_DEFAULT && sim::flip(700);
    GUtilIdlePool* obj = null_pool ? NULL : p->obj;
    gpointer ret = NULL;
    bool keep = sim::flip(400);      /* keep own ref for _ref variants */
    p->pending.push_back(it);
    if (p->src_ctx < 0) {
        int i = ctx_stack.empty() ? 0 : ctx_stack.back();
        p->src_ctx = i;
        p->src_seq = ++seq;
        if (i) sim::probe("idlepool.thread_default_context");
    }
    int attached = world::attached;
    sim::log("add #%d (%s%s) to pool %d%s, source on ctx %d", it->id, kind_name[it->kind],
        it->kind >= K_OBJECT_REF && keep ? ", ref kept" : "", p->id, null_pool ? " (NULL)" : "", p->src_ctx);
    switch (it->kind) {
    case K_RAW:
        it->ptr = it;
        ret = gutil_idle_pool_add(obj, it, release_raw);
        break;
    case K_OBJECT: case K_OBJECT_REF: {
        TestObj* o = (TestObj*)g_object_new(testobj_type(), NULL);
        o->item = it;
        it->ptr = o;
        if (it->kind == K_OBJECT) ret = gutil_idle_pool_add_object(obj, o);
        else { it->user_ref = true; ret = gutil_idle_pool_add_object_ref(obj, o); }
        break;
    }
    case K_BYTES: case K_BYTES_REF: {
        GBytes* b = g_bytes_new_with_free_func(data16, 16, release_bytes, it);
        it->ptr = b;
        if (it->kind == K_BYTES) ret = gutil_idle_pool_add_bytes(obj, b);
        else { it->user_ref = true; ret = gutil_idle_pool_add_bytes_ref(obj, b); }
        break;
    }
    case K_VARIANT: case K_VARIANT_REF: {
        GVariant* v = g_variant_new_from_data(G_VARIANT_TYPE("ay"), data16, 16, TRUE, release_bytes, it);
        if (sim::flip(600)) g_variant_ref_sink(v);
        else sim::probe("idlepool.floating_variant");
        it->ptr = v;
        if (it->kind == K_VARIANT) ret = gutil_idle_pool_add_variant(obj, v);
        else { it->user_ref = true; ret = gutil_idle_pool_add_variant_ref(obj, v); }
        break;
    }
    case K_PTRARRAY: case K_PTRARRAY_REF: {
        GPtrArray* a = g_ptr_array_new_with_free_func(release_bytes);
        g_ptr_array_add(a, it);
        it->ptr = a;
        if (it->kind == K_PTRARRAY) ret = gutil_idle_pool_add_ptr_array(obj, a);
        else { it->user_ref = true; ret = gutil_idle_pool_add_ptr_array_ref(obj, a); }
        break;
    }
    case K_STRV: case K_COUNT: {
        int n = sim::choose(5);
        char** s = g_new0(char*, n + 1);
        for (int i = 0; i < n; i++) {
            s[i] = g_strdup(i ? "x" : "");
            it->str.push_back(s[i]);
        }
        it->ptr = s;
        it->silent = true;
        ret = gutil_idle_pool_add_strv(obj, s);
        break;
    }
    }
    if (world::attached != attached) {
        /* Whatever was there is gone, this one is dispatched after those
         * which have been attached before */
        p->src_ctx = ctx_stack.empty() ? 0 : ctx_stack.back();
        p->src_seq = ++seq;
    }
    sim::checked();
    if (ret != it->ptr) sim::fail("C04", "add-result", "adding #%d (%s) returned something else", it->id, kind_name[it->kind]);
    if (it->user_ref) {
        if (it->freed) sim::fail("C04", "ref-variant", "#%d freed by adding it", it->id);
        if (keep) {
            it->silent = true;
        } else {
            /* From now on, the pool has the only one */
            it->user_ref = false;
            switch (it->kind) {
            case K_OBJECT_REF: g_object_unref(it->ptr); break;
            case K_BYTES_REF: g_bytes_unref((GBytes*)it->ptr); break;
            case K_VARIANT_REF: g_variant_unref((GVariant*)it->ptr); break;
            case K_PTRARRAY_REF: g_ptr_array_unref((GPtrArray*)it->ptr); break;
            default: break;
            }
        }
    }
    if (it->kind == K_OBJECT || it->kind == K_OBJECT_REF) {
        guint rc = ((GObject*)it->ptr)->ref_count;
        if (rc != 1u + (it->user_ref ? 1 : 0)) sim::fail("C04", "ref-count", "object #%d has %u references", it->id, rc);
    }
}

static void add_nulls(Pool* p)
{
    /* Adding NULL does nothing and returns NULL */
    if (gutil_idle_pool_add_object(p->obj, NULL) || gutil_idle_pool_add_object_ref(p->obj, NULL) ||
        gutil_idle_pool_add_bytes(p->obj, NULL) || gutil_idle_pool_add_bytes_ref(p->obj, NULL) ||
        gutil_idle_pool_add_variant(p->obj, NULL) || gutil_idle_pool_add_variant_ref(p->obj, NULL) ||
        gutil_idle_pool_add_ptr_array(p->obj, NULL) || gutil_idle_pool_add_ptr_array_ref(p->obj, NULL) ||
        gutil_idle_pool_add_strv(p->obj, NULL))
        sim::fail("C04", "add-result", "adding NULL returned non-NULL");
    if (gutil_idle_pool_add(p->obj, data16, NULL) != data16)
        sim::fail("C04", "add-result", "adding without a release function returned something else");
}

/* Drop harness's own reference to an item */
static void drop_user_ref(Item* it)
{
    bool last = !it->in_pool;
    sim::log("own ref to #%d dropped (%s)", it->id, last ? "last" : "pool has it");
    it->user_ref = false;
    it->silent = false;
    bool pooled = it->in_pool;
    Pool fake;
    Pool* real = it->pool;
    if (last) {
        /* Not the pool's release */
        it->in_pool = true;
        fake = Pool();
        fake.id = -2;
        fake.finalizing = true;
        fake.pending.push_back(it);
        it->pool = &fake;
    }
    {
        Scope s(F_FINAL, it->pool);
        bool q = quiet;
        quiet = true;
        switch (it->kind) {
        case K_OBJECT_REF: g_object_unref(it->ptr); break;
        case K_BYTES_REF: g_bytes_unref((GBytes*)it->ptr); break;
        case K_VARIANT_REF: g_variant_unref((GVariant*)it->ptr); break;
        case K_PTRARRAY_REF: g_ptr_array_unref((GPtrArray*)it->ptr); break;
        default: break;
        }
        quiet = q;
    }
    it->pool = real;
    sim::checked();
    if (last && !it->freed) sim::fail("C04,C22", "not-released", "#%d is still alive after the pool has released it and its owner too", it->id);
    if (!last && it->freed) sim::fail("C04", "released-early", "#%d: the pool had no reference of its own", it->id);
    (void)pooled;
}

static void flush_silent(Pool* p)
{
    for (size_t i = 0; i < p->pending.size(); ) {
        if (p->pending[i]->silent) {
            silent_gone(p->pending[i]);
            p->pending.erase(p->pending.begin() + i);
        } else i++;
    }
}

static void drained(Pool* p, const char* how)
{
    flush_silent(p);
    p->reentered = false;
    p->self_item = false;
    p->src_ctx = -1;
    sim::checked();
    if (!p->pending.empty()) sim::fail("C04", "not-drained", "pool %d still has #%d after %s", p->id,
        p->pending.front()->id, how);
    reap(p);
}

static void do_drain(Pool* p)
{
    bool null_pool = p->kind == P_DEFAULT && sim::flip(500);
    bool outermost = drain_depth(p) == 0;
    sim::log("drain pool %d {", p->id);
    if (p->src_ctx > 0) sim::probe("idlepool.drain_on_private_context");
    {
        Scope s(F_DRAIN, p);
        gutil_idle_pool_drain(null_pool ? NULL : p->obj);
    }
    sim::log("}");
    if (outermost) drained(p, "drain");
}

static void do_destroy(Pool* p)
{
    bool outermost = drain_depth(p) == 0;
    if (p->refs <= p->reserved) return;
    sim::log("destroy pool %d {", p->id);
    p->reserved++;
    {
        Scope s(F_DRAIN, p);
        gutil_idle_pool_destroy(p->obj);
    }
    p->reserved--;
    p->refs--;
    sim::log("}");
    if (outermost) drained(p, "destroy");
}

static void do_unref(Pool* p)
{
    if (p->refs <= p->reserved) return;
    bool alive_after = p->refs > 1 || p->self_item || p->src_ctx >= 0 || p->kind == P_DEFAULT || drain_depth(p) > 0;
    sim::log("unref pool %d%s", p->id, p->refs == 1 ? " (last)" : "");
    if (p->refs == 1 && drain_depth(p)) sim::fault("last_unref_inside_release");
    if (p->refs == 1 && !p->pending.empty()) sim::probe("idlepool.unref_with_pending");
    p->refs--;
    if (alive_after) {
        gutil_idle_pool_unref(p->obj);
    } else {
        p->finalizing = true;
        if (p->kind == P_SHARED) {
            /* From now on, those who ask for the shared pool get a new one */
            shared_pool[p->slot] = NULL;
            if (!p->pending.empty()) sim::probe("idlepool.shared_pool_dies_with_pending");
        }
        {
            Scope s(F_FINAL, p);
            gutil_idle_pool_unref(p->obj);
        }
        flush_silent(p);
        pool_died(p);
    }
}

static void new_pool(PoolKind k, int slot)
{
    Pool* p = new Pool();
    p->id = (int)pools.size();
    p->kind = k;
    p->slot = slot;
    p->src_ctx = -1;
    pools.push_back(p);
    if (k == P_EXPLICIT) {
        p->obj = slot ? gutil_idle_pool_new() : gutil_idle_pool_get(NULL);
        p->refs = 1;
        sim::log("pool %d: new", p->id);
    } else if (k == P_DEFAULT) {
        p->obj = gutil_idle_pool_get_default();
        sim::log("pool %d: default", p->id);
    } else {
        p->src_ctx = ctx_stack.empty() ? 0 : ctx_stack.back();
        p->src_seq = ++seq;
        p->self_item = true;
        p->obj = gutil_idle_pool_get(shared_var + slot);
        sim::log("pool %d: shared %d", p->id, slot);
        shared_pool[slot] = p;
        if (shared_var[slot] != p->obj) sim::fail("C05", "shared-var", "shared variable not set");
    }
    if (!p->obj) sim::fail("C04,C05", "not-created", "no pool");
}

/* An iteration that is still in progress may already have got to the shared
 * pool. Nothing tells unless it contained something that can be seen. */
static void settle_shared(int slot)
{
    Pool* p = shared_pool[slot];
    if (!p || p->refs || shared_var[slot]) return;
    for (Frame* f : st) {
        if (f->kind != F_ITER || f->busy || p->src_ctx != f->ctx || drain_depth(p)) continue;
        drained(p, "its idle source was dispatched");
        return;
    }
}

static void do_get_shared()
{
    int slot = sim::choose(2);
    settle_shared(slot);
    if (shared_pool[slot]) {
        GUtilIdlePool* o = gutil_idle_pool_get(shared_var + slot);
        sim::checked();
        if (o != shared_pool[slot]->obj) sim::fail("C05", "shared-other", "shared pool is a different one");
    } else {
        if (shared_var[slot]) sim::fail("C05", "shared-stale", "shared variable still set");
        if (pools.size() < 12) new_pool(P_SHARED, slot);
    }
    if (shared_pool[slot] && usable(shared_pool[slot]) && sim::flip(300)) {
        sim::log("shared pool %d ref", shared_pool[slot]->id);
        shared_pool[slot]->refs++;
        if (gutil_idle_pool_ref(shared_pool[slot]->obj) != shared_pool[slot]->obj) sim::fail("C04", "ref-result", "bad ref");
    }
}

static gboolean on_bystander(gpointer data)
{
    Bystander* b = (Bystander*)data;
    if (!b->alive) sim::fail("C05", "bystander-after-removal", "somebody's event source %d called after removal", b->id);
    b->dispatched++;
    return G_SOURCE_CONTINUE;
}
static void on_bystander_gone(gpointer data)
{
    Bystander* b = (Bystander*)data;
    b->notified++;
    if (b->alive) sim::fail("C05", "bystander-removed", "event source %d (id %u, ctx %d) which belongs to somebody else was removed",
        b->id, b->sid, b->ctx);
}
static gboolean on_busy(gpointer data)
{
    ((Ctx*)data)->busy--;
    return G_SOURCE_REMOVE;
}

static void add_bystander(int ctx)
{
    Bystander* b = new Bystander();
    memset(b, 0, sizeof(*b));
    b->id = (int)byst.size();
    b->ctx = ctx;
    b->alive = true;
    b->since = ++seq;
    GSource* s = g_idle_source_new();
    g_source_set_callback(s, on_bystander, b, on_bystander_gone);
    b->sid = g_source_attach(s, ctxs[ctx]->obj);
    b->src = s;
    byst.push_back(b);
    sim::log("bystander %d on ctx %d, id %u", b->id, ctx, b->sid);
}

static void remove_bystander(Bystander* b)
{
    sim::log("bystander %d leaves", b->id);
    b->alive = false;
    g_source_destroy(b->src);
    g_source_unref(b->src);
    b->src = NULL;
    if (b->notified != 1) sim::fail("C05", "bystander-notify", "event source %d was notified %d times", b->id, b->notified);
}

static void check_bystanders()
{
    for (auto b : byst) {
        sim::checked();
        if (b->alive && g_source_is_destroyed(b->src))
            sim::fail("C05", "bystander-removed", "event source %d which belongs to somebody else was removed", b->id);
    }
}

static void do_iterate(int c)
{
    Ctx* x = ctxs[c];
    if (x->dead || x->iterating > 1) return;
    bool nested = !st.empty();
    bool busy = x->busy > 0;
    uint64_t start = ++seq;
    std::vector<Pool*> due;
    for (Pool* p : pools) if (!p->dead && p->src_ctx == c && !drain_depth(p)) due.push_back(p);
    std::vector<int> before;
    for (auto b : byst) before.push_back(b->dispatched);
    size_t nb = byst.size();
    sim::log("iterate ctx %d%s%s {", c, busy ? " (busy)" : "", nested ? " (nested)" : "");
    x->iterating++;
    std::vector<Pool*> over;
    {
        Scope s(F_ITER, NULL, c);
        s.f.busy = busy;
        s.f.due = due;
        world::iterate(x->obj);
        over = s.f.draining;
    }
    x->iterating--;
    sim::log("}");
    for (Pool* p : over) if (!p->dead && !drain_depth(p)) drained(p, "its idle source was dispatched");
    if (!busy) for (Pool* p : due) {
        if (p->dead || p->src_ctx != c || p->src_seq > start) continue;
        if (drain_depth(p)) continue;
        drained(p, "the main loop went idle");
        if (p->kind == P_SHARED && !p->refs && !p->dead) sim::fail("C05", "shared-stays", "unreferenced shared pool did not go away at idle");
    }
    for (size_t i = 0; i < nb; i++) {
        Bystander* b = byst[i];
        if (!b->alive || b->ctx != c || b->since > start || nested || busy) continue;
        int n = b->dispatched - before[i];
        sim::checked();
        if (n < 1) sim::fail("C05", "bystander-delayed", "event source %d of somebody else was not dispatched", b->id);
    }
    check_bystanders();
}

static void destroy_ctx(int c)
{
    Ctx* x = ctxs[c];
    if (!c || x->dead || x->iterating || x->pushed) return;
    if (!st.empty()) return;
    sim::log("destroy ctx %d {", c);
    sim::fault("context_destroyed");
    for (auto b : byst) if (b->alive && b->ctx == c) remove_bystander(b);
    bool affected = false;
    for (Pool* p : pools) if (!p->dead && p->src_ctx == c) affected = true;
    if (affected) sim::probe("idlepool.context_destroyed_with_pending");
    {
        Scope s(F_CTX, NULL, c);
        bool q = quiet;
        /* Finalized pools must be left alone, and so must be the context */
        quiet = true;
        g_main_context_unref(x->obj);
        quiet = q;
    }
    x->obj = NULL;
    x->dead = true;
    sim::log("}");
    for (Pool* p : pools) {
        if (!p->dead && p->src_ctx == c) {
            p->src_ctx = -1;
            if (!p->refs && p->kind != P_DEFAULT && !p->self_item) {
                flush_silent(p);
                pool_died(p);
            }
        }
    }
}

/* Things added to the pool on a main context which doesn't last */
static void orphan()
{
    Pool* p = NULL;
    for (int i = 0; i < 4 && !p; i++) {
        Pool* x = pools[sim::choose((uint32_t)pools.size())];
        if (usable(x) && x->refs > x->reserved && x->src_ctx < 0 && (x->kind == P_SHARED || i > 1)) p = x;
    }
    if (!p || !st.empty() || ctxs.size() > 5) return;
    Ctx* x = new Ctx();
    memset(x, 0, sizeof(*x));
    x->id = (int)ctxs.size();
    x->obj = g_main_context_new();
    ctxs.push_back(x);
    sim::log("short lived ctx %d for pool %d", x->id, p->id);
    g_main_context_push_thread_default(x->obj);
    x->pushed++;
    ctx_stack.push_back(x->id);
    for (int n = 1 + sim::choose(3); n > 0; n--) do_add(p);
    g_main_context_pop_thread_default(x->obj);
    x->pushed--;
    ctx_stack.pop_back();
    destroy_ctx(x->id);
    if (sim::flip(500)) while (!p->dead && p->refs > p->reserved) do_unref(p);
}

/* If there's nothing to do then the main loop can sleep */
static bool nothing_to_do(int c)
{
    if (ctxs[c]->dead || ctxs[c]->busy) return false;
    for (auto b : byst) if (b->alive && b->ctx == c) return false;
    for (Pool* p : pools) if (!p->dead && p->src_ctx == c) return false;
    return true;
}

static void do_settle(int c)
{
    const unsigned save = world::faults.poll_eintr;
    world::faults.poll_eintr = 0;
    for (int i = 0; i < 2; i++) if (!ctxs[c]->dead) do_iterate(c);
    if (nothing_to_do(c)) {
        const char* why = world::awake(ctxs[c]->obj);
        sim::checked();
        sim::probe("idlepool.asleep");
        if (why) sim::fail("C30", "awake", "main loop %d can't sleep though no pool has anything to release: %s", c, why);
    }
    world::faults.poll_eintr = save;
}

static void action()
{
    int a = sim::pickw(w, 18);
    if (items.size() > 400) return;
    Pool* p = pools[sim::choose((uint32_t)pools.size())];
    switch (a) {
    case 0: if (usable(p)) for (int n = st.empty() ? sim::burst(150) : 1; n > 0; n--) do_add(p); break;
    case 1: {
        int c = sim::choose((uint32_t)ctxs.size());
        if (st.size() < 6) do_iterate(c);
        break;
    }
    case 2: if (usable(p)) do_drain(p); break;
    case 3:
        if (usable(p)) {
            sim::log("ref pool %d", p->id);
            p->refs++;
            if (gutil_idle_pool_ref(p->obj) != p->obj) sim::fail("C04", "ref-result", "bad ref");
        }
        break;
    case 4: if (!p->dead && !p->finalizing) do_unref(p); break;
    case 5: if (!p->dead && !p->finalizing && p->refs) do_destroy(p); break;
    case 6: if (pools.size() < 10) new_pool(P_EXPLICIT, sim::choose(2)); break;
    case 7: do_get_shared(); break;
    case 8:
        if (st.empty()) {
            if (!ctx_stack.empty() && sim::choose(2)) {
                Ctx* x = ctxs[ctx_stack.back()];
                sim::log("pop ctx %d", x->id);
                g_main_context_pop_thread_default(x->obj);
                x->pushed--;
                ctx_stack.pop_back();
            } else if (ctx_stack.size() < 3) {
                int c = sim::choose((uint32_t)ctxs.size());
                if (!ctxs[c]->dead) {
                    sim::log("push ctx %d", c);
                    g_main_context_push_thread_default(ctxs[c]->obj);
                    ctxs[c]->pushed++;
                    ctx_stack.push_back(c);
                }
            }
        }
        break;
    case 9: if (ctxs.size() < 5) {
            Ctx* x = new Ctx();
            memset(x, 0, sizeof(*x));
            x->id = (int)ctxs.size();
            x->obj = g_main_context_new();
            ctxs.push_back(x);
            sim::log("new ctx %d", x->id);
        }
        break;
    case 10: if (sim::faults_enabled()) destroy_ctx(sim::choose((uint32_t)ctxs.size())); break;
    case 11: {
        int c = sim::choose((uint32_t)ctxs.size());
        if (!ctxs[c]->dead && byst.size() < 16) add_bystander(c);
        break;
    }
    case 12: {
        if (byst.empty()) break;
        Bystander* b = byst[sim::choose((uint32_t)byst.size())];
        if (b->alive && st.empty()) remove_bystander(b);
        break;
    }
    case 13: {
        int c = sim::choose((uint32_t)ctxs.size());
        if (!ctxs[c]->dead && st.empty() && ctxs[c]->busy < 3) {
            ctxs[c]->busy++;
            sim::log("ctx %d is busy", c);
            GSource* s = g_idle_source_new();
            g_source_set_priority(s, sim::choose(2) ? G_PRIORITY_DEFAULT : G_PRIORITY_HIGH);
            g_source_set_callback(s, on_busy, ctxs[c], NULL);
            g_source_attach(s, ctxs[c]->obj);
            g_source_unref(s);
            sim::probe("idlepool.busy_loop");
        }
        break;
    }
    case 14: if (!items.empty()) {
            Item* it = items[sim::choose((uint32_t)items.size())];
            if (it->user_ref && !drain_depth(it->pool)) drop_user_ref(it);
        }
        break;
    case 16: if (sim::faults_enabled()) orphan(); break;
    case 17: if (st.empty()) do_settle(sim::choose((uint32_t)ctxs.size())); break;
    case 15:
        if (usable(p)) add_nulls(p);
        if (default_pool && gutil_idle_pool_get_default() != default_pool->obj)
            sim::fail("C05", "default-other", "default pool of the thread is a different one now");
        break;
    }
}

static void run()
{
    static const int base[18] = { 40, 20, 8, 5, 8, 3, 4, 6, 6, 2, 2, 4, 2, 4, 4, 2, 2, 2 };
    int mean = 15 + 10 * sim::choose(5);
    reent = sim::faults_enabled() ? 60 + 120 * sim::choose(4) : 0;
    max_depth = 1 + sim::choose(3);
    for (int i = 0; i < 18; i++) w[i] = base[i] * (1 + (int)sim::choose(3));
    if (sim::faults_enabled() && sim::flip(200)) world::faults.poll_eintr = 200;
    Ctx* x = new Ctx();
    memset(x, 0, sizeof(*x));
    ctxs.push_back(x);
    new_pool(P_EXPLICIT, 0);
    default_pool = NULL;
    if (sim::flip(700)) { new_pool(P_DEFAULT, 0); default_pool = pools.back(); }
    while (sim::more(mean)) {
        action();
        for (Pool* p : pools) {
            if (!p->dead && p->kind == P_SHARED && shared_pool[p->slot] == p && shared_var[p->slot] != p->obj)
                sim::fail("C05", "shared-var", "shared variable changed while the pool is alive");
        }
    }

    sim::span();
    quiet = true;
    world::faults.poll_eintr = 0;
    while (!ctx_stack.empty()) {
        Ctx* c = ctxs[ctx_stack.back()];
        g_main_context_pop_thread_default(c->obj);
        c->pushed--;
        ctx_stack.pop_back();
    }
    /* Faults stop; everything gets released as the loops go idle */
    if (sim::choose(2)) for (auto b : byst) if (b->alive) remove_bystander(b);
    for (int round = 0; round < 6; round++)
        for (size_t i = 0; i < ctxs.size(); i++) if (!ctxs[i]->dead) do_iterate((int)i);
    for (Pool* p : pools) {
        if (p->dead) continue;
        if (!p->pending.empty() && p->src_ctx >= 0) sim::fail("C04,C22", "never-released", "#%d never released", p->pending.front()->id);
        sim::checked();
    }
    for (size_t i = 0; i < ctxs.size(); i++) do_settle((int)i);
    for (Pool* p : pools) {
        if (p->dead) continue;
        /* If its context has been destroyed, a pool keeps what it has until it's drained */
        if (p->kind == P_DEFAULT || !p->pending.empty() || (p->self_item && p->src_ctx < 0)) { if (usable(p)) do_drain(p); }
        while (!p->dead && p->refs) do_unref(p);
    }
    for (int round = 0; round < 3; round++)
        for (size_t i = 0; i < ctxs.size(); i++) if (!ctxs[i]->dead) do_iterate((int)i);
    for (Item* it : items) if (it->user_ref) drop_user_ref(it);
    for (Item* it : items) {
        if (!it->freed) sim::fail("C04,C22", "lost", "#%d was never released", it->id);
        sim::checked();
    }
    for (Pool* p : pools) {
        if (!p->dead && p->kind == P_SHARED && !p->refs) sim::fail("C05", "shared-stays", "unreferenced shared pool %d never went away", p->id);
    }
    for (auto b : byst) if (b->alive) remove_bystander(b);
    for (size_t i = 0; i < ctxs.size(); i++) do_settle((int)i);
    for (auto c : ctxs) if (c->obj) g_main_context_unref(c->obj);
    /* The default pool lives as long as the thread does */
    if (items.size() > 3) sim::nontrivial();
}

static void warmup()
{
    g_type_class_ref(testobj_type());
    gutil_idle_pool_get_default();
    GMainContext* c = g_main_context_new();
    gutil_idle_pool_drain(NULL);
    g_main_context_push_thread_default(c);
    g_main_context_pop_thread_default(c);
    g_main_context_unref(c);
    GUtilIdlePool* p2 = gutil_idle_pool_new();
    gutil_idle_pool_unref(p2);
}

} // namespace

static sim::WReg wreg(warmup);
SCENARIO(idlepool, "idlepool", "C04,C05,C30", run,
    "gutil_idlepool.c, GLib main contexts",
    "poll(2), clocks")
