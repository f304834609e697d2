/* S4: inotify watches on a simulated file system and kernel */
#include "sim.h"
#include <gutil_inotify.h>
#include <gutil_log.h>
#include <sys/inotify.h>
#include <errno.h>
#include <string.h>
#include <deque>
#include <vector>
#include <string>
#include <algorithm>

namespace {

struct Watch;
struct Handler {
    int id;
    Watch* w;
    gulong hid;
    bool connected;
};

struct Watch {
    int id;
    GUtilInotifyWatch* obj;          /* not known for callbacks until they are called */
    GUtilInotifyWatchCallback* cb;
    int fd, wd, inode;
    uint32_t mask;
    std::string path;
    int refs;                        /* harness's references (callback counts as one) */
    bool stopped;                    /* destroyed: no more events */
    bool may_stop;                   /* the kernel watch may be removed now */
    int emitting;                    /* the library keeps a reference in the meantime */
    std::vector<Handler*> handlers;
};

struct Event { int wd; uint32_t mask, cookie; bool has_name; std::string name; };

/* Events returned by one read */
struct Batch {
    int fd;
    std::deque<Event> ev;
    bool started;                    /* the first one in the queue is being handled */
    Watch* w;                        /* its watch */
    std::vector<Handler*> expect;    /* handlers to be called for the first one */
    std::vector<Handler*> seen;
    bool w_stopped;
};

static std::vector<Watch*> watches;
static std::vector<Handler*> handlers;
static std::vector<std::string> paths;
static std::vector<Batch*> batches;
static std::vector<int> others;
static int kernel_fd, opened, closed;
static uint32_t cookie_seq;
static int depth, reent, max_depth;
static bool quiet;
static int w_[20];
static uint64_t delivered;

/* What the current call into the library is expected to do to the kernel */
static struct { bool active; std::string path; uint32_t mask; int wd, fd, err; } adding;

static void action();

static bool user_has_any()
{
    for (Watch* w : watches) if (w->refs || w->emitting) return true;
    return false;
}

static Watch* live_wd(int fd, int wd)
{
    for (Watch* w : watches) if (!w->stopped && w->fd == fd && w->wd == wd) return w;
    return NULL;
}

/* ---- kernel's side ---- */

static void on_add(int fd, const char* path, uint32_t mask, int wd, int err)
{
    sim::checked();
    if (!adding.active) sim::fail("C07", "stray-add", "inotify_add_watch(%s) out of the blue", path);
    if (adding.path != path) sim::fail("C06,C07", "wrong-path", "watching %s rather than %s", path, adding.path.c_str());
    if ((mask & (IN_ALL_EVENTS | IN_ONESHOT)) != adding.mask)
        sim::fail("C06", "wrong-mask", "watching with mask 0x%08x rather than 0x%08x", mask, adding.mask);
    if (err != EBADF && kernel_fd >= 0 && fd != kernel_fd) sim::fail("C07", "two-descriptors", "watch added to another inotify descriptor");
    adding.wd = wd;
    adding.fd = fd;
    adding.err = err;
}

static void on_rm(int fd, int wd, int, int err)
{
    sim::checked();
    if (err == EBADF) sim::fail("C07", "rm-bad-fd", "inotify_rm_watch() on a descriptor which isn't there");
    if (adding.active) {
        if (adding.err || adding.wd != wd) sim::fail("C07", "rm-foreign", "kernel watch %d removed by adding one", wd);
        return;
    }
    Watch* w = live_wd(fd, wd);
    if (w && !w->may_stop) sim::fail("C06,C07", "rm-foreign", "kernel watch %d of watch %d removed by somebody else", wd, w->id);
    if (!w) sim::fail("C07", "rm-twice", "kernel watch %d removed again", wd);
    w->stopped = true;
}

static void on_open(int fd)
{
    sim::checked();
    opened++;
    if (kernel_fd >= 0) sim::fail("C07", "two-descriptors", "second inotify descriptor opened");
    kernel_fd = fd;
}

static void on_close(int fd, bool)
{
    sim::checked();
    closed++;
    if (fd != kernel_fd) sim::fail("C07", "close-other", "unexpected close");
    kernel_fd = -1;
    for (Watch* w : watches) if (w->refs) sim::fail("C07", "closed-early", "inotify descriptor closed though watch %d is alive", w->id);
}

static void on_bad_close(int)
{
    sim::fail("C07", "closed-twice", "close() of a descriptor which isn't open (any more)");
}
static void on_foreign_close(int)
{
    sim::fail("C07", "close-foreign", "the library closed somebody else's descriptor");
}

static void on_deliver(int fd, const world::InEvent* e)
{
    Batch* b = batches.empty() ? NULL : batches.back();
    if (!b) sim::fail("C06", "stray-read", "inotify events read outside of the main loop");
    Event x;
    x.wd = e->wd; x.mask = e->mask; x.cookie = e->cookie; x.has_name = e->name != NULL;
    if (e->name) x.name = e->name;
    b->fd = fd;
    b->ev.push_back(x);
}

/* ---- delivery ---- */

static void finish_first(Batch* b)
{
    Event& e = b->ev.front();
    for (Handler* h : b->expect) {
        if (std::find(b->seen.begin(), b->seen.end(), h) != b->seen.end()) continue;
        if (!h->connected || b->w->stopped || !b->w->refs) continue;
        sim::fail("C06", "event-lost", "handler %d of watch %d missed event 0x%08x cookie %u name %s", h->id, b->w->id,
            e.mask, e.cookie, e.has_name ? e.name.c_str() : "(none)");
    }
    sim::checked();
    if (b->w) {
        b->w->emitting--;
        if (!b->w->refs && !b->w->emitting && !b->w->stopped)
            sim::fail("C07", "rm-missing", "watch %d went away without its kernel watch being removed", b->w->id);
    }
    b->w = NULL;
    b->ev.pop_front();
    b->expect.clear();
    b->seen.clear();
    b->started = false;
    delivered++;
}

static void start_first(Batch* b)
{
    Event& e = b->ev.front();
    b->started = true;
    b->w = live_wd(b->fd, e.wd);
    b->expect.clear();
    b->seen.clear();
    if (b->w) {
        b->w->emitting++;
        for (Handler* h : b->w->handlers) if (h->connected) b->expect.push_back(h);
    }
}

static bool same(const Event& e, guint mask, guint cookie, const char* name)
{
    return e.mask == mask && e.cookie == cookie && e.has_name == (name != NULL) && (!name || e.name == name);
}

static void on_event(GUtilInotifyWatch* obj, guint mask, guint cookie, const char* name, void* arg)
{
    Handler* h = (Handler*)arg;
    Watch* w = h->w;
    sim::checked();
    sim::log("handler %d of watch %d: 0x%08x cookie %u name %s", h->id, w->id, mask, cookie, name ? name : "(none)");
    if (batches.empty()) sim::fail("C06", "stray-call", "handler called outside of the main loop");
    if (!h->connected) sim::fail("C06", "after-removal", "handler %d called after it has been removed", h->id);
    Batch* b = batches.back();
    /* Which one is this? A handler added by another one may or may not get the current event */
    if (b->started && (b->w != w || std::find(b->seen.begin(), b->seen.end(), h) != b->seen.end() ||
        (std::find(b->expect.begin(), b->expect.end(), h) == b->expect.end() &&
         !same(b->ev.front(), mask, cookie, name)))) finish_first(b);
    while (!b->started) {
        if (b->ev.empty()) sim::fail("C06", "event-invented", "handler %d of watch %d called for event 0x%08x which the kernel has not reported",
            h->id, w->id, mask);
        start_first(b);
        if (b->w == w && !b->expect.empty()) break;
        /* Nobody is interested in this one */
        finish_first(b);
    }
    Event& e = b->ev.front();
    if (w->stopped && std::find(b->expect.begin(), b->expect.end(), h) == b->expect.end())
        sim::fail("C06", "after-destroy", "handler %d of watch %d called after its watch was destroyed", h->id, w->id);
    if (!same(e, mask, cookie, name))
        sim::fail("C06", "event-changed", "handler %d of watch %d got event 0x%08x cookie %u name %s rather than 0x%08x cookie %u name %s",
            h->id, w->id, mask, cookie, name ? name : "(none)", e.mask, e.cookie, e.has_name ? e.name.c_str() : "(none)");
    if (w->obj) { if (w->obj != obj) sim::fail("C06", "wrong-watch", "handler %d called for another watch", h->id); }
    else w->obj = obj;
    b->seen.push_back(h);
    uint64_t s = sim::mix(b->ev.size(), b->expect.size() * 16 + b->seen.size());
    s = sim::mix(s, watches.size() > 8 ? 8 : watches.size());
    s = sim::mix(s, (w->stopped ? 1 : 0) + 2 * (unsigned)w->refs);
    sim::state(s);
    if (quiet || !sim::faults_enabled() || depth >= max_depth) return;
    depth++;
    while (sim::flip(reent)) {
        sim::nontrivial();
        action();
    }
    depth--;
}

static void iterate()
{
    Batch b;
    b.fd = -1;
    b.started = false;
    b.w = NULL;
    batches.push_back(&b);
    world::iterate();
    while (b.started || !b.ev.empty()) {
        if (!b.started) start_first(&b);
        finish_first(&b);
    }
    batches.pop_back();
}

/* ---- invariants ---- */

static void check_kernel()
{
    sim::checked();
    const bool any = user_has_any();
    const int n = world::inotify_instances();
    if (n > 1) sim::fail("C07", "two-descriptors", "%d inotify descriptors", n);
    if (!any && n && batches.empty()) sim::fail("C07,C22", "not-closed", "inotify descriptor is still open though there are no watches");
    if (any && !n) sim::fail("C07", "closed-early", "no inotify descriptor though there are watches");
    if (!n) return;
    int fd = world::inotify_fd();
    int expected = 0;
    for (Watch* w : watches) {
        if (!w->stopped && world::inotify_watch_alive(fd, w->wd)) expected++;
    }
    int actual = world::inotify_kernel_watches(fd);
    if (actual != expected) sim::fail("C07,C22", "kernel-watch-leak", "%d kernel watches, %d expected", actual, expected);
}

/* ---- operations ---- */

static const uint32_t event_bits[] = {
    IN_MODIFY, IN_CREATE, IN_DELETE, IN_ATTRIB, IN_CLOSE_WRITE, IN_MOVED_FROM, IN_MOVED_TO, IN_OPEN,
    IN_ACCESS, IN_CLOSE_NOWRITE, IN_MOVE_SELF, IN_DELETE_SELF };

static uint32_t random_mask()
{
    if (sim::flip(700)) {
        uint32_t m = 0;
        for (uint32_t b : event_bits) if (sim::choose(2)) m |= b;
        if (!m) m = IN_MODIFY;
        if (sim::faults_enabled() && sim::flip(80)) m |= IN_ONESHOT;
        return m;
    }
    return IN_ALL_EVENTS;
}

static const char* random_name(char* buf)
{
    static const int lens[] = { 1, 3, 14, 15, 16, 17, 31, 32, 100, 254, 255 };
    int n = lens[sim::choose(11)];
    int c = sim::choose(26);
    for (int i = 0; i < n; i++) buf[i] = 'a' + (c + i) % 26;
    buf[n] = 0;
    return buf;
}

static int random_inode()
{
    if (paths.empty()) return -1;
    /* Usually something that's watched */
    if (sim::flip(900)) {
        std::vector<Watch*> l;
        for (Watch* w : watches) if (w->refs && !w->stopped) l.push_back(w);
        if (!l.empty()) return l[sim::choose((uint32_t)l.size())]->inode;
    }
    return world::fs_lookup(paths[sim::choose((uint32_t)paths.size())].c_str());
}

static void op_event()
{
    char name[300];
    int inode = random_inode();
    if (inode < 0) return;
    if (sim::flip(150)) {
        /* rename, the two halves have the same cookie */
        int to = random_inode();
        uint32_t c = ++cookie_seq;
        random_name(name);
        sim::log("rename %s from inode %d to %d cookie %u", name, inode, to, c);
        world::fs_event(inode, IN_MOVED_FROM | (sim::choose(2) ? IN_ISDIR : 0), c, name);
        random_name(name);
        if (to >= 0) world::fs_event(to, IN_MOVED_TO, c, name);
    } else {
        uint32_t m = event_bits[sim::choose(8)];
        const char* n = sim::flip(600) ? random_name(name) : NULL;
        sim::log("event 0x%08x on inode %d name %s", m, inode, n ? n : "(none)");
        world::fs_event(inode, m, 0, n);
    }
}

static void inject_creation_fault()
{
    static const int ei[] = { EMFILE, ENFILE, ENOMEM };
    static const int ea[] = { ENOSPC, EACCES, ENOENT, ENOMEM };
    if (!sim::faults_enabled()) return;
    if (sim::flip(120)) world::faults.inotify_init_err = ei[sim::choose(3)];
    if (sim::flip(120)) world::faults.inotify_add_err = ea[sim::choose(4)];
}

static void add_handler(Watch* w)
{
    Handler* h = new Handler();
    h->id = (int)handlers.size();
    h->w = w;
    h->hid = 0;
    h->connected = true;
    handlers.push_back(h);
    w->handlers.push_back(h);
    h->hid = gutil_inotify_watch_add_handler(w->obj, on_event, h);
    if (!h->hid) sim::fail("C06", "add-handler", "handler not added");
    sim::log("handler %d added to watch %d", h->id, w->id);
}

static void op_new(bool with_cb)
{
    if (watches.size() >= 24 || paths.empty()) return;
    std::string path;
    if (sim::flip(60)) path = "/missing";
    else path = paths[sim::choose((uint32_t)paths.size())];
    int inode = world::fs_lookup(path.c_str());
    /* The kernel has just one watch per inode (see the aliasing scenario) */
    int fd = world::inotify_fd();
    if (fd >= 0 && inode >= 0 && world::inotify_inode_wd(fd, inode) >= 0) return;
    const uint32_t mask = random_mask();
    inject_creation_fault();
    Watch* w = new Watch();
    w->id = (int)watches.size();
    w->path = path;
    w->inode = inode;
    w->mask = mask;
    Handler* h = NULL;
    if (with_cb) {
        h = new Handler();
        h->id = (int)handlers.size();
        h->w = w;
        h->connected = true;
        handlers.push_back(h);
    }
    bool had_any = user_has_any();
    adding.active = true;
    adding.path = path;
    adding.mask = mask & (IN_ALL_EVENTS | IN_ONESHOT);
    adding.wd = adding.fd = -1;
    adding.err = -1;
    const int init_err = world::faults.inotify_init_err, add_err = world::faults.inotify_add_err;
    if (with_cb) {
        w->cb = gutil_inotify_watch_callback_new(path.c_str(), mask, on_event, h);
    } else {
        w->obj = gutil_inotify_watch_new(path.c_str(), mask);
    }
    adding.active = false;
    /* What's no longer there has happened */
    const bool refused = inode < 0 || world::faults.inotify_init_err != init_err || world::faults.inotify_add_err != add_err;
    world::faults.inotify_init_err = world::faults.inotify_add_err = 0;
    const bool ok = adding.err == 0;
    const bool got = w->cb || w->obj;
    sim::log("watch %d: %s inode %d mask 0x%08x%s -> %s", w->id, path.c_str(), inode, mask, with_cb ? " callback" : "", got ? "ok" : "failed");
    sim::checked();
    if (got && !ok) sim::fail("C07", "phantom-watch", "watch created though the kernel refused");
    if (!got && ok) sim::fail("C06,C07", "create-failed", "watch not created though the kernel agreed");
    if (!got && !refused) sim::fail("C06,C07", "create-failed", "watch not created though the kernel has not refused anything");
    if (!got) {
        sim::probe("inotify.creation_failed");
        if (had_any) sim::probe("inotify.creation_failed_next_to_others");
        delete w;
        if (h) { handlers.pop_back(); delete h; }
    } else {
        w->fd = adding.fd;
        w->wd = adding.wd;
        w->refs = 1;
        if (h) w->handlers.push_back(h);
        watches.push_back(w);
        if (opened > 1) sim::probe("inotify.reopened");
        if (depth) sim::probe("inotify.created_in_handler");
    }
    check_kernel();
}

static Watch* pick()
{
    std::vector<Watch*> l;
    for (Watch* w : watches) if (w->obj && w->refs > (w->cb ? 1 : 0)) l.push_back(w);
    return l.empty() ? NULL : l[sim::choose((uint32_t)l.size())];
}

static void dropped(Watch* w, const char* how)
{
    if (w->refs) return;
    if (w->emitting) {
        /* The emission keeps it alive */
        sim::fault("last_ref_dropped_in_handler");
    } else if (!w->stopped) {
        sim::fail("C07", "rm-missing", "watch %d went away by %s without its kernel watch being removed", w->id, how);
    }
}

static void op_destroy(Watch* w)
{
    sim::log("destroy watch %d%s", w->id, w->refs == 1 ? " (last)" : "");
    if (depth) sim::probe(w->emitting ? "inotify.destroy_self_in_handler" : "inotify.destroy_other_in_handler");
    w->may_stop = true;
    w->refs--;
    gutil_inotify_watch_destroy(w->obj);
    if (!w->stopped) sim::fail("C07", "rm-missing", "kernel watch not removed by destroying watch %d", w->id);
    dropped(w, "destroy");
    check_kernel();
}

static void op_unref(Watch* w)
{
    sim::log("unref watch %d%s", w->id, w->refs == 1 ? " (last)" : "");
    w->refs--;
    if (!w->refs) w->may_stop = true;
    gutil_inotify_watch_unref(w->obj);
    dropped(w, "unref");
    check_kernel();
}

static void op_free_cb(Watch* w)
{
    sim::log("free callback of watch %d", w->id);
    GUtilInotifyWatchCallback* cb = w->cb;
    w->cb = NULL;
    w->refs--;
    w->handlers[0]->connected = false;
    if (depth && w->emitting) sim::probe("inotify.free_callback_in_handler");
    if (!w->refs) w->may_stop = true;
    gutil_inotify_watch_callback_free(cb);
    dropped(w, "free");
    check_kernel();
}

static void op_drain()
{
    /* Everything that's pending gets delivered eventually */
    world::FaultPlan save = world::faults;
    memset(&world::faults, 0, sizeof(world::faults));
    const bool save_quiet = quiet;
    sim::log("drain {");
    int n = 0, fd = world::inotify_fd();
    while (fd >= 0 && world::inotify_pending(fd) && !world::fd_broken(fd)) {
        if (++n > 1500) quiet = true;     /* handlers have been causing events all the time */
        if (n > 3000) sim::fail(world::awake() ? "C06,C07,C30" : "C06,C07", "stuck", "pending inotify events are not being read");
        iterate();
        fd = world::inotify_fd();
    }
    quiet = save_quiet;
    /* If there's nothing to read then the main loop can sleep, also if the descriptor has failed */
    for (int i = 0; i < 3 && world::fd_broken(world::inotify_fd()); i++) iterate();
    fd = world::inotify_fd();
    if (fd < 0 || !world::inotify_pending(fd) || world::fd_broken(fd)) {
        const char* why = world::awake();
        sim::checked();
        if (why) sim::fail("C30", "awake", "the main loop can't sleep though there's nothing to read: %s", why);
    }
    sim::log("}");
    world::faults = save;
}

static void action()
{
    int a = sim::pickw(w_, 17);
    switch (a) {
    case 0: for (int n = depth ? 1 : sim::burst(150); n > 0; n--) op_event(); break;
    case 1: if (!depth) iterate(); break;
    case 2: op_new(false); break;
    case 3: { Watch* w = pick(); if (w) op_destroy(w); break; }
    case 4: {
        std::vector<Watch*> l;
        for (Watch* x : watches) if (x->obj && x->refs) l.push_back(x);
        Watch* w = l.empty() ? NULL : l[sim::choose((uint32_t)l.size())];
        if (w && w->refs < 4) {
            sim::log("ref watch %d", w->id);
            w->refs++;
            if (gutil_inotify_watch_ref(w->obj) != w->obj) sim::fail("C07", "ref-result", "bad ref");
        }
        break;
    }
    case 5: { Watch* w = pick(); if (w) op_unref(w); break; }
    case 6: { Watch* w = pick(); if (w && w->handlers.size() < 6) for (int n = sim::burst(70); n > 0; n--) add_handler(w); break; }
    case 7: {
        std::vector<Handler*> l;
        for (Handler* h : handlers) if (h->connected && h->hid && h->w->obj && h->w->refs) l.push_back(h);
        if (!l.empty()) {
            Handler* h = l[sim::choose((uint32_t)l.size())];
            sim::log("handler %d removed", h->id);
            if (depth) sim::probe("inotify.remove_handler_in_handler");
            h->connected = false;
            gutil_inotify_watch_remove_handler(h->w->obj, h->hid);
        }
        break;
    }
    case 8: op_new(true); break;
    case 9: {
        std::vector<Watch*> l;
        for (Watch* w : watches) if (w->cb) l.push_back(w);
        if (!l.empty()) op_free_cb(l[sim::choose((uint32_t)l.size())]);
        break;
    }
    case 10:
        if (paths.size() < 16) {
            char p[32];
            g_snprintf(p, sizeof(p), "/d%d", (int)paths.size());
            paths.push_back(p);
            sim::log("create %s inode %d", p, world::fs_create(p));
        } else {
            const std::string& p = paths[sim::choose((uint32_t)paths.size())];
            if (world::fs_lookup(p.c_str()) < 0) sim::log("create %s inode %d", p.c_str(), world::fs_create(p.c_str()));
        }
        break;
    case 11: if (sim::faults_enabled()) {
            int inode = random_inode();
            if (inode >= 0) {
                sim::log("inode %d deleted", inode);
                sim::fault("inotify.watched_file_deleted");
                world::fs_delete_inode(inode);
            }
        }
        break;
    case 12: if (sim::faults_enabled()) {
            int fd = world::inotify_fd();
            if (fd >= 0) {
                sim::log("overflow");
                world::inotify_overflow(fd);
            }
        }
        break;
    case 13:
        if (others.size() < 6 && sim::choose(2)) {
            int fd = world::other_fd_open();
            others.push_back(fd);
            sim::log("somebody opens a descriptor");
        } else if (!others.empty()) {
            sim::log("somebody closes a descriptor");
            world::other_fd_close(others.back());
            others.pop_back();
        }
        break;
    case 14: if (!depth) op_drain(); break;
    case 15:
        if (sim::faults_enabled()) {
            static const int lim[] = { 16384, 1, 2, 5 };
            world::inotify_set_queue_limit(lim[sim::choose(4)]);
        }
        break;
    case 16:
        if (gutil_inotify_watch_new(NULL, IN_MODIFY) || gutil_inotify_watch_ref(NULL) ||
            gutil_inotify_watch_add_handler(NULL, on_event, NULL) || gutil_inotify_watch_callback_new(NULL, IN_MODIFY, on_event, NULL))
            sim::fail("C07", "null", "NULL was taken for something");
        gutil_inotify_watch_destroy(NULL);
        gutil_inotify_watch_unref(NULL);
        gutil_inotify_watch_callback_free(NULL);
        gutil_inotify_watch_remove_handler(NULL, 1);
        check_kernel();
        break;
    }
}

static void run()
{
    static const int base[17] = { 45, 20, 12, 4, 3, 5, 16, 6, 8, 4, 12, 2, 2, 3, 3, 1, 1 };
    gutil_log_default.level = GLOG_LEVEL_NONE;
    int mean = 20 + 20 * sim::choose(4);
    kernel_fd = -1;
    reent = sim::faults_enabled() ? 100 + 150 * sim::choose(4) : 0;
    max_depth = 1;
    for (int i = 0; i < 17; i++) w_[i] = base[i] * (1 + (int)sim::choose(3));
    if (sim::faults_enabled()) {
        if (sim::flip(400)) world::faults.read_eintr = 150;
        if (sim::flip(400)) world::faults.read_eagain = 200;
        if (sim::flip(400)) world::faults.read_short = 300;
        if (sim::flip(200)) world::faults.poll_eintr = 200;
        if (sim::flip(60)) world::faults.read_eio = 60;
        if (sim::flip(60)) world::faults.poll_err = 30;
        if (sim::flip(120)) {
            sim::fault("process.stdin_closed");
            world::set_stdin_closed();
        }
    }
    world::inotify_hooks.on_add = on_add;
    world::inotify_hooks.on_rm = on_rm;
    world::inotify_hooks.on_open = on_open;
    world::inotify_hooks.on_close = on_close;
    world::inotify_hooks.on_deliver = on_deliver;
    world::on_bad_close = on_bad_close;
    world::on_foreign_close = on_foreign_close;
    for (int i = 0; i < 3; i++) {
        char p[32];
        g_snprintf(p, sizeof(p), "/d%d", i);
        paths.push_back(p);
        world::fs_create(p);
    }
    while (sim::more(mean)) {
        action();
        check_kernel();
    }
    sim::span();
    quiet = true;
    memset(&world::faults, 0, sizeof(world::faults));
    world::inotify_set_queue_limit(16384);
    op_drain();
    /* What's still there is still working, faults or not */
    for (size_t i = 0; i < watches.size(); i++) {
        Watch* w = watches[i];
        if (!w->refs || w->stopped || !world::inotify_watch_alive(w->fd, w->wd) || world::fd_broken(w->fd)) continue;
        bool any = false;
        for (Handler* h : w->handlers) any |= h->connected;
        if (!any) continue;
        uint32_t bit = 0;
        for (uint32_t b : event_bits) if (w->mask & b) { bit = b; break; }
        uint64_t before = delivered;
        sim::log("final event 0x%08x on watch %d", bit, w->id);
        world::fs_event(w->inode, bit, 0, "final");
        op_drain();
        sim::checked();
        if (delivered == before) sim::fail("C06,C07", "dead", "watch %d does not work any more", w->id);
    }
    const bool broken = world::fd_broken(world::inotify_fd());
    for (Watch* w : watches) {
        if (w->cb) op_free_cb(w);
        while (w->refs) { if (sim::choose(2)) op_destroy(w); else op_unref(w); }
    }
    check_kernel();
    if (opened != closed) sim::fail("C07,C22", "not-closed", "%d descriptors opened, %d closed", opened, closed);
    if (broken) {
        /* The next descriptor works */
        world::fs_create("/fresh");
        paths.assign(1, "/fresh");
        const size_t n = watches.size();
        op_new(false);
        if (watches.size() > n) {
            Watch* w = watches[n];
            add_handler(w);
            const uint64_t before = delivered;
            for (uint32_t b : event_bits) if (w->mask & b) { world::fs_event(w->inode, b, 0, "fresh"); break; }
            op_drain();
            if (delivered == before) sim::fail("C06,C07", "dead", "watch %d does not work", w->id);
            op_destroy(w);
            check_kernel();
            sim::probe("inotify.broken_and_recovered");
        }
    }
    for (int fd : others) world::other_fd_close(fd);
    op_drain();
    if (delivered > 2) sim::nontrivial();
    iterate();
}

/* Two watches of the same file */
static int alias_calls[2];
static void on_alias(GUtilInotifyWatch*, guint, guint, const char*, void* arg) { alias_calls[*(int*)arg]++; }

static void run_alias()
{
    static int idx[2] = { 0, 1 };
    gutil_log_default.level = GLOG_LEVEL_NONE;
    int inode = world::fs_create("/a");
    world::fs_link("/b", inode);
    const bool link = sim::choose(2) == 1;
    GUtilInotifyWatch* w1 = gutil_inotify_watch_new("/a", IN_MODIFY);
    GUtilInotifyWatch* w2 = gutil_inotify_watch_new(link ? "/b" : "/a", IN_MODIFY);
    if (!w1 || !w2) sim::fail("C06", "alias-create", "could not create two watches of one file");
    gulong i1 = gutil_inotify_watch_add_handler(w1, on_alias, idx);
    gulong i2 = gutil_inotify_watch_add_handler(w2, on_alias, idx + 1);
    world::fs_event(inode, IN_MODIFY, 0, NULL);
    while (world::inotify_fd() >= 0 && world::inotify_pending(world::inotify_fd())) world::iterate();
    sim::checked();
    sim::nontrivial();
    sim::log("aliases called %d and %d times", alias_calls[0], alias_calls[1]);
    if (alias_calls[0] != 1 || alias_calls[1] != 1) {
        if (!sim::is_known("same-file")) sim::fail("C06", "same-file", "two watches of the same file, one does not get its event");
        sim::known("same-file", "two watches of the same file share one kernel watch: the older one gets no events, and destroying either of them stops the other one too");
    }
    gutil_inotify_watch_remove_handler(w1, i1);
    gutil_inotify_watch_remove_handler(w2, i2);
    gutil_inotify_watch_destroy(w2);
    gutil_inotify_watch_destroy(w1);
    if (world::inotify_instances()) sim::fail("C07,C22", "not-closed", "inotify descriptor is still open");
}

static void warmup()
{
    gutil_log_default.level = GLOG_LEVEL_NONE;
    world::fs_create("/w");
    GUtilInotifyWatch* w = gutil_inotify_watch_new("/w", IN_MODIFY);
    gutil_inotify_watch_remove_handler(w, gutil_inotify_watch_add_handler(w, on_alias, NULL));
    world::fs_event(world::fs_lookup("/w"), IN_MODIFY, 0, "x");
    world::iterate();
    gutil_inotify_watch_destroy(w);
}

} // namespace

static sim::WReg wreg(warmup);
SCENARIO(inotify, "inotify", "C06,C07,C30", run,
    "gutil_inotify.c, GLib main loop, GLib I/O channels, GObject signals",
    "inotify, the file system, descriptors, poll(2), read(2), close(2)")
SCENARIO(inotify_alias, "inotify_alias", "C06", run_alias,
    "gutil_inotify.c", "inotify, the file system, descriptors, poll(2), read(2), close(2)")
