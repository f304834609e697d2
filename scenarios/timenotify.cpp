/* S5: wall clock notifier on a simulated clock and timer */
#include "sim.h"
#include <gutil_timenotify.h>
#include <gutil_log.h>
#include <errno.h>
#include <string.h>
#include <vector>

namespace {

struct Handler {
    int id;
    gulong hid;
    bool connected;
    bool pending;           /* the clock has been set since its last call */
    int calls;              /* in the current iteration */
};

static std::vector<Handler*> handlers;
static GUtilTimeNotify* obj;
static int refs, depth, emitting, opened, closed, timer_fd;
static bool works;          /* the kernel timer has been set up */
static bool allowed;        /* the clock has been set, handlers may be called */
static bool created;
static int reent, w_[12];
static bool quiet;
static std::vector<int> others;

static void action();

static void on_create(int fd, int)
{
    sim::checked();
    if (refs > 0) sim::fail("C08", "second-timer", "another kernel timer created");
    created = true;
    if (fd >= 0) {
        if (timer_fd >= 0) sim::fail("C08", "second-timer", "another kernel timer created");
        opened++;
        timer_fd = fd;
    }
}

static void on_close(int fd)
{
    sim::checked();
    if (fd != timer_fd) sim::fail("C08", "closed-other", "unexpected close");
    if (refs > 0) sim::fail("C08", "closed-early", "kernel timer closed though there are references");
    closed++;
    timer_fd = -1;
}
static void on_bad_close(int) { sim::fail("C08", "closed-twice", "close() of a descriptor which isn't open (any more)"); }
static void on_foreign_close(int) { sim::fail("C08", "close-foreign", "the library closed somebody else's descriptor"); }

static void drop_handlers()
{
    for (Handler* h : handlers) h->connected = h->pending = false;
}

static void on_time(GUtilTimeNotify* n, void* arg)
{
    Handler* h = (Handler*)arg;
    sim::log("handler %d called", h->id);
    sim::checked();
    if (!h->connected) sim::fail("C08", "after-removal", "handler %d called after it has been removed", h->id);
    if (!allowed) sim::fail("C08", "spurious", "handler %d called though the clock has not been set", h->id);
    if (n != obj) sim::fail("C08", "other-object", "handler %d called by another notifier", h->id);
    if (++h->calls > 1) sim::fail("C08", "twice", "handler %d called twice in one main loop iteration", h->id);
    h->pending = false;
    sim::state(sim::mix(handlers.size() * 8 + (unsigned)refs, depth * 4 + works * 2 + (timer_fd >= 0)));
    if (quiet || !sim::faults_enabled() || depth) return;
    depth++;
    emitting++;
    while (sim::flip(reent)) {
        sim::nontrivial();
        action();
    }
    emitting--;
    depth--;
}

static void iterate()
{
    allowed = timer_fd >= 0 && world::timerfd_cancelled(timer_fd);
    for (Handler* h : handlers) h->calls = 0;
    const bool had = refs > 0;
    world::iterate();
    allowed = false;
    /* The last reference could have been dropped by a handler */
    if (had && !refs) drop_handlers();
}

static void drain()
{
    world::FaultPlan save = world::faults;
    memset(&world::faults, 0, sizeof(world::faults));
    int n = 0;
    const bool save_quiet = quiet;
    do {
        if (++n > 20) quiet = true;       /* handlers have been setting the clock all the time */
        if (n > 50) sim::fail(world::awake() ? "C08,C30" : "C08", "stuck", "the timer is not being read");
        iterate();
        if (world::fd_broken(timer_fd)) break;
    } while (timer_fd >= 0 && world::timerfd_cancelled(timer_fd));
    quiet = save_quiet;
    sim::checked();
    /* Nothing can be expected from a broken timer, until the next one */
    for (Handler* h : handlers) {
        if (!world::fd_broken(timer_fd) && h->connected && h->pending) sim::fail("C08", "missed", "handler %d has not been called though the clock has been set", h->id);
    }
    /* If nothing has changed then the main loop can sleep, also if the timer has failed */
    for (int i = 0; i < 3 && world::fd_broken(timer_fd); i++) iterate();
    if (timer_fd < 0 || !world::timerfd_cancelled(timer_fd)) {
        const char* why = world::awake();
        sim::checked();
        if (why) sim::fail("C08,C30", "awake", "the main loop can't sleep though the clock has not been set: %s", why);
    }
    world::faults = save;
}

static void check()
{
    sim::checked();
    const int n = world::timerfd_instances();
    if (n > 1) sim::fail("C08", "second-timer", "%d kernel timers", n);
    if (!refs && n && !depth) sim::fail("C08,C22", "not-closed", "kernel timer is still there though there are no references");
    if (refs && works && !n) sim::fail("C08", "closed-early", "kernel timer is gone");
    if (opened - closed != n) sim::fail("C08,C22", "not-closed", "%d timers created, %d closed", opened, closed);
}

static void op_new()
{
    static const int ec[] = { EMFILE, ENFILE, ENOMEM, ENODEV };
    if (refs > 6) return;
    const bool alive = refs > 0 || emitting;
    created = false;
    if (sim::faults_enabled() && !alive) {
        if (sim::flip(200)) world::faults.timerfd_create_err = ec[sim::choose(4)];
        else if (sim::flip(100)) world::faults.timerfd_settime_err = EINVAL;
    }
    const bool fault = world::faults.timerfd_create_err || world::faults.timerfd_settime_err;
    GUtilTimeNotify* n = gutil_time_notify_new();
    world::faults.timerfd_create_err = world::faults.timerfd_settime_err = 0;
    sim::log("new%s%s", alive ? " (shared)" : "", fault ? " (silent)" : "");
    sim::checked();
    if (!n) sim::fail("C08", "no-object", "no notifier");
    if (alive) {
        if (n != obj) sim::fail("C08", "not-shared", "not the same notifier");
    } else {
        if (!created) sim::fail("C08", "no-timer", "kernel timer not created");
        obj = n;
        works = !fault;
        if (opened > 1 && works) sim::probe("timenotify.created_again");
        if (!works) sim::probe("timenotify.silent");
    }
    refs++;
}

static void op_unref()
{
    if (!refs) return;
    sim::log("unref%s", refs == 1 ? " (last)" : "");
    refs--;
    if (!refs && emitting) sim::fault("last_ref_dropped_in_handler");
    gutil_time_notify_unref(obj);
    if (!refs && !emitting) drop_handlers();
}

static void action()
{
    switch (sim::pickw(w_, 10)) {
    case 0:
        sim::log("clock set");
        sim::fault("clock.stepped");
        world::step_real_ns((sim::choose(2) ? 1 : -1) * (int64_t)sim::choose(1000000) * 3600000000ll);
        world::timerfd_set_clock_notify();
        if (works && refs) for (Handler* h : handlers) if (h->connected) h->pending = true;
        break;
    case 1: if (depth) { world::iterate(); } else iterate(); break;
    case 2: op_new(); break;
    case 3: op_unref(); break;
    case 4: case 5:
        if (refs && handlers.size() < 20) {
            Handler* h = new Handler();
            memset(h, 0, sizeof(*h));
            h->id = (int)handlers.size();
            h->connected = true;
            h->hid = gutil_time_notify_add_handler(obj, on_time, h);
            if (!h->hid) sim::fail("C08", "add-handler", "handler not added");
            handlers.push_back(h);
            sim::log("handler %d added", h->id);
        }
        break;
    case 6: {
        std::vector<Handler*> l;
        for (Handler* h : handlers) if (h->connected) l.push_back(h);
        if (l.empty() || !refs) break;
        Handler* h = l[sim::choose((uint32_t)l.size())];
        sim::log("handler %d removed", h->id);
        if (depth) sim::probe("timenotify.remove_handler_in_handler");
        h->connected = h->pending = false;
        gutil_time_notify_remove_handler(obj, h->hid);
        break;
    }
    case 7:
        /* Time passes as it should */
        world::advance_ns((int64_t)sim::choose(100000) * 1000000000ll);
        sim::log("time passes");
        break;
    case 8: if (!depth) drain(); break;
    case 9:
        if (sim::choose(2)) {
            if (gutil_time_notify_ref(NULL) || gutil_time_notify_add_handler(NULL, on_time, NULL))
                sim::fail("C08", "null", "NULL was taken for something");
            gutil_time_notify_unref(NULL);
            gutil_time_notify_remove_handler(NULL, 1);
            if (refs) {
                gutil_time_notify_remove_handler(obj, 0);
                if (gutil_time_notify_add_handler(obj, NULL, NULL)) sim::fail("C08", "null", "NULL handler added");
            }
        } else if (refs && refs < 6) {
            sim::log("ref");
            refs++;
            if (gutil_time_notify_ref(obj) != obj) sim::fail("C08", "ref-result", "bad ref");
        } else if (others.size() < 4) {
            others.push_back(world::other_fd_open());
        } else {
            world::other_fd_close(others.back());
            others.pop_back();
        }
        break;
    }
    if (!depth) check();
}

static void run()
{
    static const int base[10] = { 20, 15, 6, 6, 8, 8, 6, 4, 6, 4 };
    gutil_log_default.level = GLOG_LEVEL_NONE;
    timer_fd = -1;
    reent = sim::faults_enabled() ? 100 + 150 * sim::choose(4) : 0;
    int mean = 20 + 20 * sim::choose(3);
    for (int i = 0; i < 10; i++) w_[i] = base[i] * (1 + (int)sim::choose(3));
    if (sim::faults_enabled()) {
        if (sim::flip(400)) world::faults.read_eintr = 150;
        if (sim::flip(300)) world::faults.read_eagain = 150;
        if (sim::flip(200)) world::faults.poll_eintr = 200;
        if (sim::flip(60)) world::faults.read_eio = 100;
        if (sim::flip(60)) world::faults.poll_err = 60;
        if (sim::flip(120)) {
            sim::fault("process.stdin_closed");
            world::set_stdin_closed();
        }
    }
    world::timer_hooks.on_create = on_create;
    world::timer_hooks.on_close = on_close;
    world::on_bad_close = on_bad_close;
    world::on_foreign_close = on_foreign_close;
    while (sim::more(mean)) action();
    sim::span();
    quiet = true;
    memset(&world::faults, 0, sizeof(world::faults));
    drain();
    int calls = 0;
    for (Handler* h : handlers) if (h->connected) calls++;
    if (calls && works && refs && !world::fd_broken(timer_fd)) {
        /* Still working */
        world::timerfd_set_clock_notify();
        for (Handler* h : handlers) if (h->connected) h->pending = true;
        drain();
        sim::nontrivial();
    }
    const bool broken = refs && world::fd_broken(timer_fd);
    while (refs) op_unref();
    check();
    if (broken && (op_new(), !works)) {
        op_unref();
    } else if (broken) {
        /* The next one works */
        Handler h;
        memset(&h, 0, sizeof(h));
        h.id = -1;
        h.connected = h.pending = true;
        h.hid = gutil_time_notify_add_handler(obj, on_time, &h);
        world::timerfd_set_clock_notify();
        handlers.push_back(&h);
        drain();
        handlers.pop_back();
        op_unref();
        check();
        sim::probe("timenotify.broken_and_recovered");
    }
    for (int fd : others) world::other_fd_close(fd);
    drain();
}

static void warmup()
{
    gutil_log_default.level = GLOG_LEVEL_NONE;
    GUtilTimeNotify* n = gutil_time_notify_new();
    gutil_time_notify_remove_handler(n, gutil_time_notify_add_handler(n, on_time, NULL));
    world::timerfd_set_clock_notify();
    world::iterate();
    gutil_time_notify_unref(n);
}

} // namespace

static sim::WReg wreg(warmup);
SCENARIO(timenotify, "timenotify", "C08,C30", run,
    "gutil_timenotify.c, GLib main loop, GLib I/O channels, GObject signals",
    "timerfd, the wall clock, descriptors, poll(2), read(2), close(2)")
