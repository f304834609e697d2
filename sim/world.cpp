/* The simulated machine: clocks, descriptors, inotify, timerfd, syslog */
#include "internal.h"

#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <time.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/inotify.h>
#include <sys/timerfd.h>
#include <sys/syscall.h>

#include <map>
#include <deque>
#include <vector>
#include <string>

using sim::log;

/* Raw system calls which bypass the seams */
static long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
{
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    long ret;
    __asm__ volatile("syscall" : "=a"(ret)
        : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
        : "rcx", "r11", "memory");
    return ret;
}
static long ret(long r)
{
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

namespace world {

enum { FD_BASE = 700, FD_MAX = 764 };
enum Kind { K_NONE, K_INOTIFY, K_TIMERFD, K_OTHER };

struct Ev { int wd; uint32_t mask, cookie; bool has_name; std::string name; };
struct Watch { int inode; uint32_t mask; };
struct Fd {
    Kind kind;
    bool nonblock;
    bool broken;
    bool broken_read;      /* and goes on failing */
    short broken_poll;
    /* inotify */
    std::map<int, Watch> watches;
    std::deque<Ev> queue;
    int next_wd;
    bool overflowed;
    /* timerfd */
    bool armed, cancel_on_set, cancelled, absolute_;
    int clockid;
};

static Fd* fds[FD_MAX - FD_BASE];
static std::map<std::string, int>* fs;
static int next_inode;
static int queue_limit;
static int64_t mono_, real_;
static uint64_t sim_ns_;
InotifyHooks inotify_hooks;
TimerHooks timer_hooks;
FaultPlan faults;
void (*on_bad_close)(int fd);
void (*on_foreign_close)(int fd);
void (*on_syslog)(int prio, const char* text);
void (*on_openlog)(void);
void (*on_closelog)(void);
void (*on_glog)(const char* domain, int level, const char* text);
static __thread int tid_;

/* If the application has closed its standard input then the first descriptor is zero */
static bool zero_free_;
static int num(int i) { return (!i && zero_free_) ? 0 : FD_BASE + i; }
static int idx(int fd)
{
    if (zero_free_ && sim::in_run && fd <= FD_BASE) return fd ? -1 : 0;
    return fd >= FD_BASE && fd < FD_MAX ? fd - FD_BASE : -1;
}
static Fd* get(int fd) { const int i = idx(fd); return i < 0 ? NULL : fds[i]; }
static bool is_virtual(int fd) { return idx(fd) >= 0; }
void set_stdin_closed() { zero_free_ = true; }

static int alloc_fd(Kind k)
{
    for (int i = 0; i < FD_MAX - FD_BASE; i++) {
        if (!fds[i]) {
            fds[i] = new Fd();
            fds[i]->kind = k;
            fds[i]->next_wd = 1;
            return num(i);
        }
    }
    sim::harness_error("out of virtual descriptors");
}

static void close_fd(int fd)
{
    const int i = idx(fd);
    delete fds[i];
    fds[i] = NULL;
}

void reset()
{
    for (int i = 0; i < FD_MAX - FD_BASE; i++) { delete fds[i]; fds[i] = NULL; }
    zero_free_ = false;
    if (!fs) fs = new std::map<std::string, int>();
    fs->clear();
    next_inode = 1;
    queue_limit = 16384;
    mono_ = 1000ll * 1000000000ll;
    real_ = 1700000000ll * 1000000000ll;
    sim_ns_ = 0;
    memset(&inotify_hooks, 0, sizeof(inotify_hooks));
    memset(&timer_hooks, 0, sizeof(timer_hooks));
    memset(&faults, 0, sizeof(faults));
    on_bad_close = on_foreign_close = NULL;
    on_syslog = NULL;
    on_openlog = on_closelog = NULL;
    on_glog = NULL;
}

int64_t mono_ns() { return mono_; }
int64_t real_ns() { return real_; }
void advance_ns(int64_t ns) { mono_ += ns; real_ += ns; sim_ns_ += ns; }
void step_real_ns(int64_t d) { real_ += d; }
uint64_t simulated_ns() { return sim_ns_; }

int open_fds()
{
    int n = 0;
    for (auto f : fds) if (f && f->kind != K_OTHER) n++;
    return n;
}

bool fd_is_open(int fd) { return get(fd) != NULL; }
bool fd_broken(int fd) { Fd* f = get(fd); return f && f->broken; }
int other_fd_open() { return alloc_fd(K_OTHER); }
void other_fd_close(int fd) { if (get(fd)) close_fd(fd); }

int current_tid() { return tid_ ? tid_ : 4242; }
void set_tid(int tid) { tid_ = tid; }

bool iterate(GMainContext* ctx)
{
    return g_main_context_iteration(ctx, FALSE);
}

const char* awake(GMainContext* ctx)
{
    static char buf[64];
    GPollFD pfd[64];
    int timeout = -1, prio = 0;
    if (!ctx) ctx = g_main_context_default();
    if (g_main_context_pending(ctx)) return "an event source is ready";
    if (!g_main_context_acquire(ctx)) return NULL;
    g_main_context_prepare(ctx, &prio);
    g_main_context_query(ctx, G_MAXINT, &timeout, pfd, 64);
    g_main_context_release(ctx);
    if (timeout < 0) return NULL;
    snprintf(buf, sizeof(buf), "it wakes up in %d ms", timeout);
    return buf;
}

/* ---- inotify ---- */

int inotify_instances()
{
    int n = 0;
    for (auto f : fds) if (f && f->kind == K_INOTIFY) n++;
    return n;
}
int inotify_fd()
{
    for (int i = 0; i < FD_MAX - FD_BASE; i++)
        if (fds[i] && fds[i]->kind == K_INOTIFY) return num(i);
    return -1;
}
int inotify_kernel_watches(int fd) { Fd* f = get(fd); return f ? (int)f->watches.size() : 0; }
bool inotify_watch_alive(int fd, int wd) { Fd* f = get(fd); return f && f->watches.count(wd); }
uint32_t inotify_watch_mask(int fd, int wd)
{
    Fd* f = get(fd);
    return f && f->watches.count(wd) ? f->watches[wd].mask : 0;
}
int inotify_inode_wd(int fd, int inode)
{
    Fd* f = get(fd);
    if (f) for (auto& w : f->watches) if (w.second.inode == inode) return w.first;
    return -1;
}
bool inotify_pending(int fd) { Fd* f = get(fd); return f && !f->queue.empty(); }
void inotify_set_queue_limit(int n) { queue_limit = n; }

int fs_create(const char* path) { return (*fs)[path] = next_inode++; }
int fs_lookup(const char* path) { auto i = fs->find(path); return i == fs->end() ? -1 : i->second; }
void fs_link(const char* path, int inode) { (*fs)[path] = inode; }
void fs_unlink(const char* path) { fs->erase(path); }

static void enqueue(Fd* f, int wd, uint32_t mask, uint32_t cookie, const char* name)
{
    Ev e;
    e.wd = wd; e.mask = mask; e.cookie = cookie;
    e.has_name = name != NULL;
    if (name) e.name = name;
    if ((int)f->queue.size() >= queue_limit) {
        if (!f->overflowed) {
            f->overflowed = true;
            Ev o = { -1, IN_Q_OVERFLOW, 0, false, "" };
            f->queue.push_back(o);
            sim::fault("inotify.queue_overflow");
            log("kernel: queue overflow");
        }
        return;
    }
    if (!f->queue.empty()) {
        Ev& t = f->queue.back();
        if (t.wd == wd && t.mask == mask && t.cookie == cookie && t.has_name == e.has_name &&
            t.name == e.name) {
            sim::count("inotify.coalesced");
            return;
        }
    }
    f->queue.push_back(e);
}

static void remove_watch(Fd* f, int wd)
{
    f->watches.erase(wd);
    enqueue(f, wd, IN_IGNORED, 0, NULL);
}

void fs_event(int inode, uint32_t mask, uint32_t cookie, const char* name)
{
    for (auto f : fds) {
        if (!f || f->kind != K_INOTIFY) continue;
        for (auto& w : f->watches) {
            if (w.second.inode == inode) {
                if (w.second.mask & mask & IN_ALL_EVENTS) {
                    const int wd = w.first;
                    const bool oneshot = (w.second.mask & IN_ONESHOT) != 0;
                    enqueue(f, wd, mask, cookie, name);
                    if (oneshot) {
                        remove_watch(f, wd);
                        sim::fault("inotify.oneshot_expired");
                    }
                }
                break;
            }
        }
    }
}

void fs_delete_inode(int inode)
{
    for (auto i = fs->begin(); i != fs->end(); ) {
        if (i->second == inode) i = fs->erase(i); else ++i;
    }
    fs_event(inode, IN_DELETE_SELF, 0, NULL);
    for (auto f : fds) {
        if (!f || f->kind != K_INOTIFY) continue;
        for (auto& w : f->watches) {
            if (w.second.inode == inode) { remove_watch(f, w.first); break; }
        }
    }
}

void inotify_overflow(int fd)
{
    Fd* f = get(fd);
    if (f) {
        Ev o = { -1, IN_Q_OVERFLOW, 0, false, "" };
        f->queue.push_back(o);
        sim::fault("inotify.queue_overflow");
    }
}

/* ---- timerfd ---- */

int timerfd_instances()
{
    int n = 0;
    for (auto f : fds) if (f && f->kind == K_TIMERFD) n++;
    return n;
}
int timerfd_fd()
{
    for (int i = 0; i < FD_MAX - FD_BASE; i++)
        if (fds[i] && fds[i]->kind == K_TIMERFD) return num(i);
    return -1;
}
bool timerfd_cancelled(int fd) { Fd* f = get(fd); return f && f->cancelled; }
void timerfd_set_clock_notify()
{
    for (auto f : fds) {
        if (f && f->kind == K_TIMERFD && f->armed && f->cancel_on_set &&
            f->clockid == CLOCK_REALTIME) f->cancelled = true;
    }
}

/* ---- generic ---- */

static short vpoll(Fd* f, short events)
{
    short r = 0;
    if (!f) return POLLNVAL;
    if (faults.poll_err && !f->broken && f->kind != K_OTHER && sim::flip(faults.poll_err)) {
        static const short err[] = { POLLERR, POLLHUP, POLLNVAL };
        f->broken = true;
        sim::fault("poll.error");
        log("kernel: poll reports an error");
        f->broken_poll = err[sim::choose(3)];
    }
    r |= f->broken_poll;
    if (f->broken_read) r |= POLLIN;
    if (f->kind == K_INOTIFY && !f->queue.empty()) r |= POLLIN | POLLRDNORM;
    if (f->kind == K_TIMERFD && f->cancelled) r |= POLLIN;
    return r & (events | POLLERR | POLLHUP | POLLNVAL);
}

static ssize_t vread(int fd, char* buf, size_t n)
{
    Fd* f = get(fd);
    if (!f) { errno = EBADF; return -1; }
    if (faults.read_eintr && sim::flip(faults.read_eintr)) {
        sim::fault("read.EINTR");
        log("kernel: read EINTR");
        errno = EINTR;
        return -1;
    }
    if (faults.read_eagain && sim::flip(faults.read_eagain)) {
        sim::fault("read.EAGAIN");
        log("kernel: read EAGAIN");
        errno = EAGAIN;
        return -1;
    }
    if (f->broken_read) {
        errno = EIO;
        return -1;
    }
    if (faults.read_eio && !f->broken && (f->kind == K_INOTIFY || f->kind == K_TIMERFD) && sim::flip(faults.read_eio)) {
        sim::fault("read.EIO");
        log("kernel: read EIO");
        f->broken = true;
        if (f->kind == K_INOTIFY) f->broken_read = true;
        errno = EIO;
        return -1;
    }
    if (f->kind == K_INOTIFY) {
        size_t done = 0;
        int nev = 0;
        if (f->queue.empty()) {
            if (f->nonblock) { errno = EAGAIN; return -1; }
            sim::fail("C06", "blocking-read", "read() of an empty inotify queue would block the main loop forever");
        }
        const bool may_stop = faults.read_short > 0;
        while (!f->queue.empty()) {
            Ev e = f->queue.front();
            size_t nl = e.has_name ? ((e.name.size() + 1 + 15) & ~(size_t)15) : 0;
            size_t len = sizeof(struct inotify_event) + nl;
            if (done + len > n) break;
            if (nev && may_stop && sim::flip(faults.read_short)) {
                sim::fault("read.short_batch");
                break;
            }
            struct inotify_event ie;
            memset(&ie, 0, sizeof(ie));
            ie.wd = e.wd; ie.mask = e.mask; ie.cookie = e.cookie; ie.len = (uint32_t)nl;
            memcpy(buf + done, &ie, sizeof(ie));
            if (nl) {
                memset(buf + done + sizeof(ie), 0, nl);
                memcpy(buf + done + sizeof(ie), e.name.c_str(), e.name.size());
            }
            done += len;
            nev++;
            f->queue.pop_front();
            if (e.mask & IN_Q_OVERFLOW) f->overflowed = false;
            InEvent x = { e.wd, e.mask, e.cookie, e.has_name ? e.name.c_str() : NULL };
            log("kernel: read gives wd %d mask %08x cookie %u %s%s", e.wd, e.mask, e.cookie,
                e.has_name ? "name " : "no name", e.has_name ? e.name.c_str() : "");
            if (inotify_hooks.on_deliver) inotify_hooks.on_deliver(fd, &x);
        }
        if (!done) { errno = EINVAL; return -1; }
        if (nev > 1) sim::probe("inotify.batch");
        return (ssize_t)done;
    }
    if (f->kind == K_TIMERFD) {
        if (n < 8) { errno = EINVAL; return -1; }
        if (f->cancelled) {
            f->cancelled = false;
            log("kernel: timerfd read ECANCELED");
            errno = ECANCELED;
            return -1;
        }
        if (f->nonblock) { errno = EAGAIN; return -1; }
        sim::fail("C08", "blocking-read", "read() of an idle timer would block the main loop forever");
    }
    errno = EAGAIN;
    return -1;
}

static GLogWriterOutput log_writer(GLogLevelFlags level, const GLogField* fields, gsize n, gpointer)
{
    const char* msg = "";
    const char* dom = NULL;
    std::string m, d;
    for (gsize i = 0; i < n; i++) {
        if (!strcmp(fields[i].key, "MESSAGE")) {
            m = fields[i].length < 0 ? std::string((const char*)fields[i].value) :
                std::string((const char*)fields[i].value, fields[i].length);
            msg = m.c_str();
        } else if (!strcmp(fields[i].key, "GLIB_DOMAIN")) {
            d = fields[i].length < 0 ? std::string((const char*)fields[i].value) :
                std::string((const char*)fields[i].value, fields[i].length);
            dom = d.c_str();
        }
    }
    /* Addresses aren't the same next time */
    std::string clean;
    if (!on_glog && msg) {
        for (const char* c = msg; *c; c++) {
            clean += *c;
            if (c[0] == '0' && c[1] == 'x') { clean += "x..."; c++; while (g_ascii_isxdigit(c[1])) c++; }
        }
        msg = clean.c_str();
    }
    if (on_glog) {
        on_glog(dom, level & G_LOG_LEVEL_MASK, msg);
    } else if (level & (G_LOG_LEVEL_ERROR | G_LOG_LEVEL_CRITICAL | G_LOG_LEVEL_WARNING)) {
        if (sim::in_run) {
            sim::fail(sim::scenario()->props, "glib-critical", "GLib complains: %s: %s",
                dom ? dom : "", msg);
        } else {
            fprintf(stderr, "%s: %s\n", dom ? dom : "", msg);
        }
    }
    return G_LOG_WRITER_HANDLED;
}

void init_process()
{
    reset();
    g_log_set_writer_func(log_writer, NULL, NULL);
}

} // namespace world

using namespace world;

/* ------------------------------------------------------------------ */
/* Seams. The ones in here replace the C library's functions for GLib. */

extern "C" {

int clock_gettime(clockid_t c, struct timespec* ts) noexcept
{
    int64_t t;
    switch (c) {
    case CLOCK_MONOTONIC: case CLOCK_MONOTONIC_RAW: case CLOCK_MONOTONIC_COARSE:
    case CLOCK_BOOTTIME:
        t = mono_;
        break;
    case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE:
        t = real_;
        break;
    default:
        return (int)ret(raw(SYS_clock_gettime, c, (long)ts));
    }
    ts->tv_sec = t / 1000000000ll;
    ts->tv_nsec = t % 1000000000ll;
    return 0;
}

int gettimeofday(struct timeval* tv, void*) noexcept
{
    tv->tv_sec = real_ / 1000000000ll;
    tv->tv_usec = (real_ % 1000000000ll) / 1000;
    return 0;
}

time_t time(time_t* p) noexcept
{
    time_t t = real_ / 1000000000ll;
    if (p) *p = t;
    return t;
}

int poll(struct pollfd* p, nfds_t n, int timeout)
{
    int ready = 0;
    if (sim::in_run && faults.poll_eintr && sim::flip(faults.poll_eintr)) {
        sim::fault("poll.EINTR");
        errno = EINTR;
        return -1;
    }
    for (nfds_t i = 0; i < n; i++) {
        p[i].revents = 0;
        if (p[i].fd < 0) continue;
        if (is_virtual(p[i].fd)) {
            p[i].revents = vpoll(get(p[i].fd), p[i].events);
        } else {
            struct pollfd one = p[i];
            long r = raw(SYS_poll, (long)&one, 1, 0);
            if (r > 0) p[i].revents = one.revents;
        }
        if (p[i].revents) ready++;
    }
    if (!ready && timeout > 0) advance_ns(timeout * 1000000ll);
    return ready;
}

ssize_t read(int fd, void* buf, size_t n)
{
    if (is_virtual(fd)) return vread(fd, (char*)buf, n);
    return ret(raw(SYS_read, fd, (long)buf, n));
}

int close(int fd)
{
    if (is_virtual(fd)) {
        Fd* f = get(fd);
        if (!f) {
            log("kernel: close(%d) EBADF", idx(fd));
            if (on_bad_close) on_bad_close(fd);
            errno = EBADF;
            return -1;
        }
        log("kernel: close(%d)", idx(fd));
        if (f->kind == K_OTHER) {
            if (on_foreign_close) on_foreign_close(fd);
        }
        Kind k = f->kind;
        close_fd(fd);
        if (k == K_INOTIFY && inotify_hooks.on_close) inotify_hooks.on_close(fd, true);
        if (k == K_TIMERFD && timer_hooks.on_close) timer_hooks.on_close(fd);
        return 0;
    }
    return (int)ret(raw(SYS_close, fd));
}

static int vfcntl(int fd, int cmd, long arg)
{
    if (is_virtual(fd)) {
        Fd* f = get(fd);
        if (!f) { errno = EBADF; return -1; }
        if (cmd == F_GETFL) return O_RDONLY | (f->nonblock ? O_NONBLOCK : 0);
        if (cmd == F_SETFL) { f->nonblock = (arg & O_NONBLOCK) != 0; return 0; }
        return 0;
    }
    return (int)ret(raw(SYS_fcntl, fd, cmd, arg));
}

int fcntl(int fd, int cmd, ...)
{
    va_list va;
    va_start(va, cmd);
    long arg = va_arg(va, long);
    va_end(va);
    return vfcntl(fd, cmd, arg);
}

int fcntl64(int fd, int cmd, ...)
{
    va_list va;
    va_start(va, cmd);
    long arg = va_arg(va, long);
    va_end(va);
    return vfcntl(fd, cmd, arg);
}

/* ------------------------------------------------------------------ */
/* Seams for calls made by the library's own objects (symbols redefined) */

int simw_inotify_init1(int flags)
{
    sched::yield();
    if (faults.inotify_init_err) {
        errno = faults.inotify_init_err;
        faults.inotify_init_err = 0;
        sim::fault(errno == EMFILE ? "inotify_init.EMFILE" : errno == ENFILE ?
            "inotify_init.ENFILE" : "inotify_init.ENOMEM");
        log("kernel: inotify_init fails with %d", errno);
        return -1;
    }
    if (flags & ~(IN_NONBLOCK | IN_CLOEXEC)) {
        errno = EINVAL;
        log("kernel: inotify_init invalid flags");
        return -1;
    }
    int fd = alloc_fd(K_INOTIFY);
    get(fd)->nonblock = (flags & IN_NONBLOCK) != 0;
    log("kernel: inotify_init -> %d", idx(fd));
    if (inotify_hooks.on_open) inotify_hooks.on_open(fd);
    return fd;
}

int simw_inotify_init(void) { return simw_inotify_init1(0); }

int simw_inotify_add_watch(int fd, const char* path, uint32_t mask)
{
    int err = 0, wd = -1;
    sched::yield();
    Fd* f = get(fd);
    if (!f || f->kind != K_INOTIFY) {
        err = EBADF;
    } else if (faults.inotify_add_err) {
        err = faults.inotify_add_err;
        faults.inotify_add_err = 0;
        sim::fault(err == ENOSPC ? "inotify_add_watch.ENOSPC" : err == EACCES ?
            "inotify_add_watch.EACCES" : err == ENOENT ? "inotify_add_watch.ENOENT" : "inotify_add_watch.ENOMEM");
    } else if (!(mask & IN_ALL_EVENTS)) {
        err = EINVAL;
    } else if (!fs->count(path)) {
        err = ENOENT;
        sim::fault("inotify_add_watch.missing");
    } else {
        int inode = (*fs)[path];
        for (auto& w : f->watches) {
            if (w.second.inode == inode) {
                if (mask & IN_MASK_CREATE) err = EEXIST;
                else {
                    wd = w.first;
                    if (mask & IN_MASK_ADD) w.second.mask |= mask; else w.second.mask = mask;
                }
                break;
            }
        }
        if (!err && wd < 0) {
            wd = f->next_wd++;
            Watch w = { inode, mask };
            f->watches[wd] = w;
        }
    }
    log("kernel: inotify_add_watch(%s, %08x) -> %d err %d", path, mask, wd, err);
    if (inotify_hooks.on_add) inotify_hooks.on_add(fd, path, mask, wd, err);
    errno = err;
    return wd;
}

int simw_inotify_rm_watch(int fd, int wd)
{
    int err = 0;
    sched::yield();
    Fd* f = get(fd);
    if (!f || f->kind != K_INOTIFY) err = EBADF;
    else if (!f->watches.count(wd)) err = EINVAL;
    if (inotify_hooks.on_rm) inotify_hooks.on_rm(fd, wd, err ? -1 : 0, err);
    if (!err) remove_watch(f, wd);
    log("kernel: inotify_rm_watch(%d) err %d", wd, err);
    errno = err;
    return err ? -1 : 0;
}

int simw_timerfd_create(int clockid, int flags)
{
    if (faults.timerfd_create_err) {
        errno = faults.timerfd_create_err;
        faults.timerfd_create_err = 0;
        sim::fault("timerfd_create.fails");
        log("kernel: timerfd_create fails with %d", errno);
        if (timer_hooks.on_create) { int e = errno; timer_hooks.on_create(-1, e); errno = e; }
        return -1;
    }
    if ((flags & ~(TFD_NONBLOCK | TFD_CLOEXEC)) || (clockid != CLOCK_REALTIME && clockid != CLOCK_MONOTONIC &&
        clockid != CLOCK_BOOTTIME && clockid != CLOCK_REALTIME_ALARM && clockid != CLOCK_BOOTTIME_ALARM)) {
        errno = EINVAL;
        log("kernel: timerfd_create invalid arguments");
        if (timer_hooks.on_create) { timer_hooks.on_create(-1, EINVAL); errno = EINVAL; }
        return -1;
    }
    int fd = alloc_fd(K_TIMERFD);
    get(fd)->nonblock = (flags & TFD_NONBLOCK) != 0;
    get(fd)->clockid = clockid;
    log("kernel: timerfd_create -> %d", idx(fd));
    if (timer_hooks.on_create) timer_hooks.on_create(fd, 0);
    return fd;
}

int simw_timerfd_settime(int fd, int flags, const struct itimerspec* t, struct itimerspec*)
{
    Fd* f = get(fd);
    if (!f || f->kind != K_TIMERFD) { errno = EBADF; return -1; }
    if (faults.timerfd_settime_err) {
        errno = faults.timerfd_settime_err;
        faults.timerfd_settime_err = 0;
        sim::fault("timerfd_settime.fails");
        log("kernel: timerfd_settime fails with %d", errno);
        return -1;
    }
    if ((flags & ~(TFD_TIMER_ABSTIME | (1 << 1))) || t->it_value.tv_sec < 0 || t->it_value.tv_nsec < 0 ||
        t->it_value.tv_nsec > 999999999 || t->it_interval.tv_sec < 0 || t->it_interval.tv_nsec < 0 ||
        t->it_interval.tv_nsec > 999999999) {
        errno = EINVAL;
        log("kernel: timerfd_settime invalid arguments");
        return -1;
    }
    f->armed = t->it_value.tv_sec || t->it_value.tv_nsec;
    f->cancel_on_set = (flags & (1 << 1)) && (flags & TFD_TIMER_ABSTIME);
    return 0;
}

long simw_syscall(long n, ...)
{
    va_list va;
    va_start(va, n);
    long a[6];
    for (int i = 0; i < 6; i++) a[i] = va_arg(va, long);
    va_end(va);
    if (n == SYS_gettid) return current_tid();
    return ret(raw(n, a[0], a[1], a[2], a[3], a[4], a[5]));
}

int simw_gettid(void) { return current_tid(); }

static void vsyslog_text(int prio, const char* fmt, va_list va)
{
    char* text = NULL;
    if (vasprintf(&text, fmt, va) < 0) return;
    if (on_syslog) on_syslog(prio, text);
    free(text);
}
void simw_syslog(int prio, const char* fmt, ...)
{
    va_list va;
    va_start(va, fmt);
    vsyslog_text(prio, fmt, va);
    va_end(va);
}
void simw___syslog_chk(int prio, int, const char* fmt, ...)
{
    va_list va;
    va_start(va, fmt);
    vsyslog_text(prio, fmt, va);
    va_end(va);
}
void simw_vsyslog(int prio, const char* fmt, va_list va) { vsyslog_text(prio, fmt, va); }
void simw___vsyslog_chk(int prio, int, const char* fmt, va_list va) { vsyslog_text(prio, fmt, va); }
void simw_openlog(const char*, int, int) { if (on_openlog) on_openlog(); }
void simw_closelog(void) { if (on_closelog) on_closelog(); }

} // extern "C"
