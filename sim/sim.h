/*
 * Deterministic simulator for libglibutil: core interface.
 *
 * One run = one forked child process = one scenario driven by one stream of
 * choices.  The stream comes from a PRNG seeded by (VERIF_SEED, property,
 * run number) or from a replay file.  Choice 0 always is the simplest one.
 */
#ifndef SIM_H
#define SIM_H

#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <glib.h>

namespace sim {

/* ---- choices ---- */
uint32_t choose(uint32_t n);                  /* uniform in [0,n) */
bool flip(unsigned permille);                 /* true with given probability; shrinks to false */
int pickw(const int* weights, int n);         /* weighted; index 0 is the simplest */
int64_t choose_range(int64_t lo, int64_t hi); /* inclusive; shrinks to lo */
int burst(int max);                            /* usually 1, rarely up to max */
bool more(unsigned mean);                     /* loop control; begins an op span */
void span();                                  /* begins an op span for the shrinker */

/* ---- event log (hashed; no addresses, no real time) ---- */
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
bool tracing();
uint64_t log_hash();

/* ---- outcome ---- */
[[noreturn]] void fail(const char* props, const char* cls, const char* fmt, ...)
    __attribute__((format(printf, 3, 4)));
[[noreturn]] void harness_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void known(const char* id, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
bool is_known(const char* id);                 /* listed in known_findings.txt */
void discard();                               /* rest of the run is not interesting */

#define CHECKP(props, cls, cond, ...) \
    do { if (!(cond)) sim::fail(props, cls, __VA_ARGS__); } while (0)

/* ---- coverage counters ---- */
void probe(const char* name);                 /* "this rare condition was hit" */
void fault(const char* name);                 /* an injected fault actually fired */
void count(const char* name, uint64_t n = 1);
void state(uint64_t h);                       /* abstract state reached */
void nontrivial();                            /* the run exercised something non trivial */
void checked(uint64_t n = 1);                 /* an oracle comparison was made */

uint64_t mix(uint64_t h, uint64_t v);

/* ---- library code address range, step accounting ---- */
bool in_library(const void* pc);
void set_step_limit(uint64_t n);

/* ---- scenario registry ---- */
struct Scenario {
    const char* name;
    const char* props;      /* every property a crash in here is charged to */
    void (*run)();
    const char* real;       /* components running real code */
    const char* stub;       /* components replaced by the simulator */
};
void register_scenario(const Scenario* s);
struct Reg { Reg(const Scenario* s) { register_scenario(s); } };
#define SCENARIO(ident, name, props, fn, real, stub) \
    static const sim::Scenario ident##_sc = { name, props, fn, real, stub }; \
    static sim::Reg ident##_reg(&ident##_sc);

const char* current_property();
bool checking(const char* prop);              /* is the current property this one? */
bool faults_enabled();                        /* fault-free configuration or not */

/* Called in the parent before forking, to register types and fill caches */
void register_warmup(void (*fn)());
struct WReg { WReg(void (*fn)()) { register_warmup(fn); } };

/* ---- leak ledger (library's allocations only) ---- */
void ledger_begin();
void ledger_check(const char* props = "C22");  /* fails if anything is left */

} // namespace sim

/* ---- simulated machine: clocks, descriptors, kernel objects ---- */
namespace world {

void reset();

/* clocks (nanoseconds) */
int64_t mono_ns();
int64_t real_ns();
void advance_ns(int64_t ns);
void step_real_ns(int64_t delta);              /* settimeofday() by somebody */
uint64_t simulated_ns();                       /* total simulated time advanced */

/* Generic accounting */
int open_fds();

/* main loop */
bool iterate(GMainContext* ctx = NULL);        /* one non-blocking iteration */
const char* awake(GMainContext* ctx = NULL);   /* what keeps the main loop from sleeping, NULL if nothing */

/* ---- simulated inotify ---- */
struct InEvent { int wd; uint32_t mask; uint32_t cookie; const char* name; /* NULL if none */ };
struct InotifyHooks {
    /* harness callbacks, may be NULL */
    void (*on_add)(int fd, const char* path, uint32_t mask, int wd, int err);
    void (*on_rm)(int fd, int wd, int res, int err);
    void (*on_deliver)(int fd, const InEvent* ev);   /* event handed over by read() */
    void (*on_open)(int fd);
    void (*on_close)(int fd, bool was_open);
};
extern InotifyHooks inotify_hooks;
struct FaultPlan {
    int inotify_init_err;     /* errno for the next call, 0 = none */
    int inotify_add_err;
    int timerfd_create_err;
    int timerfd_settime_err;
    unsigned read_eintr;      /* permille */
    unsigned read_eagain;
    unsigned read_short;      /* batch fewer events than would fit */
    unsigned poll_eintr;
    unsigned read_eio;        /* the descriptor fails for good */
    unsigned poll_err;        /* poll reports an error */
};
extern FaultPlan faults;
/* The watched namespace: paths are bound to inodes */
int inotify_instances();                       /* open inotify descriptors */
int inotify_fd();                              /* the lowest open one, -1 if none */
int inotify_kernel_watches(int fd);
bool inotify_watch_alive(int fd, int wd);
uint32_t inotify_watch_mask(int fd, int wd);
int inotify_inode_wd(int fd, int inode);       /* -1 if not watched */
int fs_create(const char* path);               /* returns inode */
int fs_lookup(const char* path);               /* -1 if missing */
void fs_link(const char* path, int inode);
void fs_unlink(const char* path);
/* an event happens on an inode: queued on every instance watching it */
void fs_event(int inode, uint32_t mask, uint32_t cookie, const char* name);
void fs_delete_inode(int inode);               /* IN_DELETE_SELF + IN_IGNORED */
void inotify_overflow(int fd);                 /* IN_Q_OVERFLOW, wd -1 */
void inotify_set_queue_limit(int n);
bool inotify_pending(int fd);

/* ---- simulated timerfd ---- */
struct TimerHooks {
    void (*on_create)(int fd, int err);
    void (*on_close)(int fd);
};
extern TimerHooks timer_hooks;
int timerfd_instances();
int timerfd_fd();
bool timerfd_cancelled(int fd);
void timerfd_set_clock_notify();               /* the wall clock was set */

/* ---- other descriptors ---- */
void set_stdin_closed();                       /* descriptor zero is free, in this run */
int other_fd_open();                           /* somebody else's descriptor */
void other_fd_close(int fd);
bool fd_is_open(int fd);
bool fd_broken(int fd);                        /* it has reported a permanent error */
extern int attached;                            /* event sources attached by the library */
extern void (*on_bad_close)(int fd);           /* close() of a descriptor that is not open */
extern void (*on_foreign_close)(int fd);       /* library closed somebody else's */


/* ---- syslog capture ---- */
extern void (*on_syslog)(int prio, const char* text);
extern void (*on_openlog)(void);
extern void (*on_closelog)(void);

/* ---- GLib log capture ---- */
extern void (*on_glog)(const char* domain, int level, const char* text);
/* Messages logged by the library itself (module output) are kept apart */

int current_tid();
void set_tid(int tid);                         /* for the current thread */

} // namespace world

/* ---- deterministic thread scheduler ---- */
namespace sched {

/* Add tasks, then run() them to completion under seeded preemption */
typedef void (*Body)(void* arg);
int spawn(Body fn, void* arg, const char* name);
void run();
void yield();                  /* explicit scheduling point */
bool active();
int self();                    /* index of the current task, -1 outside */
uint64_t switches();
/* called just before a thread exits for real */
void set_preemption(int budget, uint32_t gap);
}

#endif
