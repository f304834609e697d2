/*
 * Deterministic scheduler for real threads: exactly one of them runs at any
 * time, and who runs next is decided by the stream of choices only.  Every
 * access of the library to memory which is not on the stack of the current
 * thread, every basic block of it and every wrapped call is a point where
 * it may get preempted.
 */
#include "internal.h"

#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <unistd.h>

#include <vector>

namespace sched {

enum { MAX_TASKS = 8, STACK = 512 * 1024 };

struct Task {
    Body fn;
    void* arg;
    const char* name;
    pthread_t thread;
    sem_t sem;
    bool done, started;
    char* stack_hi;
};

static Task tasks[MAX_TASKS];
static int ntasks;
static int current = -1;
static __thread int self_ = -1;
static __thread char* stack_hi_;
static sem_t main_sem;
static bool active_;
static uint64_t switches_;
static int budget_;
static uint32_t scale_;
static uint64_t countdown;
static int spin;

bool active() { return active_; }
int self() { return self_; }
uint64_t switches() { return switches_; }

static void next_gap()
{
    if (budget_ <= 0) { countdown = UINT64_MAX; return; }
    uint32_t v = sim::choose(scale_ + 1);
    if (!v) {
        /* 0 is the simplest choice, and means no more preemptions */
        budget_ = 0;
        countdown = UINT64_MAX;
    } else {
        budget_--;
        countdown = v;
    }
}

void set_preemption(int budget, uint32_t scale)
{
    budget_ = budget;
    scale_ = scale ? scale : 1;
}

static void hand_over(int to)
{
    int me = self_;
    if (to == me) return;
    current = to;
    switches_++;
    sem_post(&tasks[to].sem);
    if (me >= 0) {
        while (sem_wait(&tasks[me].sem) && errno == EINTR) {}
    }
}

static int pick_other()
{
    int c[MAX_TASKS], n = 0;
    for (int i = 0; i < ntasks; i++) if (i != self_ && !tasks[i].done) c[n++] = i;
    if (!n) return -1;
    return c[sim::choose(n)];
}

static void preempt()
{
    int to = pick_other();
    next_gap();
    if (to >= 0) {
        sim::log("  [switch %s -> %s]", tasks[self_].name, tasks[to].name);
        sim::fault("thread_preempted_inside_library");
        sim::nontrivial();
        hand_over(to);
    }
}

void yield()
{
    if (!active_ || self_ < 0) return;
    spin = 0;
    if (countdown == UINT64_MAX) return;
    if (--countdown == 0) preempt();
}

/* Somebody else holds a lock that we need */
void blocked()
{
    if (!active_ || self_ < 0) return;
    if (++spin > 2000) {
        sim::fail(sim::scenario()->props, "deadlock", "no thread can make progress");
    }
    int to = pick_other();
    if (to < 0) sim::fail(sim::scenario()->props, "deadlock", "the last thread waits forever");
    sim::probe("sched.lock_contended");
    hand_over(to);
}

bool on_stack(const void* p)
{
    const char* c = (const char*)p;
    return c < stack_hi_ && c >= stack_hi_ - STACK;
}

static void* entry(void* arg)
{
    Task* t = (Task*)arg;
    char here;
    while (sem_wait(&t->sem) && errno == EINTR) {}
    stack_hi_ = &here + 4096;
    self_ = (int)(t - tasks);
    world::set_tid(5000 + self_);
    t->fn(t->arg);
    t->done = true;
    self_ = -1;
    sem_post(&main_sem);
    /* Thread specific data gets destroyed while run() waits for us */
    return NULL;
}

int spawn(Body fn, void* arg, const char* name)
{
    if (ntasks >= MAX_TASKS) sim::harness_error("too many tasks");
    Task* t = tasks + ntasks;
    memset(t, 0, sizeof(*t));
    t->fn = fn;
    t->arg = arg;
    t->name = name;
    sem_init(&t->sem, 0, 0);
    return ntasks++;
}

void run()
{
    cpu_set_t set, old;
    sem_init(&main_sem, 0, 0);
    /* One CPU is enough because only one thread runs, and it's faster */
    if (!sched_getaffinity(0, sizeof(old), &old)) {
        int n = CPU_COUNT(&old), k = (int)(getpid() % n), cpu = sched_getcpu();
        (void)k;
        if (cpu >= 0 && CPU_ISSET(cpu, &old)) {
            CPU_ZERO(&set);
            CPU_SET(cpu, &set);
            sched_setaffinity(0, sizeof(set), &set);
        }
    }
    pthread_attr_t attr;
    pthread_attr_init(&attr);
    pthread_attr_setstacksize(&attr, STACK);
    for (int i = 0; i < ntasks; i++) {
        if (pthread_create(&tasks[i].thread, &attr, entry, tasks + i)) {
            sim::harness_error("pthread_create failed");
        }
    }
    pthread_attr_destroy(&attr);
    active_ = true;
    next_gap();
    int left = ntasks;
    bool joined[MAX_TASKS] = { false };
    while (left > 0) {
        int c[MAX_TASKS], n = 0;
        for (int i = 0; i < ntasks; i++) if (!tasks[i].done) c[n++] = i;
        int to = c[sim::choose(n)];
        sim::log("  [run %s]", tasks[to].name);
        current = to;
        sem_post(&tasks[to].sem);
        while (sem_wait(&main_sem) && errno == EINTR) {}
        for (int i = 0; i < ntasks; i++) {
            if (tasks[i].done && !joined[i]) {
                joined[i] = true;
                pthread_join(tasks[i].thread, NULL);
                sim::log("  [%s has exited]", tasks[i].name);
                left--;
            }
        }
    }
    active_ = false;
    for (int i = 0; i < ntasks; i++) sem_destroy(&tasks[i].sem);
    ntasks = 0;
}

} // namespace sched

extern "C" {

void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop)
{
    for (uint32_t* p = start; p < stop; p++) *p = 1;
}
void __sanitizer_cov_trace_pc_guard(uint32_t*)
{
    if (sim::in_run) {
        sim::step();
        if (sched::active()) sched::yield();
    }
}

#define ACCESS(fn) void fn(void* p) \
    { if (sched::active() && sched::self() >= 0 && !sched::on_stack(p)) sched::yield(); }
ACCESS(__sanitizer_cov_load1)
ACCESS(__sanitizer_cov_load2)
ACCESS(__sanitizer_cov_load4)
ACCESS(__sanitizer_cov_load8)
ACCESS(__sanitizer_cov_load16)
ACCESS(__sanitizer_cov_store1)
ACCESS(__sanitizer_cov_store2)
ACCESS(__sanitizer_cov_store4)
ACCESS(__sanitizer_cov_store8)
ACCESS(__sanitizer_cov_store16)

}
