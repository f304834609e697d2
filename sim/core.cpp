/* Deterministic simulator core: choices, runs, shrinking, replay, main() */
#include "sim.h"
#include "internal.h"

#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <dlfcn.h>
#include <sched.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/syscall.h>

#include <sanitizer/asan_interface.h>
#include <sanitizer/allocator_interface.h>
#include <sanitizer/common_interface_defs.h>

#include <string>
#include <set>
#include <vector>
#include <algorithm>
#include <unordered_set>

extern "C" {
extern char simlib_begin_marker[], simlib_end_marker[];
extern char simhar_begin_marker[], simhar_end_marker[];

const char* __asan_default_options(void)
{
    return "detect_leaks=0:detect_stack_use_after_return=0:handle_abort=1:"
        "handle_sigfpe=1:handle_sigill=1:allocator_may_return_null=0:"
        "max_allocation_size_mb=1024:quarantine_size_mb=8:symbolize=0:"
        "malloc_context_size=16:thread_local_quarantine_size_kb=64:"
        "print_legend=0:print_module_map=0:abort_on_error=0:exitcode=99:"
        "detect_odr_violation=0:strict_string_checks=1:"
        "intercept_send=0";
}
}

namespace sim {

enum { MAX_CHOICES = 60000, MAX_SPANS = 20000, MAX_COUNTERS = 256,
       MSG_SIZE = 4096, TRACE_SIZE = 1 << 20, STATE_BITS = 20 };

enum Status { ST_OK, ST_FAIL, ST_HARNESS, ST_CRASH };

struct Counter { char name[56]; char kind; uint64_t n; };

struct Shm {
    uint32_t nchoices;
    uint32_t nspans;
    uint32_t status;
    uint32_t finished;
    uint32_t is_nontrivial;
    uint32_t overflow;
    uint64_t checked;
    uint64_t hash;
    uint64_t sim_ns;
    uint64_t switches;
    uint64_t steps;
    char cls[96];
    char props[160];
    char msg[MSG_SIZE];
    char known[512];
    uint32_t ncounters;
    Counter counters[MAX_COUNTERS];
    uint32_t choices[MAX_CHOICES];
    uint32_t spans[MAX_SPANS];
    uint32_t trace_len;
    char trace[TRACE_SIZE];
};

static Shm* shm;
static uint64_t* state_set;   /* per worker process, survives runs */
static uint64_t nstates;      /* valid in the parent after scanning */

/* per run (child) */
static uint64_t rng_s[4];
static const std::vector<uint32_t>* replay_list;
static size_t replay_pos;
static bool trace_on;
static const char* cur_prop = "";
static bool cur_faults = true;
static const Scenario* cur_sc;
static uint64_t hash_ = 1469598103934665603ull;
static uint64_t step_limit = 30000000ull;
uint64_t steps_;
bool in_run;
static char crash_text[MSG_SIZE];

/* ------------------------------------------------------------------ */

uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 29;
    return h;
}

static uint64_t splitmix(uint64_t* s)
{
    uint64_t z = (*s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

static void rng_seed(uint64_t s)
{
    for (int i = 0; i < 4; i++) rng_s[i] = splitmix(&s);
}

static uint64_t rng_next()
{
#define rotl(x, k) (((x) << (k)) | ((x) >> (64 - (k))))
    const uint64_t r = rotl(rng_s[1] * 5, 7) * 9, t = rng_s[1] << 17;
    rng_s[2] ^= rng_s[0]; rng_s[3] ^= rng_s[1]; rng_s[1] ^= rng_s[2];
    rng_s[0] ^= rng_s[3]; rng_s[2] ^= t; rng_s[3] = rotl(rng_s[3], 45);
    return r;
}

static uint32_t record(uint32_t v)
{
    if (shm->nchoices >= MAX_CHOICES) {
        shm->overflow = 1;
        return 0;
    }
    shm->choices[shm->nchoices++] = v;
    return v;
}

/* `gen' maps a random 64-bit number to the choice */
template<class F> static uint32_t draw(uint32_t n, F gen)
{
    uint32_t v;
    if (n <= 1) return 0;
    if (replay_list) {
        v = replay_pos < replay_list->size() ? (*replay_list)[replay_pos] : 0;
        replay_pos++;
        if (v >= n) v %= n;
    } else {
        v = shm->overflow ? 0 : gen(rng_next());
    }
    return record(v);
}

uint32_t choose(uint32_t n)
{
    return draw(n, [n](uint64_t r) { return (uint32_t)((r >> 32) * n >> 32); });
}

bool flip(unsigned permille)
{
    if (!permille) return false;
    if (permille > 999) permille = 999;
    return draw(2, [permille](uint64_t r) {
        return (uint32_t)(((r >> 32) * 1000 >> 32) < permille); }) != 0;
}

int pickw(const int* w, int n)
{
    int sum = 0;
    for (int i = 0; i < n; i++) sum += w[i];
    return draw(n, [=](uint64_t r) {
        int x = (int)((r >> 32) * (uint64_t)sum >> 32), i = 0;
        for (i = 0; i < n - 1 && x >= w[i]; i++) x -= w[i];
        return (uint32_t)i;
    });
}

int64_t choose_range(int64_t lo, int64_t hi)
{
    uint64_t span_ = (uint64_t)hi - (uint64_t)lo + 1;
    if (span_ && span_ <= 0xffffffffull) return lo + choose((uint32_t)span_);
    uint64_t a = choose(0x80000000u), b = choose(0x80000000u), c = choose(4);
    uint64_t x = (a << 33) | (b << 2) | c;
    return (int64_t)((uint64_t)lo + (span_ ? x % span_ : x));
}

void span()
{
    if (shm->nspans < MAX_SPANS) shm->spans[shm->nspans++] = shm->nchoices;
}

int burst(int max)
{
    if (choose(150) != 149) return 1;
    probe("burst");
    return 1 + (int)choose(choose(2) ? (uint32_t)max : 20);
}

bool more(unsigned mean)
{
    span();
    if (shm->overflow) return false;
    return draw(2, [mean](uint64_t r) {
        return (uint32_t)((r >> 32) % (mean + 1) != 0); }) != 0;
}

/* ------------------------------------------------------------------ */

bool tracing() { return trace_on; }
uint64_t log_hash() { return hash_; }

static void hash_bytes(const char* p, size_t n)
{
    uint64_t h = hash_;
    for (size_t i = 0; i < n; i++) { h ^= (unsigned char)p[i]; h *= 1099511628211ull; }
    hash_ = h;
}

void log(const char* fmt, ...)
{
    char buf[1024];
    va_list va;
    va_start(va, fmt);
    int n = vsnprintf(buf, sizeof(buf), fmt, va);
    va_end(va);
    if (n >= (int)sizeof(buf)) n = sizeof(buf) - 1;
    if (n < 0) n = 0;
    buf[n] = 0;
    hash_bytes(buf, n + 1);
    shm->hash = hash_;
    if (trace_on && shm->trace_len + n + 2 < TRACE_SIZE) {
        memcpy(shm->trace + shm->trace_len, buf, n);
        shm->trace_len += n;
        shm->trace[shm->trace_len++] = '\n';
    }
}

static void counter(char kind, const char* name, uint64_t n)
{
    for (uint32_t i = 0; i < shm->ncounters; i++) {
        Counter* c = shm->counters + i;
        if (c->kind == kind && !strcmp(c->name, name)) { c->n += n; return; }
    }
    if (shm->ncounters < MAX_COUNTERS) {
        Counter* c = shm->counters + shm->ncounters++;
        c->kind = kind;
        c->n = n;
        g_strlcpy(c->name, name, sizeof(c->name));
    }
}

void probe(const char* name) { counter('p', name, 1); }
void fault(const char* name) { counter('f', name, 1); }
void count(const char* name, uint64_t n) { counter('c', name, n); }
void nontrivial() { shm->is_nontrivial = 1; }
void checked(uint64_t n) { shm->checked += n; }

void state(uint64_t h)
{
    const uint64_t mask = (1ull << STATE_BITS) - 1;
    if (!h) h = 1;
    for (uint64_t i = 0, k = h & mask; i < 64; i++, k = (k + 1) & mask) {
        if (state_set[k] == h) return;
        if (!state_set[k]) { state_set[k] = h; return; }
    }
}

/* ------------------------------------------------------------------ */

static void finish_shm()
{
    shm->hash = hash_;
    shm->sim_ns = world::simulated_ns();
    shm->switches = sched::switches();
    shm->steps = steps_;
    shm->finished = 1;
}

void fail(const char* props, const char* cls, const char* fmt, ...)
{
    if (!in_run) {
        va_list va;
        va_start(va, fmt);
        fprintf(stderr, "FAIL outside of a run: %s: ", cls);
        vfprintf(stderr, fmt, va);
        fprintf(stderr, "\n");
        _exit(98);
    }
    in_run = false;
    va_list va;
    va_start(va, fmt);
    vsnprintf(shm->msg, MSG_SIZE, fmt, va);
    va_end(va);
    g_strlcpy(shm->cls, cls, sizeof(shm->cls));
    g_strlcpy(shm->props, props, sizeof(shm->props));
    log("VIOLATED [%s] %s: %s", props, cls, shm->msg);
    shm->status = ST_FAIL;
    finish_shm();
    if (getenv("SIM_BACKTRACE")) __sanitizer_print_stack_trace();
    _exit(3);
}

void harness_error(const char* fmt, ...)
{
    va_list va;
    va_start(va, fmt);
    vsnprintf(shm->msg, MSG_SIZE, fmt, va);
    va_end(va);
    in_run = false;
    g_strlcpy(shm->cls, "harness", sizeof(shm->cls));
    shm->status = ST_HARNESS;
    finish_shm();
    _exit(4);
}

void known(const char* id, const char* fmt, ...)
{
    char buf[400];
    va_list va;
    va_start(va, fmt);
    vsnprintf(buf, sizeof(buf), fmt, va);
    va_end(va);
    log("KNOWN %s: %s", id, buf);
    g_snprintf(shm->known, sizeof(shm->known), "%s\t%s", id, buf);
}

bool is_known(const char* id)
{
    /* check.py passes the identifiers from the committed file */
    const char* k = getenv("SIM_KNOWN");
    if (!k) return false;
    char buf[1024], pat[200];
    g_snprintf(buf, sizeof(buf), ",%s,", k);
    g_snprintf(pat, sizeof(pat), ",%s,", id);
    return strstr(buf, pat) != NULL;
}

void discard()
{
    in_run = false;
    finish_shm();
    _exit(0);
}

const char* current_property() { return cur_prop; }
bool checking(const char* p) { return !strcmp(cur_prop, p); }
bool faults_enabled() { return cur_faults; }

bool in_library(const void* pc)
{
    return (const char*)pc >= simlib_begin_marker && (const char*)pc < simlib_end_marker;
}
static bool in_harness(const void* pc)
{
    return (const char*)pc >= simhar_begin_marker && (const char*)pc < simhar_end_marker;
}
void set_step_limit(uint64_t n) { step_limit = n; }

void step()
{
    if (G_UNLIKELY(++steps_ > step_limit) && in_run) {
        fail(cur_sc->props, "no-progress",
            "more than %llu steps inside of the library: it loops forever",
            (unsigned long long)step_limit);
    }
}

/* ------------------------------------------------------------------ */
/* Registry */

static std::vector<const Scenario*>& scenarios()
{
    static std::vector<const Scenario*> v;
    return v;
}
static std::vector<void (*)()>& warmups()
{
    static std::vector<void (*)()> v;
    return v;
}
void register_scenario(const Scenario* s) { scenarios().push_back(s); }
void register_warmup(void (*fn)()) { warmups().push_back(fn); }
static const Scenario* find_scenario(const char* name)
{
    for (auto s : scenarios()) if (!strcmp(s->name, name)) return s;
    return NULL;
}
const Scenario* scenario() { return cur_sc; }

/* ------------------------------------------------------------------ */
/* Ledger of live memory blocks */

enum { LEDGER_BITS = 17, LEDGER_SIZE = 1 << LEDGER_BITS };
static const void** ledger;        /* open addressing, NULL free, 1 = tombstone */
static bool ledger_on;
static volatile int ledger_lock_;
static size_t ledger_used;

static inline uint32_t ledger_hash(const void* p)
{
    return (uint32_t)(((uintptr_t)p * 0x9e3779b97f4a7c15ull) >> (64 - LEDGER_BITS));
}
static void ledger_lock() { while (__atomic_exchange_n(&ledger_lock_, 1, __ATOMIC_ACQUIRE)) {} }
static void ledger_unlock() { __atomic_store_n(&ledger_lock_, 0, __ATOMIC_RELEASE); }

static void malloc_hook(const volatile void* p, size_t)
{
    if (!ledger_on || !p) return;
    ledger_lock();
    if (ledger_used < LEDGER_SIZE * 3 / 4) {
        uint32_t k = ledger_hash((const void*)p);
        while ((uintptr_t)ledger[k] > 1) k = (k + 1) & (LEDGER_SIZE - 1);
        if (!ledger[k]) ledger_used++;
        ledger[k] = (const void*)p;
    }
    ledger_unlock();
}

static void free_hook(const volatile void* p)
{
    if (!ledger_on || !p) return;
    ledger_lock();
    uint32_t k = ledger_hash((const void*)p);
    while (ledger[k]) {
        if (ledger[k] == (const void*)p) { ledger[k] = (const void*)1; break; }
        k = (k + 1) & (LEDGER_SIZE - 1);
    }
    ledger_unlock();
}

void ledger_begin()
{
    if (!ledger) {
        ledger = (const void**)mmap(NULL, LEDGER_SIZE * sizeof(void*),
            PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
    ledger_on = true;
}

static size_t ledger_scan(char* text, size_t size)
{
    size_t found = 0;
    std::multiset<std::string> names;
    ledger_on = false;
    for (uint32_t k = 0; k < LEDGER_SIZE; k++) {
        void* p = (void*)ledger[k];
        if ((uintptr_t)p <= 1) continue;
        void* pc[16];
        int tid = 0;
        size_t n = __asan_get_alloc_stack(p, pc, 16, &tid);
        const void* lib = NULL;
        bool cache = false;
        char via[64] = "";
        for (size_t i = 0; i < n; i++) {
            /* Return addresses point behind the call */
            const char* a = (const char*)pc[i] - 1;
            if (in_library(a)) { lib = a; break; }
            if (in_harness(a)) break;
            Dl_info di;
            if (dladdr(a, &di) && di.dli_sname) {
                const char* s = di.dli_sname;
                /* Internal growth of a main context, type system or such */
                if (!strcmp(s, "g_source_attach") || g_str_has_prefix(s, "g_main_context_") ||
                    (g_str_has_prefix(s, "g_hash_table_") && !g_str_has_prefix(s, "g_hash_table_new")) ||
                    g_str_has_prefix(s, "g_type_class_") || g_str_has_prefix(s, "g_quark") ||
                    g_str_has_prefix(s, "g_intern_") || g_str_has_prefix(s, "g_rw_lock_reader_") ||
                    g_str_has_prefix(s, "g_rw_lock_writer_") || g_str_has_prefix(s, "g_rec_mutex_lock") ||
                    g_str_has_prefix(s, "g_rec_mutex_trylock") || g_str_has_prefix(s, "g_get_charset") ||
                    g_str_has_prefix(s, "g_get_console_charset") || g_str_has_prefix(s, "g_strerror") || g_str_has_prefix(s, "g_thread_self") ||
                    g_str_has_prefix(s, "g_private_") || g_str_has_prefix(s, "g_datalist_") ||
                    g_str_has_prefix(s, "g_signal_emit") || g_str_has_prefix(s, "g_source_remove") ||
                    g_str_has_prefix(s, "g_source_destroy")) {
                    cache = true;
                }
                if (!via[0] && strstr(s, "malloc") == NULL && strstr(s, "g_slice") == NULL)
                    g_strlcpy(via, s, sizeof(via));
            }
        }
        if (lib && !cache) {
            found++;
            Dl_info di;
            char one[128];
            if (dladdr(lib, &di) && di.dli_sname) {
                snprintf(one, sizeof(one), "%s%s%s", di.dli_sname, via[0] ? " via " : "", via);
            } else {
                snprintf(one, sizeof(one), "lib+0x%lx%s%s",
                    (long)((const char*)lib - simlib_begin_marker), via[0] ? " via " : "", via);
            }
            /* The ledger is in the order of addresses, i.e. random */
            names.insert(one);
        }
    }
    if (size) {
        text[0] = 0;
        for (auto& n : names) {
            size_t len = strlen(text);
            snprintf(text + len, size - len, "%s%s", len ? ", " : "", n.c_str());
        }
    }
    return found;
}

void ledger_check(const char* props)
{
    static char text[2048];
    size_t n = ledger_scan(text, sizeof(text));
    ledger_on = true;
    checked();
    if (n) fail(props, "leak", "%d memory block(s) not given back: %s", (int)n, text);
    if (world::open_fds()) fail(props, "leak-fd", "%d descriptor(s) not given back",
        world::open_fds());
}

/* ------------------------------------------------------------------ */
/* Crashes */

static void asan_report(const char* text)
{
    g_strlcpy(crash_text, text, sizeof(crash_text));
}

static void asan_death()
{
    if (!in_run) return;
    in_run = false;
    char cls[96] = "crash";
    const char* p = strstr(crash_text, "AddressSanitizer: ");
    if (p) {
        p += strlen("AddressSanitizer: ");
        size_t n = strcspn(p, " \n:");
        g_snprintf(cls, sizeof(cls), "memory:%.*s", (int)MIN(n, 60), p);
    }
    g_strlcpy(shm->cls, cls, sizeof(shm->cls));
    g_strlcpy(shm->props, cur_sc->props, sizeof(shm->props));
    /* Keep the first lines, addresses in there do not matter */
    g_strlcpy(shm->msg, p ? p : crash_text, 1800);
    hash_bytes(cls, strlen(cls));
    shm->status = ST_FAIL;
    finish_shm();
    _exit(3);
}

/* ------------------------------------------------------------------ */

struct Spec {
    std::string prop, scenario;
    uint64_t seed, run;
    bool faults;
};

static uint64_t seed_of(const Spec& s)
{
    uint64_t h = mix(0x1234567, s.seed);
    for (char c : s.scenario) h = mix(h, c);
    for (char c : s.prop) h = mix(h, c + 1000);
    return mix(mix(h, s.run), s.faults);
}

static void child_main(const Spec& spec, const std::vector<uint32_t>* list, bool trace)
{
    cur_prop = spec.prop.c_str();
    cur_faults = spec.faults;
    cur_sc = find_scenario(spec.scenario.c_str());
    replay_list = list;
    replay_pos = 0;
    trace_on = trace;
    rng_seed(seed_of(spec));
    struct itimerval it = { {0, 0}, {12, 0} };
    setitimer(ITIMER_PROF, &it, NULL);
    alarm(240);
    world::reset();
    in_run = true;
    ledger_begin();
    cur_sc->run();
    ledger_check();
    in_run = false;
    log("END");
    finish_shm();
    _exit(0);
}

static void shm_reset()
{
    memset(shm, 0, offsetof(Shm, choices));
    shm->trace_len = 0;
}

struct Outcome {
    int status;                 /* ST_xxx */
    std::string cls, props, msg;
    uint64_t hash;
};

static Outcome run_one(const Spec& spec, const std::vector<uint32_t>* list, bool trace)
{
    Outcome o;
    shm_reset();
    fflush(stdout);
    pid_t pid = fork();
    if (!pid) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        child_main(spec, list, trace);
    }
    if (pid < 0) { perror("fork"); exit(2); }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    o.status = shm->status;
    if (!shm->finished) {
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) {
            o.status = ST_FAIL;
            g_strlcpy(shm->cls, "hang", sizeof(shm->cls));
            g_strlcpy(shm->props, find_scenario(spec.scenario.c_str())->props, sizeof(shm->props));
            g_strlcpy(shm->msg, "the run never ends (12 s of CPU time used up)", MSG_SIZE);
        } else if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGALRM)) {
            o.status = ST_HARNESS;
            g_snprintf(shm->msg, MSG_SIZE, "run ended by signal %d", WTERMSIG(st));
        } else {
            o.status = ST_FAIL;
            g_snprintf(shm->cls, sizeof(shm->cls), "died");
            g_strlcpy(shm->props, find_scenario(spec.scenario.c_str())->props, sizeof(shm->props));
            g_snprintf(shm->msg, MSG_SIZE, "process died, %s %d",
                WIFSIGNALED(st) ? "signal" : "exit code",
                WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
        }
    }
    o.cls = shm->cls;
    o.props = shm->props;
    o.msg = shm->msg;
    o.hash = shm->hash;
    return o;
}

static bool prop_in(const std::string& props, const std::string& p)
{
    return ("," + props + ",").find("," + p + ",") != std::string::npos;
}

/* ------------------------------------------------------------------ */
/* Shrinking */

static double now_s()
{
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec / 1e9;
}

struct Shrinker {
    Spec spec;
    std::string cls, props;
    std::vector<uint32_t> best, spans;
    int tries = 0, max_tries;
    double deadline;

    bool budget() { return tries < max_tries && now_s() < deadline; }
    bool attempt(const std::vector<uint32_t>& c)
    {
        if (!budget()) return false;
        tries++;
        Outcome o = run_one(spec, &c, false);
        if (o.status == ST_FAIL && o.cls == cls && prop_in(o.props, spec.prop)) {
            /* What was actually consumed, normalised */
            std::vector<uint32_t> used(shm->choices, shm->choices + shm->nchoices);
            while (!used.empty() && !used.back()) used.pop_back();
            bool better = used.size() < best.size() ||
                (used.size() == best.size() && used < best);
            if (better) {
                best = used;
                spans.assign(shm->spans, shm->spans + shm->nspans);
                return true;
            }
        }
        return false;
    }
    void run()
    {
        for (bool progress = true; progress && budget(); ) {
            progress = false;
            /* Truncate */
            for (size_t cut = best.size() / 2; cut > 0 && budget(); cut /= 2) {
                while (best.size() > cut) {
                    std::vector<uint32_t> c(best.begin(), best.end() - cut);
                    if (!attempt(c)) break;
                    progress = true;
                }
            }
            /* Delete op spans, large groups first */
            for (size_t k = 16; k > 0 && budget(); k /= 2) {
                for (size_t i = 0; i < spans.size() && budget(); ) {
                    size_t b = spans[i];
                    size_t e = i + k < spans.size() ? spans[i + k] : best.size();
                    if (b < e && e <= best.size()) {
                        std::vector<uint32_t> c(best.begin(), best.begin() + b);
                        c.insert(c.end(), best.begin() + e, best.end());
                        if (attempt(c)) { progress = true; continue; }
                    }
                    i++;
                }
            }
            /* Delete small runs of choices */
            for (size_t k = 4; k > 0 && budget(); k /= 2) {
                for (size_t i = best.size(); i-- > 0 && budget(); ) {
                    if (i + k > best.size()) continue;
                    std::vector<uint32_t> c(best);
                    c.erase(c.begin() + i, c.begin() + i + k);
                    if (attempt(c)) progress = true;
                }
            }
            /* Lower values */
            for (size_t i = 0; i < best.size() && budget(); i++) {
                if (!best[i]) continue;
                std::vector<uint32_t> c(best);
                c[i] = 0;
                if (attempt(c)) { progress = true; continue; }
                if (i < best.size() && best[i] > 1) {
                    c = best; c[i] = best[i] / 2;
                    if (attempt(c)) progress = true;
                    if (i < best.size() && best[i] > 1) {
                        c = best; c[i] = best[i] - 1;
                        if (attempt(c)) progress = true;
                    }
                }
            }
        }
    }
};

/* ------------------------------------------------------------------ */
/* Replay files */

struct ReplayFile {
    Spec spec;
    std::string cls;
    uint64_t hash;
    std::vector<uint32_t> choices;
};

static bool replay_load(const char* path, ReplayFile* r)
{
    FILE* f = fopen(path, "r");
    if (!f) { perror(path); return false; }
    char* line = NULL;
    size_t cap = 0;
    bool ok = false;
    while (getline(&line, &cap, f) > 0) {
        char* nl = strchr(line, '\n');
        if (nl) *nl = 0;
        char* val = strchr(line, ' ');
        if (val) *val++ = 0; else val = (char*)"";
        if (!strcmp(line, "property")) r->spec.prop = val;
        else if (!strcmp(line, "scenario")) r->spec.scenario = val;
        else if (!strcmp(line, "seed")) r->spec.seed = strtoull(val, 0, 10);
        else if (!strcmp(line, "run")) r->spec.run = strtoull(val, 0, 10);
        else if (!strcmp(line, "faults")) r->spec.faults = atoi(val) != 0;
        else if (!strcmp(line, "class")) r->cls = val;
        else if (!strcmp(line, "hash")) r->hash = strtoull(val, 0, 16);
        else if (!strcmp(line, "choices")) {
            ok = true;
            for (char* p = val; *p; ) {
                char* e;
                unsigned long v = strtoul(p, &e, 10);
                if (e == p) break;
                r->choices.push_back((uint32_t)v);
                p = e;
            }
        }
        else if (!strcmp(line, "trace")) break;
    }
    free(line);
    fclose(f);
    return ok && find_scenario(r->spec.scenario.c_str());
}

static void one_line(std::string& s)
{
    for (char& c : s) if (c == '\n' || c == '\r' || c == '\t') c = ' ';
}

static void replay_save(const char* path, const Spec& spec, const Outcome& o,
    const std::vector<uint32_t>& choices, int tries, size_t orig)
{
    FILE* f = fopen(path, "w");
    if (!f) { perror(path); exit(2); }
    std::string msg = o.msg;
    one_line(msg);
    fprintf(f, "glibutil-sim-replay 1\nproperty %s\nscenario %s\nseed %llu\nrun %llu\n"
        "faults %d\nclass %s\nhash %016llx\nmessage %s\nshrunk from %d to %d choices in %d attempts\nchoices",
        spec.prop.c_str(), spec.scenario.c_str(), (unsigned long long)spec.seed,
        (unsigned long long)spec.run, spec.faults, o.cls.c_str(),
        (unsigned long long)o.hash, msg.c_str(), (int)orig, (int)choices.size(), tries);
    for (uint32_t c : choices) fprintf(f, " %u", c);
    fprintf(f, "\ntrace\n%.*s", (int)shm->trace_len, shm->trace);
    fclose(f);
}

/* ------------------------------------------------------------------ */

static void json_str(FILE* f, const char* s)
{
    fputc('"', f);
    for (; *s; s++) {
        unsigned char c = *s;
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c < 32 || c >= 127) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

struct Agg {
    uint64_t runs = 0, faultfree = 0, nontrivial = 0, checked = 0, sim_ns = 0, switches = 0,
        choices = 0, steps = 0, foreign = 0, overflow = 0;
    std::vector<Counter> counters;
    std::unordered_set<uint64_t> hashes;        /* distinct histories */
    std::unordered_set<uint64_t> nt_hashes;     /* distinct and non trivial */
    std::vector<std::pair<std::string, uint64_t>> foreign_cls, knowns, per_scenario;
    static void bump(std::vector<std::pair<std::string, uint64_t>>& v, const std::string& s)
    {
        for (auto& p : v) if (p.first == s) { p.second++; return; }
        v.push_back({s, 1});
    }
    void add()
    {
        runs++;
        if (shm->is_nontrivial) { nontrivial++; nt_hashes.insert(shm->hash); }
        hashes.insert(shm->hash);
        checked += shm->checked;
        sim_ns += shm->sim_ns;
        switches += shm->switches;
        choices += shm->nchoices;
        steps += shm->steps;
        overflow += shm->overflow;
        for (uint32_t i = 0; i < shm->ncounters; i++) {
            const Counter& c = shm->counters[i];
            bool found = false;
            for (auto& x : counters) {
                if (x.kind == c.kind && !strcmp(x.name, c.name)) { x.n += c.n; found = true; break; }
            }
            if (!found) counters.push_back(c);
        }
        if (shm->known[0]) bump(knowns, shm->known);
    }
};

static void json_counters(FILE* f, const Agg& a, char kind)
{
    bool first = true;
    fprintf(f, "{");
    for (auto& c : a.counters) {
        if (c.kind != kind) continue;
        if (!first) fprintf(f, ",");
        first = false;
        json_str(f, c.name);
        fprintf(f, ":%llu", (unsigned long long)c.n);
    }
    fprintf(f, "}");
}

static void json_pairs(FILE* f, const std::vector<std::pair<std::string, uint64_t>>& v)
{
    bool first = true;
    fprintf(f, "{");
    for (auto& p : v) {
        if (!first) fprintf(f, ",");
        first = false;
        json_str(f, p.first.c_str());
        fprintf(f, ":%llu", (unsigned long long)p.second);
    }
    fprintf(f, "}");
}

static std::vector<std::string> split(const char* s, char c)
{
    std::vector<std::string> v;
    while (s && *s) {
        const char* e = strchr(s, c);
        if (!e) { v.push_back(s); break; }
        v.push_back(std::string(s, e - s));
        s = e + 1;
    }
    return v;
}

static const char* opt(int argc, char** argv, const char* name, const char* def)
{
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], name)) return argv[i + 1];
    return def;
}
static bool has(int argc, char** argv, const char* name)
{
    for (int i = 1; i < argc; i++) if (!strcmp(argv[i], name)) return true;
    return false;
}

/* Which scenario a given run number uses */
static Spec spec_for(const char* prop, const std::vector<std::string>& scs, uint64_t seed, uint64_t run)
{
    Spec s;
    s.prop = prop;
    s.seed = seed;
    s.run = run;
    s.scenario = scs[run % scs.size()];
    s.faults = ((run / scs.size()) % 4) != 3;     /* every fourth run is fault free */
    return s;
}

static int cmd_worker(int argc, char** argv)
{
    const char* prop = opt(argc, argv, "--prop", "");
    std::vector<std::string> scs = split(opt(argc, argv, "--scenarios", ""), ',');
    uint64_t seed = strtoull(opt(argc, argv, "--seed", "1"), 0, 10);
    uint64_t start = strtoull(opt(argc, argv, "--start", "0"), 0, 10);
    uint64_t stride = strtoull(opt(argc, argv, "--stride", "1"), 0, 10);
    uint64_t total = strtoull(opt(argc, argv, "--total", "100"), 0, 10);
    double maxs = atof(opt(argc, argv, "--max-seconds", "1e9"));
    const char* out = opt(argc, argv, "--out", NULL);
    const char* stopfile = opt(argc, argv, "--stop-file", NULL);
    bool hashes = has(argc, argv, "--hashes");
    bool any = has(argc, argv, "--any");        /* any property */
    Agg a;
    std::string vio;
    bool timed_out = false;
    double t0 = now_s();
    std::string samples;
    int nsamples = 0;

    if (scs.empty()) { fprintf(stderr, "no scenarios\n"); return 2; }
    for (auto& s : scs) if (!find_scenario(s.c_str())) { fprintf(stderr, "no scenario %s\n", s.c_str()); return 2; }
    FILE* f = fopen(out, "w");
    if (!f) { perror(out); return 2; }
    uint64_t violation_run = 0, harness_run = 0;
    bool violated = false, harness = false;
    Outcome vo;
    for (uint64_t i = start; i < total; i += stride) {
        if (now_s() - t0 > maxs) { timed_out = true; break; }
        if (stopfile && (a.runs % 64) == 63 && !access(stopfile, F_OK)) { timed_out = true; break; }
        Spec s = spec_for(prop, scs, seed, i);
        Outcome o = run_one(s, NULL, false);
        a.add();
        Agg::bump(a.per_scenario, s.scenario);
        if (!s.faults) a.faultfree++;
        if (hashes) printf("%llu %016llx %d\n", (unsigned long long)i, (unsigned long long)o.hash, o.status);
        if (o.status == ST_HARNESS) {
            harness = true; harness_run = i; vo = o;
            break;
        }
        if (o.status == ST_FAIL) {
            if (any || prop_in(o.props, prop)) {
                violated = true; violation_run = i; vo = o;
                break;
            }
            a.foreign++;
            Agg::bump(a.foreign_cls, o.props + " " + o.cls);
        } else if (nsamples < 2 && shm->is_nontrivial && a.runs > 3) {
            /* A case of this run, written out */
            std::vector<uint32_t> list(shm->choices, shm->choices + shm->nchoices);
            run_one(s, &list, true);
            if (nsamples++) samples += ",";
            char hdr[160];
            g_snprintf(hdr, sizeof(hdr), "scenario %s seed %llu run %llu faults %d: ",
                s.scenario.c_str(), (unsigned long long)seed, (unsigned long long)i, s.faults);
            std::string t = std::string(hdr) + std::string(shm->trace, MIN(shm->trace_len, 1500u));
            std::string js = "\"";
            for (unsigned char c : t) {
                char b[8];
                if (c == '\n') js += " | ";
                else if (c == '"' || c == '\\') { js += '\\'; js += c; }
                else if (c < 32 || c >= 127) { g_snprintf(b, sizeof(b), "\\u%04x", c); js += b; }
                else js += c;
            }
            js += "\"";
            samples += js;
        }
    }
    uint64_t ns = 0;
    for (uint64_t k = 0; k < (1ull << STATE_BITS); k++) if (state_set[k]) ns++;
    /* Binary side files for exact unions */
    {
        std::string p = std::string(out) + ".bin";
        FILE* b = fopen(p.c_str(), "wb");
        uint64_t n1 = a.hashes.size(), n2 = a.nt_hashes.size();
        fwrite(&n1, 8, 1, b); for (uint64_t h : a.hashes) fwrite(&h, 8, 1, b);
        fwrite(&n2, 8, 1, b); for (uint64_t h : a.nt_hashes) fwrite(&h, 8, 1, b);
        fwrite(&ns, 8, 1, b);
        for (uint64_t k = 0; k < (1ull << STATE_BITS); k++) if (state_set[k]) fwrite(&state_set[k], 8, 1, b);
        fclose(b);
    }
    fprintf(f, "{\"runs\":%llu,\"faultfree\":%llu,\"nontrivial\":%llu,\"checked\":%llu,"
        "\"sim_ns\":%llu,\"switches\":%llu,\"choices\":%llu,\"steps\":%llu,\"foreign\":%llu,\"overflow\":%llu,\"timed_out\":%d,",
        (unsigned long long)a.runs, (unsigned long long)a.faultfree, (unsigned long long)a.nontrivial,
        (unsigned long long)a.checked, (unsigned long long)a.sim_ns, (unsigned long long)a.switches,
        (unsigned long long)a.choices, (unsigned long long)a.steps,
        (unsigned long long)a.foreign, (unsigned long long)a.overflow, timed_out);
    fprintf(f, "\"faults\":"); json_counters(f, a, 'f');
    fprintf(f, ",\"probes\":"); json_counters(f, a, 'p');
    fprintf(f, ",\"counts\":"); json_counters(f, a, 'c');
    fprintf(f, ",\"foreign_classes\":"); json_pairs(f, a.foreign_cls);
    fprintf(f, ",\"known\":"); json_pairs(f, a.knowns);
    fprintf(f, ",\"scenarios\":"); json_pairs(f, a.per_scenario);
    fprintf(f, ",\"samples\":[%s]", samples.c_str());
    if (violated || harness) {
        fprintf(f, ",\"%s\":{\"run\":%llu,\"class\":", violated ? "violation" : "harness",
            (unsigned long long)(violated ? violation_run : harness_run));
        json_str(f, vo.cls.c_str());
        fprintf(f, ",\"props\":"); json_str(f, vo.props.c_str());
        fprintf(f, ",\"message\":"); json_str(f, vo.msg.c_str());
        fprintf(f, "}");
    }
    fprintf(f, "}\n");
    fclose(f);
    if (violated && stopfile) { FILE* t = fopen(stopfile, "w"); if (t) fclose(t); }
    return 0;
}

static int cmd_shrink(int argc, char** argv)
{
    std::vector<std::string> scs = split(opt(argc, argv, "--scenarios", ""), ',');
    Spec s = spec_for(opt(argc, argv, "--prop", ""), scs,
        strtoull(opt(argc, argv, "--seed", "1"), 0, 10),
        strtoull(opt(argc, argv, "--run", "0"), 0, 10));
    const char* out = opt(argc, argv, "--out", "replay.txt");
    /* Determinism gate, part one: same seed twice */
    Outcome o1 = run_one(s, NULL, false);
    std::vector<uint32_t> c1(shm->choices, shm->choices + shm->nchoices);
    Outcome o2 = run_one(s, NULL, false);
    std::vector<uint32_t> c2(shm->choices, shm->choices + shm->nchoices);
    if (o1.status != ST_FAIL || o2.status != ST_FAIL || o1.cls != o2.cls ||
        o1.hash != o2.hash || c1 != c2) {
        printf("GATE same seed twice differs: %d/%d %s/%s %016llx/%016llx\n", o1.status, o2.status,
            o1.cls.c_str(), o2.cls.c_str(), (unsigned long long)o1.hash, (unsigned long long)o2.hash);
        return 2;
    }
    Shrinker sh;
    sh.spec = s;
    sh.cls = o1.cls;
    sh.best = c1;
    sh.max_tries = atoi(opt(argc, argv, "--max-tries", "4000"));
    sh.deadline = now_s() + atof(opt(argc, argv, "--max-seconds", "45"));
    {
        run_one(s, &c1, false);
        sh.spans.assign(shm->spans, shm->spans + shm->nspans);
    }
    sh.run();
    Outcome of = run_one(s, &sh.best, true);
    if (of.status != ST_FAIL || of.cls != o1.cls) {
        printf("GATE minimised run does not fail: %d %s\n", of.status, of.cls.c_str());
        return 2;
    }
    replay_save(out, s, of, sh.best, sh.tries, c1.size());
    printf("SHRUNK %d -> %d choices, class %s\n", (int)c1.size(), (int)sh.best.size(), of.cls.c_str());
    return 0;
}

static int cmd_replay(int argc, char** argv)
{
    ReplayFile r;
    r.hash = 0;
    r.spec.faults = true;
    if (argc < 3 || !replay_load(argv[2], &r)) { fprintf(stderr, "bad replay file\n"); return 2; }
    Outcome o = run_one(r.spec, &r.choices, true);
    if (!has(argc, argv, "-q")) {
        printf("%.*s", (int)shm->trace_len, shm->trace);
        if (o.status != ST_OK) printf("%s\n", o.msg.c_str());
    }
    bool same = o.status == ST_FAIL && o.cls == r.cls && o.hash == r.hash &&
        prop_in(o.props, r.spec.prop);
    std::string msg = o.msg;
    one_line(msg);
    printf("REPLAY %s class=%s hash=%016llx props=%s\n",
        same ? "reproduced" : o.status == ST_FAIL ? "different" : "passed",
        o.cls.c_str(), (unsigned long long)o.hash, o.props.c_str());
    return same ? 1 : o.status == ST_OK ? 0 : 2;
}

static int cmd_run(int argc, char** argv)
{
    std::vector<std::string> scs = split(opt(argc, argv, "--scenarios", ""), ',');
    Spec s = spec_for(opt(argc, argv, "--prop", ""), scs,
        strtoull(opt(argc, argv, "--seed", "1"), 0, 10),
        strtoull(opt(argc, argv, "--run", "0"), 0, 10));
    Outcome o = run_one(s, NULL, true);
    printf("%.*s", (int)shm->trace_len, shm->trace);
    for (uint32_t i = 0; i < shm->ncounters; i++)
        printf("# %c %s %llu\n", shm->counters[i].kind, shm->counters[i].name, (unsigned long long)shm->counters[i].n);
    printf("status %d class %s props %s choices %u steps %llu hash %016llx\n%s\n", o.status,
        o.cls.c_str(), o.props.c_str(), shm->nchoices, (unsigned long long)shm->steps, (unsigned long long)o.hash, o.msg.c_str());
    return o.status;
}

/*
 * Warming up is done by the parent, for all runs. If it can't survive that, then the
 * runs (where crashes are judged) have to start without.
 */
static bool warmup_works(void (*fn)())
{
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) return false;
    if (!pid) {
        int null = open("/dev/null", O_WRONLY);
        if (null >= 0) { dup2(null, 1); dup2(null, 2); }
        struct itimerval it = {{0, 0}, {5, 0}};
        signal(SIGPROF, SIG_DFL);
        signal(SIGALRM, SIG_DFL);
        setitimer(ITIMER_PROF, &it, NULL);
        alarm(60);
        fn();
        /* Whatever the library has not closed would belong to nobody in the runs */
        _exit(world::open_fds() ? 1 : 0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}

} // namespace sim

using namespace sim;

int main(int argc, char** argv)
{
    if (argc < 2) return 2;
    /* No address space randomisation, where the kernel lets us */
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
        if (personality(pers | ADDR_NO_RANDOMIZE) != -1) {
            setenv("SIM_REEXEC", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    setenv("TZ", "UTC0", 1);
    tzset();
    unsetenv("G_MESSAGES_DEBUG");
    unsetenv("G_DEBUG");
    shm = (Shm*)mmap(NULL, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    state_set = (uint64_t*)mmap(NULL, sizeof(uint64_t) << STATE_BITS, PROT_READ | PROT_WRITE,
        MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    __asan_set_error_report_callback(asan_report);
    __sanitizer_set_death_callback(asan_death);
    __sanitizer_install_malloc_and_free_hooks(malloc_hook, free_hook);
    if (!getenv("SIM_STDERR")) {
        /* Sanitizer reports are recorded, not printed */
        __sanitizer_set_report_path("/dev/null");
    }
    world::init_process();
    for (int i = 0; i < 140; i++) {
        /* Cached by GLib (and the result has to be used, it is declared as a pure function) */
        static const char* volatile text;
        text = g_strerror(i);
    }
    {
        /* What GLib sets up on the first use */
        GError* error = NULL;
        g_set_error(&error, G_OPTION_ERROR, G_OPTION_ERROR_BAD_VALUE, "%d", 1);
        g_clear_error(&error);
        g_io_channel_error_quark();
        g_file_error_quark();
    }
    for (auto w : warmups()) if (warmup_works(w)) {
        w();
        world::reset();
    }
    world::reset();
    std::string cmd = argv[1];
    if (cmd == "worker") return cmd_worker(argc, argv);
    if (cmd == "shrink") return cmd_shrink(argc, argv);
    if (cmd == "replay") return cmd_replay(argc, argv);
    if (cmd == "run") return cmd_run(argc, argv);
    if (cmd == "list") {
        for (auto s : scenarios()) printf("%s|%s|%s|%s\n", s->name, s->props, s->real, s->stub);
        return 0;
    }
    return 2;
}
