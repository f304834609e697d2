/* S6: value histories fed by samplers under a simulated clock which may jump */
#include "sim.h"
#include <gutil_history.h>
#include <string.h>
#include <limits.h>
#include <deque>
#include <vector>

namespace {

struct Sample { gint64 t; int v; };
struct Hist {
    int id;
    GUtilIntHistory* obj;
    int max_size;
    gint64 max_interval;
    int refs;
    bool own_clock;
    std::deque<Sample> s;
};

static std::vector<Hist*> hists;
static gint64 now_;              /* custom clock, microseconds */
static std::vector<gint64> reads;
static gint64 tick;              /* clock goes on while it's being read */
static gint64 span_left;         /* how much of the time scale is left */
static int vbits;

static gint64 my_clock()
{
    gint64 t = now_;
    reads.push_back(t);
    if (tick) {
        now_ += tick;
        world::advance_ns(tick * 1000);
    }
    return t;
}

static void flush(Hist* h, gint64 now)
{
    const gint64 cutoff = now - h->max_interval;
    while (!h->s.empty() && h->s.front().t < cutoff) h->s.pop_front();
}

static void move(gint64 us)
{
    now_ += us;
    world::advance_ns(us * 1000);
}

static int random_value()
{
    if (vbits >= 31) {
        switch (sim::choose(6)) {
        case 0: return 0;
        case 1: return INT_MAX;
        case 2: return INT_MIN;
        case 3: return (int)sim::choose(1000);
        case 4: return INT_MAX - (int)sim::choose(1000);
        default: return (int)sim::choose(0xffffffffu);
        }
    }
    int64_t m = (int64_t)1 << vbits;
    return (int)sim::choose_range(-m, m);
}

static void add(Hist* h, gint64 now, int v)
{
    flush(h, now);
    if (h->s.empty()) {
        h->s.push_back({ now, v });
    } else if (now > h->s.back().t) {
        h->s.push_back({ now, v });
        if ((int)h->s.size() > h->max_size) h->s.pop_front();
    } else {
        h->s.back().v = v;
    }
}

static bool mean_ok(Hist* h, int res, const char** why)
{
    const std::deque<Sample>& s = h->s;
    *why = "not the mean";
    if (s.size() == 1) return res == s[0].v;
    int lo = s[0].v, hi = s[0].v;
    __int128 sum = 0;
    for (size_t i = 0; i + 1 < s.size(); i++) sum += (__int128)(s[i + 1].t - s[i].t) * ((gint64)s[i].v + s[i + 1].v);
    for (auto& x : s) { if (x.v < lo) lo = x.v; if (x.v > hi) hi = x.v; }
    if (res < lo || res > hi) { *why = "not between the samples"; return false; }
    __int128 T = s.back().t - s.front().t;
    __int128 d = (__int128)res * 2 * T - sum;
    if (d < 0) d = -d;
    return d < 3 * T;
}

enum Op { ADD, MEDIAN, SIZE, INTERVAL };

static void note(Hist* h)
{
    uint64_t x = sim::mix(h->s.size(), h->max_size > 6 ? 6 : h->max_size);
    if (!h->s.empty()) x = sim::mix(x, (now_ - h->s.front().t) * 8 / h->max_interval);
    sim::state(x);
    if (h->s.size() > 1) sim::nontrivial();
}

static void call(Hist* h, Op op)
{
    static const char* const names[] = { "add", "median", "size", "interval" };
    int v = op == ADD ? random_value() : op == MEDIAN ? (int)sim::choose(1000) - 500 : 0;
    tick = 0;
    if (sim::faults_enabled() && h->own_clock && sim::flip(50)) {
        tick = 1 + sim::choose(3) * (h->max_interval < 1000000 ? h->max_interval / 2 : 1000);
        sim::fault("clock.ticks_while_read");
    }
    gint64 res = 0, now0 = now_;
    reads.clear();
    switch (op) {
    case ADD: res = gutil_int_history_add(h->obj, v); break;
    case MEDIAN: res = gutil_int_history_median(h->obj, v); break;
    case SIZE: res = gutil_int_history_size(h->obj); break;
    case INTERVAL: res = gutil_int_history_interval(h->obj); break;
    }
    tick = 0;
    if (!h->own_clock) reads.clear();
    if (reads.empty()) reads.push_back(now0);
    sim::log("history %d at %lld: %s(%d) = %lld", h->id, (long long)(now0), names[op], v, (long long)res);
    /* Usually there's just one reading */
    char msg[256];
    const char* cls = NULL;
    const char* props = "C09";
    for (gint64 t : reads) {
        Hist m = *h;
        bool ok = true;
        const char* why = NULL;
        if (op == ADD) add(&m, t, v); else flush(&m, t);
        switch (op) {
        case ADD:
        case MEDIAN:
            if (m.s.empty()) { ok = res == v; cls = "default"; props = "C09,C10"; why = "not the default value"; }
            else { ok = mean_ok(&m, (int)res, &why); cls = "mean"; props = "C09,C10"; }
            break;
        case SIZE: ok = (size_t)res == m.s.size(); cls = "size"; why = "wrong size"; break;
        case INTERVAL: ok = res == (m.s.empty() ? 0 : t - m.s.front().t); cls = "interval"; why = "wrong interval"; break;
        }
        sim::checked();
        if (ok) {
            h->s = m.s;
            note(h);
            return;
        }
        int n = g_snprintf(msg, sizeof(msg), "%s: %s(%d) returned %lld, samples (max %d, %lld us)", why, names[op], v, (long long)res,
            h->max_size, (long long)h->max_interval);
        for (size_t i = 0; i < m.s.size() && i < 4; i++)
            n += g_snprintf(msg + n, sizeof(msg) - n, " %d at %lld", m.s[i].v, (long long)m.s[i].t);
    }
    sim::fail(props, cls, "%s", msg);
}

static void new_hist()
{
    static const int sizes[] = { 1, 2, 3, 4, 5, 8, 17, 100, 1, 2, 3, 300 };
    Hist* h = new Hist();
    h->id = (int)hists.size();
    h->max_size = sizes[sim::choose(12)];
    switch (sim::choose(7)) {
    case 0: h->max_interval = 1 + sim::choose(10); break;
    case 1: h->max_interval = 1000 + sim::choose(1000); break;
    case 2: h->max_interval = GUTIL_HISTORY_SEC; break;
    case 3: h->max_interval = 60 * GUTIL_HISTORY_SEC; break;
    case 4: h->max_interval = G_MAXINT64; break;
    case 5: h->max_interval = 24 * 3600 * GUTIL_HISTORY_SEC; break;
    case 6: h->max_interval = (gint64)1 << (29 + sim::choose(12)); break;
    }
    h->own_clock = sim::choose(2) == 0;
    h->obj = h->own_clock ? gutil_int_history_new_full(h->max_size, h->max_interval, my_clock) :
        gutil_int_history_new(h->max_size, h->max_interval);
    h->refs = 1;
    sim::log("history %d: max %d, %lld us%s", h->id, h->max_size, (long long)h->max_interval, h->own_clock ? "" : ", default clock");
    if (!h->obj) sim::fail("C09", "new", "history not created");
    hists.push_back(h);
}

static void action(const int* w)
{
    Hist* h = hists[sim::choose((uint32_t)hists.size())];
    if (!h->obj) return;
    switch (sim::pickw(w, 12)) {
    case 0:
        for (int n = sim::burst(400); n > 0; n--) {
            if (n > 1 && span_left > 3) { const int d = (int)sim::choose(3); span_left -= d; move(d); }
            call(h, ADD);
        }
        break;
    case 1: call(h, MEDIAN); break;
    case 2: call(h, SIZE); break;
    case 3: call(h, INTERVAL); break;
    case 4: case 5: {
        /* Some time passes, often right up to where something expires */
        gint64 d = 1;
        switch (sim::choose(7)) {
        case 0: d = 1; break;
        case 1: d = 1 + sim::choose(1000); break;
        case 2: d = 1 + sim::choose(1000000); break;
        case 3: d = h->max_interval; break;
        case 6: d = ((gint64)1 << (20 + sim::choose(20))) + sim::choose(1000); break;
        case 4: case 5:
            if (!h->s.empty()) {
                const Sample& x = h->s[sim::choose((uint32_t)h->s.size())];
                if (h->max_interval < span_left) {
                    d = x.t + h->max_interval - now_ + sim::choose(3) - 1;
                    sim::probe("history.around_expiration");
                }
            }
            break;
        }
        if (d > 0 && d < span_left) {
            span_left -= d;
            move(d);
            sim::log("%lld us pass", (long long)d);
        }
        break;
    }
    case 6:
        if (sim::faults_enabled()) {
            gint64 d = 1 + (sim::choose(2) ? sim::choose(1000) : sim::choose(2000000));
            if (d > now_) d = now_;
            sim::log("clock steps back by %lld us", (long long)d);
            sim::fault("clock.stepped_back");
            move(-d);
        }
        break;
    case 7:
        sim::log("history %d cleared", h->id);
        gutil_int_history_clear(h->obj);
        h->s.clear();
        break;
    case 8: if (h->refs < 4) { h->refs++; if (gutil_int_history_ref(h->obj) != h->obj) sim::fail("C09", "ref-result", "bad ref"); } break;
    case 9: if (h->refs > 1 || hists.size() > 2) {
            gutil_int_history_unref(h->obj);
            if (!--h->refs) { h->obj = NULL; sim::log("history %d gone", h->id); }
        }
        break;
    case 10: if (hists.size() < 5) new_hist(); break;
    case 11:
        if (gutil_int_history_size(NULL) || gutil_int_history_interval(NULL) || gutil_int_history_ref(NULL) ||
            gutil_int_history_median(NULL, 17) != 17 || gutil_int_history_new(0, 1) || gutil_int_history_new(1, 0) ||
            gutil_int_history_new_full(-1, 1, my_clock))
            sim::fail("C09", "null", "bad arguments were taken for something");
        gutil_int_history_clear(NULL);
        gutil_int_history_unref(NULL);
        break;
    }
}

static void run()
{
    static const int base[12] = { 40, 12, 10, 10, 20, 20, 3, 1, 1, 2, 1, 1 };
    int w[12];
    for (int i = 0; i < 12; i++) w[i] = base[i] * (1 + (int)sim::choose(3));
    now_ = world::mono_ns() / 1000;
    /* Sum of values times interval has to fit into 64 bits */
    static const int bits[] = { 31, 31, 20, 15, 8 };
    int k = sim::choose(5);
    vbits = bits[k];
    span_left = (gint64)1 << (60 - vbits - 1);
    if (vbits < 31 && span_left > (gint64)1 << 42) span_left = (gint64)1 << 42;
    new_hist();
    if (sim::choose(2)) new_hist();
    for (Hist* h : hists) if (vbits < 31 && h->max_interval > ((gint64)1 << 32)) sim::probe("history.long_interval");
    int mean = 20 + 30 * sim::choose(4);
    while (sim::more(mean)) action(w);
    sim::span();
    for (Hist* h : hists) {
        if (!h->obj) continue;
        call(h, SIZE);
        call(h, INTERVAL);
        call(h, MEDIAN);
        while (h->refs--) gutil_int_history_unref(h->obj);
    }
}

} // namespace

SCENARIO(history, "history", "C09,C10", run,
    "gutil_history.c, g_get_monotonic_time",
    "clock_gettime(2), the clock function")
