/*
 * S16: helpers which keep no state of their own, called by several threads at
 * once, on their own data and on shared data which nobody changes. Each call
 * has to have the effect that it has when it's the only one.
 */
#include "sim.h"
#include <gutil_strv.h>
#include <gutil_intarray.h>
#include <gutil_ints.h>
#include <gutil_misc.h>
#include <string.h>
#include <stdio.h>
#include <limits.h>
#include <vector>
#include <string>
#include <algorithm>

namespace {

typedef std::vector<std::string> Strings;
typedef std::vector<int> Ints;

enum { MAX_TASK = 4 };
struct Task {
    int id;
    char** sv;
    Strings strs;
    GUtilIntArray* a;
    Ints ints;
    bool sorted, ascending;
};

static Task task[MAX_TASK];

/* Read by everybody */
static char** shared_sv;
static Strings shared_strs;
static GUtilIntArray* shared_a;
static Ints shared_ints;
static GBytes* shared_bytes[3];
static std::string shared_data[3];
static GUtilInts* shared_seq[3];
static Ints shared_seqs[3];

static const char* const words[] = { "a", "", "b", "bb", " c ", "a", "\td", "ab", "long enough to be in a block of its own", "c" };
static const char* word() { return words[sim::choose(10)]; }

/* Close to the limits, too */
static int number()
{
    static const int limit[] = { INT_MIN, INT_MIN + 1, -1, INT_MAX - 1, INT_MAX, 1 << 30, -(1 << 30) - 1 };
    return sim::choose(4) ? (int)sim::choose(6) : limit[sim::choose(7)];
}

static void bad(const char* what, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
static void bad(const char* what, const char* fmt, ...)
{
    char s[300];
    va_list va;
    va_start(va, fmt);
    vsnprintf(s, sizeof(s), fmt, va);
    va_end(va);
    sim::fail("C29", what, "%s", s);
}

static std::string join(const Strings& v)
{
    std::string s;
    for (auto& x : v) { s += s.empty() ? "\"" : " \""; s += x; s += "\""; }
    return s;
}

static std::string join(const Ints& v)
{
    std::string s;
    for (int x : v) { s += s.empty() ? "" : " "; s += std::to_string(x); }
    return s;
}

static Strings get(char** sv)
{
    Strings v;
    if (sv) for (; *sv; sv++) v.push_back(*sv);
    return v;
}

static void same(char** sv, const Strings& want, const char* after)
{
    const Strings v = get(sv);
    if (v != want) bad("strings", "%s gave %s rather than %s", after, join(v).c_str(), join(want).c_str());
}

static std::string strip(const std::string& s)
{
    size_t b = 0, e = s.size();
    while (b < e && g_ascii_isspace(s[b])) b++;
    while (e > b && g_ascii_isspace(s[e - 1])) e--;
    return s.substr(b, e - b);
}

static int find(const Strings& v, const std::string& s)
{
    auto i = std::find(v.begin(), v.end(), s);
    return i == v.end() ? -1 : (int)(i - v.begin());
}

static void look(char** sv, const Strings& v, const char* w)
{
    int last = -1;
    for (size_t i = 0; i < v.size(); i++) if (v[i] == w) last = (int)i;
    const int f = gutil_strv_find(sv, w), l = gutil_strv_find_last(sv, w);
    const bool c = gutil_strv_contains(sv, w);
    if (f != find(v, w) || l != last || c != (last >= 0))
        bad("strings", "\"%s\" found at %d, last %d (%d) in %s", w, f, l, c, join(v).c_str());
    const guint i = sim::choose((uint32_t)v.size() + 2);
    const char* at = gutil_strv_at(sv, i);
    if (i < v.size() ? (!at || v[i] != at) : at != NULL) bad("strings", "wrong string %u in %s", i, join(v).c_str());
    const char* z = gutil_strv_last(sv);
    if (v.empty() ? z != NULL : (!z || v.back() != z)) bad("strings", "wrong last string in %s", join(v).c_str());
    if (gutil_strv_length(sv) != v.size() || gutil_ptrv_length(sv) != v.size() || !gutil_ptrv_is_empty(sv) != !v.empty())
        bad("strings", "wrong length of %s", join(v).c_str());
}

static void strings(Task* t)
{
    Strings& v = t->strs;
    const guint len = (guint)v.size();
    const char* w = word();
    const uint32_t op = sim::choose(10);
    switch (op) {
    default: for (int n = sim::burst(300); n > 0; n--) { t->sv = gutil_strv_add(t->sv, w); v.push_back(w); w = word(); } same(t->sv, v, "add"); break;
    case 1: {
        const char* w2 = word();
        t->sv = gutil_strv_addv(t->sv, w, w2, w, NULL);
        v.push_back(w); v.push_back(w2); v.push_back(w);
        same(t->sv, v, "addv");
        break;
    }
    case 2: {
        const int i = (int)sim::choose(len + 2) - 1;
        t->sv = gutil_strv_remove_at(t->sv, i, TRUE);
        if (i >= 0 && i < (int)len) v.erase(v.begin() + i);
        same(t->sv, v, "remove_at");
        break;
    }
    case 3: {
        const bool all = sim::choose(2);
        /* What to remove may be told by one of the strings */
        if (len && sim::choose(2)) w = t->sv[sim::choose(len)];
        const std::string s = w;
        t->sv = gutil_strv_remove(t->sv, w, all);
        if (all) v.erase(std::remove(v.begin(), v.end(), s), v.end());
        else if (find(v, s) >= 0) v.erase(v.begin() + find(v, s));
        same(t->sv, v, all ? "removing all" : "removing one");
        break;
    }
    case 4: {
        Strings u;
        for (auto& s : v) if (find(u, s) < 0) u.push_back(s);
        t->sv = gutil_strv_remove_dups(t->sv);
        v = u;
        same(t->sv, v, "remove_dups");
        break;
    }
    case 5: {
        const bool up = sim::choose(2);
        t->sv = gutil_strv_sort(t->sv, up);
        std::sort(v.begin(), v.end());
        if (!up) std::reverse(v.begin(), v.end());
        same(t->sv, v, "sort");
        const int i = gutil_strv_bsearch(t->sv, w, up);
        if (find(v, w) < 0 ? i != -1 : (i < 0 || i >= (int)len || v[i] != w)) bad("strings", "\"%s\" found at %d in sorted %s", w, i, join(v).c_str());
        break;
    }
    case 6:
        t->sv = gutil_strv_strip(t->sv);
        for (auto& s : v) s = strip(s);
        same(t->sv, v, "strip");
        break;
    case 7: look(t->sv, v, w); break;
    case 8: look(shared_sv, shared_strs, w); break;
    case 9: {
        const Task* o = t;
        char** other = sim::choose(2) ? shared_sv : o->sv;
        const bool eq = gutil_strv_equal(t->sv, other);
        if (eq != (get(t->sv) == get(other))) bad("strings", "%s and %s %s", join(v).c_str(), join(get(other)).c_str(), eq ? "are equal" : "differ");
        break;
    }
    }
    if (v.size() > 30 && (v.size() > 400 || sim::choose(2))) {
        gutil_ptrv_free((void**)t->sv);
        t->sv = NULL;
        v.clear();
    }
    sim::state(sim::mix(1, sim::mix(op, v.size())));
}

static void same(GUtilIntArray* a, const Ints& want, const char* after)
{
    const Ints v(a->data, a->data + a->count);
    if (v != want) bad("ints", "%s gave %s rather than %s", after, join(v).c_str(), join(want).c_str());
}

static void look(GUtilIntArray* a, const Ints& v, int x)
{
    auto i = std::find(v.begin(), v.end(), x);
    const int want = i == v.end() ? -1 : (int)(i - v.begin());
    const int f = gutil_int_array_find(a, x);
    const bool c = gutil_int_array_contains(a, x);
    if (f != want || c != (want >= 0)) bad("ints", "%d found at %d (%d) in %s", x, f, c, join(v).c_str());
}

static void remove_fast(Ints* v, size_t i)
{
    (*v)[i] = v->back();
    v->pop_back();
}

static void ints(Task* t)
{
    Ints& v = t->ints;
    int vals[8];
    const guint n = sim::choose(8);
    for (guint k = 0; k < n; k++) vals[k] = number();
    const int x = number();
    const guint len = (guint)v.size();
    if (!t->a) {
        switch (sim::choose(4)) {
        case 0: t->a = gutil_int_array_new(); v.clear(); break;
        case 1: t->a = gutil_int_array_sized_new(n); v.clear(); break;
        case 2: t->a = gutil_int_array_new_from_vals(vals, n); v.assign(vals, vals + n); break;
        case 3: t->a = gutil_int_array_new_from_value(x); v.assign(1, x); break;
        }
        same(t->a, v, "creation");
        return;
    }
    const uint32_t op = sim::choose(16);
    switch (op) {
    default: for (int k = sim::burst(300); k > 0; k--) { const int y = k > 1 ? number() : x; gutil_int_array_append(t->a, y); v.push_back(y); } same(t->a, v, "append"); break;
    case 1: gutil_int_array_append_vals(t->a, vals, n); v.insert(v.end(), vals, vals + n); same(t->a, v, "append_vals"); break;
    case 2: gutil_int_array_prepend(t->a, x); v.insert(v.begin(), x); same(t->a, v, "prepend"); break;
    case 3: gutil_int_array_prepend_vals(t->a, vals, n); v.insert(v.begin(), vals, vals + n); same(t->a, v, "prepend_vals"); break;
    case 4: {
        const guint pos = sim::choose(len + 1);
        gutil_int_array_insert(t->a, pos, x);
        v.insert(v.begin() + pos, x);
        same(t->a, v, "insert");
        break;
    }
    case 5: {
        const guint pos = sim::choose(len + 1);
        gutil_int_array_insert_vals(t->a, pos, vals, n);
        v.insert(v.begin() + pos, vals, vals + n);
        same(t->a, v, "insert_vals");
        break;
    }
    case 6: case 7: {
        auto i = std::find(v.begin(), v.end(), x);
        const bool found = i != v.end();
        const bool res = op == 6 ? gutil_int_array_remove(t->a, x) : gutil_int_array_remove_fast(t->a, x);
        if (found) { if (op == 6) v.erase(i); else remove_fast(&v, (size_t)(i - v.begin())); }
        if (res != found) bad("ints", "removing %d: %d", x, res);
        same(t->a, v, op == 6 ? "remove" : "remove_fast");
        break;
    }
    case 8: {
        const guint res = gutil_int_array_remove_all(t->a, x);
        v.erase(std::remove(v.begin(), v.end(), x), v.end());
        if (res != len - v.size()) bad("ints", "%u rather than %u removed", res, (guint)(len - v.size()));
        same(t->a, v, "remove_all");
        break;
    }
    case 9: {
        const guint res = gutil_int_array_remove_all_fast(t->a, x);
        /* In no particular order */
        v.erase(std::remove(v.begin(), v.end(), x), v.end());
        if (res != len - v.size()) bad("ints", "%u rather than %u removed", res, (guint)(len - v.size()));
        Ints have(t->a->data, t->a->data + t->a->count), s1 = have, s2 = v;
        std::sort(s1.begin(), s1.end());
        std::sort(s2.begin(), s2.end());
        if (s1 != s2) bad("ints", "remove_all_fast gave %s rather than %s", join(s1).c_str(), join(s2).c_str());
        v = have;
        break;
    }
    case 10: {
        const guint pos = sim::choose(len + 1);
        gutil_int_array_remove_index(t->a, pos);
        if (pos < len) v.erase(v.begin() + pos);
        same(t->a, v, "remove_index");
        break;
    }
    case 11:
        if (len) {
            const guint pos = sim::choose(len);
            gutil_int_array_remove_index_fast(t->a, pos);
            remove_fast(&v, pos);
            same(t->a, v, "remove_index_fast");
        }
        break;
    case 12: {
        const guint pos = sim::choose(len + 1), count = sim::choose(4) ? sim::choose(len + 2) : sim::choose(2) ? UINT_MAX - sim::choose(3) : 0x80000000u;
        gutil_int_array_remove_range(t->a, pos, count);
        if (pos < len) v.erase(v.begin() + pos, v.begin() + pos + MIN(count, len - pos));
        same(t->a, v, "remove_range");
        break;
    }
    case 13: {
        const bool up = sim::choose(2);
        if (up) gutil_int_array_sort_ascending(t->a); else gutil_int_array_sort_descending(t->a);
        std::sort(v.begin(), v.end());
        if (!up) std::reverse(v.begin(), v.end());
        same(t->a, v, "sort");
        break;
    }
    case 14: {
        const guint count = sim::choose(len + 4);
        gutil_int_array_set_count(t->a, count);
        if (t->a->count != count) bad("ints", "count is %u rather than %u", t->a->count, count);
        v.resize(count);
        /* What's in the new ones is not defined */
        for (guint k = len; k < count; k++) v[k] = t->a->data[k] = (int)k;
        same(t->a, v, "set_count");
        break;
    }
    case 15: if (sim::choose(2)) look(t->a, v, x); else look(shared_a, shared_ints, x); break;
    }
    if (v.size() > 30 && sim::choose(2)) {
        GUtilInts* r = gutil_int_array_free_to_ints(t->a);
        guint n = 0;
        const int* d = gutil_ints_get_data(r, &n);
        t->a = NULL;
        if (Ints(d, d + n) != v) bad("ints", "conversion gave something else than %s", join(v).c_str());
        gutil_ints_unref(r);
        v.clear();
    } else if (v.size() > 400) { gutil_int_array_unref(t->a); t->a = NULL; v.clear(); }
    sim::state(sim::mix(2, sim::mix(op, v.size())));
}

static int sign(int x) { return (x > 0) - (x < 0); }

static void sequences(Task*)
{
    const uint32_t i = sim::choose(3), j = sim::choose(3), k = sim::choose(3);
    GUtilInts* a = shared_seq[i];
    GUtilInts* b = shared_seq[j];
    GUtilInts* c = shared_seq[k];
    const Ints& x = shared_seqs[i];
    const Ints& y = shared_seqs[j];
    const int v = (int)sim::choose(5);
    const int ab = sign(gutil_ints_compare(a, b)), ba = sign(gutil_ints_compare(b, a));
    const int bc = sign(gutil_ints_compare(b, c)), ac = sign(gutil_ints_compare(a, c));
    const bool eq = gutil_ints_equal(a, b);
    sim::state(sim::mix(6, sim::mix(x.size(), (uint64_t)(ab + 1))));
    if (eq != (x == y) || (ab == 0) != eq || ab != -ba || (ab == bc && ab != ac))
        bad("sequences", "equal %d, compared %d %d %d %d", eq, ab, ba, bc, ac);
    if (x.empty() != y.empty() && ab != (x.empty() ? -1 : 1)) bad("sequences", "the empty one is not the first one");
    if (eq && gutil_ints_hash(a) != gutil_ints_hash(b)) bad("sequences", "equal sequences have different hashes");
    auto it = std::find(x.begin(), x.end(), v);
    const int want = it == x.end() ? -1 : (int)(it - x.begin());
    const int f = gutil_ints_find(a, v);
    const bool has = gutil_ints_contains(a, v);
    if (f != want || has != (want >= 0)) bad("sequences", "%d found at %d (%d) in %s", v, f, has, join(x).c_str());
    guint n = 77;
    const int* d = gutil_ints_get_data(a, &n);
    if (n != x.size() || gutil_ints_get_count(a) != n || Ints(d, d + n) != x) bad("changed", "a shared sequence has been changed");
}

static const char digits[2][17] = { "0123456789abcdef", "0123456789ABCDEF" };

static std::string to_hex(const std::string& d, bool upper)
{
    std::string s;
    for (unsigned char c : d) { s += digits[upper][c >> 4]; s += digits[upper][c & 15]; }
    return s;
}

static std::string random_data()
{
    static const int n_[] = { 0, 1, 2, 7, 8, 9, 15, 16, 17, 33 };
    std::string s(n_[sim::choose(10)], 0);
    for (auto& c : s) c = (char)(sim::choose(2) ? sim::choose(256) : 'a' + sim::choose(4));
    return s;
}

static std::string contents(GBytes* b)
{
    gsize n;
    const char* p = (const char*)g_bytes_get_data(b, &n);
    return p ? std::string(p, n) : std::string();
}

static void hex(Task*)
{
    const std::string d = random_data();
    const bool upper = sim::choose(2);
    const uint32_t op = sim::choose(5);
    sim::state(sim::mix(3, sim::mix(op, d.size())));
    switch (op) {
    case 0: case 1: {
        GUtilData x = { (const guint8*)d.data(), d.size() };
        char* s = op ? gutil_data2hex(&x, upper) : gutil_bin2hex(d.data(), d.size(), upper);
        if (!s || to_hex(d, upper) != s) bad("hex", "%u bytes turned into %s rather than %s", (guint)d.size(), s ? s : "nothing", to_hex(d, upper).c_str());
        g_free(s);
        break;
    }
    case 2: case 3: {
        std::string s = to_hex(d, upper);
        bool ok = d.size() > 0;
        switch (sim::choose(6)) {
        case 4: s += '0'; ok = false; break;
        case 5: if (!s.empty()) { s[sim::choose((uint32_t)s.size())] = " gG:@/x`-"[sim::choose(9)]; ok = false; } break;
        }
        if (op == 2) {
            GBytes* b = gutil_hex2bytes(s.c_str(), sim::choose(2) ? -1 : (gssize)s.size());
            if (!b != !ok || (b && contents(b) != d)) bad("hex", "\"%s\" turned into %s", s.c_str(), b ? to_hex(contents(b), false).c_str() : "nothing");
            if (b) g_bytes_unref(b);
        } else {
            std::string out(s.size() / 2 + 1, '#');
            void* p = gutil_hex2bin(s.c_str(), (gssize)s.size(), &out[0]);
            if ((p != NULL) != ok || (p && p != &out[0]) || (p && out.compare(0, d.size(), d)) || out[s.size() / 2] != '#')
                bad("hex", "\"%s\" turned into %s", s.c_str(), p ? to_hex(out, false).c_str() : "nothing");
        }
        break;
    }
    case 4: {
        /* 16 columns, a gap after eight of them, what's printable on the right */
        const guint n = MIN((guint)d.size(), 16);
        std::string want;
        for (guint i = 0; i < 16; i++) {
            if (i) want += i == 8 ? "  " : " ";
            if (i < n) want += to_hex(d.substr(i, 1), false); else want += "  ";
        }
        want += "    ";
        for (guint i = 0; i < n; i++) {
            if (i == 8) want += ' ';
            const unsigned char c = (unsigned char)d[i];
            want += c >= 0x20 && c < 0x7f ? (char)c : '.';
        }
        char buf[GUTIL_HEXDUMP_BUFSIZE];
        const guint got = gutil_hexdump(buf, d.data(), (guint)d.size());
        if (got != n || want != buf) bad("hex", "%u of %u bytes dumped as \"%s\" rather than \"%s\"", got, (guint)d.size(), buf, want.c_str());
        break;
    }
    }
}

static void blocks(Task*)
{
    const uint32_t i = sim::choose(3), j = sim::choose(3), op = sim::choose(7);
    GBytes* a = shared_bytes[i];
    GBytes* b = shared_bytes[j];
    const std::string& x = shared_data[i];
    const std::string& y = shared_data[j];
    sim::state(sim::mix(4, op));
    switch (op) {
    case 0: {
        GBytes* r = gutil_bytes_concat(a, b, a, NULL);
        if (contents(r) != x + y + x) bad("blocks", "wrong concatenation");
        g_bytes_unref(r);
        break;
    }
    case 1: {
        GBytes* r = gutil_bytes_xor(a, b);
        std::string want;
        for (size_t k = 0; k < x.size() && k < y.size(); k++) want += (char)(x[k] ^ y[k]);
        if (contents(r) != want) bad("blocks", "wrong exclusive or");
        g_bytes_unref(r);
        break;
    }
    case 2: {
        const size_t k = sim::choose((uint32_t)y.size() + 1);
        const std::string p = y.substr(0, k), s = y.substr(k);
        const bool pre = x.size() >= p.size() && !x.compare(0, p.size(), p);
        const bool suf = x.size() >= s.size() && !x.compare(x.size() - s.size(), s.size(), s);
        GUtilData d, dp, ds;
        gutil_data_from_bytes(&d, a);
        dp.bytes = (const guint8*)p.data(); dp.size = p.size();
        ds.bytes = (const guint8*)s.data(); ds.size = s.size();
        if (!gutil_bytes_has_prefix(a, p.data(), p.size()) != !pre || !gutil_bytes_has_suffix(a, s.data(), s.size()) != !suf ||
            !gutil_data_has_prefix(&d, &dp) != !pre || !gutil_data_has_suffix(&d, &ds) != !suf)
            bad("blocks", "wrong about prefix or suffix");
        break;
    }
    case 3: {
        GUtilData d, e;
        gutil_data_from_bytes(&d, a);
        gutil_data_from_bytes(&e, b);
        const bool want = x == y;
        if (!gutil_bytes_equal(a, y.data(), y.size()) != !want || !gutil_bytes_equal_data(a, &e) != !want || !gutil_data_equal(&d, &e) != !want)
            bad("blocks", "wrong about equality");
        break;
    }
    case 4: {
        GUtilData d;
        gutil_data_from_bytes(&d, a);
        GUtilData* c = gutil_data_copy(&d);
        if (c->size != x.size() || (c->size && memcmp(c->bytes, x.data(), x.size()))) bad("blocks", "wrong copy");
        g_free(c);
        c = gutil_data_new(x.data(), (guint)x.size());
        if (c->size != x.size() || (c->size && memcmp(c->bytes, x.data(), x.size()))) bad("blocks", "wrong copy");
        g_free(c);
        void* m = gutil_memdup(x.data(), x.size());
        if (!m != x.empty() || (m && memcmp(m, x.data(), x.size()))) bad("blocks", "wrong copy");
        g_free(m);
        break;
    }
    case 6: {
        GUtilData d;
        gutil_data_from_bytes(&d, a);
        GVariant* v = g_variant_ref_sink(gutil_data_copy_as_variant(&d));
        gsize n = 0;
        const char* p = (const char*)g_variant_get_fixed_array(v, &n, 1);
        if (n != x.size() || (n && memcmp(p, x.data(), n))) bad("blocks", "wrong variant");
        g_variant_unref(v);
        break;
    }
    case 5: {
        GUtilData d;
        const char* w = word();
        if (gutil_data_from_string(&d, w) != &d || d.size != strlen(w) || (const char*)d.bytes != w || gutil_strlen0(w) != d.size)
            bad("blocks", "wrong block from a string");
        GUtilRange r;
        if (x.empty()) break; /* Has no address */
        gutil_range_init_with_bytes(&r, a);
        gutil_data_from_bytes(&d, b);
        const bool pre = x.size() >= y.size() && !x.compare(0, y.size(), y);
        if (!gutil_range_has_prefix(&r, &d) != !pre) bad("blocks", "wrong about the prefix of a range");
        const guint8* from = r.ptr;
        if (!gutil_range_skip_prefix(&r, &d) != !pre || r.ptr != from + (pre ? y.size() : 0)) bad("blocks", "wrong prefix skipped");
        break;
    }
    }
    if (contents(a) != x || contents(b) != y) bad("changed", "a shared block has been changed");
}

struct Number { const char* s; int base; bool sok; gint64 v; bool uok; guint64 u; };
static const Number numbers_[] = {
    { "0", 10, true, 0, true, 0 }, { " 12", 10, true, 12, true, 12 }, { "345 ", 0, true, 345, true, 345 },
    { "\t-6789\n", 10, true, -6789, false, 0 }, { "-1", 0, true, -1, false, 0 }, { "+5", 10, true, 5, true, 5 },
    { "", 10, false, 0, false, 0 }, { "-", 10, false, 0, false, 0 }, { "1 2", 10, false, 0, false, 0 }, { "- 5", 0, false, 0, false, 0 },
    { "0x10", 0, true, 16, true, 16 }, { " 0x10 ", 16, true, 16, true, 16 }, { "0x10", 10, false, 0, false, 0 }, { "ff", 16, true, 255, true, 255 },
    { "fg", 16, false, 0, false, 0 }, { "x", 10, false, 0, false, 0 }, { "2147483647", 10, true, 2147483647, true, 2147483647 },
    { "2147483648", 10, true, 2147483648ll, true, 2147483648ull }, { " -2147483648", 10, true, -2147483648ll, false, 0 },
    { "-2147483649 ", 10, true, -2147483649ll, false, 0 }, { "4294967295", 0, true, 4294967295ll, true, 4294967295ull },
    { " 4294967296 ", 0, true, 4294967296ll, true, 4294967296ull }, { "9223372036854775807", 10, true, G_MAXINT64, true, G_MAXINT64 },
    { "9223372036854775808", 10, false, 0, true, 9223372036854775808ull }, { "-9223372036854775808", 10, true, G_MININT64, false, 0 },
    { "-9223372036854775809", 10, false, 0, false, 0 }, { "18446744073709551615", 10, false, 0, true, G_MAXUINT64 },
    { " ", 10, false, 0, false, 0 }, { "\t\n", 0, false, 0, false, 0 }, { "\v-5", 10, true, -5, false, 0 },
    { "+-5", 10, false, 0, false, 0 }, { "18446744073709551616 ", 10, false, 0, false, 0 }, { NULL, 10, false, 0, false, 0 }
};

static void numbers(Task*)
{
    const Number& n = numbers_[sim::choose(G_N_ELEMENTS(numbers_))];
    const uint32_t op = sim::choose(4);
    const bool out = sim::choose(4) > 0;
    bool ok = false, res = false, value = true;
    sim::state(sim::mix(5, sim::mix(op, (uint64_t)(&n - numbers_))));
    switch (op) {
    case 0: {
        int v = -77;
        ok = n.sok && n.v >= INT_MIN && n.v <= INT_MAX;
        res = gutil_parse_int(n.s, n.base, out ? &v : NULL);
        value = v == (ok && out ? n.v : -77);
        break;
    }
    case 1: {
        guint v = 77;
        ok = n.uok && n.u <= UINT_MAX;
        res = gutil_parse_uint(n.s, n.base, out ? &v : NULL);
        value = v == (ok && out ? n.u : 77);
        break;
    }
    case 2: {
        gint64 v = -77;
        ok = n.sok;
        res = gutil_parse_int64(n.s, n.base, out ? &v : NULL);
        value = v == (ok && out ? n.v : -77);
        break;
    }
    case 3: {
        guint64 v = 77;
        ok = n.uok;
        res = gutil_parse_uint64(n.s, n.base, out ? &v : NULL);
        value = v == (ok && out ? n.u : 77);
        break;
    }
    }
    if (res != ok) bad("numbers", "\"%s\" (base %d, type %u) %s", n.s ? n.s : "NULL", n.base, op, res ? "accepted" : "rejected");
    if (!value) bad("numbers", "\"%s\" (base %d, type %u) gave a wrong value", n.s ? n.s : "NULL", n.base, op);
}

/* What most of the calls are about, if anything */
static int focus;

static void body(gpointer arg)
{
    Task* t = (Task*)arg;
    while (sim::more(24)) {
        const uint32_t w = focus >= 0 && sim::choose(8) ? (uint32_t)focus : sim::choose(13);
        sim::log("task %d: %u", t->id, w);
        if (w < 4) strings(t);
        else if (w < 7) ints(t);
        else if (w < 8) numbers(t);
        else if (w < 10) hex(t);
        else if (w < 12) blocks(t);
        else sequences(t);
        sim::checked();
        sched::yield();
    }
}

static void run()
{
    static const char* const names[] = { "t0", "t1", "t2", "t3" };
    const int n = 1 + (int)sim::choose(MAX_TASK);
    const guint strs = sim::choose(6), vals = sim::choose(10);
    for (guint i = 0; i < strs; i++) { const char* w = word(); shared_sv = gutil_strv_add(shared_sv, w); shared_strs.push_back(w); }
    shared_a = gutil_int_array_new();
    for (guint i = 0; i < vals; i++) { const int x = number(); gutil_int_array_append(shared_a, x); shared_ints.push_back(x); }
    for (int i = 0; i < 3; i++) {
        shared_data[i] = i && sim::choose(2) ? shared_data[i - 1].substr(0, sim::choose(40)) : random_data();
        const guint n = sim::choose(4);
        if (i && sim::choose(2)) shared_seqs[i] = shared_seqs[i - 1];
        for (guint k = 0; k < n; k++) shared_seqs[i].push_back((int)sim::choose(4));
        shared_seq[i] = gutil_ints_new(shared_seqs[i].data(), (guint)shared_seqs[i].size());
        shared_bytes[i] = g_bytes_new(shared_data[i].data(), shared_data[i].size());
    }
    static const int focuses[] = { 0, 4, 7, 8, 10, 12 };
    focus = sim::choose(2) ? focuses[sim::choose(6)] : -1;
    if (sim::faults_enabled()) {
        if (sim::choose(2)) sched::set_preemption((int)sim::choose(4), 60);
        else sched::set_preemption((int)sim::choose(40), 30);
    }
    for (int i = 0; i < n; i++) { task[i].id = i; sched::spawn(body, task + i, names[i]); }
    sched::run();
    if (n > 1) sim::nontrivial();
    for (int i = 0; i < n; i++) {
        /* Nobody has touched anything of somebody else */
        same(task[i].sv, task[i].strs, "something else");
        if (task[i].a) same(task[i].a, task[i].ints, "something else");
        g_strfreev(task[i].sv);
        gutil_int_array_unref(task[i].a);
    }
    same(shared_sv, shared_strs, "reading");
    same(shared_a, shared_ints, "reading");
    g_strfreev(shared_sv);
    gutil_int_array_unref(shared_a);
    for (int i = 0; i < 3; i++) { g_bytes_unref(shared_bytes[i]); gutil_ints_unref(shared_seq[i]); }
    sim::ledger_check("C22");
}

} // namespace

SCENARIO(stateless, "stateless", "C29", run, "gutil_strv.c, gutil_intarray.c, gutil_ints.c, gutil_misc.c (byte blocks, conversions, dumps)",
    "thread scheduling (all switches decided by the seed)")
