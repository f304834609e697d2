/*
 * S15: string vectors, int arrays, byte blocks and conversions used by
 * interleaved tasks. Results aren't judged here, only what remains when
 * everything has been given back.
 */
#include "sim.h"
#include <gutil_strv.h>
#include <gutil_intarray.h>
#include <gutil_ints.h>
#include <gutil_misc.h>
#include <gutil_log.h>
#include <string.h>
#include <limits.h>
#include <vector>
#include <string>

namespace {

enum { MAX_TASK = 3 };
struct Task {
    int id;
    char** sv[2];
    GUtilIntArray* a[2];
    int arefs[2];
    GBytes* b[3];
    bool done;
};

static Task task[MAX_TASK];

/* GLib's own tables, which know about all types that are in use */
static void warmup()
{
    static GVariant* keep[3];
    static const guint8 x = 1;
    keep[0] = g_variant_ref_sink(g_variant_new_fixed_array(G_VARIANT_TYPE_BYTE, &x, 1, 1));
    keep[1] = g_variant_ref_sink(g_variant_new_from_data(G_VARIANT_TYPE_BYTESTRING, NULL, 0, TRUE, NULL, NULL));
    keep[2] = g_variant_ref_sink(g_variant_new_byte(1));
}
static sim::WReg wreg(warmup);

static const char* word()
{
    static const char* const words[] = { "a", "", "b", "bb", " c ", "a", "\td", "long enough to be in a block of its own" };
    return words[sim::choose(8)];
}

static void strings(Task* t)
{
    char*** v = &t->sv[sim::choose(2)];
    const guint len = gutil_strv_length(*v);
    switch (sim::choose(11)) {
    default: *v = gutil_strv_add(*v, word()); break;
    case 1: *v = gutil_strv_addv(*v, word(), word(), word(), NULL); break;
    case 2: *v = gutil_strv_addv(*v, NULL, NULL); *v = gutil_strv_add(*v, NULL); break;
    case 3: *v = gutil_strv_remove_at(*v, (int)sim::choose(len + 2) - 1, TRUE); break;
    case 4:
        if (len) {
            /* The string is taken over by someone else */
            const guint i = sim::choose(len);
            char* s = (*v)[i];
            *v = gutil_strv_remove_at(*v, (int)i, FALSE);
            g_free(s);
        }
        break;
    case 5: *v = gutil_strv_remove(*v, word(), TRUE); break;
    case 6: *v = gutil_strv_remove(*v, word(), FALSE); break;
    case 7: *v = gutil_strv_remove_dups(*v); break;
    case 8: *v = gutil_strv_sort(*v, sim::choose(2)); gutil_strv_bsearch(*v, word(), TRUE); break;
    case 9: *v = gutil_strv_strip(*v); break;
    case 10:
        gutil_strv_find(*v, word());
        gutil_strv_find_last(*v, word());
        gutil_strv_contains(*v, word());
        gutil_strv_at(*v, sim::choose(len + 2));
        gutil_strv_last(*v);
        gutil_strv_equal(t->sv[0], t->sv[1]);
        break;
    }
    if (sim::choose(12) == 11) {
        if (sim::choose(2)) g_strfreev(*v); else gutil_ptrv_free((void**)*v);
        *v = NULL;
    }
    sim::state(sim::mix(1, gutil_strv_length(*v)));
}

static void ints(Task* t)
{
    const int i = (int)sim::choose(2);
    GUtilIntArray** a = &t->a[i];
    int vals[20];
    const guint n = sim::choose(20);
    for (guint k = 0; k < n; k++) vals[k] = (int)sim::choose(4);
    if (!*a) {
        switch (sim::choose(4)) {
        case 0: *a = gutil_int_array_new(); break;
        case 1: *a = gutil_int_array_sized_new(n); break;
        case 2: *a = gutil_int_array_new_from_vals(vals, n); break;
        case 3: *a = gutil_int_array_new_from_value(5); break;
        }
        t->arefs[i] = 1;
        return;
    }
    const guint len = (*a)->count;
    switch (sim::choose(16)) {
    default: gutil_int_array_append(*a, (int)sim::choose(4)); break;
    case 1: gutil_int_array_append_vals(*a, vals, n); break;
    case 2: gutil_int_array_prepend(*a, 1); break;
    case 3: gutil_int_array_prepend_vals(*a, vals, n); break;
    case 4: gutil_int_array_insert(*a, sim::choose(len + 1), 2); break;
    case 5: gutil_int_array_insert_vals(*a, sim::choose(len + 1), vals, n); break;
    case 6: gutil_int_array_remove(*a, (int)sim::choose(4)); gutil_int_array_remove_fast(*a, (int)sim::choose(4)); break;
    case 7: gutil_int_array_remove_all(*a, (int)sim::choose(4)); break;
    case 8: gutil_int_array_remove_all_fast(*a, (int)sim::choose(4)); break;
    case 9: gutil_int_array_remove_index(*a, sim::choose(len + 1)); break;
    case 10: gutil_int_array_remove_range(*a, sim::choose(len + 1), sim::choose(len + 2)); break;
    case 11: if (sim::choose(2)) gutil_int_array_sort_ascending(*a); else gutil_int_array_sort_descending(*a); break;
    case 12: gutil_int_array_ref(*a); t->arefs[i]++; break;
    case 13: gutil_int_array_unref(*a); if (!--t->arefs[i]) *a = NULL; break;
    case 14:
        if (t->arefs[i] == 1) {
            if (sim::choose(2)) {
                int* data = gutil_int_array_free(*a, FALSE);
                if (data) g_free(data);
            } else {
                gutil_int_array_free(*a, TRUE);
            }
            *a = NULL;
        }
        break;
    case 15:
        if (t->arefs[i] == 1) {
            GUtilInts* x = gutil_int_array_free_to_ints(*a);
            GUtilInts* y = gutil_ints_new_from_ints(x, 1, 3);
            *a = NULL;
            if (sim::choose(2)) { GUtilInts* s = x; x = y; y = s; }
            gutil_ints_unref(x);
            g_free(gutil_ints_unref_to_data(y, NULL));
        }
        break;
    }
    if (*a) sim::state(sim::mix(2, (*a)->count));
}

static void bytes(Task* t)
{
    static const char* const hex[] = { "", "00", "0aff", "zz", "0", "00z1", "AbCdEf0123456789aBcDeF", NULL };
    GBytes** b = &t->b[sim::choose(3)];
    GBytes* x = NULL;
    const char* h = hex[sim::choose(8)];
    switch (sim::choose(5)) {
    case 0: x = gutil_hex2bytes(h, sim::choose(2) || !h ? -1 : (gssize)strlen(h)); break;
    case 1: if (*b) x = gutil_bytes_xor(t->b[0], t->b[1]); break;
    case 2: x = gutil_bytes_concat(t->b[0], t->b[1], t->b[2], NULL); break;
    case 3: x = gutil_bytes_concat(NULL, NULL); break;
    case 4: x = g_bytes_new(h ? h : "", h ? strlen(h) : 0); break;
    }
    if (*b) g_bytes_unref(*b);
    *b = x;
    GUtilData d, *copy;
    gutil_data_from_bytes(&d, x);
    gutil_bytes_equal_data(x, &d);
    gutil_bytes_equal(x, h, h ? strlen(h) : 0);
    switch (sim::choose(6)) {
    case 0: g_free(gutil_data_copy(&d)); break;
    case 1: g_free(gutil_data_new(d.bytes, (guint)d.size)); break;
    case 2: g_variant_unref(g_variant_ref_sink(gutil_data_copy_as_variant(&d))); break;
    case 3: g_free(gutil_data2hex(&d, sim::choose(2))); break;
    case 4: g_free(gutil_memdup(d.bytes, d.size)); g_free(gutil_memdup(NULL, 1)); break;
    case 5:
        copy = gutil_data_copy(&d);
        gutil_data_equal(copy, &d);
        gutil_data_has_prefix(copy, &d);
        gutil_data_has_suffix(copy, &d);
        g_free(copy);
        g_free(gutil_data_copy(NULL));
        break;
    }
    GUtilRange r;
    gutil_range_init_with_bytes(&r, x);
    gutil_range_has_prefix(&r, &d);
    gutil_range_skip_prefix(&r, &d);
    sim::state(sim::mix(3, d.size));
}

static void numbers()
{
    static const char* const s[] = { "0", " 1", "2 ", " -3 ", "-", "", " ", "99999999999", "999999999999999999999999 ", " x", "0x10 ", " 1 2 ", "- 5",
        "-2147483649", " 4294967296", NULL };
    const char* p = s[sim::choose(16)];
    const int base = sim::choose(2) ? 0 : 10;
    int i;
    unsigned u;
    gint64 l;
    guint64 w;
    const bool out = sim::choose(2);
    switch (sim::choose(4)) {
    case 0: gutil_parse_int(p, base, out ? &i : NULL); break;
    case 1: gutil_parse_uint(p, base, out ? &u : NULL); break;
    case 2: gutil_parse_int64(p, base, out ? &l : NULL); break;
    case 3: gutil_parse_uint64(p, base, out ? &w : NULL); break;
    }
    g_free(gutil_bin2hex(p ? p : "", gutil_strlen0(p), out));
}

static void options()
{
    static const char* const s[] = { "3", "mod:debug", "x:1", "mod:", "verb", "MOD:0", "mod:9", ":1", "none:mod", "" };
    static GLogModule mod = { "mod", NULL, NULL, GLOG_LEVEL_MAX, GLOG_LEVEL_INHERIT, 0, 0 };
    GLogModule* mods[1] = { &mod };
    GError* error = NULL;
    const int level = gutil_log_default.level;
    if (!gutil_log_parse_option(s[sim::choose(10)], mods, (int)sim::choose(2), sim::choose(2) ? &error : NULL)) g_clear_error(&error);
    gutil_log_default.level = level;
    g_free(gutil_log_description(sim::choose(2) ? mods : NULL, (int)sim::choose(2)));
}

static void finish(Task* t)
{
    for (int i = 0; i < 2; i++) {
        g_strfreev(t->sv[i]);
        t->sv[i] = NULL;
        if (t->a[i]) while (t->arefs[i]--) gutil_int_array_unref(t->a[i]);
        t->a[i] = NULL;
    }
    for (int i = 0; i < 3; i++) { if (t->b[i]) g_bytes_unref(t->b[i]); t->b[i] = NULL; }
    t->done = true;
}

static void body(gpointer arg)
{
    Task* t = (Task*)arg;
    while (sim::more(20)) {
        const uint32_t w = sim::choose(11);
        sim::log("task %d: %u", t->id, w);
        if (w < 4) strings(t);
        else if (w < 7) ints(t);
        else if (w < 9) bytes(t);
        else if (w < 10) numbers();
        else options();
        sim::checked();
        sched::yield();
    }
    finish(t);
}

static void run()
{
    static const char* const names[] = { "t0", "t1", "t2" };
    const int n = 1 + (int)sim::choose(MAX_TASK);
    if (sim::faults_enabled()) sched::set_preemption((int)sim::choose(4), 40);
    for (int i = 0; i < n; i++) { task[i].id = i; sched::spawn(body, task + i, names[i]); }
    sched::run();
    sim::nontrivial();
    sim::ledger_check("C22");
}

} // namespace

SCENARIO(vectors, "vectors", "C22", run, "gutil_strv.c, gutil_intarray.c, gutil_misc.c (byte blocks, conversions)",
    "thread scheduling (all switches decided by the seed)")
