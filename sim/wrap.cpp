/*
 * GLib functions as called by the library's own objects.  Each one of these
 * calls is a scheduling point, and the ones which may block are turned into
 * something that the scheduler understands.
 */
#include "internal.h"
#include <glib-object.h>
#include <sanitizer/allocator_interface.h>

#define Y() sched::yield()

#define W0(R, f) R simw_##f(void) { Y(); return (f)(); }
#define W1(R, f, A) R simw_##f(A a) { Y(); return (f)(a); }
#define W2(R, f, A, B) R simw_##f(A a, B b) { Y(); return (f)(a, b); }
#define W3(R, f, A, B, C) R simw_##f(A a, B b, C c) { Y(); return (f)(a, b, c); }
#define W4(R, f, A, B, C, D) R simw_##f(A a, B b, C c, D d) { Y(); return (f)(a, b, c, d); }

int world::attached;

extern "C" {

void __asan_load4(uintptr_t);
void __asan_load8(uintptr_t);
void __asan_store4(uintptr_t);
void __asan_store8(uintptr_t);

/*
 * Atomic operations. build.py makes GLib's headers emit calls for these.
 * libglib itself isn't instrumented, so the address gets checked here.
 */
#define Y4(p) (Y(), __asan_store4((uintptr_t)(p)))
#define Y8(p) (Y(), __asan_store8((uintptr_t)(p)))
gint simw_g_atomic_int_get(const volatile gint* p) { Y(); __asan_load4((uintptr_t)p); return (g_atomic_int_get)(p); }
void simw_g_atomic_int_set(volatile gint* p, gint v) { Y4(p); (g_atomic_int_set)(p, v); }
void simw_g_atomic_int_inc(volatile gint* p) { Y4(p); (g_atomic_int_inc)(p); }
gboolean simw_g_atomic_int_dec_and_test(volatile gint* p) { Y4(p); return (g_atomic_int_dec_and_test)(p); }
gboolean simw_g_atomic_int_compare_and_exchange(volatile gint* p, gint a, gint b)
    { Y4(p); return (g_atomic_int_compare_and_exchange)(p, a, b); }
gboolean simw_g_atomic_int_compare_and_exchange_full(gint* p, gint a, gint b, gint* o)
    { Y4(p); return (g_atomic_int_compare_and_exchange_full)(p, a, b, o); }
gint simw_g_atomic_int_exchange(gint* p, gint v) { Y4(p); return (g_atomic_int_exchange)(p, v); }
gint simw_g_atomic_int_add(volatile gint* p, gint v) { Y4(p); return (g_atomic_int_add)(p, v); }
guint simw_g_atomic_int_and(volatile guint* p, guint v) { Y4(p); return (g_atomic_int_and)(p, v); }
guint simw_g_atomic_int_or(volatile guint* p, guint v) { Y4(p); return (g_atomic_int_or)(p, v); }
guint simw_g_atomic_int_xor(volatile guint* p, guint v) { Y4(p); return (g_atomic_int_xor)(p, v); }
gpointer simw_g_atomic_pointer_get(const volatile void* p) { Y(); __asan_load8((uintptr_t)p); return (g_atomic_pointer_get)(p); }
void simw_g_atomic_pointer_set(volatile void* p, gpointer v) { Y8(p); (g_atomic_pointer_set)(p, v); }
gboolean simw_g_atomic_pointer_compare_and_exchange(volatile void* p, gpointer a, gpointer b)
    { Y8(p); return (g_atomic_pointer_compare_and_exchange)(p, a, b); }
gboolean simw_g_atomic_pointer_compare_and_exchange_full(void* p, gpointer a, gpointer b, void* o)
    { Y8(p); return (g_atomic_pointer_compare_and_exchange_full)(p, a, b, o); }
gpointer simw_g_atomic_pointer_exchange(void* p, gpointer v) { Y8(p); return (g_atomic_pointer_exchange)(p, v); }
gintptr simw_g_atomic_pointer_add(volatile void* p, gssize v) { Y8(p); return (g_atomic_pointer_add)(p, v); }
guintptr simw_g_atomic_pointer_and(volatile void* p, gsize v) { Y8(p); return (g_atomic_pointer_and)(p, v); }
guintptr simw_g_atomic_pointer_or(volatile void* p, gsize v) { Y8(p); return (g_atomic_pointer_or)(p, v); }
guintptr simw_g_atomic_pointer_xor(volatile void* p, gsize v) { Y8(p); return (g_atomic_pointer_xor)(p, v); }
void simw_g_atomic_ref_count_init(gatomicrefcount* p) { Y4(p); (g_atomic_ref_count_init)(p); }
void simw_g_atomic_ref_count_inc(gatomicrefcount* p) { Y4(p); (g_atomic_ref_count_inc)(p); }
gboolean simw_g_atomic_ref_count_dec(gatomicrefcount* p) { Y4(p); return (g_atomic_ref_count_dec)(p); }
gboolean simw_g_atomic_ref_count_compare(gatomicrefcount* p, gint v) { Y4(p); return (g_atomic_ref_count_compare)(p, v); }

/* Weak locations which live in the library's memory */
enum { MAX_WEAK = 256 };
static GWeakRef* weak[MAX_WEAK];
static int nweak;

static void weak_add(GWeakRef* w)
{
    for (int i = 0; i < nweak; i++) if (weak[i] == w) return;
    if (nweak < MAX_WEAK) weak[nweak++] = w;
}
static void weak_del(GWeakRef* w)
{
    for (int i = 0; i < nweak; i++) if (weak[i] == w) { weak[i] = weak[--nweak]; return; }
}
static void weak_check_free(const void* p, gsize n)
{
    for (int i = 0; i < nweak && sim::in_run; i++) {
        const char* w = (const char*)weak[i];
        if (w >= (const char*)p && w < (const char*)p + n) {
            GWeakRef* ref = weak[i];
            gpointer obj = g_weak_ref_get(ref);
            if (obj) sim::fail(sim::scenario()->props, "freed-weak-location",
                "memory freed while GObject still has it registered as a weak location: it will be written to");
            weak_del(ref);
            return;
        }
    }
}
void simw_g_weak_ref_init(GWeakRef* w, gpointer o) { Y8(w); weak_add(w); (g_weak_ref_init)(w, o); }
void simw_g_weak_ref_set(GWeakRef* w, gpointer o) { Y8(w); weak_add(w); (g_weak_ref_set)(w, o); }
gpointer simw_g_weak_ref_get(GWeakRef* w) { Y8(w); return (g_weak_ref_get)(w); }
void simw_g_weak_ref_clear(GWeakRef* w) { Y8(w); (g_weak_ref_clear)(w); weak_del(w); }
void simw_g_free(gpointer p) { Y(); if (nweak && p) weak_check_free(p, __sanitizer_get_allocated_size(p)); (g_free)(p); }
void simw_g_free_sized(gpointer p, gsize n) { Y(); if (nweak) weak_check_free(p, n); (g_free)(p); }
void simw_g_slice_free1(gsize n, gpointer p) { Y(); if (nweak) weak_check_free(p, n); (g_slice_free1)(n, p); }

gpointer simw_g_object_ref(gpointer o) { Y(); if (o) __asan_store4((uintptr_t)&((GObject*)o)->ref_count); return (g_object_ref)(o); }
void simw_g_object_unref(gpointer o) { Y(); if (o) __asan_store4((uintptr_t)&((GObject*)o)->ref_count); (g_object_unref)(o); }
W3(void, g_slice_free_chain_with_offset, gsize, gpointer, gsize)
W1(gboolean, g_source_remove, guint)
W1(void, g_source_destroy, GSource*)
W1(void, g_source_unref, GSource*)
guint simw_g_source_attach(GSource* s, GMainContext* c) { Y(); world::attached++; return (g_source_attach)(s, c); }
guint simw_g_idle_add(GSourceFunc f, gpointer d) { Y(); world::attached++; return (g_idle_add)(f, d); }
guint simw_g_idle_add_full(gint p, GSourceFunc f, gpointer d, GDestroyNotify n) { Y(); world::attached++; return (g_idle_add_full)(p, f, d, n); }
W0(GSource*, g_idle_source_new)
W1(GBytes*, g_bytes_ref, GBytes*)
W1(void, g_bytes_unref, GBytes*)
W1(void, g_variant_unref, GVariant*)
W1(void, g_ptr_array_unref, GPtrArray*)
W1(gpointer, g_private_get, GPrivate*)
W2(void, g_private_set, GPrivate*, gpointer)
W2(gpointer, g_hash_table_lookup, GHashTable*, gconstpointer)
W3(gboolean, g_hash_table_insert, GHashTable*, gpointer, gpointer)
W2(gboolean, g_hash_table_remove, GHashTable*, gconstpointer)
W0(GMainContext*, g_main_context_get_thread_default)
W0(GMainContext*, g_main_context_default)
W0(GThread*, g_thread_self)

/* Locks. A thread which waits for one lets the others run. */
void simw_g_mutex_lock(GMutex* m) { Y(); while (!g_mutex_trylock(m)) sched::blocked(); }
gboolean simw_g_mutex_trylock(GMutex* m) { Y(); return g_mutex_trylock(m); }
void simw_g_mutex_unlock(GMutex* m) { Y(); g_mutex_unlock(m); }
void simw_g_rec_mutex_lock(GRecMutex* m) { Y(); while (!g_rec_mutex_trylock(m)) sched::blocked(); }
gboolean simw_g_rec_mutex_trylock(GRecMutex* m) { Y(); return g_rec_mutex_trylock(m); }
void simw_g_rec_mutex_unlock(GRecMutex* m) { Y(); g_rec_mutex_unlock(m); }
void simw_g_rw_lock_writer_lock(GRWLock* m) { Y(); while (!g_rw_lock_writer_trylock(m)) sched::blocked(); }
void simw_g_rw_lock_writer_unlock(GRWLock* m) { Y(); g_rw_lock_writer_unlock(m); }
void simw_g_rw_lock_reader_lock(GRWLock* m) { Y(); while (!g_rw_lock_reader_trylock(m)) sched::blocked(); }
void simw_g_rw_lock_reader_unlock(GRWLock* m) { Y(); g_rw_lock_reader_unlock(m); }

}
