// Specification vocabulary of the proof harnesses (interpreted by /verif/vc/sym.py).
#ifndef VC_H
#define VC_H
#include <stddef.h>
extern "C" {
    void   vc_assume(bool c);
    void   vc_assert(bool c, const char* name);
    void   vc_cover(const char* name);
    int    vc_nondet_int(const char*);
    long   vc_nondet_long(const char*);
    size_t vc_nondet_size(const char*);
    bool   vc_nondet_bool(const char*);
    double vc_nondet_double(const char*);
    void*  vc_nondet_ptr(const char*);          // arbitrary object of the initial heap, or null
    void*  vc_fixed_object(int n);               // the n-th distinguished object of the initial heap
    void*  vc_new_object(size_t);
    void   vc_havoc(void* p, size_t n);
    bool   vc_forall_ptr(bool (*f)(void*, void*), void* ctx);
    bool   vc_exists_ptr(bool (*f)(void*, void*), void* ctx);
    bool   vc_forall_int(bool (*f)(long, void*), void* ctx);
    bool   vc_exists_int(bool (*f)(long, void*), void* ctx);
    bool   vc_forall_int2(bool (*f)(long, long, void*), void* ctx);
    bool   vc_forall_ptr2(bool (*f)(void*, void*, void*), void* ctx);
    bool   vc_forall_ptrint(bool (*f)(void*, long, void*), void* ctx);
    void   vc_throw();
    // containers (ghost state, see vc/containers.py)
    void   vc_use_map(const void* c); void vc_use_mmap(const void* c); void vc_use_list(const void* c);
    bool   vc_map_has(const void* m, const void* key); void* vc_map_get(const void* m, const void* key);
    bool   vc_strmap_has(const void* m, long key); void* vc_strmap_get(const void* m, long key);
    long   vc_offset(const void* p); bool vc_same_object(const void* a, const void* b);
    bool   vc_external(const void* p);   // p is an object that existed before the harness started
    long   vc_str(const void* s); long vc_str_first(long id); long vc_str_last(long id); void vc_str_assign(void* s, long id);
    long   vc_mm_count(const void* m, const void* k, const void* v); long vc_mm_keycount(const void* m, const void* k);
    long   vc_mm_prefix(const void* m, const void* it, const void* k, const void* v); long vc_mm_keyprefix(const void* m, const void* it, const void* k);
    bool   vc_mm_dom(const void* m, long n); void* vc_mm_key(const void* m, long n); void* vc_mm_val(const void* m, long n);
    long   vc_list_count(const void* l, const void* v); long vc_size(const void* c);
    long   vc_iter_rank(const void* it);
    bool   vc_visited(const void* it, const void* key); bool vc_visited_rank(const void* it, long n);
    bool   vc_at_end(const void* it);
    void   vc_snapshot(void* snap, const void* c); void* vc_old_map_get(const void* snap, const void* key); void* vc_old_strmap_get(const void* snap, long key);
    void   vc_bag_clear(void* b); void vc_bag_any(void* b); void vc_bag_add(void* b, long t, long o, const void* x, const void* y); long vc_bag_count(const void* b, long t, long o, const void* x, const void* y);
    void   vc_list_any(void* l); void* vc_list_at(const void* l, const void* it);
    long   vc_list_prefix(const void* l, const void* it, const void* v);
    bool   vc_isa(const void* p, const char* typeinfo);
}
#define VC_HARNESS extern "C" __attribute__((noinline)) void
#define VC_SPEC extern "C" __attribute__((noinline))
#endif
