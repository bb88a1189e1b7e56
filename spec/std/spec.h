// Specification intrinsics understood by the verifier (engine/builtins_.py).
#ifndef IRV_SPEC_H
#define IRV_SPEC_H
#include <stddef.h>
#include <stdint.h>
extern "C" {
bool __spec_nondet_bool();
unsigned char __spec_nondet_u8();
unsigned __spec_nondet_u32();
unsigned long __spec_nondet_u64();
int __spec_nondet_i32();
long __spec_nondet_i64();
double __spec_nondet_double();
bool __spec_choice();  // nondeterministic, forks at once
void __spec_assume(bool);
void __spec_assert(bool, const char* id);
void __spec_cover(const char* id);
void __spec_loop();  // marks the enclosing loop as one to be proved by invariant
void __spec_loop_inv(bool (*inv)(void*), void* ctx, const char* id);
void __spec_writable(void*, unsigned long);
void __spec_readable(const void*, unsigned long);
void __spec_fill(void* buf, unsigned long n, const char* stream, unsigned long start);
unsigned char __spec_peek(const void*, unsigned long i);
bool __spec_same_region(const void*, const void*);
bool __spec_alive(const void*);
unsigned long __spec_live_heap();
bool __spec_run_one_atexit();
void __spec_guard(const void* p, unsigned long n, const bool* held);  // p[0,n) only accessed while *held
bool __spec_guard_enable(bool);
void __seq_init(void*, unsigned esz);
void __seq_nondet(void*, unsigned esz);
void __seq_stream(void*, unsigned esz, const char* stream, unsigned long start, unsigned long n);
void __seq_stream_abs(void*, unsigned esz, const char* stream, unsigned long lo, unsigned long hi);
void __seq_copy(void* dst, const void* src);
void __seq_destroy(void*);
unsigned long __seq_size(const void*);
unsigned long __seq_lo(const void*);
unsigned long __seq_hi(const void*);
void __seq_push_back(void*, unsigned long);
void __seq_push_front(void*, unsigned long);
void __seq_pop_front(void*);
void __seq_pop_back(void*);
void __seq_drop_front(void*, unsigned long);
void __seq_erase(void*, unsigned long abs_index, unsigned long n);
void* __seq_ref(const void*, unsigned long rel_index);
void* __seq_aref(const void*, unsigned long abs_index);
void __seq_append_mem(void*, const void*, unsigned long n);
void __seq_append_seq(void*, const void* other);
void __seq_sub(void* dst, const void* src, unsigned long pos, unsigned long n);
void __seq_resize(void*, unsigned long n, unsigned long v);
bool __seq_eq(const void*, const void*);
unsigned long __seq_hash(const void*);
void __seq_to_dec(void*, unsigned long v);
}
#ifndef SPEC_MONITOR
#define SPEC_LOCK(m) ((void)0)
#define SPEC_UNLOCK(m) ((void)0)
#endif
#endif
