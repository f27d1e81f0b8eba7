// Contract intrinsics. Symbolically interpreted by vcgen; natively implemented in vc_native.cc
// for replaying counterexamples on the real code.
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
void __vc_any(void* p, uint64_t n, const char* name);                 // n constant: fresh arbitrary bytes
void* __vc_buffer(uint64_t size, uint64_t align, const char* name);   // fresh buffer, arbitrary contents
void* __vc_const_buffer(uint64_t size, uint64_t align, const char* name);   // writing to it is a violation
void __vc_havoc(void* p, uint64_t n, const char* name);               // names the arbitrary content of fresh, unwritten storage
void __vc_assume(bool c);
void __vc_lemma(bool c, const char* label);                           // proved, then available as a fact
void __vc_use_eq(uint64_t k);                                         // witness index for byte-sequence equalities
bool __vc_symbolic(void);                                             // true under the verifier
bool __vc_split(bool c);                                              // explicit case split
uint64_t __vc_concretize(uint64_t v, uint64_t max);                   // case split over the values of v
void __vc_assert(bool c, const char* label);
void __vc_cover(const char* label);                                   // must be reachable (vacuity guard)
// uninterpreted function of a fixed-size input (inlen constant)
void __vc_uf(const char* name, void* out, uint64_t outlen, const void* in, uint64_t inlen);
// uninterpreted function of a byte sequence of arbitrary length
void __vc_ufseq(const char* name, void* out, uint64_t outlen, const void* in, uint64_t inlen);
// from now on every access to [p,p+n) requires *held != 0 (checked symbolically only)
void __vc_guard(const void* p, uint64_t n, const uint8_t* held, const char* label);
void __vc_unguard(void);
// byte ranges [a,a+n) and [b,b+n) are equal (decided for one arbitrary index)
bool __vc_same_object(const void* a, const void* b);
uint64_t __vc_object_size(const void* p);
uint64_t __vc_alive(const void* p);
int64_t __vc_memory_fee(uint64_t new_bytes, uint64_t old_bytes);       // EVM memory fee difference; kept abstract by the verifier
uint8_t __vc_peek(bool c, const void* p, uint64_t i);                 // c ? ((uint8_t*)p)[i] : 0, without a case split
uint8_t __vc_peek_checked(bool c, const void* p, uint64_t i);         // the same where __vc_readable covered the access
void __vc_readable(const void* p, uint64_t n);                        // obligation: [p, p+n) may be read
void __vc_forget(void* p);                                            // symbolic only: content of the buffer becomes arbitrary
// loop predicates (functions vinv_*): candidate invariants, evaluated by the verifier at loop headers for a loop position
void __vc_inv(bool c);
bool __vc_bounded(void);                                              // true in the verifier's search for counterexamples
void __vc_fact(bool c);                                               // instance of the definition of an abstract function
void* __vc_heap(uint64_t k);                                          // k-th youngest live heap block (within loop predicates)
void __vc_reserve(void* p, uint64_t n);                               // symbolic only: the buffer has spare room up to n bytes
#ifdef __cplusplus
}
template <class T> inline T vc_any(const char* name) { T t; __vc_any(&t, sizeof(T), name); return t; }
#define VC_REQUIRES(c) __vc_assume(c)
#define VC_ENSURES(label, c) __vc_assert((c), label)
#endif
