// Harness interface: the same harness text is (a) executed symbolically by the
// engine and (b) compiled natively to replay a solver model on the real code.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
extern "C" {
void __vf_sym(const char* name, void* p, size_t n);
void __vf_assume(bool);
void __vf_check(bool, const char*);
void __vf_check_eq(uint64_t, uint64_t, const char*);
void __vf_reach(const char*);
uint64_t __vf_conc(uint64_t);
[[noreturn]] void __vf_stop();
void __vf_print(const char*, uint64_t);
// files of the harness (in memory in the encoding, real files in a replay)
void vf_put_file(const char* name, const void* p, size_t n);
size_t vf_file_size(const char* name);
const unsigned char* vf_file_data(const char* name); // valid until the next call
// the bytes of files from offset w on can not be written, from r on can not be read
void vf_faults(size_t w, size_t r);
}
namespace vf {
inline uint64_t bits_(double v) { uint64_t r; memcpy(&r, &v, 8); return r; }
inline void bytes(const char* n, void* p, size_t k) { __vf_sym(n, p, k); }
template <class T> inline T sym(const char* n) { T t; __vf_sym(n, &t, sizeof(T)); return t; }
inline void assume(bool b) { __vf_assume(b); }
inline void check(bool b, const char* m) { __vf_check(b, m); }
template <class A, class B> inline void check_eq(A a, B b, const char* m) { static_assert((A)0.5 == 0 && (B)0.5 == 0, "use check_eqd"); __vf_check_eq((uint64_t)a, (uint64_t)b, m); }
inline void check_eqd(double a, double b, const char* m) { __vf_check_eq(bits_(a), bits_(b), m); }
inline void reach(const char* m) { __vf_reach(m); }
template <class T> inline T pick(T v) { return (T)__vf_conc((uint64_t)v); }
// symbolic choice in [lo, hi], case split
inline int64_t choose(const char* n, int64_t lo, int64_t hi)
{
    int32_t v = sym<int32_t>(n);
    assume(v >= lo && v <= hi);
    return (int64_t)(int32_t)__vf_conc((uint64_t)(uint32_t)v);
}
template <class T> inline uint64_t bits(T v) { uint64_t r = 0; memcpy(&r, &v, sizeof(T)); return r; }
// big/little endian store and load
inline void put(unsigned char* p, uint64_t v, int n, bool be) { for (int i = 0; i < n; ++i) p[be ? n - 1 - i : i] = (unsigned char)(v >> (8 * i)); }
inline uint64_t get(const unsigned char* p, int n, bool be) { uint64_t v = 0; for (int i = 0; i < n; ++i) v |= (uint64_t)p[be ? n - 1 - i : i] << (8 * i); return v; }
inline int64_t sext(uint64_t v, int bitsn) { return (int64_t)(v << (64 - bitsn)) >> (64 - bitsn); }
// equal as values (bit patterns; +0/-0 distinguished only by same_bits)
inline bool same_bits(double a, double b) { return bits(a) == bits(b); }
}
