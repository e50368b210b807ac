// Contract harness interface. The same harness source is (a) compiled to LLVM IR and verified by
// irv for all values of the symbolic inputs, and (b) compiled natively to replay counterexamples.
#pragma once
#include <cstdint>
#include <cstddef>
#include <type_traits>
#include <string>
extern "C" {
uint64_t __vc_u(const char* name, unsigned bits);
double __vc_d(const char* name);
unsigned __vc_choose(const char* name, unsigned n);
uint64_t __vc_range(const char* name, unsigned bits, int64_t lo, int64_t hi);
void __vc_assume(bool);
void __vc_assert(bool, const char*);
void __vc_cover(const char*);
bool __vc_eq(double, double);
uint64_t __vc_concretize(uint64_t);
int __vc_symbolic();
void __vc_use_contract(const char*);
void __vc_no_contract(const char*);
}
namespace vc {
template <class T> inline T any(const char* n) {
    if constexpr (std::is_same_v<T, bool>) return __vc_u(n, 1) != 0;
    else if constexpr (std::is_floating_point_v<T>) return static_cast<T>(__vc_d(n));
    else return static_cast<T>(__vc_u(n, 8 * sizeof(T)));
}
template <class T> inline T in(const char* n, T lo, T hi) { return static_cast<T>(__vc_range(n, 8 * sizeof(T), (int64_t)lo, (int64_t)hi)); }
template <class T> inline T inT(const char* n, long lo, long hi) { return in<T>(n, (T)lo, (T)hi); }
inline double num(const char* n) { return __vc_d(n); }
inline unsigned choose(const char* n, unsigned k) { return __vc_choose(n, k); }
inline bool eq(double a, double b) { return __vc_eq(a, b); }
}
#define REQUIRES(e) __vc_assume(bool(e))
#define ENSURES(e, msg) __vc_assert(bool(e), msg)
#define COVER(msg) __vc_cover(msg)
// VC_CONTRACT(name, mode, claim, text): mode in {ieee, real, int}; claim in {proof, bounded}
#define VC_CONTRACT(name, mode, claim, text) extern "C" void vc_main_##name()
