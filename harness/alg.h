// Shared vocabulary of the algebra contracts: shapes, arguments with symbolic coefficients, and the
// mathematical definitions (tensor algebra over words, computed letter by letter) they are compared with.
#pragma once
#include <vc.h>
#include <roughpy/algebra/context.h>
#include <roughpy/algebra/free_tensor.h>
#include <roughpy/algebra/shuffle_tensor.h>
#include <roughpy/algebra/lie.h>
#include <roughpy/scalars/scalar_types.h>
#include <roughpy/scalars/scalar_type.h>
#include <vector>
#include <array>
#include <cstdio>
using namespace rpy;
using namespace rpy::algebra;
using scalars::ScalarType;
using scalars::ScalarArray;
using scalars::KeyScalarArray;

namespace ref {
// ------------------------------------------------------------------ truncated tensor algebra on words
struct Alg {
    int W, D;
    std::vector<size_t> off, pw;    // off[d]: index of the first word of length d
    Alg(int w, int d) : W(w), D(d), off(d + 2), pw(d + 1) {
        size_t p = 1, o = 0;
        for (int i = 0; i <= d; ++i) { pw[i] = p; off[i] = o; o += p; p *= w; }
        off[d + 1] = o;
    }
    size_t size() const { return off[D + 1]; }
    int deg(size_t i) const { int d = 0; while (i >= off[d + 1]) ++d; return d; }
    // letters of word i, 0-based, first letter first
    std::vector<int> word(size_t i) const {
        int d = deg(i); size_t r = i - off[d]; std::vector<int> w(d);
        for (int k = d - 1; k >= 0; --k) { w[k] = int(r % W); r /= W; }
        return w;
    }
    size_t index(const std::vector<int>& w) const { size_t r = 0; for (int l : w) r = r * W + l; return off[w.size()] + r; }
};
using Vec = std::vector<double>;
inline Vec zero(const Alg& A) { return Vec(A.size(), 0.0); }
inline Vec mul(const Alg& A, const Vec& a, const Vec& b) {   // concatenation product
    Vec r = zero(A);
    for (int d = 0; d <= A.D; ++d) for (int l = 0; l <= d; ++l) for (size_t i = 0; i < A.pw[l]; ++i) for (size_t j = 0; j < A.pw[d - l]; ++j)
        r[A.off[d] + i * A.pw[d - l] + j] += a[A.off[l] + i] * b[A.off[d - l] + j];
    return r;
}
inline Vec add(const Vec& a, const Vec& b, double s = 1.0) { Vec r(a); for (size_t i = 0; i < r.size(); ++i) r[i] += s * b[i]; return r; }
inline Vec scale(const Vec& a, double s) { Vec r(a); for (auto& x : r) x *= s; return r; }
inline Vec one(const Alg& A) { Vec r = zero(A); r[0] = 1.0; return r; }
inline Vec div(const Vec& a, double s) { Vec r(a); for (auto& x : r) x /= s; return r; }
inline Vec exp_nounit(const Alg& A, const Vec& x) {   // sum x^n/n!, x without unit part
    Vec r = one(A), p = one(A);
    for (int n = 1; n <= A.D; ++n) { p = div(mul(A, p, x), n); r = add(r, p); }
    return r;
}
inline Vec log_of(const Alg& A, const Vec& g) {       // log(1 + x), x = g without its unit part
    Vec x = g; x[0] = 0.0;
    Vec r = zero(A), p = one(A);
    for (int n = 1; n <= A.D; ++n) { p = mul(A, p, x); r = add(r, div(p, n), n % 2 ? 1.0 : -1.0); }
    return r;
}
inline Vec antipode(const Alg& A, const Vec& a) {
    Vec r = zero(A);
    for (size_t i = 0; i < A.size(); ++i) {
        auto w = A.word(i); std::vector<int> v(w.rbegin(), w.rend());
        r[A.index(v)] = w.size() % 2 ? 0.0 - a[i] : a[i];
    }
    return r;
}
// u sh v = u1 (u' sh v) + v1 (u sh v'); the accumulated word is prefixed
inline void shuffle_words(const std::vector<int>& u, size_t i, const std::vector<int>& v, size_t j, std::vector<int>& acc, const Alg& A, std::vector<int>& out) {
    if (i == u.size() && j == v.size()) { out[A.index(acc)] += 1; return; }
    if (i < u.size()) { acc.push_back(u[i]); shuffle_words(u, i + 1, v, j, acc, A, out); acc.pop_back(); }
    if (j < v.size()) { acc.push_back(v[j]); shuffle_words(u, i, v, j + 1, acc, A, out); acc.pop_back(); }
}
inline std::vector<int> shuffle_counts(const Alg& A, const std::vector<int>& u, const std::vector<int>& v) {
    std::vector<int> out(A.size(), 0), acc;
    if ((int)(u.size() + v.size()) <= A.D) shuffle_words(u, 0, v, 0, acc, A, out);
    return out;
}
// half shuffle: the first letter comes from the left word (and x < 1 = x, 1 < x = 0)
inline std::vector<int> half_counts(const Alg& A, const std::vector<int>& u, const std::vector<int>& v) {
    std::vector<int> out(A.size(), 0), acc;
    if ((int)(u.size() + v.size()) > A.D || u.empty()) return out;
    acc.push_back(u[0]);
    shuffle_words(u, 1, v, 0, acc, A, out);
    return out;
}
inline Vec bilinear(const Alg& A, const Vec& a, const Vec& b, std::vector<int> (*f)(const Alg&, const std::vector<int>&, const std::vector<int>&)) {
    Vec r = zero(A);
    for (size_t i = 0; i < A.size(); ++i) for (size_t j = 0; j < A.size(); ++j) {
        if (A.deg(i) + A.deg(j) > A.D) continue;
        auto c = f(A, A.word(i), A.word(j));
        for (size_t k = 0; k < c.size(); ++k) if (c[k]) r[k] += (double)c[k] * a[i] * b[j];
    }
    return r;
}
inline Vec shuffle(const Alg& A, const Vec& a, const Vec& b) { return bilinear(A, a, b, shuffle_counts); }
inline Vec half_shuffle(const Alg& A, const Vec& a, const Vec& b) { return bilinear(A, a, b, half_counts); }
// adjoint of left multiplication by m: r(v) = sum_u m(u) a(uv)
inline Vec adjoint_left(const Alg& A, const Vec& m, const Vec& a) {
    Vec r = zero(A);
    for (int d = 0; d <= A.D; ++d) for (int p = 0; p + d <= A.D; ++p) for (size_t i = 0; i < A.pw[p]; ++i) for (size_t j = 0; j < A.pw[d]; ++j)
        r[A.off[d] + j] += m[A.off[p] + i] * a[A.off[p + d] + i * A.pw[d] + j];
    return r;
}
}// namespace ref

// ------------------------------------------------------------------ arguments
inline const ScalarType* dtype() { return *ScalarType::of<double>(); }
struct Shape { int W, D; };
inline context_pointer ctx_of(Shape s) { return get_context(s.W, s.D, dtype(), {}); }
inline ref::Vec sym(const char* name, size_t n) { ref::Vec v(n); for (auto& x : v) x = vc::num(name); return v; }

// data for an element with the given coefficients; sparse data lists the keys in `keys` (all, when empty)
struct Element {
    ref::Vec full;                      // coefficients in index order, zero elsewhere
    std::vector<double> vals;
    std::vector<key_type> keys;
    VectorType vt = VectorType::Dense;
    bool keyed = false;
    VectorConstructionData data() const {
        if (keyed) return {KeyScalarArray(ScalarArray(dtype(), (const void*)vals.data(), vals.size()), keys.data()), vt};
        return {KeyScalarArray(ScalarArray(dtype(), (const void*)vals.data(), vals.size())), vt};
    }
};
// kind 0: dense storage, all coefficients; 1: sparse storage, all; 2: dense storage truncated at degree `cut`;
// kind 3: sparse storage, every second key; 4: dense storage, given by keys in reverse order with gaps; 5: dense storage, every second coefficient zero
inline Element element(const char* name, size_t dim, unsigned kind, size_t cut, size_t first_key = 0) {
    Element e; e.full.assign(dim, 0.0);
    e.vt = (kind == 1 || kind == 3) ? VectorType::Sparse : VectorType::Dense;
    e.keyed = e.vt == VectorType::Sparse || kind == 4;
    size_t n = kind == 2 ? cut : dim;
    for (size_t j = 0; j < n; ++j) {
        size_t i = kind == 4 ? n - 1 - j : j;
        if ((kind == 3 && i % 2 == 0) || (kind == 4 && i % 3 == 2)) continue;
        double x = kind == 5 && i % 2 == 0 ? 0.0 : vc::num(name);
        e.full[i] = x; e.vals.push_back(x);
        if (e.keyed) e.keys.push_back((key_type)(i + first_key));
    }
    return e;
}
template <class A> inline double coef(const A& a, key_type k) { auto s = a[k]; return scalars::scalar_cast<double>(s); }
template <class A> inline ref::Vec coefs(const A& a, size_t n, size_t first_key = 0) {
    ref::Vec r(n); for (size_t i = 0; i < n; ++i) r[i] = coef(a, (key_type)(i + first_key)); return r;
}
inline bool same(const ref::Vec& a, const ref::Vec& b) { bool r = a.size() == b.size(); for (size_t i = 0; r && i < a.size(); ++i) if (!vc::eq(a[i], b[i])) r = false; return r; }
#define EQUAL_COEFS(x, y, msg) do { auto _x = (x); auto _y = (y); ENSURES(_x.size() == _y.size(), msg); for (size_t _i = 0; _i < _x.size(); ++_i) ENSURES(vc::eq(_x[_i], _y[_i]), msg); } while (0)
