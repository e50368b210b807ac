// Exact (Laurent) polynomials with rational coefficients: the value domain for
// floating point numbers when the verifier runs in "real" arithmetic mode.
#pragma once
#include <gmpxx.h>
#include <cstdint>
#include <vector>
#include <memory>
#include <algorithm>
#include <cmath>
#include <unordered_map>
#include <string>

struct Mono {  // sorted (var,exp) pairs packed var<<8 | (exp+128)
    std::vector<uint32_t> v;
    bool operator<(const Mono& o) const { return v < o.v; }
    bool operator==(const Mono& o) const { return v == o.v; }
};
struct MonoHash {
    size_t operator()(const Mono& m) const {
        size_t h = 1469598103934665603ull;
        for (auto x : m.v) { h ^= x; h *= 1099511628211ull; }
        return h;
    }
};
struct Term { Mono m; mpq_class c; };
struct Poly {
    std::vector<Term> t;  // sorted by mono, no zero coefs
    bool isConst() const { return t.empty() || (t.size() == 1 && t[0].m.v.empty()); }
    mpq_class constant() const { return t.empty() ? mpq_class(0) : t[0].c; }
    bool isZero() const { return t.empty(); }
};
using PolyP = std::shared_ptr<const Poly>;

inline PolyP polyConst(const mpq_class& q) {
    auto p = std::make_shared<Poly>();
    if (q != 0) p->t.push_back({Mono{}, q});
    return p;
}
inline PolyP polyVar(uint32_t var) {
    auto p = std::make_shared<Poly>();
    p->t.push_back({Mono{{(var << 8) | 129u}}, mpq_class(1)});
    return p;
}
inline Mono monoMul(const Mono& a, const Mono& b) {
    Mono r; r.v.reserve(a.v.size() + b.v.size());
    size_t i = 0, j = 0;
    while (i < a.v.size() || j < b.v.size()) {
        if (j == b.v.size() || (i < a.v.size() && (a.v[i] >> 8) < (b.v[j] >> 8))) r.v.push_back(a.v[i++]);
        else if (i == a.v.size() || (b.v[j] >> 8) < (a.v[i] >> 8)) r.v.push_back(b.v[j++]);
        else {
            int e = int(a.v[i] & 255) - 128 + int(b.v[j] & 255) - 128;
            if (e != 0) r.v.push_back((a.v[i] & ~255u) | uint32_t(e + 128));
            ++i; ++j;
        }
    }
    return r;
}
inline Mono monoInv(const Mono& a) {
    Mono r = a;
    for (auto& x : r.v) { int e = int(x & 255) - 128; x = (x & ~255u) | uint32_t(128 - e); }
    return r;
}
inline PolyP polyAdd(const PolyP& a, const PolyP& b, int sgn = 1) {
    auto p = std::make_shared<Poly>();
    p->t.reserve(a->t.size() + b->t.size());
    size_t i = 0, j = 0;
    while (i < a->t.size() || j < b->t.size()) {
        if (j == b->t.size() || (i < a->t.size() && a->t[i].m < b->t[j].m)) p->t.push_back(a->t[i++]);
        else if (i == a->t.size() || b->t[j].m < a->t[i].m) {
            p->t.push_back(b->t[j++]);
            if (sgn < 0) p->t.back().c = -p->t.back().c;
        } else {
            mpq_class c = sgn > 0 ? mpq_class(a->t[i].c + b->t[j].c) : mpq_class(a->t[i].c - b->t[j].c);
            if (c != 0) p->t.push_back({a->t[i].m, c});
            ++i; ++j;
        }
    }
    return p;
}
inline PolyP polyScale(const PolyP& a, const mpq_class& c) {
    auto p = std::make_shared<Poly>();
    if (c == 0) return p;
    p->t = a->t;
    for (auto& t : p->t) t.c *= c;
    return p;
}
inline PolyP polyMul(const PolyP& a, const PolyP& b) {
    if (a->isZero() || b->isZero()) return polyConst(0);
    if (a->isConst()) return polyScale(b, a->constant());
    if (b->isConst()) return polyScale(a, b->constant());
    std::unordered_map<Mono, mpq_class, MonoHash> acc;
    for (auto& x : a->t) for (auto& y : b->t) acc[monoMul(x.m, y.m)] += x.c * y.c;
    auto p = std::make_shared<Poly>();
    for (auto& kv : acc) if (kv.second != 0) p->t.push_back({kv.first, kv.second});
    std::sort(p->t.begin(), p->t.end(), [](const Term& x, const Term& y) { return x.m < y.m; });
    return p;
}
inline bool polyEq(const PolyP& a, const PolyP& b) {
    if (a->t.size() != b->t.size()) return false;
    for (size_t i = 0; i < a->t.size(); ++i) if (!(a->t[i].m == b->t[i].m) || a->t[i].c != b->t[i].c) return false;
    return true;
}
// double constant -> rational; constants like 1/3 that the compiler folded are read as the
// simplest rational (denominator <= 100000) that rounds to the same double, else exactly.
inline mpq_class ratOfDouble(double d) {
    mpq_class exact(d);
    if (exact.get_den() <= (1ul << 24)) return exact;
    // continued fraction
    double x = std::fabs(d);
    if (!(x < 1e9) || x < 1e-9) return exact;
    mpq_class rem = d < 0 ? mpq_class(-exact) : exact;
    mpz_class p0 = 0, q0 = 1, p1 = 1, q1 = 0;
    for (int it = 0; it < 40; ++it) {
        mpz_class a = rem.get_num() / rem.get_den();
        mpz_class p2 = a * p1 + p0, q2 = a * q1 + q0;
        if (q2 > 1000000) break;
        p0 = p1; q0 = q1; p1 = p2; q1 = q2;
        double nd = p1.get_d() / q1.get_d();
        if (nd == x) { mpq_class r(p1, q1); r.canonicalize(); return d < 0 ? mpq_class(-r) : r; }
        mpq_class fr = rem - a;
        if (fr == 0) break;
        rem = 1 / fr;
    }
    return exact;
}
