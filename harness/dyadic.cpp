// Contracts on the dyadic rational type (intervals/src/dyadic.cpp).
// PROPERTY: C01
// SHARDS dyadic_rebase: 4
// SOURCES: intervals:^dyadic\.cpp
#include <vc.h>
#include <roughpy/intervals/dyadic.h>
#include <cmath>
using rpy::intervals::Dyadic;
typedef __int128 wide;
using K = Dyadic::multiplier_t;
using P = Dyadic::power_t;
static_assert(sizeof(K) == 4 && sizeof(P) == 4, "range assumptions");

struct Arg { K k; P n; };
static Arg arg(const char* k, const char* n, int lo, int hi) { return {vc::any<K>(k), vc::in<P>(n, lo, hi)}; }
// exact value scaled to resolution `top` (top >= n): k * 2^(top-n)
static wide val(K k, P n, P top) { return (wide)k << (top - n); }
static bool fits(wide v) { return v >= (wide)INT32_MIN && v <= (wide)INT32_MAX; }
// both values representable at the finer of the two resolutions: the documented domain of the comparisons
static bool comparable(Arg a, Arg b) { P t = a.n > b.n ? a.n : b.n; return t - a.n <= 60 && t - b.n <= 60 && fits(val(a.k, a.n, t)) && fits(val(b.k, b.n, t)); }

static bool less_exact(Arg a, Arg b) {   // for any powers: compares k_a 2^-n_a < k_b 2^-n_b with saturation
    P t = a.n > b.n ? a.n : b.n;
    long da = (long)t - a.n, db = (long)t - b.n;
    wide x = (wide)a.k << (da > 40 ? 40 : da), y = (wide)b.k << (db > 40 ? 40 : db);
    return x < y;
}
static bool equal_exact(Arg a, Arg b) { return !less_exact(a, b) && !less_exact(b, a); }

VC_CONTRACT(dyadic_order_total, int, proof, "for every pair of dyadics (any multiplier, any resolution) the comparisons are the order of the rationals")
{
    Arg a = {vc::any<K>("ka"), vc::any<P>("na")}, b = {vc::any<K>("kb"), vc::any<P>("nb")};
    Dyadic A(a.k, a.n), B(b.k, b.n);
    bool lt = less_exact(a, b), gt = less_exact(b, a);
    if (lt) COVER("less");
    if (gt) COVER("greater");
    if (!lt && !gt) COVER("equal");
    ENSURES((A < B) == lt, "operator< is the order of the values");
    ENSURES((A <= B) == !gt, "operator<= is the order of the values");
    ENSURES((A > B) == gt, "operator> is the order of the values");
    ENSURES((A >= B) == !lt, "operator>= is the order of the values");
}

VC_CONTRACT(dyadic_equalities, int, proof, "rational_equals is equality of the rationals, dyadic_equals is equality of the pairs")
{
    Arg a = {vc::any<K>("ka"), vc::any<P>("na")}, b = {vc::any<K>("kb"), vc::any<P>("nb")};
    Dyadic A(a.k, a.n), B(b.k, b.n);
    ENSURES(rpy::intervals::rational_equals(A, B) == equal_exact(a, b), "rational_equals iff the rationals are equal");
    ENSURES(rpy::intervals::dyadic_equals(A, B) == (a.k == b.k && a.n == b.n), "dyadic_equals iff multiplier and power are equal");
}

VC_CONTRACT(dyadic_rebase, int, proof, "rebase preserves the value and reports whether the requested resolution was reached")
{
    int diff = (int)vc::choose("resolution minus power", 61) - 30;
    Arg a = arg("k", "n", -40, 40);
    P res = a.n + diff;
    REQUIRES(res < a.n || fits(val(a.k, a.n, res)));          // the multiplier of the result is representable
    Dyadic A(a.k, a.n);
    bool ok = A.rebase(res);
    K k = A.multiplier(); P n = A.power();
    if (a.k == 0) {
        ENSURES(ok && k == 0 && n == res, "zero is rebased to any resolution");
    } else {
        P t = n > a.n ? n : a.n;
        ENSURES(t - n <= 80 && t - a.n <= 80, "resulting power is near");
        ENSURES(((wide)k << (t - n)) == ((wide)a.k << (t - a.n)), "the value is preserved");
        bool exact = res >= a.n || (a.k % ((wide)1 << (a.n - res))) == 0;
        ENSURES(ok == exact, "returns true iff the value has the requested resolution");
        ENSURES(!exact || n == res, "an exact value gets the requested resolution");
        ENSURES(exact || n >= res, "an inexact value is never coarser than requested");
        ENSURES(exact || (k % 2) != 0, "an inexact value is reduced to an odd multiplier");
    }
    if (ok) COVER("exact"); else COVER("inexact");
}

VC_CONTRACT(dyadic_rebase_far, int, proof, "a request for a resolution far below the current one keeps the value and reduces as far as 30 levels allow")
{
    static const int diffs[] = {-31, -32, -33, -37, -62, -63, -64, -200};
    int diff = diffs[vc::choose("distance", 8)];
    Arg a = arg("k", "n", -1000, 1000);
    REQUIRES(a.k != 0);
    Dyadic A(a.k, a.n);
    A.rebase(a.n + diff);
    P n = A.power(); K k = A.multiplier();
    ENSURES(n <= a.n && a.n - n <= 30, "never refines, never beyond what a multiplier can divide by");
    ENSURES(((wide)k << (a.n - n)) == a.k, "the value is preserved");
    ENSURES((k % 2) != 0 || a.n - n == 30, "reduced");
}

VC_CONTRACT(dyadic_rebase_default, int, proof, "rebase() with no resolution keeps the value and yields the coarsest representation within 30 levels")
{
    Arg a = arg("k", "n", -1000, 1000);
    REQUIRES(a.k != 0);
    Dyadic A(a.k, a.n);
    A.rebase();
    P n = A.power(); K k = A.multiplier();
    ENSURES(n <= a.n && a.n - n <= 30, "never refines");
    ENSURES(((wide)k << (a.n - n)) == a.k, "the value is preserved");
    ENSURES((k % 2) != 0 || a.n - n == 30, "fully reduced");
}

VC_CONTRACT(dyadic_steps, int, proof, "increment, decrement and move_forward change the multiplier by exactly the step")
{
    Arg a = {vc::any<K>("k"), vc::any<P>("n")};
    K s = vc::any<K>("step");
    REQUIRES(fits((wide)a.k + s) && a.k > INT32_MIN && a.k < INT32_MAX);
    Dyadic A(a.k, a.n), B(A), C(A), D(A), E(A);
    A.move_forward(s);
    ENSURES(A.multiplier() == a.k + s && A.power() == a.n, "move_forward adds the step");
    Dyadic& r = ++B;
    ENSURES(&r == &B && B.multiplier() == a.k + 1 && B.power() == a.n, "pre-increment");
    --C;
    ENSURES(C.multiplier() == a.k - 1 && C.power() == a.n, "pre-decrement");
    const Dyadic o = D++;
    ENSURES(o.multiplier() == a.k && o.power() == a.n && D.multiplier() == a.k + 1 && D.power() == a.n, "post-increment returns the old value");
    const Dyadic p = E--;
    ENSURES(p.multiplier() == a.k && E.multiplier() == a.k - 1 && E.power() == a.n, "post-decrement returns the old value");
}

VC_CONTRACT(dyadic_to_real, ieee, proof, "conversion to a real number is exactly k*2^-n")
{
    K k = vc::any<K>("k");
    P n = vc::in<P>("n", -60, 60);
    Dyadic A(k, n);
    double v = static_cast<double>(A);
    ENSURES(v == std::ldexp((double)k, -n), "value is k*2^-n");
}
