// Contracts on dyadic intervals (intervals/src/dyadic_interval.cpp).
// PROPERTY: C02
// SOURCES: intervals:^(dyadic|dyadic_interval|interval|real_interval)\.cpp
// SHARDS di_from_dyadic: 8
// SHARDS di_containment: 4
// SHARDS di_order: 4
// SHARDS di_real_ends: 8
// SHARDS di_expand: 8
// SHARDS di_from_real: 8
#include <vc.h>
#include <roughpy/intervals/dyadic_interval.h>
#include <cmath>
using rpy::intervals::Dyadic;
using rpy::intervals::DyadicInterval;
using rpy::intervals::IntervalType;
typedef __int128 wide;
using K = Dyadic::multiplier_t;
using P = Dyadic::power_t;
static bool fits(wide v) { return v > (wide)INT32_MIN && v < (wide)INT32_MAX; }   // both neighbours representable too

struct DI { K k; P n; IntervalType t; DyadicInterval make() const { return DyadicInterval(k, n, t); } };
static DI di(const char* k, const char* n, int lo, int hi) {
    DI d{vc::any<K>(k), vc::in<P>(n, lo, hi), vc::choose("opencl", 2) ? IntervalType::Opencl : IntervalType::Clopen};
    REQUIRES(fits(d.k));
    return d;
}
// numerators of the infimum/supremum at the interval's own resolution
static wide lo(K k, IntervalType t) { return t == IntervalType::Clopen ? (wide)k : (wide)k - 1; }
static wide hi(K k, IntervalType t) { return lo(k, t) + 1; }
static wide fdiv(wide a, wide b) { wide q = a / b; return (a % b != 0 && a < 0) ? q - 1 : q; }
static wide cdiv(wide a, wide b) { return -fdiv(-a, b); }

VC_CONTRACT(di_ends, int, proof, "a dyadic interval k/2^n is [k,k+1)/2^n or (k-1,k]/2^n by type; included/excluded ends are the matching ends")
{
    DI d = di("k", "n", -40, 40);
    DyadicInterval I = d.make();
    bool clopen = d.t == IntervalType::Clopen;
    Dyadic inf = I.dinf(), sup = I.dsup(), inc = I.dincluded_end(), exc = I.dexcluded_end();
    ENSURES(inf.power() == d.n && sup.power() == d.n && inc.power() == d.n && exc.power() == d.n, "ends have the resolution of the interval");
    ENSURES(inf.multiplier() == lo(d.k, d.t), "infimum");
    ENSURES(sup.multiplier() == hi(d.k, d.t), "supremum");
    ENSURES(inc.multiplier() == d.k, "the included end is k");
    ENSURES(exc.multiplier() == (clopen ? d.k + 1 : d.k - 1), "the excluded end is the other end");
    ENSURES(I.unit() == (clopen ? 1 : -1), "unit");
    if (clopen) COVER("clopen"); else COVER("opencl");
}

VC_CONTRACT(di_real_ends, ieee, proof, "the real ends are the dyadic ends, in order and of distance 2^-n")
{
    K k = vc::in<K>("k", -1000000, 1000000);
    P n = (P)vc::choose("n", 41) - 20;
    IntervalType t = vc::choose("opencl", 2) ? IntervalType::Opencl : IntervalType::Clopen;
    DyadicInterval I(k, n, t);
    double scale = std::ldexp(1.0, -n);
    ENSURES(I.inf() == (double)(int)lo(k, t) * scale, "inf");
    ENSURES(I.sup() == (double)(int)hi(k, t) * scale, "sup");
    ENSURES(I.included_end() == (t == IntervalType::Clopen ? I.inf() : I.sup()), "included end");
    ENSURES(I.excluded_end() == (t == IntervalType::Clopen ? I.sup() : I.inf()), "excluded end");
    ENSURES(I.inf() < I.sup(), "non-empty");
}

VC_CONTRACT(di_from_dyadic, int, proof, "re-resolving a dyadic yields the interval of the requested resolution whose included end is the dyadic rounded towards the included end")
{
    int diff = (int)vc::choose("resolution minus power", 61) - 30;
    K k = vc::any<K>("k");
    P n = vc::in<P>("n", -40, 40);
    P res = n + diff;
    IntervalType t = vc::choose("opencl", 2) ? IntervalType::Opencl : IntervalType::Clopen;
    wide want = diff >= 0 ? (wide)k << diff : (t == IntervalType::Clopen ? fdiv(k, (wide)1 << -diff) : cdiv(k, (wide)1 << -diff));
    REQUIRES(fits(k) && fits(want));
    // the rounded value must be representable at the original resolution (its intermediate form)
    REQUIRES(diff >= 0 || fits(want << -diff));
    DyadicInterval I(Dyadic(k, n), res, t);
    ENSURES(I.power() == res, "the result has the requested resolution");
    ENSURES(I.multiplier() == want, "the included end is the dyadic rounded to the resolution");
    ENSURES(I.type() == t, "the result has the requested type");
    COVER("constructed");
}

VC_CONTRACT(di_from_real, ieee, proof, "the dyadic interval of a given resolution constructed from a real number contains the number")
{
    double x = vc::num("x");
    P res = (P)vc::choose("resolution", 25) - 6;
    IntervalType t = vc::choose("opencl", 2) ? IntervalType::Opencl : IntervalType::Clopen;
    REQUIRES(x > -1000.0 && x < 1000.0);
    DyadicInterval I(x, res, t);
    ENSURES(I.power() == res && I.type() == t, "resolution and type as requested");
    double y = std::ldexp(x, res);
    double k = (double)I.multiplier();
    if (t == IntervalType::Clopen) ENSURES(k <= y && y < k + 1.0, "x is in [k, k+1)/2^n");
    else ENSURES(k - 1.0 < y && y <= k, "x is in (k-1, k]/2^n");
    COVER("constructed");
}

VC_CONTRACT(di_halves, int, proof, "the two halves of a dyadic interval partition it: each is half as long, they share only the midpoint and keep the type")
{
    DI d = di("k", "n", -40, 40);
    REQUIRES(fits((wide)d.k * 2) && fits((wide)d.k * 2 + 2) && fits((wide)d.k * 2 - 2));
    DyadicInterval I = d.make();
    DyadicInterval c = I.shrink_to_contained_end(), o = I.shrink_to_omitted_end();
    DyadicInterval l(I), r(I);
    DyadicInterval& lr = l.shrink_interval_left();
    DyadicInterval& rr = r.shrink_interval_right();
    ENSURES(&lr == &l && &rr == &r, "shrinking works in place");
    for (const DyadicInterval* p : {&c, &o, &l, &r}) {
        ENSURES(p->power() == d.n + 1 && p->type() == d.t, "a half is one level finer and keeps the type");
    }
    wide a = 2 * lo(d.k, d.t), b = 2 * hi(d.k, d.t), m = a + 1;
    ENSURES(lo(l.multiplier(), d.t) == a && hi(l.multiplier(), d.t) == m, "left half is [inf, mid)");
    ENSURES(lo(r.multiplier(), d.t) == m && hi(r.multiplier(), d.t) == b, "right half is [mid, sup)");
    ENSURES(c.multiplier() == 2 * (wide)d.k, "the contained-end half keeps the included end");
    ENSURES(o.dexcluded_end().multiplier() == 2 * (wide)I.dexcluded_end().multiplier(), "the omitted-end half keeps the excluded end");
    ENSURES(I.multiplier() == d.k && I.power() == d.n, "the interval itself is unchanged by const operations");
}

VC_CONTRACT(di_shrink_many, int, proof, "shrinking by several levels keeps the corresponding end")
{
    DI d = di("k", "n", -40, 40);
    P s = (P)vc::choose("levels", 16);
    REQUIRES(fits((wide)d.k << s) && fits(((wide)d.k + 1) << s) && fits(((wide)d.k - 1) << s));
    DyadicInterval I = d.make(), c = I.shrink_to_contained_end(s), l(I);
    ENSURES(c.power() == d.n + s && c.multiplier() == ((wide)d.k << s) && c.type() == d.t, "the contained end is kept");
    l.shrink_interval_left(s);
    ENSURES(l.power() == d.n + s && l.type() == d.t, "levels are added");
    ENSURES(lo(l.multiplier(), d.t) == (lo(d.k, d.t) << s), "the infimum is kept");
}

VC_CONTRACT(di_expand, int, proof, "expanding by a levels yields the interval of the same type, a levels coarser, that contains the original")
{
    DI d = di("k", "n", -40, 40);
    P a = (P)vc::choose("levels", 20) + 1;
    wide want = d.t == IntervalType::Clopen ? fdiv(d.k, (wide)1 << a) : cdiv(d.k, (wide)1 << a);
    REQUIRES(fits(want << a));
    DyadicInterval I = d.make();
    DyadicInterval& r = I.expand_interval(a);
    ENSURES(&r == &I, "expands in place");
    ENSURES(I.power() == d.n - a, "coarser by the number of levels");
    ENSURES(I.type() == d.t, "the type is kept");
    ENSURES((lo(I.multiplier(), d.t) << a) <= lo(d.k, d.t) && hi(d.k, d.t) <= (hi(I.multiplier(), d.t) << a), "contains the original interval");
}

VC_CONTRACT(di_containment, int, proof, "contains_dyadic is set inclusion between intervals of equal type, and false between different types")
{
    int diff = (int)vc::choose("resolution difference", 61) - 30;       // other.n - n
    P n = vc::in<P>("n", -40, 40);
    K k = vc::any<K>("k"), ko = vc::any<K>("other k");
    IntervalType t = vc::choose("opencl", 2) ? IntervalType::Opencl : IntervalType::Clopen;
    IntervalType to = vc::choose("other opencl", 2) ? IntervalType::Opencl : IntervalType::Clopen;
    REQUIRES(fits(k) && fits(ko));
    REQUIRES(diff < 0 || fits((wide)k << diff));
    REQUIRES(diff < 0 || (fits((wide)ko - ((wide)1 << diff)) && fits((wide)ko + ((wide)1 << diff))));
    DyadicInterval I(k, n, t), O(ko, n + diff, to);
    wide sI = diff > 0 ? diff : 0, sO = diff < 0 ? -diff : 0;
    bool inside = t == to && (lo(k, t) << sI) <= (lo(ko, to) << sO) && (hi(ko, to) << sO) <= (hi(k, t) << sI);
    ENSURES(I.contains_dyadic(O) == inside, "contains_dyadic is set inclusion");
    if (inside) COVER("inside"); else COVER("outside");
}

VC_CONTRACT(di_aligned_flip, int, proof, "aligned holds iff the interval is the half of its parent with the parent's included end; flip yields the other half and is an involution")
{
    DI d = di("k", "n", -40, 40);
    REQUIRES(fits((wide)d.k + 2) && fits((wide)d.k - 2));
    DyadicInterval I = d.make(), F(I);
    bool even = (d.k % 2) == 0;
    ENSURES(I.aligned() == even, "aligned iff it shares the included end of its parent");
    DyadicInterval& r = F.flip_interval();
    ENSURES(&r == &F && F.power() == d.n && F.type() == d.t, "flip keeps resolution and type");
    wide u = d.t == IntervalType::Clopen ? 1 : -1;
    ENSURES(F.multiplier() == (even ? d.k + u : d.k - u), "flip yields the sibling");
    ENSURES(F.aligned() != even, "exactly one of two siblings is aligned");
    F.flip_interval();
    ENSURES(F.multiplier() == d.k, "flip is an involution");
    if (even) COVER("aligned"); else COVER("not aligned");
}

VC_CONTRACT(di_shift, int, proof, "advance moves to the adjacent interval beyond the excluded end; shifts preserve length and type and are mutually inverse")
{
    DI d = di("k", "n", -40, 40);
    K s = vc::in<K>("steps", -100000, 100000);
    REQUIRES(fits((wide)d.k + 200001) && fits((wide)d.k - 200001));
    DyadicInterval I = d.make(), A(I);
    A.advance();
    ENSURES(A.power() == d.n && A.type() == d.t && A.dincluded_end().multiplier() == I.dexcluded_end().multiplier(), "advance: the included end is the old excluded end");
    DyadicInterval f = I.shift_forward(s), b = I.shift_back(s);
    wide df = (wide)f.multiplier() - d.k, db = (wide)b.multiplier() - d.k;
    ENSURES(f.power() == d.n && f.type() == d.t && b.power() == d.n && b.type() == d.t, "shifts keep resolution and type");
    ENSURES((df == s || df == -(wide)s) && db == -df, "shifts move by the requested number of intervals in opposite directions");
    ENSURES(f.shift_back(s).multiplier() == d.k, "shift_back undoes shift_forward");
}

VC_CONTRACT(di_order, int, proof, "dyadic intervals of one type are strictly ordered by included end, then coarser first; equal only to themselves")
{
    int diff = (int)vc::choose("resolution difference", 61) - 30;
    P n = vc::in<P>("n", -40, 40);
    K ka = vc::any<K>("ka"), kb = vc::any<K>("kb");
    IntervalType t = vc::choose("opencl", 2) ? IntervalType::Opencl : IntervalType::Clopen;
    DyadicInterval A(ka, n, t), B(kb, n + diff, t);
    wide xa = diff > 0 ? (wide)ka << diff : (wide)ka, xb = diff < 0 ? (wide)kb << -diff : (wide)kb;
    REQUIRES(fits(xa * 2) && fits(xb * 2));
    wide u = t == IntervalType::Clopen ? 1 : -1;
    bool lt = u * xa < u * xb || (xa == xb && diff > 0);
    bool gt = u * xb < u * xa || (xa == xb && diff < 0);
    ENSURES((A < B) == lt, "A < B is the lexicographic order");
    ENSURES((B < A) == gt, "B < A is the lexicographic order");
    DyadicInterval C(kb, n + diff, t == IntervalType::Clopen ? IntervalType::Opencl : IntervalType::Clopen);
    ENSURES(!(A < C) && !(C < A), "intervals of different type are not ordered");
    if (lt) COVER("less"); if (gt) COVER("greater"); if (!lt && !gt) COVER("same");
}
