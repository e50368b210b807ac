// Contracts on interval predicates, intersection and union (intervals/src/{interval,real_interval,intersection_and_union}.cpp).
// PROPERTY: C03
// SOURCES: intervals:^(interval|real_interval|intersection_and_union|dyadic|dyadic_interval)\.cpp
#include <vc.h>
#include <roughpy/intervals/interval.h>
#include <roughpy/intervals/real_interval.h>
#include <roughpy/intervals/dyadic_interval.h>
#include <cmath>
#include <utility>
using namespace rpy::intervals;
static IntervalType type_in(const char* n) { return vc::choose(n, 2) ? IntervalType::Opencl : IntervalType::Clopen; }
static double real(const char* n) { double x = vc::num(n); REQUIRES(x == x); return x; }   // any double but NaN, infinities included
// an interval with ends a < b (or a <= b), as the half-open set of its type
struct Set {
    double a, b; IntervalType t;
    bool has(double x) const { return t == IntervalType::Clopen ? a <= x && x < b : a < x && x <= b; }
    RealInterval make() const { return RealInterval(a, b, t); }
};
static Set set(const char* a, const char* b, const char* t, bool degenerate = false) {
    Set s{real(a), real(b), type_in(t)};
    if (degenerate) REQUIRES(s.a <= s.b); else REQUIRES(s.a < s.b);
    return s;
}
VC_CONTRACT(ri_construction, ieee, proof, "a real interval has the ends given, smaller first, and the type given; copies and conversions keep them")
{
    double a = real("a"), b = real("b");
    IntervalType t = type_in("type"), u = type_in("other type");
    RealInterval I(a, b, t);
    ENSURES(I.inf() == std::fmin(a, b), "infimum");
    ENSURES(I.sup() == std::fmax(a, b), "supremum");
    ENSURES(I.type() == t, "type");
    const Interval& base = I;
    RealInterval J(base), L(base, u), M(J);
    ENSURES(J == I && M == I, "copies are equal");
    ENSURES(J.inf() == I.inf() && J.sup() == I.sup() && J.type() == t, "copy of the ends");
    ENSURES(L.inf() == I.inf() && L.sup() == I.sup() && L.type() == u, "conversion to another type");
    COVER("built");
}
VC_CONTRACT(ri_ends, ieee, proof, "the included and excluded ends are the two ends, by type")
{
    Set s = set("a", "b", "type", true);
    RealInterval I = s.make();
    bool clopen = s.t == IntervalType::Clopen;
    ENSURES(I.included_end() == (clopen ? s.a : s.b), "included end");
    ENSURES(I.excluded_end() == (clopen ? s.b : s.a), "excluded end");
    if (s.a < s.b) { ENSURES(I.contains_point(I.included_end()), "the included end belongs to it"); COVER("not degenerate"); }
    ENSURES(!I.contains_point(I.excluded_end()), "the excluded end does not belong to it");
}
VC_CONTRACT(ri_contains_point, ieee, proof, "contains_point is membership in the half-open set")
{
    Set s = set("a", "b", "type", true);
    double x = real("x");
    ENSURES(s.make().contains_point(x) == s.has(x), "membership");
    COVER("asked");
}
VC_CONTRACT(ri_equality, ieee, proof, "intervals are equal exactly when type and ends are")
{
    Set s = set("a", "b", "type", true), t = set("c", "d", "other type", true);
    bool same = s.t == t.t && s.a == t.a && s.b == t.b;
    RealInterval I = s.make(), J = t.make();
    ENSURES((I == J) == same, "==");
    ENSURES((I != J) == !same, "!=");
    ENSURES((J == I) == same, "symmetric");
    COVER("compared");
}
VC_CONTRACT(ri_is_associated, ieee, proof, "is_associated asks for the included end of the argument")
{
    Set s = set("a", "b", "type"), t = set("c", "d", "other type");
    double inc = t.t == IntervalType::Clopen ? t.a : t.b;
    ENSURES(s.make().is_associated(t.make()) == s.has(inc), "membership of the included end");
    COVER("asked");
}
VC_CONTRACT(ri_contains_sound, ieee, proof, "when an interval contains another, every point of the other belongs to it")
{
    Set s = set("a", "b", "type"), t = set("c", "d", "other type");
    double x = real("x");
    bool c = s.make().contains(t.make());
    if (c && t.has(x)) ENSURES(s.has(x), "every point of the contained interval belongs to the container");
    if (c) COVER("contains"); else COVER("does not contain");
}
VC_CONTRACT(ri_contains_complete, ieee, proof, "an interval whose ends and type keep it within another is contained in it")
{
    Set s = set("a", "b", "type"), t = set("c", "d", "other type");
    // the real-number characterisation of inclusion of non-degenerate half-open intervals
    bool lo = s.a < t.a || (s.a == t.a && (s.t == IntervalType::Clopen || t.t == IntervalType::Opencl));
    bool hi = t.b < s.b || (t.b == s.b && (s.t == IntervalType::Opencl || t.t == IntervalType::Clopen));
    const Interval& I = s.make(); const Interval& J = t.make();
    ENSURES(I.contains(J) == (lo && hi), "inclusion of half-open intervals");
    if (lo && hi) COVER("contained");
}
VC_CONTRACT(ri_intersects, ieee, proof, "intersects_with holds exactly when the two half-open intervals share a point, and is symmetric")
{
    Set s = set("a", "b", "type"), t = set("c", "d", "other type");
    double x = real("x");
    RealInterval I = s.make(), J = t.make();
    bool r = I.intersects_with(J);
    ENSURES(J.intersects_with(I) == r, "symmetric");
    if (!r) { ENSURES(!(s.has(x) && t.has(x)), "no shared point"); COVER("apart"); }
    else {
        double lo = std::fmax(s.a, t.a), hi = std::fmin(s.b, t.b);
        ENSURES(lo < hi || (lo == hi && s.has(lo) && t.has(lo)), "a shared point");
        COVER("meet");
    }
}
VC_CONTRACT(ri_union, ieee, proof, "the interval union of intervals of one type is the smallest interval of that type containing both")
{
    Set s = set("a", "b", "type"), t = set("c", "d", "other type");
    double x = real("x");
    RealInterval U = interval_union(s.make(), t.make());
    ENSURES(U.inf() == std::fmin(s.a, t.a) && U.sup() == std::fmax(s.b, t.b), "ends of the union");
    if (s.t == t.t) {
        ENSURES(U.type() == s.t, "type of the union");
        if (s.has(x) || t.has(x)) ENSURES(U.contains_point(x), "contains both");
        COVER("same type");
    }
}
VC_CONTRACT(ri_intersection, ieee, proof, "the intersection of intersecting intervals of one type has exactly the shared points")
{
    Set s = set("a", "b", "type"), t = set("c", "d", "other type");
    REQUIRES(s.a < t.b && t.a < s.b);   // they overlap
    double x = real("x");
    RealInterval U = intersection(s.make(), t.make());
    ENSURES(U.inf() == std::fmax(s.a, t.a) && U.sup() == std::fmin(s.b, t.b), "ends of the intersection");
    if (s.t == t.t) {
        ENSURES(U.type() == s.t, "type of the intersection");
        ENSURES(U.contains_point(x) == (s.has(x) && t.has(x)), "the shared points");
        COVER("same type");
    }
}
// [2,3) and [4,6): the code returns [0,1) instead of a degenerate interval (known finding, pinned by a test)
VC_CONTRACT(intersection_disjoint, ieee, proof, "the intersection of [2,3) and [4,6) is degenerate")
{
    RealInterval U = intersection(RealInterval(2.0, 3.0), RealInterval(4.0, 6.0));
    ENSURES(U.inf() == U.sup(), "degenerate");
}
VC_CONTRACT(ri_unbounded, ieee, proof, "unbounded intervals contain every real number on their side")
{
    double x = vc::num("x"), e = vc::num("end");
    REQUIRES(std::isfinite(x) && std::isfinite(e));
    IntervalType t = type_in("type");
    ENSURES(RealInterval::unbounded().contains_point(x), "unbounded");
    Set l{-INFINITY, e, t}, r{e, INFINITY, t};
    ENSURES(RealInterval::left_unbounded(e, t).contains_point(x) == l.has(x), "left unbounded");
    ENSURES(RealInterval::right_unbounded(e, t).contains_point(x) == r.has(x), "right unbounded");
    COVER("asked");
}
VC_CONTRACT(mixed_kinds, ieee, bounded, "a dyadic interval and the real interval with its ends answer the same questions")
{
    int k = (int)vc::choose("k", 7) - 3; int n = 2 * (int)vc::choose("resolution", 4) - 3;
    IntervalType t = type_in("dyadic type");
    DyadicInterval D(k, n, t);
    RealInterval R(D);
    ENSURES(R.type() == t && R.inf() == D.inf() && R.sup() == D.sup(), "conversion keeps type and ends");
    Set s = set("a", "b", "type");
    RealInterval I = s.make();
    const Interval& d = D;
    switch (vc::choose("question", 5)) {
    case 0: ENSURES(I.contains(d) == I.contains(R), "contained in a real interval"); break;
    case 1: ENSURES(I.intersects_with(d) == I.intersects_with(R), "meets a real interval"); break;
    case 2: ENSURES(I.is_associated(d) == I.is_associated(R), "associated"); break;
    case 3: ENSURES(d.contains_point(s.a) == R.contains_point(s.a), "membership of a point"); break;
    case 4: ENSURES((I == d) == (I == R), "equality"); break;
    }
    COVER("asked");
}
