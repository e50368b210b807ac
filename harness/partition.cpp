// Contracts on partitions (intervals/src/partition.cpp).
// PROPERTY: C05
// SOURCES: intervals:^(partition|interval|real_interval)\.cpp
#include <vc.h>
#include <roughpy/intervals/partition.h>
#include <cmath>
#include <vector>
using namespace rpy;
using namespace rpy::intervals;
static IntervalType type_in(const char* n) { return vc::choose(n, 2) ? IntervalType::Opencl : IntervalType::Clopen; }
static double real(const char* n) { double x = vc::num(n); REQUIRES(std::isfinite(x)); return x; }
// a partition with strictly increasing cuts strictly inside [a, b], built by the constructor
struct Parts { double a, b; IntervalType t; std::vector<double> cuts; Partition make() const { return Partition(RealInterval(a, b, t), std::vector<param_t>(cuts)); } };
static Parts parts(const char* a, const char* b, const char* cut, const char* n, unsigned most, IntervalType t) {
    Parts p{real(a), real(b), t, {}};
    unsigned k = vc::choose(n, most + 1);
    double prev = p.a;
    for (unsigned i = 0; i < k; ++i) { double c = real(cut); REQUIRES(prev < c); p.cuts.push_back(c); prev = c; }
    REQUIRES(prev < p.b);
    return p;
}
// the class invariant: cuts strictly increasing and strictly inside
static void invariant(const Partition& P) {
    double prev = P.inf();
    for (auto c : P.intermediates()) { ENSURES(prev < c, "cuts increase strictly and lie above the infimum"); prev = c; }
    ENSURES(prev < P.sup(), "cuts lie below the supremum");
    ENSURES(P.size() == P.intermediates().size() + 1, "number of pieces");
}
VC_CONTRACT(pieces_tile, ieee, bounded, "the pieces of a partition are consecutive, of its type, and cover it exactly")
{
    Parts p = parts("a", "b", "cut", "cuts", 3, type_in("type"));
    Partition P = p.make();
    ENSURES(P.size() == p.cuts.size() + 1, "number of pieces");
    double prev = p.a;
    for (size_t i = 0; i < P.size(); ++i) {
        RealInterval I = P[i];
        ENSURES(I.inf() == prev, "each piece starts where the one before ends");
        ENSURES(I.inf() < I.sup(), "pieces are not degenerate");
        ENSURES(I.type() == p.t, "pieces have the type of the partition");
        prev = I.sup();
    }
    ENSURES(prev == p.b, "the last piece ends with the partition");
    COVER("tiled");
}
VC_CONTRACT(point_in_one_piece, ieee, bounded, "every point of the partition lies in exactly one piece, other points in none")
{
    Parts p = parts("a", "b", "cut", "cuts", 2, type_in("type"));
    Partition P = p.make();
    double x = real("x");
    unsigned n = 0;
    for (size_t i = 0; i < P.size(); ++i) if (P[i].contains_point(x)) ++n;
    ENSURES(n == (P.contains_point(x) ? 1u : 0u), "pieces holding the point");
    COVER("located");
}
VC_CONTRACT(index_out_of_range, ieee, bounded, "asking for a piece beyond the last throws")
{
    Parts p = parts("a", "b", "cut", "cuts", 2, IntervalType::Clopen);
    Partition P = p.make();
    dimn_t i = P.size() + vc::choose("beyond", 2);
    bool thrown = false;
    try { (void)P[i]; } catch (const std::exception&) { thrown = true; }
    ENSURES(thrown, "an exception");
    COVER("thrown");
}
VC_CONTRACT(partition_of_points, ieee, bounded, "a partition built from any points has exactly the distinct points strictly inside as its cuts, in order")
{
    double a = real("a"), b = real("b");
    REQUIRES(a < b);
    IntervalType t = type_in("type");
    unsigned n = vc::choose("points", 4);
    std::vector<double> pts;
    for (unsigned i = 0; i < n; ++i) pts.push_back(real("point"));
    Partition P(RealInterval(a, b, t), Slice<param_t>(pts.data(), pts.size()));
    invariant(P);
    ENSURES(P.inf() == a && P.sup() == b && P.type() == t, "the interval");
    for (auto x : pts) if (a < x && x < b) {
        bool found = false;
        for (auto c : P.intermediates()) if (c == x) found = true;
        ENSURES(found, "every point strictly inside is a cut");
    }
    for (auto c : P.intermediates()) {
        bool found = false;
        for (auto x : pts) if (c == x) found = true;
        ENSURES(found, "every cut is one of the points");
    }
    COVER("built");
}
VC_CONTRACT(insert_cut, ieee, bounded, "inserting a point of the interval adds it as a cut unless it is one already or an end; inserting another point throws and changes nothing")
{
    Parts p = parts("a", "b", "cut", "cuts", 3, type_in("type"));
    Partition P = p.make();
    double x = real("x");
    bool thrown = false;
    try { P.insert_intermediate(x); } catch (const std::exception&) { thrown = true; }
    ENSURES(thrown == !RealInterval(p.a, p.b, p.t).contains_point(x), "throws exactly outside");
    invariant(P);
    std::vector<double> want = p.cuts;
    bool add = p.a < x && x < p.b;
    size_t at = 0;
    for (; at < want.size() && want[at] < x; ++at) {}
    if (add && (at == want.size() || want[at] != x)) want.insert(want.begin() + at, x);
    ENSURES(P.intermediates().size() == want.size(), "number of cuts");
    for (size_t i = 0; i < want.size() && i < P.intermediates().size(); ++i) ENSURES(P.intermediates()[i] == want[i], "cuts in order");
    if (add) COVER("inserted"); else COVER("not inserted");
}
VC_CONTRACT(refinement, ieee, bounded, "refine_midpoints keeps every cut and adds the midpoint of every piece")
{
    Parts p = parts("a", "b", "cut", "cuts", 3, type_in("type"));
    REQUIRES(std::fabs(p.a) < 1e300 && std::fabs(p.b) < 1e300);   // no overflow in the sum of the ends
    Partition P = p.make(), Q = P.refine_midpoints();
    ENSURES(Q.inf() == p.a && Q.sup() == p.b && Q.type() == p.t, "the interval");
    ENSURES(Q.size() == 2 * P.size(), "twice as many pieces");
    double prev = p.a;
    for (size_t i = 0; i < P.size() && 2 * i < Q.intermediates().size(); ++i) {
        double next = i < p.cuts.size() ? p.cuts[i] : p.b;
        double m = Q.intermediates()[2 * i];
        ENSURES(vc::eq(m, (next + prev) / 2.0), "midpoint");
        if (i < p.cuts.size()) ENSURES(Q.intermediates()[2 * i + 1] == next, "the old cut is kept");
        prev = next;
    }
    COVER("refined");
}
VC_CONTRACT(mesh_is_least_piece, ieee, bounded, "the mesh is the length of the shortest piece")
{
    Parts p = parts("a", "b", "cut", "cuts", 2, type_in("type"));
    Partition P = p.make();
    double m = P.mesh();
    bool attained = false;
    for (size_t i = 0; i < P.size(); ++i) {
        RealInterval I = P[i];
        double l = std::fabs(I.sup() - I.inf());
        ENSURES(m <= l, "no piece is shorter");
        if (m == l) attained = true;
    }
    ENSURES(attained, "one piece has that length");
    COVER("measured");
}
VC_CONTRACT(merge_partitions, ieee, bounded, "the merge of two partitions of one type covers both and is cut exactly at the ends and cuts of both")
{
    IntervalType t = type_in("type");
    Parts p = parts("a", "b", "cut", "cuts", 2, t), q = parts("c", "d", "other cut", "other cuts", 2, t);
    REQUIRES(p.cuts.size() + q.cuts.size() <= 2);
    Partition P = p.make(), Q = q.make(), M = P.merge(Q);
    double lo = std::fmin(p.a, q.a), hi = std::fmax(p.b, q.b);
    ENSURES(M.inf() == lo && M.sup() == hi && M.type() == t, "the interval covering both");
    invariant(M);
    std::vector<double> pts(p.cuts);
    pts.insert(pts.end(), q.cuts.begin(), q.cuts.end());
    for (double x : {p.a, p.b, q.a, q.b}) pts.push_back(x);
    for (double x : pts) if (lo < x && x < hi) {
        bool found = false;
        for (auto c : M.intermediates()) if (c == x) found = true;
        ENSURES(found, "every end or cut of either is a cut of the merge");
    }
    for (auto c : M.intermediates()) {
        bool found = false;
        for (double x : pts) if (c == x) found = true;
        ENSURES(found, "every cut of the merge is an end or a cut of one of them");
    }
    COVER("merged");
}
VC_CONTRACT(merge_types, ieee, bounded, "partitions of different types cannot be merged")
{
    Parts p = parts("a", "b", "cut", "cuts", 1, IntervalType::Clopen), q = parts("c", "d", "other cut", "other cuts", 1, IntervalType::Opencl);
    bool thrown = false;
    try { (void)p.make().merge(q.make()); } catch (const std::exception&) { thrown = true; }
    ENSURES(thrown, "an exception");
    COVER("refused");
}
VC_CONTRACT(equality_and_assignment, ieee, bounded, "two partitions are equal when their intervals and cuts are, and a partition assigned another becomes equal to it")
{
    Parts p = parts("a", "b", "cut", "cuts", 2, type_in("type")), q = parts("c", "d", "other cut", "other cuts", 2, type_in("other type"));
    REQUIRES(p.cuts.size() + q.cuts.size() <= 3);
    Partition P = p.make(), Q = q.make();
    bool same = p.a == q.a && p.b == q.b && p.t == q.t && p.cuts.size() == q.cuts.size();
    for (size_t i = 0; same && i < p.cuts.size(); ++i) if (p.cuts[i] != q.cuts[i]) same = false;
    ENSURES((P == Q) == same, "equal exactly when the parts are");
    P = Q;
    ENSURES(P.inf() == q.a && P.sup() == q.b && P.type() == q.t && P.intermediates() == q.cuts, "the assigned value");
    if (same) COVER("equal"); else COVER("different");
}
