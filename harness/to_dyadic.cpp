// Contracts on the dissection of an interval into dyadic intervals (intervals/src/dyadic_interval.cpp, to_dyadic_intervals).
// PROPERTY: C04
// SOURCES: intervals:^(dyadic|dyadic_interval|interval|real_interval)\.cpp
// SHARDS dissect: 16
// SHARDS dissect_from_other_type: 4
// SHARDS dissect_dyadic: 4
#include <vc.h>
#include <roughpy/intervals/dyadic_interval.h>
#include <roughpy/intervals/real_interval.h>
#include <cmath>
#include <vector>
using namespace rpy;
using namespace rpy::intervals;
using K = Dyadic::multiplier_t;
// the ends at resolution tol (the included end rounded to the grid, the excluded one too) of the chain that must be covered
static void chain(const std::vector<DyadicInterval>& v, int64_t from, int64_t to, int tol, IntervalType t) {
    int64_t at = from;
    int64_t prevLen = 0, prevAt = 0;
    for (const auto& I : v) {
        ENSURES(I.type() == t, "pieces have the requested type");
        int up = tol - I.power();
        ENSURES(0 <= up && up < 40, "no piece is finer than the tolerance");
        int64_t k = (int64_t)I.dinf().multiplier(), len = (int64_t)1 << up;
        ENSURES(k * len == at, "each piece starts where the one before ends");
        ENSURES(!(prevLen == len && (prevAt & (2 * len - 1)) == 0), "no two neighbours are the halves of one dyadic interval");
        prevAt = at;
        at += len;
        prevLen = len;
    }
    ENSURES(at == to, "the pieces end with the interval at the tolerance");
}
static void dissect_one(int64_t ka, int64_t kb, bool fa, bool fb, int tol, IntervalType t, IntervalType from) {
    // ends ka/2^tol and kb/2^tol, moved by half a step when fa / fb
    double a = std::ldexp((double)(2 * ka + (fa ? 1 : 0)), -tol - 1), b = std::ldexp((double)(2 * kb + (fb ? 1 : 0)), -tol - 1);
    auto v = to_dyadic_intervals(RealInterval(a, b, from), tol, t);
    bool c = t == IntervalType::Clopen;
    int64_t lo = c ? ka : ka + (fa ? 1 : 0), hi = c ? kb : kb + (fb ? 1 : 0);
    chain(v, lo, hi, tol, t);
    COVER("dissected");
    if (v.size() > 2) COVER("several pieces");
}
VC_CONTRACT(dissect, ieee, bounded, "the dyadic intervals are consecutive, of the requested type, none finer than the tolerance, and cover the interval rounded to the grid; intervals up to 8 steps long anywhere")
{
    static const int tols[] = {-1, 3}, lens[] = {1, 3, 5, 8};
    unsigned c = vc::choose("tolerance, type, length, half steps", 64);
    int tol = tols[c & 1], len = lens[c >> 4 & 3];
    IntervalType t = c >> 1 & 1 ? IntervalType::Opencl : IntervalType::Clopen;
    int ka = vc::in<int>("ka", -1000000, 1000000);
    dissect_one(ka, (int64_t)ka + len, c >> 2 & 1, c >> 3 & 1, tol, t, t);
}
VC_CONTRACT(dissect_from_other_type, ieee, bounded, "the type of the interval dissected does not matter, only the requested type")
{
    unsigned c = vc::choose("type, length, half steps", 24);
    IntervalType t = c & 1 ? IntervalType::Opencl : IntervalType::Clopen;
    int ka = vc::in<int>("ka", -1000, 1000);
    int len = (int)(c >> 3) + 1;
    dissect_one(ka, (int64_t)ka + len, c >> 1 & 1, c >> 2 & 1, 1, t, t == IntervalType::Clopen ? IntervalType::Opencl : IntervalType::Clopen);
}
VC_CONTRACT(dissect_empty, ieee, bounded, "an interval with no point of the grid in reach gives no pieces")
{
    IntervalType t = vc::choose("type", 2) ? IntervalType::Opencl : IntervalType::Clopen;
    int ka = vc::in<int>("ka", -1000, 1000);
    dissect_one(ka, ka, 0, 0, 2, t, t);
}
VC_CONTRACT(dissect_dyadic, ieee, bounded, "a dyadic interval no finer than the tolerance is its own dissection")
{
    unsigned c = vc::choose("type, resolution, finer", 40);
    IntervalType t = c & 1 ? IntervalType::Opencl : IntervalType::Clopen;
    int k = vc::in<int>("k", -1000, 1000);
    int n = (int)(c >> 3) - 2, finer = c >> 1 & 3;
    DyadicInterval I(k, n, t);
    auto v = to_dyadic_intervals(I, n + finer, t);
    ENSURES(v.size() == 1, "one piece");
    if (v.size() == 1) ENSURES(v[0].multiplier() == k && v[0].power() == n && v[0].type() == t, "the interval itself");
    COVER("dissected");
}
VC_CONTRACT(dissect_far, ieee, bounded, "intervals with ends on opposite sides of zero or far apart, every pair of ends within 16 steps of zero")
{
    IntervalType t = vc::choose("type", 2) ? IntervalType::Opencl : IntervalType::Clopen;
    int ka = (int)vc::choose("ka", 33) - 16, kb = (int)vc::choose("kb", 33) - 16;
    REQUIRES(ka < kb);
    dissect_one(ka, kb, 0, 0, 2, t, t);
}
