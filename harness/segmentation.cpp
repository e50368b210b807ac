// Contracts on dyadic segmentation (intervals/src/segmentation.cpp, dyadic_searcher.cpp, scaled_predicate.cpp).
// PROPERTY: C06
// SOURCES: intervals:^(dyadic|dyadic_interval|interval|real_interval|segmentation|dyadic_searcher|scaled_predicate)\.cpp
// SHARDS segments: 4
// SHARDS two_runs: 8
// SHARDS segments_deep: 8
#include <vc.h>
#include <roughpy/intervals/real_interval.h>
#include <roughpy/intervals/segmentation.h>
#include <cmath>
#include <vector>
using namespace rpy;
using namespace rpy::intervals;
// The set S: cell i of [base + i h, base + (i+1) h), for i from -cells to 2*cells, is in S when its bit is set. An interval is
// good when all its cells are in S. The interval segmented is cells 0 .. cells-1.
struct Grid { double base, h; int cells; uint64_t set; IntervalType t = IntervalType::Clopen;
    bool has(int i) const { return i >= -cells && i < 2 * cells && (set >> (i + cells) & 1); }
    uint64_t mask(int lo, int hi) const { uint64_t m = 0; for (int i = lo; i < hi; ++i) if (i >= -cells && i < 2 * cells) m |= (uint64_t)1 << (i + cells); return m; }
    bool good(const Interval& I) const {
        double lo = (I.inf() - base) / h, hi = (I.sup() - base) / h;
        ENSURES(lo == std::floor(lo) && hi == std::floor(hi), "the predicate is asked about unions of cells only");
        if (lo < -cells || hi > 2 * cells) return false;
        uint64_t m = mask((int)lo, (int)hi);
        return (set & m) == m;
    } };
static void check_segments(const Grid& G, int depth) {
    auto found = segment(RealInterval(G.base, G.base + G.cells * G.h, G.t), [&G](const Interval& I) { return G.good(I); }, depth);
    size_t at = 0;
    for (int i = 0; i < G.cells;) {
        if (!G.has(i)) { ++i; continue; }
        int j = i;
        while (j < G.cells && G.has(j)) ++j;
        ENSURES(at < found.size(), "every run of good cells is found");
        if (at < found.size()) {
            ENSURES(found[at].inf() == G.base + i * G.h && found[at].sup() == G.base + j * G.h, "each segment is one whole run of good cells, from left to right");
            ENSURES(found[at].type() == G.t, "segments have the type of the interval");
        }
        ++at;
        i = j;
    }
    ENSURES(found.size() == at, "there are no other segments");
    if (at > 1) COVER("several segments"); else COVER("one or none");
}
VC_CONTRACT(segments, ieee, bounded, "the segments are the maximal runs of good cells, for every set of cells of an interval of 8 cells, whatever the predicate says outside")
{
    bool far = vc::choose("elsewhere", 2);
    Grid G{far ? -3.0 : 0.0, far ? 0.5 : 0.125, 8, vc::in<uint64_t>("set", 0, ((uint64_t)1 << 24) - 1)};
    check_segments(G, 3);
}
VC_CONTRACT(segments_opencl, ieee, bounded, "the same for a left-open interval")
{
    Grid G{1.0, 0.25, 4, vc::in<uint64_t>("set", 0, ((uint64_t)1 << 12) - 1), IntervalType::Opencl};
    check_segments(G, 2);
}
VC_CONTRACT(segments_shallow, ieee, bounded, "with a depth coarser than the cells the segments are the runs of good intervals of that depth")
{
    uint64_t set = vc::in<uint64_t>("set", 0, 255);
    Grid fine{0.0, 0.125, 8, set << 8}, coarse{0.0, 0.25, 4, 0};
    for (int i = 0; i < 4; ++i) if ((set >> (2 * i) & 3) == 3) coarse.set |= (uint64_t)1 << (i + 4);
    auto a = segment(RealInterval(0.0, 1.0), [&](const Interval& I) { return fine.good(I); }, 2);
    auto b = segment(RealInterval(0.0, 1.0), [&](const Interval& I) { return coarse.good(I); }, 2);
    ENSURES(a.size() == b.size(), "number of segments");
    for (size_t i = 0; i < a.size() && i < b.size(); ++i) ENSURES(a[i] == b[i], "segments");
    COVER("compared");
}
VC_CONTRACT(two_runs, ieee, bounded, "one or two runs of good cells anywhere in an interval of 16 cells")
{
    unsigned i = vc::choose("first", 16), j = i + 1 + vc::choose("first length", 16), k = vc::choose("second", 18), l = k + 1 + vc::choose("second length", 8);
    REQUIRES(j <= 16 && l <= 18 && (k > j || k == 0));
    Grid G{0.0, 0.0625, 16, 0};
    if (k) REQUIRES(l <= 16); else REQUIRES(l == 1);
    G.set = G.mask(i, j) | (k ? G.mask(k, l) : 0);
    check_segments(G, 4);
}
VC_CONTRACT(segments_deep, ieee, bounded, "the segments are the maximal runs of good cells, for every set of cells of an interval of 16 cells")
{
    Grid G{0.0, 0.0625, 16, 0};
    G.set = (uint64_t)(vc::choose("low cells", 256) | (uint64_t)vc::choose("high cells", 256) << 8) << 16;
    check_segments(G, 4);
}
