// Contracts on tick streams (streams/src/tick_stream.cpp, streams/src/stream_base.cpp), built in each of the ways there are.
// PROPERTY: C21
// SOURCES: lal intervals platform generics devices device scalars algebra streams
#include "alg.h"
#include "hall.h"
#include <roughpy/scalars/scalar_stream.h>
#include <roughpy/streams/stream.h>
#include <roughpy/streams/tick_stream.h>
#include <roughpy/intervals/dyadic_interval.h>
#include <cmath>
#include <map>
using namespace rpy::streams;
using intervals::RealInterval; using intervals::DyadicInterval; using intervals::Dyadic; using intervals::IntervalType;

static StreamMetadata metadata_of(Shape s, resolution_t r) {
    return StreamMetadata{(deg_t)s.W, RealInterval(-2.0, 2.0), ctx_of(s), dtype(), VectorType::Dense, r, IntervalType::Clopen};
}
struct Data { Shape s; std::vector<double> times; std::vector<ref::Vec> incs; };
static const double kTimes[] = {-1.25, -0.5, 0.0, 0.3, 0.5, 1.6};
// which ticks there are, in the order they come
static const unsigned char kSets[][3] = {{3, 9, 9}, {2, 9, 9}, {1, 9, 9}, {1, 2, 9}, {0, 3, 9}, {3, 4, 9}, {3, 3, 9}, {0, 1, 9}, {0, 2, 4}, {1, 1, 5}, {0, 1, 2}, {2, 3, 5}, {3, 4, 4}};
static Data some_data(Shape s, unsigned k) {
    Data d; d.s = s; ref::Hall H(s.W, s.D);
    for (unsigned t : kSets[k]) if (t != 9) {
        d.times.push_back(kTimes[t]);
        ref::Vec v(H.size(), 0.0);
        for (int i = 0; i < s.W; ++i) v[i] = vc::num("increment");
        d.incs.push_back(v);
    }
    return d;
}
static ref::Vec product(const Data& d, Shape s, double lo, double hi, double grid) {
    ref::Alg A(s.W, s.D); ref::Hall H(s.W, s.D);
    ref::Vec g = ref::one(A);
    for (size_t i = 0; i < d.times.size(); ++i) {
        double at = std::floor(d.times[i] * grid) / grid;
        if (lo <= at && at < hi) {
            ref::Vec v = d.incs[i]; v.resize(H.size(), 0.0);
            g = ref::mul(A, g, ref::exp_nounit(A, H.expand(A, v)));
        }
    }
    return g;
}
static std::shared_ptr<const StreamInterface> stream(const Data& d, StreamMetadata md, unsigned kind) {
    auto schema = std::make_shared<StreamSchema>(d.s.W);
    resolution_t r = md.default_resolution;
    if (kind == 0) {
        scalars::ScalarStream rows(dtype());
        std::vector<const key_type*> keys(d.times.size(), nullptr);
        rows.reserve_size(d.times.size());
        for (auto& v : d.incs) rows.push_back(ScalarArray(dtype(), (const void*)v.data(), d.s.W));
        return std::make_shared<TickStream>(std::move(rows), keys, d.times, r, std::move(md));
    }
    ref::Hall H(d.s.W, d.s.D);
    if (kind == 1) {
        // ticks of one letter each, as entries of their own
        StreamConstructionHelper h(md.default_context, schema, VectorType::Dense);
        for (size_t i = 0; i < d.times.size(); ++i) for (int c = 0; c < d.s.W; ++c) h.add_increment(d.times[i], (dimn_t)c, d.incs[i][c]);
        return std::make_shared<TickStream>(std::move(h), std::move(md), r);
    }
    std::map<DyadicInterval, Lie> data;
    std::vector<param_t> at;
    for (size_t i = 0; i < d.times.size(); ++i) {
        DyadicInterval di(d.times[i], r);
        VectorConstructionData cd{scalars::KeyScalarArray(ScalarArray(dtype(), (const void*)d.incs[i].data(), H.size())), VectorType::Dense};
        Lie l = md.default_context->construct_lie(cd);
        auto f = data.find(di);
        if (f == data.end()) { data.emplace(di, l); at.push_back((double)di.included_end()); }
        else f->second = md.default_context->cbh(f->second, l, VectorType::Dense);
    }
    return std::make_shared<TickStream>(std::move(at), std::move(data), r, schema, std::move(md));
}
static Data letters(const Data& d) { // what the second way of making a stream is given
    Data e; e.s = d.s;
    for (size_t i = 0; i < d.times.size(); ++i) for (int c = 0; c < d.s.W; ++c) {
        ref::Vec v(d.incs[i].size(), 0.0); v[c] = d.incs[i][c];
        e.times.push_back(d.times[i]); e.incs.push_back(v);
    }
    return e;
}
static ref::Vec sig_of(const Lie& l, const context_pointer& ctx, Shape s) { ref::Alg A(s.W, s.D); return coefs(ctx->lie_to_tensor(l).exp(), A.size()); }
static const Shape shapes[] = {{2, 2}, {2, 3}, {3, 2}};
static const double kEnds[][2] = {{-2, 2}, {0, 1}, {-1, 0}, {0.5, 2}, {-2, 0.5}, {-0.5, 0.5}, {0, 0.5}, {-1.5, -1}, {1, 1.5}, {-2, 0}};
static const unsigned kNsets = sizeof(kSets) / sizeof(*kSets);

VC_CONTRACT(ticks_in_interval, real, bounded, "the signature of a stream of ticks over an interval with ends on the grid is the ordered product of the exponentials of the ticks in the granules that lie in it, in order of granule and then of arrival, however the stream was made; the log signature is its logarithm")
{
    unsigned q = vc::choose("interval", 10), kind = vc::choose("made from", 3), sh = vc::choose("shape", 2), k = vc::choose("ticks", kNsets);
    Shape s = shapes[sh];
    ref::Alg A(s.W, s.D);
    Data d = some_data(s, k);
    resolution_t r = 1 + (resolution_t)vc::choose("resolution of the stream", 2), at = 1 + (resolution_t)vc::choose("resolution of the query", 2);
    auto md = metadata_of(s, r);
    auto ctx = md.default_context;
    auto st = stream(d, std::move(md), kind);
    Data e = kind == 1 ? letters(d) : d;
    RealInterval i(kEnds[q][0], kEnds[q][1]);
    ref::Vec g = product(e, s, i.inf(), i.sup(), std::ldexp(1.0, r));
    Lie l = st->log_signature(i, at, *ctx);
    EQUAL_COEFS(sig_of(l, ctx, s), g, "log signature");
    EQUAL_COEFS(coefs(st->signature(i, at, *ctx), A.size()), g, "signature");
    EQUAL_COEFS(sig_of(st->log_signature(i, *ctx), ctx, s), g, "log signature at the stream's resolution");
    COVER("queried");
}
VC_CONTRACT(ticks_in_a_granule, real, bounded, "a tick belongs to the start of its granule: a dyadic interval of any resolution, coarser or finer, has exactly the ticks whose granules start in it, and is empty exactly when there are none")
{
    unsigned kind = vc::choose("made from", 3), k = vc::choose("ticks", kNsets);
    Shape s = shapes[0];
    Data d = some_data(s, k);
    resolution_t r = (resolution_t)vc::choose("resolution of the stream", 3);
    auto md = metadata_of(s, r);
    auto ctx = md.default_context;
    auto st = stream(d, std::move(md), kind);
    Data e = kind == 1 ? letters(d) : d;
    int n = (int)vc::choose("resolution of the query", 4) - 1, span = n < 0 ? 1 : 2 << n;
    int m = (int)vc::choose("multiplier", 2 * span) - span;
    DyadicInterval di(m, n);
    double grid = std::ldexp(1.0, r);
    ref::Vec g = product(e, s, di.inf(), di.sup(), grid);
    EQUAL_COEFS(sig_of(st->log_signature(di, r, *ctx), ctx, s), g, "log signature");
    bool any = false;
    for (double t : d.times) { double a = std::floor(t * grid) / grid; any = any || (di.inf() <= a && a < di.sup()); }
    if (n <= r) ENSURES(st->empty(di) == !any, "empty");
    COVER("queried");
}
VC_CONTRACT(ticks_through_stream, real, bounded, "the same through a stream handle, restricted or not, and in a context of smaller depth")
{
    unsigned kind = vc::choose("made from", 3), k = vc::choose("ticks", kNsets), q = vc::choose("interval", 10);
    Shape s = shapes[1], t{2, 2};
    ref::Alg A(t.W, t.D);
    Data d = some_data(s, k);
    auto md = metadata_of(s, 2);
    Stream st(stream(d, std::move(md), kind));
    Data e = kind == 1 ? letters(d) : d;
    RealInterval i(kEnds[q][0], kEnds[q][1]);
    bool restricted = vc::choose("restricted", 2);
    double lo = i.inf(), hi = i.sup();
    if (restricted) { st = st.restrict(RealInterval(-0.5, 1.0)); lo = std::max(lo, -0.5); hi = std::min(hi, 1.0); }
    ref::Vec g = lo < hi ? product(e, t, lo, hi, 4.0) : ref::one(A);
    auto ctx = ctx_of(t);
    EQUAL_COEFS(sig_of(st.log_signature(i, (resolution_t)2, *ctx), ctx, t), g, "log signature");
    EQUAL_COEFS(coefs(st.signature(i, (resolution_t)2, *ctx), A.size()), g, "signature");
    COVER("queried");
}
