// Contracts on streams of increments (streams/src/{lie_increment_stream,dyadic_caching_layer,stream,stream_base,
// schema,parametrization}.cpp) queried through Stream, StreamInterface and the cache.
// PROPERTY: C16
// SOURCES: lal intervals platform generics devices device scalars algebra streams
#include "alg.h"
#include "hall.h"
#include <roughpy/scalars/key_scalar_stream.h>
#include <roughpy/streams/stream.h>
#include <roughpy/streams/lie_increment_stream.h>
#include <roughpy/streams/piecewise_abelian_stream.h>
#include <roughpy/intervals/dyadic_interval.h>
#include <roughpy/intervals/partition.h>
#include <cmath>
using namespace rpy::streams;
using intervals::RealInterval; using intervals::DyadicInterval; using intervals::Dyadic; using intervals::IntervalType;
using scalars::KeyScalarStream;

static StreamMetadata metadata_of(Shape s, resolution_t r, double sup = 2.0, VectorType v = VectorType::Dense) {
    return StreamMetadata{(deg_t)s.W, RealInterval(0.0, sup), ctx_of(s), dtype(), v, r, IntervalType::Clopen};
}
// the data of a stream: the parameters of the increments, and their coordinates
struct Data { Shape s; std::vector<double> times; std::vector<ref::Vec> incs; };
static const double kTimes[] = {0.0, 0.3, 0.5, 0.75, 1.0, 1.6};
static Data data(Shape s, std::initializer_list<unsigned> at, bool letters = true) {
    Data d; d.s = s; ref::Hall H(s.W, s.D);
    for (unsigned t : at) {
        d.times.push_back(kTimes[t]);
        ref::Vec v(H.size(), 0.0);
        for (size_t i = 0; i < (letters ? (size_t)s.W : H.size()); ++i) v[i] = vc::num("increment");
        d.incs.push_back(v);
    }
    return d;
}
// every set of up to three increments, in the order of their parameters, with repetitions
static Data some_data(Shape s, unsigned most) {
    static const unsigned char sets[][3] = {{9, 9, 9}, {0, 9, 9}, {1, 9, 9}, {4, 9, 9}, {0, 3, 9}, {1, 2, 9}, {2, 2, 9}, {3, 4, 9}, {1, 3, 5}, {0, 2, 4}, {1, 1, 3}, {2, 3, 3}, {0, 1, 2}, {4, 4, 4}};
    static const unsigned ends[] = {1, 4, 8, 14};
    unsigned k = vc::choose("increments", ends[most]);
    Data d = data(s, {});
    for (int i = 0; i < 3; ++i) if (sets[k][i] != 9) {
        Data e = data(s, {sets[k][i]});
        d.times.push_back(e.times[0]); d.incs.push_back(e.incs[0]);
    }
    return d;
}
// the ordered product of the exponentials of the increments with parameters in [lo, hi)
static ref::Vec product(const Data& d, Shape s, double lo, double hi) {
    ref::Alg A(s.W, s.D); ref::Hall H(s.W, s.D);
    ref::Vec g = ref::one(A);
    for (size_t i = 0; i < d.times.size(); ++i)
        if (lo <= d.times[i] && d.times[i] < hi) {
            ref::Vec v = d.incs[i]; v.resize(H.size(), 0.0);
            g = ref::mul(A, g, ref::exp_nounit(A, H.expand(A, v)));
        }
    return g;
}
static std::shared_ptr<const StreamInterface> stream(const Data& d, StreamMetadata md, unsigned kind) {
    auto schema = std::make_shared<StreamSchema>(d.s.W);
    Slice<param_t> at(const_cast<double*>(d.times.data()), d.times.size());
    ref::Hall H(d.s.W, d.s.D);
    std::vector<double> m;
    for (auto& v : d.incs) for (int i = 0; i < d.s.W; ++i) m.push_back(v[i]);
    if (kind == 0) return std::make_shared<LieIncrementStream>(scalars::KeyScalarArray(ScalarArray(dtype(), (const void*)m.data(), m.size())), at, std::move(md), schema);
    if (kind == 1) {
        KeyScalarStream ks(dtype());
        ks.reserve_size(d.incs.size());
        for (size_t i = 0; i < d.incs.size(); ++i) ks.push_back(ScalarArray(dtype(), (const void*)(m.data() + i * d.s.W), d.s.W));
        return std::make_shared<LieIncrementStream>(ks, at, std::move(md), schema);
    }
    std::vector<pair<param_t, Lie>> ls;
    for (size_t i = 0; i < d.incs.size(); ++i) {
        VectorConstructionData cd{scalars::KeyScalarArray(ScalarArray(dtype(), (const void*)d.incs[i].data(), H.size())), VectorType::Dense};
        ls.emplace_back(d.times[i], md.default_context->construct_lie(cd));
    }
    return std::make_shared<LieIncrementStream>(std::move(ls), std::move(md), schema);
}
static ref::Vec sig_of(const Lie& l, const context_pointer& ctx, Shape s) { ref::Alg A(s.W, s.D); return coefs(ctx->lie_to_tensor(l).exp(), A.size()); }
static const Shape shapes[] = {{2, 2}, {2, 3}, {3, 2}, {1, 2}};
// intervals of parameters: their ends are at grid points of resolution 1 and up
static const double kEnds[][2] = {{0, 2}, {0, 1}, {0.5, 1}, {1, 2}, {0.5, 1.5}, {0, 0.5}, {0.25, 0.75}, {0.75, 1.75}, {0, 0.25}, {1.5, 2}};

VC_CONTRACT(increments_in_interval, real, bounded, "the signature of a stream of increments over an interval with ends on the grid of the resolution is the ordered product of the exponentials of the increments with parameters in it; the log signature is its logarithm")
{
    unsigned q = vc::choose("interval", 10), kind = vc::choose("made from", 3), sh = vc::choose("shape", 2);
    Shape s = shapes[sh];
    ref::Alg A(s.W, s.D);
    Data d = some_data(s, sh ? 2 : 3);
    resolution_t r = 1 + (resolution_t)vc::choose("resolution of the stream", 3), at = 1 + (resolution_t)vc::choose("resolution of the query", 3);
    resolution_t g = std::min(r, at), need = q < 6 || q == 9 ? 1 : 2;
    REQUIRES(g >= need);
    Stream st(stream(d, metadata_of(s, r), kind));
    auto ctx = ctx_of(s);
    RealInterval iv(kEnds[q][0], kEnds[q][1]);
    ref::Vec want = product(d, s, kEnds[q][0], kEnds[q][1]);
    Lie l = st.log_signature(iv, at, *ctx);
    EQUAL_COEFS(coefs(ctx->lie_to_tensor(l), A.size()), ref::log_of(A, want), "log signature");
    EQUAL_COEFS(coefs(st.signature(iv, at, *ctx), A.size()), want, "signature");
    COVER("queried");
}
VC_CONTRACT(general_increments, real, bounded, "increments that are general Lie elements, sparse rows of keyed values, and rows with a parameter channel are multiplied in the same way")
{
    unsigned k = vc::choose("kind of increments", 4), q = vc::choose("interval", 4), vt = vc::choose("storage", 2), reps = vc::choose("parameters", 3);
    Shape s = shapes[vc::choose("shape", 3)];
    REQUIRES(k < 3 || s.W > 1);
    VectorType v = vt ? VectorType::Sparse : VectorType::Dense;
    ref::Alg A(s.W, s.D); ref::Hall H(s.W, s.D);
    std::vector<unsigned> at = reps == 0 ? std::vector<unsigned>{1, 3, 4} : reps == 1 ? std::vector<unsigned>{2, 2} : std::vector<unsigned>{1, 3, 3};
    Data d = data(s, {}); std::shared_ptr<const StreamInterface> p;
    auto schema = std::make_shared<StreamSchema>(k == 3 ? s.W - 1 : s.W);
    if (k == 0) {
        for (unsigned t : at) { Data e = data(s, {t}, false); d.times.push_back(e.times[0]); d.incs.push_back(e.incs[0]); }
        p = stream(d, metadata_of(s, 1, 2.0, v), 2);
    } else {
        if (k == 3) schema->parametrization()->add_as_channel();
        KeyScalarStream ks(dtype());
        ks.reserve_size(at.size());
        double before = 0;
        std::vector<std::vector<double>> rows; std::vector<std::vector<key_type>> keys;
        for (unsigned t : at) {
            std::vector<double> r; std::vector<key_type> key; ref::Vec f(H.size(), 0.0);
            size_t n = k == 3 ? s.W - 1 : k == 1 ? H.size() : s.W;
            for (size_t i = 0; i < n; ++i) if (k != 1 || i % 2 == 0) { double x = vc::num("increment"); r.push_back(x); f[i] = x; if (k == 1) key.push_back((key_type)i); }
            if (k == 3) { f[s.W - 1] = kTimes[t] - before; before = kTimes[t]; }
            rows.push_back(r); keys.push_back(key); d.incs.push_back(f); d.times.push_back(kTimes[t]);
        }
        for (size_t i = 0; i < rows.size(); ++i) {
            ScalarArray a(dtype(), (const void*)rows[i].data(), rows[i].size());
            if (k == 1) ks.push_back(a, keys[i].data()); else ks.push_back(a);
        }
        Slice<param_t> times(d.times.data(), d.times.size());
        p = std::make_shared<LieIncrementStream>(ks, times, metadata_of(s, 1, 2.0, v), schema);
    }
    static const double ivs[][2] = {{0, 2}, {0.5, 1}, {0, 1}, {0.5, 1.5}};
    Stream st(p);
    ref::Vec want = product(d, s, ivs[q][0], ivs[q][1]);
    Lie l = st.log_signature(RealInterval(ivs[q][0], ivs[q][1]), 1, *ctx_of(s));
    EQUAL_COEFS(coefs(ctx_of(s)->lie_to_tensor(l), A.size()), ref::log_of(A, want), "log signature");
    COVER("queried");
}
VC_CONTRACT(increments_off_grid, real, bounded, "over any interval, at any resolution no finer than the stream's, the increments counted are those with parameters in the grid approximation of the interval; at finer resolutions those of the cells of the stream whose first point is in it")
{
    static const double ivs[][2] = {{0.125, 0.9375}, {0, 0.3125}, {0.3125, 0.625}, {0.265625, 1.75}, {0.765625, 0.96875}, {0.25, 0.6875}, {0.5, 1.015625}, {-1, 0.8125}, {0.6875, 3.0}, {0.4375, 0.5625}};
    unsigned q = vc::choose("interval", 10), r = vc::choose("resolution of the stream", 4), at = vc::choose("resolution of the query", 5);
    Shape s{2, 2};
    ref::Alg A(s.W, s.D);
    Data d = some_data(s, 3);
    Stream st(stream(d, metadata_of(s, r), 1));
    double lo = std::max(ivs[q][0], 0.0), hi = std::min(ivs[q][1], 2.0);
    // the grid approximation of the part in the support
    double g = std::ldexp(1.0, at), c = std::ldexp(1.0, r);
    lo = std::floor(lo * g) / g; hi = std::floor(hi * g) / g;
    ref::Vec want = ref::one(A);
    if (at <= r) want = product(d, s, lo, hi);
    else want = product(d, s, std::ceil(lo * c) / c, std::ceil(hi * c) / c);
    FreeTensor t = st.signature(RealInterval(ivs[q][0], ivs[q][1]), at, *ctx_of(s));
    EQUAL_COEFS(coefs(t, A.size()), want, "signature");
    COVER("queried");
}
VC_CONTRACT(queries_do_not_interfere, real, bounded, "what a query returns does not depend on the queries made before it, in whatever contexts, at whatever resolutions and whatever was done with their results")
{
    unsigned a = vc::choose("first query", 6), b = vc::choose("second query", 6), da = vc::choose("first depth", 3), db = vc::choose("second depth", 3), ra = vc::choose("first resolution", 3), rb = vc::choose("second resolution", 3), how = vc::choose("how", 3), change = vc::choose("result changed", 2);
    REQUIRES(!change || (da == 1 && a < 3));
    Shape s{2, 2};
    Data d = data(s, {1, 3, 4});
    auto p = stream(d, metadata_of(s, 1), 1);
    Stream st(p);
    auto ctx_a = ctx_of({2, 1 + (int)da}), ctx_b = ctx_of({2, 1 + (int)db});
    RealInterval ia(kEnds[a][0], kEnds[a][1]), ib(kEnds[b][0], kEnds[b][1]);
    Lie x = how == 2 ? p->log_signature(ia, ra, *ctx_a) : st.log_signature(ia, ra, *ctx_a);
    if (change) { for (int i = 0; i < 2; ++i) x[1 + i] = scalars::Scalar(vc::num("overwritten")); }
    Lie y = how == 1 ? p->log_signature(ib, rb, *ctx_b) : st.log_signature(ib, rb, *ctx_b);
    Shape sb{2, 1 + (int)db}; ref::Alg A(sb.W, sb.D);
    double g = std::ldexp(1.0, rb), lo = std::floor(kEnds[b][0] * g) / g, hi = std::floor(kEnds[b][1] * g) / g;
    if (rb > 1) { lo = std::ceil(lo * 2) / 2; hi = std::ceil(hi * 2) / 2; }
    EQUAL_COEFS(coefs(ctx_b->lie_to_tensor(y), A.size()), ref::log_of(A, product(d, sb, lo, hi)), "second query");
    COVER("queried");
}
VC_CONTRACT(default_resolution, real, bounded, "without a resolution the query is made at the resolution of the stream or a finer one that resolves the interval, and without a context in the context of the stream")
{
    unsigned q = vc::choose("interval", 9), r = vc::choose("resolution of the stream", 4);
    static const double ivs[][2] = {{0, 2}, {0, 1}, {0.5, 1}, {0.25, 0.75}, {0, 0.25}, {0.75, 0.8125}, {1.5, 2}, {0.5, 0.5}, {2, 3}};
    Shape s{2, 2};
    ref::Alg A(s.W, s.D);
    Data d = some_data(s, 3);
    Stream st(stream(d, metadata_of(s, r), 1));
    double c = std::ldexp(1.0, r), lo = std::ceil(ivs[q][0] * c) / c, hi = std::ceil(std::min(ivs[q][1], 2.0) * c) / c;
    ref::Vec want = product(d, s, lo, hi);
    RealInterval iv(ivs[q][0], ivs[q][1]);
    EQUAL_COEFS(coefs(st.signature(iv, *ctx_of(s)), A.size()), want, "signature");
    Lie l = st.log_signature(iv, *ctx_of(s));
    EQUAL_COEFS(coefs(ctx_of(s)->lie_to_tensor(l), A.size()), ref::log_of(A, want), "log signature");
    COVER("queried");
}
VC_CONTRACT(chen_on_streams, real, bounded, "the signature over the union of two adjacent intervals is the product of the signatures over them, for any point of division, at any fixed resolution")
{
    static const double pts[] = {0, 0.125, 0.25, 0.3125, 0.5, 0.625, 0.75, 1, 1.625, 2};
    unsigned i = vc::choose("first", 10), j = vc::choose("middle", 10), k = vc::choose("last", 10), r = vc::choose("resolution of the stream", 3), at = vc::choose("resolution of the query", 4);
    REQUIRES(i < j && j < k);
    Shape s{2, 2};
    ref::Alg A(s.W, s.D);
    Data d = data(s, {1, 3, 4});
    Stream st(stream(d, metadata_of(s, r), 1));
    auto ctx = ctx_of(s);
    FreeTensor l = st.signature(RealInterval(pts[i], pts[j]), at, *ctx), m = st.signature(RealInterval(pts[j], pts[k]), at, *ctx), w = st.signature(RealInterval(pts[i], pts[k]), at, *ctx);
    EQUAL_COEFS(coefs(l.mul(m), A.size()), coefs(w, A.size()), "Chen");
    COVER("multiplied");
}
VC_CONTRACT(restriction, real, bounded, "a stream restricted to an interval answers as the stream does over the part of the query in the interval, and the original is unchanged")
{
    static const double ivs[][2] = {{0, 2}, {0.5, 1}, {0.25, 1.5}, {0, 0.5}, {1, 2}, {0.5, 1.75}, {-1, 0.75}};
    unsigned a = vc::choose("restriction", 7), q = vc::choose("interval", 7), how = vc::choose("in place", 2);
    Shape s{2, 2};
    ref::Alg A(s.W, s.D);
    Data d = data(s, {0, 2, 3, 4});
    auto ctx = ctx_of(s);
    Stream st(stream(d, metadata_of(s, 2), 1));
    Stream re = st;
    if (how) re.restrict_to(RealInterval(ivs[a][0], ivs[a][1])); else re = st.restrict(RealInterval(ivs[a][0], ivs[a][1]));
    ENSURES(re.support() == RealInterval(ivs[a][0], ivs[a][1]), "the support");
    RealInterval iv(ivs[q][0], ivs[q][1]);
    EQUAL_COEFS(coefs(re.signature(iv, 2, *ctx), A.size()), product(d, s, std::max(ivs[a][0], ivs[q][0]), std::min(ivs[a][1], ivs[q][1])), "restricted");
    EQUAL_COEFS(coefs(st.signature(iv, 2, *ctx), A.size()), product(d, s, ivs[q][0], ivs[q][1]), "the original");
    COVER("restricted");
}
VC_CONTRACT(derivative_on_stream, real, bounded, "the derivative of the signature of a stream over an interval is the derivative of the exponential at its log signature over the interval")
{
    unsigned q = vc::choose("interval", 6), kind = vc::choose("call", 4), kp = vc::choose("perturbation", 3);
    Shape s{2, 2};
    ref::Alg A(s.W, s.D); ref::Hall H(s.W, s.D);
    Data d = data(s, {1, 3, 4});
    auto ctx = ctx_of(s);
    Stream st(stream(d, metadata_of(s, 1), 1));
    Element e = element("perturbation", H.size(), kp, H.size());
    Lie y = ctx->construct_lie(e.data());
    RealInterval iv(kEnds[q][0], kEnds[q][1]);
    FreeTensor x = kind == 0 ? st.signature_derivative(iv, y, *ctx) : kind == 1 ? st.signature_derivative(iv, y, 1, *ctx) : kind == 2 ? st.signature_derivative({{iv, y}}, *ctx) : st.signature_derivative({{iv, y}}, 1, *ctx);
    ref::Vec l = ref::log_of(A, product(d, s, kEnds[q][0], kEnds[q][1])), p = H.expand(A, e.full);
    // depth two: p + (l p + p l) / 2
    ref::Vec want = ref::add(p, ref::div(ref::add(ref::mul(A, l, p), ref::mul(A, p, l)), 2.0));
    EQUAL_COEFS(coefs(x, A.size()), want, "derivative");
    COVER("derived");
}
// the signature of pieces of constant speed over [lo, hi): the ordered product of the exponentials of the parts of them
struct Pieces { std::vector<double> at; std::vector<double> to; std::vector<ref::Vec> lies; };
static ref::Vec product(const Pieces& p, Shape s, double lo, double hi) {
    ref::Alg A(s.W, s.D); ref::Hall H(s.W, s.D);
    ref::Vec g = ref::one(A);
    for (size_t i = 0; i < p.at.size(); ++i) {
        double a = std::max(lo, p.at[i]), b = std::min(hi, p.to[i]);
        if (a < b) g = ref::mul(A, g, ref::exp_nounit(A, H.expand(A, ref::scale(p.lies[i], (b - a) / (p.to[i] - p.at[i])))));
    }
    return g;
}
static const double kCuts[][4] = {{0, 2, 2, 2}, {0.5, 1, 1.5, 2}, {0.25, 0.75, 0.75, 2}, {0, 0.5, 1, 2}, {0.125, 0.25, 1, 1.125}};
static const double kQueries[][2] = {{0, 2}, {0, 1}, {0.5, 1}, {0.25, 0.5}, {0.375, 1.25}, {0, 0.25}, {1.75, 2}, {1.5, 2}, {0.625, 0.75}, {0, 0.125}, {0.25, 0.875}, {-1, 0.75}, {1.5, 3}};
VC_CONTRACT(pieces_of_constant_speed, real, bounded, "the signature of a stream of pieces of constant speed over an interval is the ordered product of the exponentials of the pieces, each scaled by the fraction of it in the interval")
{
    unsigned c = vc::choose("pieces", 5), q = vc::choose("interval", 13), skip = vc::choose("pieces left out", 4), how = vc::choose("how", 3);
    Shape s = shapes[vc::choose("shape", 2)];
    ref::Alg A(s.W, s.D); ref::Hall H(s.W, s.D);
    auto ctx = ctx_of(s);
    Pieces p; std::vector<PiecewiseAbelianStream::LiePiece> data;
    for (int i = 0; i < 3; ++i) if (kCuts[c][i] < kCuts[c][i + 1] && skip != 1u + i) {
        ref::Vec v = sym("piece", H.size());
        p.at.push_back(kCuts[c][i]); p.to.push_back(kCuts[c][i + 1]); p.lies.push_back(v);
        VectorConstructionData cd{scalars::KeyScalarArray(ScalarArray(dtype(), (const void*)v.data(), v.size())), i == 1 ? VectorType::Sparse : VectorType::Dense};
        data.emplace_back(RealInterval(kCuts[c][i], kCuts[c][i + 1]), ctx->construct_lie(cd));
    }
    auto st = std::make_shared<PiecewiseAbelianStream>(std::move(data), metadata_of(s, 3), std::make_shared<StreamSchema>(s.W));
    RealInterval iv(kQueries[q][0], kQueries[q][1]);
    ref::Vec want = product(p, s, kQueries[q][0], kQueries[q][1]);
    std::shared_ptr<const StreamInterface> base = st;
    Lie l = how == 0 ? Stream(base).log_signature(iv, 3, *ctx) : how == 1 ? base->log_signature(iv, *ctx) : base->log_signature(iv, 3, *ctx);
    EQUAL_COEFS(coefs(ctx->lie_to_tensor(l), A.size()), ref::log_of(A, want), "log signature");
    if (how == 1) EQUAL_COEFS(coefs(base->signature(iv, *ctx), A.size()), want, "signature");
    if (how == 2) EQUAL_COEFS(coefs(base->signature(iv, 3, *ctx), A.size()), want, "signature at a resolution");
    COVER("queried");
}
VC_CONTRACT(simplified_stream, real, bounded, "simplifying a stream over a partition gives a stream that agrees with it over the intervals of the partition and is of constant speed in each")
{
    static const double parts[][4] = {{0, 2, 2, 2}, {0, 0.5, 2, 2}, {0, 0.5, 1, 2}, {0.25, 0.75, 1.5, 1.5}, {0, 1, 1.25, 1.5}};
    static const unsigned pieces[] = {1, 2, 3, 2, 3};
    unsigned c = vc::choose("partition", 5), q = vc::choose("interval", 13);
    Shape s{2, 2};
    ref::Alg A(s.W, s.D); ref::Hall H(s.W, s.D);
    auto ctx = ctx_of(s);
    Data d = data(s, {0, 2, 3, 4});
    Stream st(stream(d, metadata_of(s, 2), 1));
    intervals::Partition part(RealInterval(parts[c][0], parts[c][pieces[c]]));
    for (unsigned i = 1; i < pieces[c]; ++i) part.insert_intermediate(parts[c][i]);
    Stream si = st.simplify(part, 2, *ctx);
    for (unsigned i = 0; i < pieces[c]; ++i)
        EQUAL_COEFS(coefs(si.signature(RealInterval(parts[c][i], parts[c][i + 1]), 3, *ctx), A.size()), product(d, s, parts[c][i], parts[c][i + 1]), "intervals of the partition");
    ref::Vec want = ref::one(A);
    double lo = kQueries[q][0], hi = kQueries[q][1];
    for (unsigned i = 0; i < pieces[c]; ++i) {
        double a = std::max(lo, parts[c][i]), b = std::min(hi, parts[c][i + 1]);
        if (a < b) want = ref::mul(A, want, ref::exp_nounit(A, ref::scale(ref::log_of(A, product(d, s, parts[c][i], parts[c][i + 1])), (b - a) / (parts[c][i + 1] - parts[c][i]))));
    }
    EQUAL_COEFS(coefs(si.signature(RealInterval(lo, hi), 3, *ctx), A.size()), want, "parts of them");
    EQUAL_COEFS(coefs(st.signature(RealInterval(0, 2), 2, *ctx), A.size()), product(d, s, 0, 2), "the original");
    COVER("simplified");
}
