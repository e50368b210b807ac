// Contracts on streams that are constructed as they are queried
// (streams/src/{dynamically_constructed_stream,brownian_stream}.cpp).
// PROPERTY: C17
// SOURCES: lal intervals platform generics devices device scalars algebra streams
#include "alg.h"
#include "hall.h"
#include <roughpy/streams/stream.h>
#include <roughpy/streams/dynamically_constructed_stream.h>
#include <roughpy/streams/brownian_stream.h>
#include <roughpy/scalars/random.h>
#include <roughpy/intervals/dyadic_interval.h>
#include <cmath>
using namespace rpy::streams;
using intervals::RealInterval; using intervals::DyadicInterval; using intervals::Dyadic; using intervals::IntervalType;

static StreamMetadata metadata_of(Shape s, resolution_t r) {
    return StreamMetadata{(deg_t)s.W, RealInterval(-2.0, 4.0), ctx_of(s), dtype(), VectorType::Dense, r, IntervalType::Clopen};
}
// a stream whose increments are arbitrary, and that splits an increment into two halves differing by an arbitrary amount
struct Arbitrary : DynamicallyConstructedStream {
    Shape s;
    Arbitrary(Arbitrary&&) = default;
    Arbitrary(Shape sh, resolution_t r) : DynamicallyConstructedStream(metadata_of(sh, r)), s(sh) {}
    Lie any() const {
        std::vector<double> v; for (int i = 0; i < s.W; ++i) v.push_back(vc::num("increment"));
        VectorConstructionData cd{scalars::KeyScalarArray(ScalarArray(dtype(), (const void*)v.data(), v.size())), VectorType::Dense};
        return metadata().default_context->construct_lie(cd);
    }
    Lie log_signature_impl(const intervals::Interval&, const Context&) const override { return any(); }
    Lie make_new_root_increment(DyadicInterval) const override { return any(); }
    Lie make_neighbour_root_increment(DyadicInterval) const override { return any(); }
    pair<Lie, Lie> compute_child_lie_increments(DyadicInterval, DyadicInterval, const Lie& parent) const override {
        Lie mean = parent.smul(scalars::Scalar(dtype(), 1, 2)), p = any();
        return {mean.add(p), mean.sub(p)};
    }
};
struct Q { int k, n; };
static const Q kQ[] = {{0, 0}, {0, 1}, {1, 1}, {1, 2}, {1, 0}, {-1, 1}, {0, -1}, {3, 2}};
VC_CONTRACT(multiplicative_at_a_resolution, real, bounded, "whatever was asked for before at the resolution, the value over an interval is the product of those over its halves, and asking again gives the same")
{
    unsigned r = 1 + vc::choose("resolution", 2), a = vc::choose("first query", 8), b = vc::choose("second query", 8), t = vc::choose("interval", 8), o = vc::choose("order of the queries", 3);
    REQUIRES(kQ[t].n < (int)r && kQ[a].n <= (int)r && kQ[b].n <= (int)r);
    Shape s{2, 2};
    ref::Alg A(2, 2); ref::Hall H(2, 2);
    Arbitrary st(s, r);
    auto ctx = ctx_of(s);
    auto ask = [&](DyadicInterval di) { return coefs(ctx->lie_to_tensor(st.log_signature(di, r, *ctx)).exp(), A.size()); };
    ref::Vec x = ask(DyadicInterval(kQ[a].k, kQ[a].n)), y = ask(DyadicInterval(kQ[b].k, kQ[b].n));
    DyadicInterval p(kQ[t].k, kQ[t].n), l(2 * kQ[t].k, kQ[t].n + 1), m(2 * kQ[t].k + 1, kQ[t].n + 1);
    ref::Vec vp, vl, vm;
    if (o == 0) { vp = ask(p); vl = ask(l); vm = ask(m); } else if (o == 1) { vl = ask(l); vm = ask(m); vp = ask(p); } else { vm = ask(m); vp = ask(p); vl = ask(l); }
    EQUAL_COEFS(vp, ref::mul(A, vl, vm), "product of the halves");
    EQUAL_COEFS(ask(DyadicInterval(kQ[a].k, kQ[a].n)), x, "the first query again");
    EQUAL_COEFS(ask(DyadicInterval(kQ[b].k, kQ[b].n)), y, "the second query again");
    COVER("queried");
}
VC_CONTRACT(multiplicative_through_stream, real, bounded, "through Stream, at a fixed resolution, signatures over adjacent intervals multiply and queries repeat, also after the stream was moved")
{
    static const double pts[] = {-1, -0.5, 0, 0.25, 0.5, 1, 1.25, 2};
    unsigned i = vc::choose("first", 8), j = vc::choose("middle", 8), k = vc::choose("last", 8), o = vc::choose("order", 3), mv = vc::choose("moved", 2);
    REQUIRES(i < j && j < k && k < i + 5);
    Shape s{2, 2};
    ref::Alg A(2, 2);
    Arbitrary st(s, 2);
    auto ctx = ctx_of(s);
    auto p = std::make_shared<Arbitrary>(std::move(st));
    if (mv) { Arbitrary first(s, 2); (void)first.log_signature(DyadicInterval(0, 1), 2, *ctx); p = std::make_shared<Arbitrary>(std::move(first)); }
    Stream q((std::shared_ptr<const StreamInterface>(p)));
    auto ask = [&](unsigned a, unsigned b) { return coefs(q.signature(RealInterval(pts[a], pts[b]), 2, *ctx), A.size()); };
    ref::Vec w, l, m;
    if (o == 0) { w = ask(i, k); l = ask(i, j); m = ask(j, k); } else if (o == 1) { l = ask(i, j); m = ask(j, k); w = ask(i, k); } else { m = ask(j, k); w = ask(i, k); l = ask(i, j); }
    EQUAL_COEFS(w, ref::mul(A, l, m), "Chen");
    EQUAL_COEFS(ask(i, k), w, "the whole again");
    EQUAL_COEFS(ask(i, j), l, "the first part again");
    COVER("multiplied");
}
// a generator that gives arbitrary values and notes the distribution asked for
struct Draws { std::vector<double> loc, scale; std::vector<std::vector<double>> out; };
struct Recorded : scalars::RandomGenerator {
    Draws* d;
    Recorded(Draws* p) : RandomGenerator(dtype()), d(p) {}
    void set_seed(Slice<scalars::seed_int_t>) override {}
    void set_state(string_view) override {}
    std::vector<scalars::seed_int_t> get_seed() const override { return {}; }
    std::string get_type() const override { return {}; }
    std::string get_state() const override { return {}; }
    ScalarArray uniform_random_scalar(const ScalarArray&, const ScalarArray&, dimn_t) const override { return ScalarArray(dtype(), 0); }
    ScalarArray normal_random(scalars::Scalar loc, scalars::Scalar scale, dimn_t n) const override {
        d->loc.push_back(scalars::scalar_cast<double>(loc)); d->scale.push_back(scalars::scalar_cast<double>(scale));
        std::vector<double> v; for (dimn_t i = 0; i < n; ++i) v.push_back(vc::num("draw"));
        d->out.push_back(v);
        ScalarArray r(dtype(), n);
        auto s = r.as_mut_slice<double>();
        for (dimn_t i = 0; i < n; ++i) s[i] = v[i];
        return r;
    }
};
static bool near(double a, double b) { return std::fabs(a - b) < 1e-12; }
VC_CONTRACT(brownian_increments, real, bounded, "the increment of a Brownian stream over an interval is drawn with mean zero and the length as variance, and an interval is divided as a Brownian bridge: half of it plus or minus a draw with a quarter of the length as variance")
{
    static const Q roots[] = {{0, 0}, {0, 2}, {3, 2}, {0, -2}, {1, 4}, {-1, 0}, {-3, 2}, {5, 4}};   // lengths with exact square roots
    unsigned q = vc::choose("interval", 8), w = 1 + vc::choose("width", 3), up = vc::choose("doubled", 2);
    Shape s{(int)w, 2};
    auto ctx = ctx_of(s);
    Draws d;
    BrownianStream st(std::unique_ptr<scalars::RandomGenerator>(new Recorded(&d)), metadata_of(s, 2));
    DyadicInterval root(roots[q].k, roots[q].n);
    double h = std::ldexp(1.0, -roots[q].n);
    Lie x = st.log_signature(root, roots[q].n, *ctx);
    ENSURES(d.loc.size() == 1 && d.out[0].size() == w, "one draw of the width of the stream");
    ENSURES(d.loc[0] == 0, "mean zero");
    ENSURES(near(d.scale[0] * d.scale[0], h), "the variance is the length");
    for (unsigned i = 0; i < w; ++i) ENSURES(vc::eq(coef(x, i + 1), d.out[0][i]), "the increment is the draw");
    if (up) {   // the neighbour that makes up the interval above
        DyadicInterval twice(root); twice.expand_interval();
        Lie y = st.log_signature(twice, twice.power(), *ctx);
        ENSURES(d.loc.size() == 2 && d.loc[1] == 0 && near(d.scale[1] * d.scale[1], h), "the neighbour is drawn in the same way");
        for (unsigned i = 0; i < w; ++i) ENSURES(vc::eq(coef(y, i + 1), d.out[0][i] + d.out[1][i]), "increments add");
    } else {
        DyadicInterval l(root), r(root); l.shrink_interval_left(); r.shrink_interval_right();
        Lie a = st.log_signature(l, l.power(), *ctx), b = st.log_signature(r, r.power(), *ctx);
        ENSURES(d.loc.size() == 2 && d.loc[1] == 0, "one draw for the division");
        ENSURES(near(d.scale[1] * d.scale[1], h / 4), "the variance is a quarter of the length");
        for (unsigned i = 0; i < w; ++i) {
            ENSURES(vc::eq(coef(a, i + 1), d.out[0][i] / 2 + d.out[1][i]), "the left half");
            ENSURES(vc::eq(coef(b, i + 1), d.out[0][i] / 2 - d.out[1][i]), "the right half");
        }
    }
    COVER("drawn");
}
