// Contracts on signatures, log signatures and their derivatives (algebra/src/lite_context.h compute_signature,
// sig_derivative_impl, derive_series_compute, scalars/src/{scalar_stream,key_scalar_stream}.cpp, fmexp_inplace of
// libalgebra_lite/free_tensor.h) through the algebra API.
// PROPERTY: C15
// SOURCES: lal intervals platform generics devices device scalars algebra
#include "alg.h"
#include "hall.h"
#include <roughpy/scalars/key_scalar_stream.h>
static const Shape shapes[] = {{2, 2}, {2, 3}, {3, 2}, {1, 3}, {2, 1}, {3, 3}, {2, 4}};
using scalars::KeyScalarStream;

// a row of a stream of increments: 0 all letters, 1 only the first, 2 keyed: every second basis element, in
// reverse order, 3 a whole Lie element
struct Row { std::vector<double> vals; std::vector<key_type> keys; ref::Vec full; };
static Row row(const ref::Hall& H, unsigned kind) {
    Row r; r.full.assign(H.size(), 0.0);
    size_t n = kind == 0 ? H.W : kind == 1 ? 1 : H.size();
    for (size_t j = 0; j < n; ++j) {
        size_t i = kind == 2 ? n - 1 - j : j;
        if (kind == 2 && i % 2) continue;
        double x = vc::num("increment");
        r.full[i] = x; r.vals.push_back(x);
        if (kind == 2) r.keys.push_back((key_type)i);
    }
    return r;
}
static void push(KeyScalarStream& s, const Row& r) {
    ScalarArray a(dtype(), (const void*)r.vals.data(), r.vals.size());
    if (r.keys.empty()) s.push_back(a); else s.push_back(a, r.keys.data());
}
VC_CONTRACT(signature_of_rows, real, bounded, "the signature of a stream of increments is the product, in order, of the exponentials of its rows read as Lie elements; the log signature is its logarithm")
{
    unsigned n = vc::choose("rows", 4), ka = n ? vc::choose("first row", 4) : 0, kb = n > 1 ? vc::choose("other rows", n == 2 ? 4 : 2) : 0, vt = vc::choose("storage", 2);
    Shape s = shapes[vc::choose("shape", n < 2 ? 7 : 5)];
    ref::Alg A(s.W, s.D); ref::Hall H(s.W, s.D);
    auto ctx = ctx_of(s);
    VectorType v = vt ? VectorType::Sparse : VectorType::Dense;
    std::vector<Row> rows;
    KeyScalarStream stream(dtype());
    stream.reserve_size(n);
    ref::Vec want = ref::one(A);
    for (unsigned i = 0; i < n; ++i) rows.push_back(row(H, i ? kb : ka));
    for (auto& r : rows) {
        push(stream, r);
        want = ref::mul(A, want, ref::exp_nounit(A, H.expand(A, r.full)));
    }
    ENSURES(stream.row_count() == n, "rows of the stream");
    SignatureData sd{stream, v};
    FreeTensor g = ctx->signature(sd);
    EQUAL_COEFS(coefs(g, A.size()), want, "product of exponentials");
    ENSURES(g.storage_type() == v, "the storage asked for");
    Lie l = ctx->log_signature(sd);
    EQUAL_COEFS(coefs(ctx->lie_to_tensor(l), A.size()), ref::log_of(A, want), "logarithm of the signature");
    ENSURES(l.storage_type() == v, "the storage asked for");
    COVER("computed");
}
VC_CONTRACT(signature_step, real, bounded, "induction step over the rows: the signature of a stream with one more row is the signature of the stream times the exponential of the row, and concatenated streams multiply (Chen)")
{
    unsigned n = 1 + vc::choose("rows", 3), cut = vc::choose("cut", 4), vt = vc::choose("storage", 2), k = vc::choose("row", 3);
    REQUIRES(cut <= n);
    Shape s = shapes[vc::choose("shape", 4)];
    ref::Alg A(s.W, s.D); ref::Hall H(s.W, s.D);
    auto ctx = ctx_of(s);
    VectorType v = vt ? VectorType::Sparse : VectorType::Dense;
    std::vector<Row> rows;
    for (unsigned i = 0; i < n; ++i) rows.push_back(row(H, i ? 0 : k));
    KeyScalarStream all(dtype()), first(dtype()), second(dtype());
    for (unsigned i = 0; i < n; ++i) { push(all, rows[i]); push(i < cut ? first : second, rows[i]); }
    FreeTensor a = ctx->signature({all, v}), b = ctx->signature({first, v}), c = ctx->signature({second, v});
    EQUAL_COEFS(coefs(b.mul(c), A.size()), coefs(a, A.size()), "Chen");
    COVER("split");
}
VC_CONTRACT(signature_of_matrix, real, bounded, "a stream made from a two dimensional array has its rows as increments")
{
    unsigned rows = vc::choose("rows", 4), vt = vc::choose("storage", 2);
    Shape s = shapes[vc::choose("shape", 4)];
    ref::Alg A(s.W, s.D); ref::Hall H(s.W, s.D);
    auto ctx = ctx_of(s);
    std::vector<double> m;
    for (unsigned i = 0; i < rows * (unsigned)s.W; ++i) m.push_back(vc::num("increment"));
    REQUIRES(rows > 0);
    scalars::ScalarStream base(ScalarArray(dtype(), (void*)m.data(), m.size()), {rows, (dimn_t)s.W});
    ENSURES(base.row_count() == rows, "rows");
    ENSURES(base.max_row_size() == (dimn_t)s.W, "columns");
    ref::Vec want = ref::one(A);
    KeyScalarStream stream(dtype());
    for (unsigned i = 0; i < rows; ++i) {
        ENSURES(base.col_count(i) == (dimn_t)s.W, "columns");
        ref::Vec inc(H.size(), 0.0);
        for (int j = 0; j < s.W; ++j) {
            inc[j] = m[i * s.W + j];
            ENSURES(vc::eq(scalars::scalar_cast<double>(base[{i, (dimn_t)j}]), inc[j]), "entries");
        }
        want = ref::mul(A, want, ref::exp_nounit(A, H.expand(A, inc)));
        stream.push_back(base[i]);
    }
    EQUAL_COEFS(coefs(ctx->signature({stream, vt ? VectorType::Sparse : VectorType::Dense}), A.size()), want, "signature");
    COVER("matrix");
}
// sum over n of 1/n! times the sum of l^i p l^(n-1-i): the derivative of exp at l in the direction p
static ref::Vec dexp(const ref::Alg& A, const ref::Vec& l, const ref::Vec& p) {
    ref::Vec r = ref::zero(A);
    std::vector<ref::Vec> pw(1, ref::one(A));
    for (int i = 1; i <= A.D; ++i) pw.push_back(ref::mul(A, pw.back(), l));
    double f = 1;
    for (int n = 1; n <= A.D; ++n) {
        f *= n;
        ref::Vec t = ref::zero(A);
        for (int i = 0; i < n; ++i) t = ref::add(t, ref::mul(A, ref::mul(A, pw[i], p), pw[n - 1 - i]));
        r = ref::add(r, ref::div(t, f));
    }
    return r;
}
VC_CONTRACT(derivative_of_exponential, real, bounded, "sig_derivative over one interval is the derivative of the exponential at the log signature in the direction of the perturbation, whatever the storages")
{
    unsigned kl = vc::choose("log signature storage", 5), kp = vc::choose("perturbation storage", 4), vt = vc::choose("storage", 2);
    Shape s = shapes[vc::choose("shape", 5)];
    ref::Alg A(s.W, s.D); ref::Hall H(s.W, s.D);
    auto ctx = ctx_of(s);
    size_t cut = H.D > 1 ? H.start(H.D) : H.size();
    Element l = element("log signature", H.size(), kl < 4 ? kl : 0, cut), p = element("perturbation", H.size(), kp, cut);
    Lie x = ctx->construct_lie(l.data()), y = ctx->construct_lie(p.data());
    if (kl == 4) { x = Lie(); ENSURES(!x, "an element without data"); l.full.assign(H.size(), 0.0); }   // an empty log signature: the interval carries no data
    FreeTensor d = ctx->sig_derivative({{x, y}}, vt ? VectorType::Sparse : VectorType::Dense);
    EQUAL_COEFS(coefs(d, A.size()), dexp(A, H.expand(A, l.full), H.expand(A, p.full)), "derivative");
    if (kl != 4) EQUAL_COEFS(coefs(x, H.size(), 1), l.full, "the log signature is unchanged");
    EQUAL_COEFS(coefs(y, H.size(), 1), p.full, "the perturbation is unchanged");
    COVER("derived");
}
VC_CONTRACT(derivative_of_nothing, real, bounded, "the derivative over no interval, or in the direction zero, is zero")
{
    unsigned n = vc::choose("intervals", 3), vt = vc::choose("storage", 2), kp = vc::choose("perturbation", 2);
    Shape s = shapes[vc::choose("shape", 5)];
    ref::Alg A(s.W, s.D); ref::Hall H(s.W, s.D);
    auto ctx = ctx_of(s);
    std::vector<DerivativeComputeInfo> info;
    std::vector<Element> es;
    for (unsigned i = 0; i < n; ++i) es.push_back(element("log signature", H.size(), i, H.size()));
    for (auto& e : es) info.push_back({ctx->construct_lie(e.data()), kp ? Lie() : ctx->zero_lie(VectorType::Dense)});
    EQUAL_COEFS(coefs(ctx->sig_derivative(info, vt ? VectorType::Sparse : VectorType::Dense), A.size()), ref::zero(A), "zero");
    COVER("zero");
}
VC_CONTRACT(derivative_first_perturbed, real, bounded, "over several intervals, of which only the first is perturbed, the derivative is that of the first interval times the signatures of the others")
{
    unsigned n = 2 + vc::choose("intervals", 2), vt = vc::choose("storage", 2), k = vc::choose("storages of the elements", 2);
    Shape s = shapes[vc::choose("shape", 5)];
    ref::Alg A(s.W, s.D); ref::Hall H(s.W, s.D);
    auto ctx = ctx_of(s);
    std::vector<DerivativeComputeInfo> info;
    std::vector<Element> es;
    for (unsigned i = 0; i <= n; ++i) {
        es.push_back(element("element", H.size(), k, H.size()));
        if (i > 1) for (size_t j = s.W; j < H.size(); ++j) es[i].vals[j] = es[i].full[j] = 0.0;
    }
    ref::Vec want = dexp(A, H.expand(A, es[0].full), H.expand(A, es[1].full));
    info.push_back({ctx->construct_lie(es[0].data()), ctx->construct_lie(es[1].data())});
    for (unsigned i = 2; i <= n; ++i) {
        info.push_back({ctx->construct_lie(es[i].data()), ctx->zero_lie(VectorType::Dense)});
        want = ref::mul(A, want, ref::exp_nounit(A, H.expand(A, es[i].full)));
    }
    EQUAL_COEFS(coefs(ctx->sig_derivative(info, vt ? VectorType::Sparse : VectorType::Dense), A.size()), want, "derivative");
    COVER("derived");
}
VC_CONTRACT(derivative_linear, real, bounded, "the derivative over any number of intervals is linear in the perturbations")
{
    unsigned n = 1 + vc::choose("intervals", 3), vt = vc::choose("storage", 2);
    Shape s = shapes[vc::choose("shape", 4)];
    ref::Alg A(s.W, s.D); ref::Hall H(s.W, s.D);
    auto ctx = ctx_of(s);
    double c = vc::num("c");
    scalars::Scalar sc(c);
    REQUIRES(c != 0);
    std::vector<DerivativeComputeInfo> x, y, z;
    std::vector<Element> es;
    for (unsigned i = 0; i < 3 * n; ++i) es.push_back(element("element", i % 3 ? H.size() : H.size(), i % 3 == 2, H.size()));
    for (unsigned i = 0; i < n; ++i) {
        Lie l = ctx->construct_lie(es[3 * i].data()), p = ctx->construct_lie(es[3 * i + 1].data()), q = ctx->construct_lie(es[3 * i + 2].data());
        x.push_back({l, p}); y.push_back({l, q}); z.push_back({l, p.add(q.smul(sc))});
    }
    VectorType v = vt ? VectorType::Sparse : VectorType::Dense;
    ref::Vec a = coefs(ctx->sig_derivative(x, v), A.size()), b = coefs(ctx->sig_derivative(y, v), A.size());
    EQUAL_COEFS(coefs(ctx->sig_derivative(z, v), A.size()), ref::add(a, b, c), "linear");
    COVER("linear");
}
// the second of two intervals perturbed: the code leaves out the signature of the first interval (known finding)
VC_CONTRACT(derivative_second_perturbed, real, bounded, "two intervals with log signatures e1 and e2, of which the second is perturbed by e2: the derivative is exp(e1) exp(e2) e2")
{
    unsigned vt = vc::choose("storage", 2);
    Shape s{2, 2};
    ref::Alg A(s.W, s.D); ref::Hall H(s.W, s.D);
    auto ctx = ctx_of(s);
    ref::Vec e1(H.size(), 0.0), e2(H.size(), 0.0); e1[0] = 1.0; e2[1] = 1.0;
    Element a, b; a.full = a.vals = e1; b.full = b.vals = e2;
    Lie x = ctx->construct_lie(a.data()), y = ctx->construct_lie(b.data());
    ref::Vec want = ref::mul(A, ref::exp_nounit(A, H.expand(A, e1)), dexp(A, H.expand(A, e2), H.expand(A, e2)));
    EQUAL_COEFS(coefs(ctx->sig_derivative({{x, ctx->zero_lie(VectorType::Dense)}, {y, y}}, vt ? VectorType::Sparse : VectorType::Dense), A.size()), want, "derivative");
    COVER("derived");
}
