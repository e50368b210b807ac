// Contracts on contexts: construction of elements from data, conversion between contexts, and independence of
// results from what was computed before (algebra/src/{context.cpp,lite_context.*}, libalgebra_lite caches and registries).
// PROPERTY: C12
// SOURCES: lal intervals platform generics devices device scalars algebra
// SHARDS history: 2
#include "alg.h"
#include "hall.h"
static void check_products(Shape s, unsigned k, const char* tag)
{
    ref::Alg A(s.W, s.D); ref::Hall H(s.W, s.D);
    auto ctx = ctx_of(s);
    Element a = element("a", A.size(), k, A.off[s.D]), b = element("b", A.size(), k, A.off[s.D]);
    Element la = element("la", H.size(), k, H.size()), lb = element("lb", H.size(), k, H.size());
    FreeTensor x = ctx->construct_free_tensor(a.data()), y = ctx->construct_free_tensor(b.data());
    ShuffleTensor sx = ctx->construct_shuffle_tensor(a.data()), sy = ctx->construct_shuffle_tensor(b.data());
    Lie lx = ctx->construct_lie(la.data()), ly = ctx->construct_lie(lb.data());
    EQUAL_COEFS(coefs(x.mul(y), A.size()), ref::mul(A, a.full, b.full), "free product after other contexts were used");
    EQUAL_COEFS(coefs(sx.mul(sy), A.size()), ref::shuffle(A, a.full, b.full), "shuffle product after other contexts were used");
    ShuffleTensor hs(ctx->half_shuffle_multiply(&*sx, &*sy));
    EQUAL_COEFS(coefs(hs, A.size()), ref::half_shuffle(A, a.full, b.full), "half shuffle after other contexts were used");
    ref::Vec ea = H.expand(A, la.full), eb = H.expand(A, lb.full);
    Lie lz = lx.mul(ly);
    ref::Vec z = coefs(lz, H.size(), 1);
    EQUAL_COEFS(H.expand(A, z), ref::add(ref::mul(A, ea, eb), ref::mul(A, eb, ea), -1), "bracket after other contexts were used");
    size_t nz = 0; for (double v : z) if (v != 0) ++nz;
    ENSURES(lz.size() == nz, "the bracket has no terms beyond the depth");
    EQUAL_COEFS(coefs(ctx->lie_to_tensor(lx), A.size()), ea, "lie_to_tensor after other contexts were used");
    EQUAL_COEFS(coefs(ctx->tensor_to_lie(ctx->lie_to_tensor(lx)), H.size(), 1), la.full, "tensor_to_lie after other contexts were used");
    ENSURES(ctx->width() == s.W && ctx->depth() == s.D, "the context has the width and depth asked for");
    ENSURES(ctx.get() == ctx_of(s).get(), "one context per width, depth and type");
}
VC_CONTRACT(history, real, bounded, "products, brackets and maps in a context do not depend on which contexts of other widths and depths were used before, in any order")
{
    unsigned k = vc::choose("storage", 2), n = vc::choose("history", 12);
    static const Shape h[][3] = {{{2, 4}, {2, 2}, {2, 3}}, {{2, 2}, {2, 4}, {2, 3}}, {{2, 3}, {2, 4}, {2, 2}}, {{2, 2}, {2, 3}, {2, 4}}, {{2, 4}, {2, 3}, {2, 2}}, {{2, 3}, {2, 2}, {2, 4}},
        {{3, 3}, {2, 3}, {3, 2}}, {{2, 3}, {3, 3}, {2, 2}}, {{3, 2}, {3, 3}, {2, 3}}, {{3, 2}, {2, 2}, {3, 3}}, {{2, 2}, {3, 2}, {2, 3}}, {{2, 4}, {3, 2}, {2, 2}}};
    for (int i = 0; i < 3; ++i) check_products(h[n][i], k, "");
    check_products(h[n][0], k, "again");
    COVER("history");
}
VC_CONTRACT(construction, real, bounded, "constructing an element from data puts every value at the key it comes with; missing ones are zero; dense data fills the leading coefficients")
{
    unsigned k = vc::choose("storage", 6), type = vc::choose("type", 3);
    static const Shape shapes[] = {{2, 2}, {3, 2}, {2, 3}, {1, 3}, {2, 1}};
    Shape s = shapes[vc::choose("shape", 5)];
    ref::Alg A(s.W, s.D); ref::Hall H(s.W, s.D);
    auto ctx = ctx_of(s);
    size_t n = type == 2 ? H.size() : A.size();
    Element a = element("a", n, k, n > 1 ? n / 2 : n);
    size_t nz = 0; for (double v : a.full) if (v != 0) ++nz;
    if (type == 0) { FreeTensor x = ctx->construct_free_tensor(a.data()); EQUAL_COEFS(coefs(x, n), a.full, "coefficients"); ENSURES(x.storage_type() == a.vt, "storage type"); ENSURES(x.size() == nz, "size counts the non-zero terms"); ENSURES(x.dimension() <= n && x.dimension() >= nz, "dimension"); ENSURES(x.is_zero() == (nz == 0), "is_zero"); }
    if (type == 1) { ShuffleTensor x = ctx->construct_shuffle_tensor(a.data()); EQUAL_COEFS(coefs(x, n), a.full, "coefficients"); ENSURES(x.storage_type() == a.vt, "storage type"); ENSURES(x.size() == nz, "size counts the non-zero terms"); ENSURES(x.dimension() <= n && x.dimension() >= nz, "dimension"); ENSURES(x.is_zero() == (nz == 0), "is_zero"); }
    if (type == 2) { Lie x = ctx->construct_lie(a.data()); EQUAL_COEFS(coefs(x, n, 1), a.full, "coefficients"); ENSURES(x.storage_type() == a.vt, "storage type"); ENSURES(x.size() == nz, "size counts the non-zero terms"); ENSURES(x.dimension() <= n && x.dimension() >= nz, "dimension"); ENSURES(x.is_zero() == (nz == 0), "is_zero"); }
    COVER("constructed");
}
template <class T> void iterate(const T& x, size_t n, const ref::Vec& full, size_t first_key)
{
    ref::Vec seen(n, 0.0);
    size_t count = 0;
    for (auto&& it : x) {
        key_type key = it->key();
        ENSURES(key >= first_key && key - first_key < n, "iteration stays within the basis");
        seen[key - first_key] += scalars::scalar_cast<double>(it->value());
        ++count;
    }
    EQUAL_COEFS(seen, full, "iteration yields every term once");
    size_t nz = 0; for (double v : full) if (v != 0) ++nz;
    ENSURES(count >= nz && count <= n, "iteration yields no term twice");
}
VC_CONTRACT(iteration, real, bounded, "iterating an element visits every non-zero term once with its key and value")
{
    unsigned k = vc::choose("storage", 6), type = vc::choose("type", 3);
    static const Shape shapes[] = {{2, 2}, {3, 2}, {2, 3}, {1, 3}, {2, 1}};
    Shape s = shapes[vc::choose("shape", 5)];
    ref::Alg A(s.W, s.D); ref::Hall H(s.W, s.D);
    auto ctx = ctx_of(s);
    size_t n = type == 2 ? H.size() : A.size();
    Element a = element("a", n, k, n > 1 ? n / 2 : n);
    if (type == 0) iterate(ctx->construct_free_tensor(a.data()), n, a.full, 0);
    if (type == 1) iterate(ctx->construct_shuffle_tensor(a.data()), n, a.full, 0);
    if (type == 2) iterate(ctx->construct_lie(a.data()), n, a.full, 1);
    COVER("iterated");
}
VC_CONTRACT(element_access, real, bounded, "writing a coefficient through operator[] changes that coefficient and no other, for every key of the basis, stored or not")
{
    unsigned k = vc::choose("storage", 6), type = vc::choose("type", 3);
    static const Shape shapes[] = {{2, 2}, {3, 2}, {2, 3}};
    Shape s = shapes[vc::choose("shape", 3)];
    ref::Alg A(s.W, s.D); ref::Hall H(s.W, s.D);
    auto ctx = ctx_of(s);
    size_t n = type == 2 ? H.size() : A.size();
    Element a = element("a", n, k, n > 1 ? n / 2 : n);
    size_t i = vc::choose("key", n);
    double v = vc::num("v");
    unsigned op = vc::choose("operation", 4);
    REQUIRES(v != 0);
    ref::Vec want = a.full;
    auto doit = [&](scalars::Scalar&& r) { switch (op) { case 0: r = scalars::Scalar(v); want[i] = v; break; case 1: r += scalars::Scalar(v); want[i] += v; break; case 2: r -= scalars::Scalar(v); want[i] -= v; break; case 3: r *= scalars::Scalar(v); want[i] *= v; break; } };
    if (type == 0) { FreeTensor x = ctx->construct_free_tensor(a.data()); doit(x[(key_type)i]); EQUAL_COEFS(coefs(x, n), want, "coefficients"); EQUAL_COEFS(coefs(x.add(x), n), ref::scale(want, 2), "x+x"); }
    if (type == 1) { ShuffleTensor x = ctx->construct_shuffle_tensor(a.data()); doit(x[(key_type)i]); EQUAL_COEFS(coefs(x, n), want, "coefficients"); EQUAL_COEFS(coefs(x.add(x), n), ref::scale(want, 2), "x+x"); }
    if (type == 2) { Lie x = ctx->construct_lie(a.data()); doit(x[(key_type)(i + 1)]); EQUAL_COEFS(coefs(x, n, 1), want, "coefficients"); EQUAL_COEFS(coefs(x.add(x), n, 1), ref::scale(want, 2), "x+x"); }
    COVER("written");
}
static ref::Vec cut(const ref::Vec& v, size_t n) { ref::Vec r(n, 0.0); for (size_t i = 0; i < n && i < v.size(); ++i) r[i] = v[i]; return r; }
VC_CONTRACT(conversion, real, bounded, "converting an element to another storage or to a context of another depth keeps every coefficient of a degree both have")
{
    unsigned k = vc::choose("storage", 6), type = vc::choose("type", 3), to = vc::choose("target storage", 3);
    static const int ds[] = {1, 2, 3};
    int W = vc::choose("width", 2) + 2, d1 = ds[vc::choose("from depth", 3)], d2 = ds[vc::choose("to depth", 3)];
    Shape s{W, d1}, t{W, d2};
    ref::Alg A(W, d1), B(W, d2); ref::Hall H(W, d1), K(W, d2);
    auto c1 = ctx_of(s), c2 = ctx_of(t);
    size_t n = type == 2 ? H.size() : A.size(), m = type == 2 ? K.size() : B.size();
    Element a = element("a", n, k, n > 1 ? n / 2 : n);
    optional<VectorType> vt; if (to == 1) vt = VectorType::Dense; if (to == 2) vt = VectorType::Sparse;
    ref::Vec want = cut(a.full, m);
    if (type == 0) { FreeTensor x = c1->construct_free_tensor(a.data()), y = c2->convert(x, vt); EQUAL_COEFS(coefs(y, m), want, "coefficients"); ENSURES(y.storage_type() == (vt ? *vt : a.vt), "storage type"); ENSURES(y.context().get() == c2.get(), "context"); EQUAL_COEFS(coefs(x, n), a.full, "the argument is unchanged"); }
    if (type == 1) { ShuffleTensor x = c1->construct_shuffle_tensor(a.data()), y = c2->convert(x, vt); EQUAL_COEFS(coefs(y, m), want, "coefficients"); ENSURES(y.storage_type() == (vt ? *vt : a.vt), "storage type"); ENSURES(y.context().get() == c2.get(), "context"); EQUAL_COEFS(coefs(x, n), a.full, "the argument is unchanged"); }
    if (type == 2) { Lie x = c1->construct_lie(a.data()), y = c2->convert(x, vt); EQUAL_COEFS(coefs(y, m, 1), want, "coefficients"); ENSURES(y.storage_type() == (vt ? *vt : a.vt), "storage type"); ENSURES(y.context().get() == c2.get(), "context"); EQUAL_COEFS(coefs(x, n, 1), a.full, "the argument is unchanged"); }
    COVER("converted");
}
