// Contracts on exp, log, fused multiply-exponential and antipode of free tensors (libalgebra_lite/free_tensor.h).
// PROPERTY: C11
// SOURCES: lal intervals platform generics devices device scalars algebra
// SHARDS antipode_is: 2
#include "alg.h"
static const Shape shapes[] = {{2, 2}, {2, 3}, {3, 2}, {1, 4}, {2, 1}, {2, 4}, {3, 3}, {2, 5}};
// kind 0 dense, 1 sparse, 2 dense truncated, 3 sparse with gaps, 4 dense increments only; without scalar part
static Element nilpotent(const char* name, const ref::Alg& A, unsigned kind)
{
    Element e = element(name, A.size(), kind == 4 ? 2 : kind, kind == 4 ? (A.D > 0 ? A.off[2 > A.D ? A.D + 1 : 2] : 1) : A.off[A.D]);
    if (!e.vals.empty() && e.full[0] != 0) { e.full[0] = 0.0; e.vals[0] = 0.0; if (e.keyed) { e.vals.erase(e.vals.begin()); e.keys.erase(e.keys.begin()); } }
    return e;
}
VC_CONTRACT(exp_is_series, real, bounded, "exp of a tensor without scalar part is the truncated exponential series")
{
    unsigned k = vc::choose("storage", 5);
    Shape s = shapes[vc::choose("shape", 7)];
    ref::Alg A(s.W, s.D);
    Element a = nilpotent("a", A, k);
    auto ctx = ctx_of(s);
    FreeTensor x = ctx->construct_free_tensor(a.data());
    EQUAL_COEFS(coefs(x.exp(), A.size()), ref::exp_nounit(A, a.full), "exp");
    EQUAL_COEFS(coefs(x, A.size()), a.full, "the argument is unchanged");
    COVER("exp");
}
VC_CONTRACT(log_is_series, real, bounded, "log of a tensor with scalar part 1 is the truncated logarithm series")
{
    unsigned k = vc::choose("storage", 5);
    Shape s = shapes[vc::choose("shape", 7)];
    ref::Alg A(s.W, s.D);
    Element a = nilpotent("a", A, k);
    auto ctx = ctx_of(s);
    FreeTensor x = ctx->construct_free_tensor(a.data());
    (void)x.add_inplace(ctx->zero_free_tensor(VectorType::Dense).exp());
    a.full[0] = 1.0;
    EQUAL_COEFS(coefs(x.log(), A.size()), ref::log_of(A, a.full), "log");
    EQUAL_COEFS(coefs(x, A.size()), a.full, "the argument is unchanged");
    COVER("log");
}
VC_CONTRACT(log_inverts_exp, real, bounded, "log(exp(x)) = x, exp(log(g)) = g, exp(x)exp(-x) = 1, on the values the code computes")
{
    unsigned k = vc::choose("storage", 5);
    Shape s = shapes[vc::choose("shape", 5)];
    ref::Alg A(s.W, s.D);
    Element a = nilpotent("a", A, k);
    auto ctx = ctx_of(s);
    FreeTensor x = ctx->construct_free_tensor(a.data());
    FreeTensor g = x.exp();
    EQUAL_COEFS(coefs(g.log(), A.size()), a.full, "log(exp(x)) = x");
    EQUAL_COEFS(coefs(g.log().exp(), A.size()), coefs(g, A.size()), "exp(log(g)) = g");
    EQUAL_COEFS(coefs(g.mul(x.uminus().exp()), A.size()), ref::one(A), "exp(x)exp(-x) = 1");
    COVER("round trip");
}
VC_CONTRACT(fmexp_is_product, real, bounded, "x.fmexp(y) is x * exp(y) for every x (with any scalar part) and every y without scalar part, in any storage")
{
    unsigned ka = vc::choose("x storage", 4), kb = vc::choose("y storage", 5), same = vc::choose("y is x", 2);
    Shape s = shapes[vc::choose("shape", 5)];
    ref::Alg A(s.W, s.D);
    auto ctx = ctx_of(s);
    if (same) {
        REQUIRES(ka == 0);
        Element b = nilpotent("b", A, kb);
        FreeTensor y = ctx->construct_free_tensor(b.data());
        (void)y.fmexp(y);
        EQUAL_COEFS(coefs(y, A.size()), ref::mul(A, b.full, ref::exp_nounit(A, b.full)), "y.fmexp(y)");
        return;
    }
    Element a = element("a", A.size(), ka, A.off[s.D]), b = nilpotent("b", A, kb);
    FreeTensor x = ctx->construct_free_tensor(a.data()), y = ctx->construct_free_tensor(b.data());
    (void)x.fmexp(y);
    EQUAL_COEFS(coefs(x, A.size()), ref::mul(A, a.full, ref::exp_nounit(A, b.full)), "x.fmexp(y)");
    EQUAL_COEFS(coefs(y, A.size()), b.full, "the argument is unchanged");
    COVER("fmexp");
}
static const Shape ashapes[] = {{2, 2}, {3, 2}, {2, 3}, {2, 4}, {2, 5}, {3, 4}, {2, 6}, {2, 7}, {1, 5}, {4, 3}, {2, 1}};
VC_CONTRACT(antipode_is, real, bounded, "the antipode reverses words with the sign of their length")
{
    unsigned k = vc::choose("storage", 5);
    Shape s = ashapes[vc::choose("shape", 11)];
    ref::Alg A(s.W, s.D);
    auto ctx = ctx_of(s);
    Element a = element("a", A.size(), k == 4 ? 2 : k, k == 4 ? A.off[s.D > 1 ? s.D - 1 : 1] : A.off[s.D]);
    FreeTensor x = ctx->construct_free_tensor(a.data());
    FreeTensor y = x.antipode();
    EQUAL_COEFS(coefs(y, A.size()), ref::antipode(A, a.full), "antipode");
    EQUAL_COEFS(coefs(x, A.size()), a.full, "the argument is unchanged");
    EQUAL_COEFS(coefs(y.antipode(), A.size()), a.full, "the antipode is an involution");
    COVER("antipode");
}
VC_CONTRACT(antipode_laws, real, bounded, "the antipode is an anti-homomorphism, and of an exponential is its inverse")
{
    unsigned ka = vc::choose("storage", 2), kb = vc::choose("storage of the other", 2);
    Shape s = shapes[vc::choose("shape", 3)];
    ref::Alg A(s.W, s.D);
    auto ctx = ctx_of(s);
    Element a = element("a", A.size(), ka, A.off[s.D]), b = element("b", A.size(), kb, A.off[s.D]);
    FreeTensor x = ctx->construct_free_tensor(a.data()), y = ctx->construct_free_tensor(b.data());
    EQUAL_COEFS(coefs(x.mul(y).antipode(), A.size()), coefs(y.antipode().mul(x.antipode()), A.size()), "S(xy) = S(y)S(x)");
    Element inc; inc.vt = ka ? VectorType::Sparse : VectorType::Dense; inc.keyed = true; inc.full.assign(A.size(), 0.0);
    for (int i = 0; i < s.W; ++i) { inc.vals.push_back(vc::num("v")); inc.keys.push_back(i + 1); inc.full[i + 1] = inc.vals.back(); }
    FreeTensor g = ctx->construct_free_tensor(inc.data()).exp();
    EQUAL_COEFS(coefs(g, A.size()), ref::exp_nounit(A, inc.full), "exp of an increment");
    EQUAL_COEFS(coefs(g.mul(g.antipode()), A.size()), ref::one(A), "g S(g) = 1");
    EQUAL_COEFS(coefs(g.antipode().mul(g), A.size()), ref::one(A), "S(g) g = 1");
    COVER("laws");
}
