// Contracts on the free tensor product (libalgebra_lite/free_tensor.h, algebra.h through the algebra API).
// PROPERTY: C10
// SOURCES: lal intervals platform generics devices device scalars algebra
// SHARDS ft_product: 4
// SHARDS ft_fused: 8
// SHARDS ft_free_multiply: 2
#include "alg.h"
static const Shape shapes[] = {{2, 2}, {2, 3}, {3, 2}, {2, 4}, {4, 2}, {3, 3}, {1, 3}, {2, 1}, {2, 5}};

VC_CONTRACT(ft_product, real, bounded, "the product of two free tensors is the truncated concatenation product, for every storage combination and every coefficient")
{
    unsigned ka = vc::choose("left storage", 6), kb = vc::choose("right storage", 6);
    Shape s = shapes[vc::choose("shape", 9)];
    ref::Alg A(s.W, s.D);
    auto ctx = ctx_of(s);
    Element a = element("a", A.size(), ka, A.off[s.D]), b = element("b", A.size(), kb, A.off[2 < s.D ? 2 : s.D]);
    FreeTensor x = ctx->construct_free_tensor(a.data()), y = ctx->construct_free_tensor(b.data());
    FreeTensor z = x.mul(y);
    EQUAL_COEFS(coefs(z, A.size()), ref::mul(A, a.full, b.full), "product is concatenation");
    EQUAL_COEFS(coefs(x, A.size()), a.full, "the left operand is unchanged");
    EQUAL_COEFS(coefs(y, A.size()), b.full, "the right operand is unchanged");
    COVER("multiplied");
}
static const char* const opn[] = {"x*=y", "x*=x", "x+=y*z", "x-=y*z", "x*=(y*s)", "x*=(y/s)", "x+=x*y", "x-=y*x", "x*x"};
VC_CONTRACT(ft_fused, real, bounded, "the in-place and fused products of free tensors (x*=y, x+=y*z, x-=y*z, x*=y*s, x*=y/s), also of an element with itself, equal the expressions they abbreviate")
{
    unsigned op = vc::choose("operation", 9);
    bool two = op == 2 || op == 3, one = op == 1 || op == 8;
    unsigned ka = vc::choose("x storage", 4), kb = one ? 0 : vc::choose("y storage", 4), kc = two ? vc::choose("z storage", 4) : 0;
    Shape s = shapes[vc::choose("shape", 4)];
    ref::Alg A(s.W, s.D);
    auto ctx = ctx_of(s);
    Element a = element("a", A.size(), ka, A.off[s.D]), b = element("b", A.size(), kb, A.off[2 < s.D ? 2 : s.D]), c;
    if (two) c = element("c", A.size(), kc, A.off[s.D]);
    double sv = vc::num("s");
    REQUIRES(sv != 0);
    scalars::Scalar sc(sv);
    FreeTensor x = ctx->construct_free_tensor(a.data()), y = ctx->construct_free_tensor(b.data()), z;
    if (two) z = ctx->construct_free_tensor(c.data());
    ref::Vec want, got;
    switch (op) {
    case 0: (void)x.mul_inplace(y); want = ref::mul(A, a.full, b.full); break;
    case 1: (void)x.mul_inplace(x); want = ref::mul(A, a.full, a.full); break;
    case 2: (void)x.add_mul(y, z); want = ref::add(a.full, ref::mul(A, b.full, c.full)); break;
    case 3: (void)x.sub_mul(y, z); want = ref::add(a.full, ref::mul(A, b.full, c.full), -1); break;
    case 4: (void)x.mul_smul(y, sc); want = ref::mul(A, a.full, ref::scale(b.full, sv)); break;
    case 5: (void)x.mul_sdiv(y, sc); want = ref::mul(A, a.full, ref::div(b.full, sv)); break;
    case 6: (void)x.add_mul(x, y); want = ref::add(a.full, ref::mul(A, a.full, b.full)); break;
    case 7: (void)x.sub_mul(y, x); want = ref::add(a.full, ref::mul(A, b.full, a.full), -1); break;
    case 8: { FreeTensor w = x.mul(x); got = coefs(w, A.size()); want = ref::mul(A, a.full, a.full); EQUAL_COEFS(got, want, "x*x"); want = a.full; break; }
    }
    EQUAL_COEFS(coefs(x, A.size()), want, opn[op]);
    EQUAL_COEFS(coefs(y, A.size()), b.full, "the right operand is unchanged");
    if (two) EQUAL_COEFS(coefs(z, A.size()), c.full, "the second operand is unchanged");
    COVER("multiplied");
}
VC_CONTRACT(ft_free_multiply, real, bounded, "free_multiply of any free or shuffle tensors in any storage is the concatenation product")
{
    unsigned ka = vc::choose("left storage", 6), kb = vc::choose("right storage", 6), ta = vc::choose("left type", 2), tb = vc::choose("right type", 2);
    Shape s = shapes[vc::choose("shape", 3)];
    ref::Alg A(s.W, s.D);
    auto ctx = ctx_of(s);
    Element a = element("a", A.size(), ka, A.off[s.D]), b = element("b", A.size(), kb, A.off[2 < s.D ? 2 : s.D]);
    FreeTensor fx = ctx->construct_free_tensor(a.data()), fy = ctx->construct_free_tensor(b.data());
    ShuffleTensor sx = ctx->construct_shuffle_tensor(a.data()), sy = ctx->construct_shuffle_tensor(b.data());
    ConstRawUnspecifiedAlgebraType l = ta ? (ConstRawUnspecifiedAlgebraType)&*sx : (ConstRawUnspecifiedAlgebraType)&*fx, r = tb ? (ConstRawUnspecifiedAlgebraType)&*sy : (ConstRawUnspecifiedAlgebraType)&*fy;
    auto res = ctx->free_multiply(l, r);
    ref::Vec want = ref::mul(A, a.full, b.full);
    if (ta) { ShuffleTensor z(std::move(res)); EQUAL_COEFS(coefs(z, A.size()), want, "product is concatenation"); }
    else { FreeTensor z(std::move(res)); EQUAL_COEFS(coefs(z, A.size()), want, "product is concatenation"); }
    COVER("multiplied");
}
VC_CONTRACT(ft_laws, real, bounded, "the unit is neutral, multiplication distributes over addition and is associative, and degree bounds hold, on the values the code computes")
{
    unsigned ka = vc::choose("storage", 2), kb = vc::choose("storage of the others", 2);
    Shape s = shapes[vc::choose("shape", 3)];
    ref::Alg A(s.W, s.D);
    auto ctx = ctx_of(s);
    Element a = element("a", A.size(), ka, A.off[s.D]), b = element("b", A.size(), kb, A.off[s.D]), c = element("c", A.size(), kb, A.off[s.D]);
    FreeTensor x = ctx->construct_free_tensor(a.data()), y = ctx->construct_free_tensor(b.data()), z = ctx->construct_free_tensor(c.data());
    Element u; u.full.assign(A.size(), 0.0); u.vt = kb ? VectorType::Sparse : VectorType::Dense; u.vals = {1.0}; u.keys = {0}; u.keyed = kb;
    FreeTensor one = ctx->construct_free_tensor(u.data());
    EQUAL_COEFS(coefs(x.mul(one), A.size()), a.full, "x*1 = x");
    EQUAL_COEFS(coefs(one.mul(x), A.size()), a.full, "1*x = x");
    EQUAL_COEFS(coefs(x.mul(y).mul(z), A.size()), coefs(x.mul(y.mul(z)), A.size()), "(xy)z = x(yz)");
    EQUAL_COEFS(coefs(x.mul(y.add(z)), A.size()), coefs(x.mul(y).add(x.mul(z)), A.size()), "x(y+z) = xy+xz");
    EQUAL_COEFS(coefs(x.add(y).mul(z), A.size()), coefs(x.mul(z).add(y.mul(z)), A.size()), "(x+y)z = xz+yz");
    COVER("multiplied");
}
