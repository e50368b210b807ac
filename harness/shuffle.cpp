// Contracts on the shuffle product, the half shuffle and the adjoint of left multiplication
// (libalgebra_lite/{shuffle_tensor,free_tensor,algebra}.h, algebra/half_shuffle*.cpp through the algebra API).
// PROPERTY: C13
// SOURCES: lal intervals platform generics devices device scalars algebra
// SHARDS shuffle_fused: 4
#include "alg.h"
static const Shape shapes[] = {{2, 2}, {2, 3}, {3, 2}, {2, 4}, {1, 4}, {3, 3}, {2, 1}};
struct Operands {
    ref::Alg A; context_pointer ctx; Element a, b; FreeTensor fx, fy; ShuffleTensor sx, sy; unsigned ta, tb;
    ConstRawUnspecifiedAlgebraType l, r;
    Operands(Shape s, unsigned ka, unsigned kb, bool types) : A(s.W, s.D), ctx(ctx_of(s)) {
        ta = types ? vc::choose("left type", 2) : 1; tb = types ? vc::choose("right type", 2) : 1;
        a = element("a", A.size(), ka, A.off[s.D]); b = element("b", A.size(), kb, A.off[2 < s.D ? 2 : s.D]);
        if (ta) { sx = ctx->construct_shuffle_tensor(a.data()); l = &*sx; } else { fx = ctx->construct_free_tensor(a.data()); l = &*fx; }
        if (tb) { sy = ctx->construct_shuffle_tensor(b.data()); r = &*sy; } else { fy = ctx->construct_free_tensor(b.data()); r = &*fy; }
    }
    void check(UnspecifiedAlgebraType&& res, bool shuf, const ref::Vec& want, const char* msg) {
        const ref::Vec zero(A.size(), 0.0);
        if (shuf) {
            ShuffleTensor z(std::move(res));
            EQUAL_COEFS(coefs(z, A.size()), want, msg);
            EQUAL_COEFS(coefs(z.add(z), A.size()), ref::scale(want, 2), "the result can be computed with: z+z");
            Element u; u.vt = z.storage_type(); u.vals = {1.0}; u.keys = {0}; u.keyed = true;
            EQUAL_COEFS(coefs(z.mul(ctx->construct_shuffle_tensor(u.data())), A.size()), want, "the result can be computed with: z*1");
        } else {
            FreeTensor z(std::move(res));
            EQUAL_COEFS(coefs(z, A.size()), want, msg);
            EQUAL_COEFS(coefs(z.add(z), A.size()), ref::scale(want, 2), "the result can be computed with: z+z");
            Element u; u.vt = z.storage_type(); u.vals = {1.0}; u.keys = {0}; u.keyed = true;
            EQUAL_COEFS(coefs(z.mul(ctx->construct_free_tensor(u.data())), A.size()), want, "the result can be computed with: z*1");
        }
        if (ta) EQUAL_COEFS(coefs(sx, A.size()), a.full, "the left operand is unchanged"); else EQUAL_COEFS(coefs(fx, A.size()), a.full, "the left operand is unchanged");
        if (tb) EQUAL_COEFS(coefs(sy, A.size()), b.full, "the right operand is unchanged"); else EQUAL_COEFS(coefs(fy, A.size()), b.full, "the right operand is unchanged");
    }
};
VC_CONTRACT(shuffle_product, real, bounded, "the product of shuffle tensors is the truncated shuffle product, for every storage combination")
{
    unsigned ka = vc::choose("left storage", 6), kb = vc::choose("right storage", 6);
    Shape s = shapes[vc::choose("shape", 7)];
    Operands o(s, ka, kb, false);
    EQUAL_COEFS(coefs(o.sx.mul(o.sy), o.A.size()), ref::shuffle(o.A, o.a.full, o.b.full), "shuffle product");
    EQUAL_COEFS(coefs(o.sx, o.A.size()), o.a.full, "the left operand is unchanged");
    EQUAL_COEFS(coefs(o.sy, o.A.size()), o.b.full, "the right operand is unchanged");
    COVER("multiplied");
}
static const char* const opn[] = {"x*=y", "x*=x", "x+=y*z", "x-=y*z", "x*=(y*s)", "x*=(y/s)", "x+=x*y", "x-=y*x"};
VC_CONTRACT(shuffle_fused, real, bounded, "the in-place and fused shuffle products equal the expressions they abbreviate, also of an element with itself")
{
    unsigned op = vc::choose("operation", 8);
    bool two = op == 2 || op == 3, one = op == 1;
    unsigned ka = vc::choose("x storage", 4), kb = one ? 0 : vc::choose("y storage", 4), kc = two ? vc::choose("z storage", 4) : 0;
    Shape s = shapes[vc::choose("shape", 3)];
    ref::Alg A(s.W, s.D);
    auto ctx = ctx_of(s);
    Element a = element("a", A.size(), ka, A.off[s.D]), b = element("b", A.size(), kb, A.off[2 < s.D ? 2 : s.D]), c;
    if (two) c = element("c", A.size(), kc, A.off[s.D]);
    double sv = vc::num("s");
    REQUIRES(sv != 0);
    scalars::Scalar sc(sv);
    ShuffleTensor x = ctx->construct_shuffle_tensor(a.data()), y = ctx->construct_shuffle_tensor(b.data()), z;
    if (two) z = ctx->construct_shuffle_tensor(c.data());
    ref::Vec want;
    switch (op) {
    case 0: (void)x.mul_inplace(y); want = ref::shuffle(A, a.full, b.full); break;
    case 1: (void)x.mul_inplace(x); want = ref::shuffle(A, a.full, a.full); break;
    case 2: (void)x.add_mul(y, z); want = ref::add(a.full, ref::shuffle(A, b.full, c.full)); break;
    case 3: (void)x.sub_mul(y, z); want = ref::add(a.full, ref::shuffle(A, b.full, c.full), -1); break;
    case 4: (void)x.mul_smul(y, sc); want = ref::shuffle(A, a.full, ref::scale(b.full, sv)); break;
    case 5: (void)x.mul_sdiv(y, sc); want = ref::shuffle(A, a.full, ref::div(b.full, sv)); break;
    case 6: (void)x.add_mul(x, y); want = ref::add(a.full, ref::shuffle(A, a.full, b.full)); break;
    case 7: (void)x.sub_mul(y, x); want = ref::add(a.full, ref::shuffle(A, b.full, a.full), -1); break;
    }
    EQUAL_COEFS(coefs(x, A.size()), want, opn[op]);
    EQUAL_COEFS(coefs(y, A.size()), b.full, "the right operand is unchanged");
    if (two) EQUAL_COEFS(coefs(z, A.size()), c.full, "the second operand is unchanged");
    COVER("multiplied");
}
VC_CONTRACT(shuffle_multiply, real, bounded, "shuffle_multiply of any free or shuffle tensors in any storage is the shuffle product")
{
    unsigned ka = vc::choose("left storage", 6), kb = vc::choose("right storage", 6);
    Operands o(shapes[vc::choose("shape", 3)], ka, kb, true);
    o.check(o.ctx->shuffle_multiply(o.l, o.r), o.ta, ref::shuffle(o.A, o.a.full, o.b.full), "shuffle product");
    COVER("multiplied");
}
VC_CONTRACT(half_shuffle_multiply, real, bounded, "half_shuffle_multiply of any free or shuffle tensors in any storage is the half shuffle whose first letter comes from the left")
{
    unsigned ka = vc::choose("left storage", 6), kb = vc::choose("right storage", 6);
    Operands o(shapes[vc::choose("shape", 3)], ka, kb, true);
    o.check(o.ctx->half_shuffle_multiply(o.l, o.r), o.ta, ref::half_shuffle(o.A, o.a.full, o.b.full), "half shuffle product");
    COVER("multiplied");
}
VC_CONTRACT(adjoint_multiply, real, bounded, "adjoint_to_left_multiply_by(m, s) is the functional v -> <s, m v>, for every storage and type combination")
{
    unsigned ka = vc::choose("left storage", 6), kb = vc::choose("right storage", 6);
    Operands o(shapes[vc::choose("shape", 4)], ka, kb, true);
    o.check(o.ctx->adjoint_to_left_multiply_by(o.l, o.r), o.tb, ref::adjoint_left(o.A, o.a.full, o.b.full), "adjoint of left multiplication");
    COVER("multiplied");
}
VC_CONTRACT(shuffle_laws, real, bounded, "the shuffle product is commutative and associative, and x sh y = x<y + y<x off the unit, on the values the code computes")
{
    unsigned ka = vc::choose("storage", 2), kb = vc::choose("storage of the others", 2);
    Shape s = shapes[vc::choose("shape", 3)];
    ref::Alg A(s.W, s.D);
    auto ctx = ctx_of(s);
    Element a = element("a", A.size(), ka, A.off[s.D]), b = element("b", A.size(), kb, A.off[s.D]), c = element("c", A.size(), kb, A.off[s.D]);
    ShuffleTensor x = ctx->construct_shuffle_tensor(a.data()), y = ctx->construct_shuffle_tensor(b.data()), z = ctx->construct_shuffle_tensor(c.data());
    EQUAL_COEFS(coefs(x.mul(y), A.size()), coefs(y.mul(x), A.size()), "xy = yx");
    EQUAL_COEFS(coefs(x.mul(y).mul(z), A.size()), coefs(x.mul(y.mul(z)), A.size()), "(xy)z = x(yz)");
    ShuffleTensor l(ctx->half_shuffle_multiply(&*x, &*y)), r(ctx->half_shuffle_multiply(&*y, &*x));
    ref::Vec sum = coefs(l.add(r), A.size()), prod = coefs(x.mul(y), A.size());
    sum[0] += a.full[0] * b.full[0];
    EQUAL_COEFS(sum, prod, "x sh y = x<y + y<x");
    COVER("multiplied");
}
VC_CONTRACT(characters, real, bounded, "a signature is a character: <exp(x), u sh v> = <exp(x), u><exp(x), v> for words u, v within the depth")
{
    Shape s = shapes[vc::choose("shape", 3)];
    unsigned k = vc::choose("storage", 2);
    ref::Alg A(s.W, s.D);
    auto ctx = ctx_of(s);
    Element inc; inc.vt = k ? VectorType::Sparse : VectorType::Dense; inc.keyed = true;
    for (int i = 0; i < s.W; ++i) { inc.vals.push_back(vc::num("v")); inc.keys.push_back(i + 1); }
    Element in2 = inc; for (auto& v : in2.vals) v = vc::num("w");
    ref::Vec g = coefs(ctx->construct_free_tensor(inc.data()).exp().mul(ctx->construct_free_tensor(in2.data()).exp()), A.size());
    for (size_t i = 0; i < A.size(); ++i) for (size_t j = 0; j < A.size(); ++j) {
        if (A.deg(i) + A.deg(j) > s.D) continue;
        Element u, v; u.vt = v.vt = k ? VectorType::Sparse : VectorType::Dense; u.keyed = v.keyed = true; u.vals = v.vals = {1.0}; u.keys = {(key_type)i}; v.keys = {(key_type)j};
        ref::Vec p = coefs(ctx->construct_shuffle_tensor(u.data()).mul(ctx->construct_shuffle_tensor(v.data())), A.size());
        double sum = 0; for (size_t n = 0; n < A.size(); ++n) if (p[n] != 0) sum += p[n] * g[n];
        ENSURES(vc::eq(sum, g[i] * g[j]), "character property");
    }
    COVER("character");
}
