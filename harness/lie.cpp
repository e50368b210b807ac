// Contracts on Lie elements: bracket, maps between Lie elements and tensors, Campbell-Baker-Hausdorff product
// (libalgebra_lite/{lie,maps,hall_set}, algebra/src/{context.cpp,lite_context.h} through the algebra API).
// PROPERTY: C14
// SOURCES: lal intervals platform generics devices device scalars algebra
#include "alg.h"
#include "hall.h"
static const Shape shapes[] = {{2, 2}, {2, 3}, {3, 2}, {2, 4}, {3, 3}, {1, 3}, {2, 5}, {2, 1}};
static const unsigned NS = 8;
static Lie mk(const context_pointer& c, const Element& e) { return c->construct_lie(e.data()); }
static size_t cut_of(const ref::Hall& H) { return H.D > 1 ? H.start(H.D) : H.size(); }

VC_CONTRACT(lie_to_tensor_is_expansion, real, bounded, "lie_to_tensor replaces every Hall basis element by the commutator of its parents")
{
    unsigned k = vc::choose("storage", 6);
    Shape s = shapes[vc::choose("shape", NS)];
    ref::Alg A(s.W, s.D); ref::Hall H(s.W, s.D);
    auto ctx = ctx_of(s);
    Element a = element("a", H.size(), k, cut_of(H));
    Lie x = mk(ctx, a);
    EQUAL_COEFS(coefs(ctx->lie_to_tensor(x), A.size()), H.expand(A, a.full), "expansion");
    EQUAL_COEFS(coefs(x, H.size(), 1), a.full, "the argument is unchanged");
    COVER("expanded");
}
VC_CONTRACT(tensor_to_lie_inverts, real, bounded, "tensor_to_lie(lie_to_tensor(x)) = x, and tensor_to_lie is linear with the Dynkin bracketing of words")
{
    unsigned k = vc::choose("storage", 6);
    Shape s = shapes[vc::choose("shape", NS)];
    ref::Alg A(s.W, s.D); ref::Hall H(s.W, s.D);
    auto ctx = ctx_of(s);
    Element a = element("a", H.size(), k, cut_of(H)), t = element("t", A.size(), k, A.off[s.D]);
    Lie x = mk(ctx, a);
    EQUAL_COEFS(coefs(ctx->tensor_to_lie(ctx->lie_to_tensor(x)), H.size(), 1), a.full, "round trip");
    // on any tensor the result expands to the Dynkin projection of the tensor
    FreeTensor y = ctx->construct_free_tensor(t.data());
    EQUAL_COEFS(coefs(ctx->lie_to_tensor(ctx->tensor_to_lie(y)), A.size()), ref::dynkin(A, t.full), "Dynkin map");
    EQUAL_COEFS(coefs(y, A.size()), t.full, "the argument is unchanged");
    COVER("round trip");
}
VC_CONTRACT(bracket, real, bounded, "the product of Lie elements is their bracket: its expansion is the commutator of the expansions")
{
    unsigned ka = vc::choose("left storage", 6), kb = vc::choose("right storage", 6);
    Shape s = shapes[vc::choose("shape", NS)];
    ref::Alg A(s.W, s.D); ref::Hall H(s.W, s.D);
    auto ctx = ctx_of(s);
    Element a = element("a", H.size(), ka, cut_of(H)), b = element("b", H.size(), kb, cut_of(H));
    Lie x = mk(ctx, a), y = mk(ctx, b), z = x.mul(y);
    ref::Vec ea = H.expand(A, a.full), eb = H.expand(A, b.full);
    EQUAL_COEFS(H.expand(A, coefs(z, H.size(), 1)), ref::add(ref::mul(A, ea, eb), ref::mul(A, eb, ea), -1), "commutator");
    EQUAL_COEFS(coefs(x, H.size(), 1), a.full, "the left operand is unchanged");
    EQUAL_COEFS(coefs(y, H.size(), 1), b.full, "the right operand is unchanged");
    COVER("multiplied");
}
static const char* const opn[] = {"x*=y", "x*=x", "x+=y*z", "x-=y*z", "x*=(y*s)", "x*=(y/s)", "x+=x*y", "x-=y*x"};
VC_CONTRACT(lie_fused, real, bounded, "the in-place and fused Lie products equal the expressions they abbreviate, also of an element with itself")
{
    unsigned op = vc::choose("operation", 8);
    bool two = op == 2 || op == 3, one = op == 1;
    unsigned ka = vc::choose("x storage", 4), kb = one ? 0 : vc::choose("y storage", 4), kc = two ? vc::choose("z storage", 2) : 0;
    Shape s = shapes[vc::choose("shape", 3)];
    ref::Hall H(s.W, s.D);
    auto ctx = ctx_of(s);
    Element a = element("a", H.size(), ka, cut_of(H)), b = element("b", H.size(), kb, cut_of(H)), c;
    if (two) c = element("c", H.size(), kc, cut_of(H));
    double sv = vc::num("s");
    REQUIRES(sv != 0);
    scalars::Scalar sc(sv);
    Lie x = mk(ctx, a), y = mk(ctx, b), z, w;
    if (two) z = mk(ctx, c);
    switch (op) {   // the fused forms against the plain bracket, itself under contract above
    case 0: w = x.mul(y); (void)x.mul_inplace(y); break;
    case 1: w = x.mul(mk(ctx, a)); (void)x.mul_inplace(x); break;
    case 2: w = x.add(y.mul(z)); (void)x.add_mul(y, z); break;
    case 3: w = x.sub(y.mul(z)); (void)x.sub_mul(y, z); break;
    case 4: w = x.mul(y.smul(sc)); (void)x.mul_smul(y, sc); break;
    case 5: w = x.mul(y.sdiv(sc)); (void)x.mul_sdiv(y, sc); break;
    case 6: w = x.add(x.mul(y)); (void)x.add_mul(x, y); break;
    case 7: w = x.sub(y.mul(x)); (void)x.sub_mul(y, x); break;
    }
    EQUAL_COEFS(coefs(x, H.size(), 1), coefs(w, H.size(), 1), opn[op]);
    EQUAL_COEFS(coefs(y, H.size(), 1), b.full, "the right operand is unchanged");
    if (two) EQUAL_COEFS(coefs(z, H.size(), 1), c.full, "the second operand is unchanged");
    COVER("multiplied");
}
VC_CONTRACT(lie_laws, real, bounded, "the bracket is antisymmetric and satisfies the Jacobi identity, on the values the code computes")
{
    unsigned ka = vc::choose("storage", 2), kb = vc::choose("storage of the others", 2);
    Shape s = shapes[vc::choose("shape", 5)];
    ref::Hall H(s.W, s.D);
    auto ctx = ctx_of(s);
    Element a = element("a", H.size(), ka, 0), b = element("b", H.size(), kb, 0), c = element("c", H.size(), kb, 0);
    Lie x = mk(ctx, a), y = mk(ctx, b), z = mk(ctx, c);
    const ref::Vec zero(H.size(), 0.0);
    EQUAL_COEFS(coefs(x.mul(y).add(y.mul(x)), H.size(), 1), zero, "[x,y] = -[y,x]");
    EQUAL_COEFS(coefs(x.mul(x), H.size(), 1), zero, "[x,x] = 0");
    EQUAL_COEFS(coefs(x.mul(y.mul(z)).add(y.mul(z.mul(x))).add(z.mul(x.mul(y))), H.size(), 1), zero, "Jacobi");
    COVER("laws");
}
VC_CONTRACT(cbh_is_log_of_product, real, bounded, "cbh of a list of Lie elements is the Lie element whose exponential is the product of their exponentials, in order, whatever the storage asked for")
{
    unsigned n = vc::choose("number", 4), ka = vc::choose("first storage", 4), kb = n > 1 ? vc::choose("other storage", 5) : 0, vt = vc::choose("result storage", 2);
    Shape s = shapes[vc::choose("shape", 4)];
    ref::Alg A(s.W, s.D); ref::Hall H(s.W, s.D);
    auto ctx = ctx_of(s);
    std::vector<Lie> ls; std::vector<const Lie*> ps;
    std::vector<Element> es;
    ref::Vec g = ref::one(A);
    for (unsigned i = 0; i < n; ++i) {
        if (i && kb == 4) {   // an empty element
            es.push_back(Element()); es.back().full.assign(H.size(), 0.0);
            continue;
        }
        es.push_back(element("a", H.size(), i ? kb : ka, cut_of(H)));
        if (n == 3) for (size_t j = s.W; j < H.size(); ++j) {   // three elements: increments, to keep the expressions small
            for (size_t q = 0; q < es.back().vals.size(); ++q) if ((es.back().keyed ? (size_t)es.back().keys[q] : q) == j) es.back().vals[q] = 0.0;
            es.back().full[j] = 0.0;
        }
        g = ref::mul(A, g, ref::exp_nounit(A, H.expand(A, es.back().full)));
    }
    for (unsigned i = 0; i < n; ++i) ls.push_back(i && kb == 4 ? Lie() : mk(ctx, es[i]));
    for (auto& l : ls) ps.push_back(&l);
    VectorType v = vt ? VectorType::Sparse : VectorType::Dense;
    ref::Vec want = ref::log_of(A, g);
    Lie r = ctx->cbh(ls, v);
    EQUAL_COEFS(coefs(ctx->lie_to_tensor(r), A.size()), want, "exp(cbh) is the product");
    ENSURES(r.storage_type() == v, "the storage asked for");
    Lie q = ctx->cbh(Slice<const Lie*>(ps.data(), ps.size()), v);
    EQUAL_COEFS(coefs(q, H.size(), 1), coefs(r, H.size(), 1), "the overloads agree");
    if (n == 2) {
        Lie p = ctx->cbh(ls[0], ls[1], v);
        EQUAL_COEFS(coefs(p, H.size(), 1), coefs(r, H.size(), 1), "the two-element overload agrees");
        ENSURES(p.storage_type() == v, "the storage asked for");
    }
    for (unsigned i = 0; i < n; ++i) if (!(i && kb == 4)) EQUAL_COEFS(coefs(ls[i], H.size(), 1), es[i].full, "the arguments are unchanged");
    COVER("combined");
}
VC_CONTRACT(signature_of_log, real, bounded, "to_signature(x) is exp(lie_to_tensor(x)), and its logarithm is x")
{
    unsigned k = vc::choose("storage", 4);
    Shape s = shapes[vc::choose("shape", 4)];
    ref::Alg A(s.W, s.D); ref::Hall H(s.W, s.D);
    auto ctx = ctx_of(s);
    Element a = element("a", H.size(), k, cut_of(H));
    Lie x = mk(ctx, a);
    FreeTensor g = ctx->to_signature(x);
    EQUAL_COEFS(coefs(g, A.size()), ref::exp_nounit(A, H.expand(A, a.full)), "exponential");
    EQUAL_COEFS(coefs(ctx->tensor_to_lie(g.log()), H.size(), 1), a.full, "logarithm");
    COVER("signature");
}
VC_CONTRACT(maps_of_empty, real, bounded, "an element without data is zero for the maps between Lie elements and tensors")
{
    Shape s = shapes[vc::choose("shape", NS)];
    ref::Alg A(s.W, s.D); ref::Hall H(s.W, s.D);
    auto ctx = ctx_of(s);
    EQUAL_COEFS(coefs(ctx->lie_to_tensor(Lie()), A.size()), ref::zero(A), "expansion of nothing");
    EQUAL_COEFS(coefs(ctx->tensor_to_lie(FreeTensor()), H.size(), 1), ref::Vec(H.size(), 0.0), "Lie element of nothing");
    COVER("empty");
}
