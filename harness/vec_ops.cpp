// Contracts on the vector-space operations of the three algebra types (algebra_base_impl.h, implementors/algebra_impl.h,
// libalgebra_lite/{vector,dense_vector,sparse_vector}.h through the public algebra API).
// PROPERTY: C09
// SOURCES: lal intervals platform generics devices device scalars algebra
// SHARDS tensor_vector_ops: 2
// SHARDS shuffle_vector_ops: 2
// SHARDS lie_vector_ops: 2
#include "alg.h"
template <class T> T make(const context_pointer& c, const Element& e);
template <> FreeTensor make<FreeTensor>(const context_pointer& c, const Element& e) { return c->construct_free_tensor(e.data()); }
template <> ShuffleTensor make<ShuffleTensor>(const context_pointer& c, const Element& e) { return c->construct_shuffle_tensor(e.data()); }
template <> Lie make<Lie>(const context_pointer& c, const Element& e) { return c->construct_lie(e.data()); }
static const char* const op_names[] = {"-x", "x+y", "x-y", "x*s", "x/s", "x+=y", "x-=y", "x*=s", "x/=s", "x+=y*s", "x-=y*s", "x+=y/s", "x-=y/s", "copy", "x+=x", "x-=x", "x+x*s", "x=y", "x==y", "zero", "clear, then x+=y", "clear, then x*x"};

template <class T> void vector_ops(Shape s, size_t dim, size_t cut, size_t first_key)
{
    unsigned op = vc::choose("operation", 22);
    bool unary = op == 0 || op == 3 || op == 4 || op == 7 || op == 8 || op == 13 || op == 14 || op == 15 || op == 16 || op == 19 || op == 21;
    unsigned ka = vc::choose("left storage", 6), kb = unary ? 0 : vc::choose("right storage", 6);
    auto ctx = ctx_of(s);
    Element a = element("a", dim, ka, cut), b = element("b", dim, kb, s.D > 1 ? cut / 2 + 1 : cut);   // data keys are zero-based indices
    T x = make<T>(ctx, a), y = make<T>(ctx, b);
    double sv = vc::num("s");
    REQUIRES(sv != 0);
    scalars::Scalar sc(sv);
    ref::Vec want, got;
    bool mut = true;
    switch (op) {
    case 0: got = coefs(x.uminus(), dim, first_key); want = ref::scale(a.full, -1); mut = false; break;
    case 1: got = coefs(x.add(y), dim, first_key); want = ref::add(a.full, b.full); mut = false; break;
    case 2: got = coefs(x.sub(y), dim, first_key); want = ref::add(a.full, b.full, -1); mut = false; break;
    case 3: got = coefs(x.smul(sc), dim, first_key); want = ref::scale(a.full, sv); mut = false; break;
    case 4: got = coefs(x.sdiv(sc), dim, first_key); want = ref::div(a.full, sv); mut = false; break;
    case 5: (void)x.add_inplace(y); want = ref::add(a.full, b.full); break;
    case 6: (void)x.sub_inplace(y); want = ref::add(a.full, b.full, -1); break;
    case 7: (void)x.smul_inplace(sc); want = ref::scale(a.full, sv); break;
    case 8: (void)x.sdiv_inplace(sc); want = ref::div(a.full, sv); break;
    case 9: (void)x.add_scal_mul(y, sc); want = ref::add(a.full, ref::scale(b.full, sv)); break;
    case 10: (void)x.sub_scal_mul(y, sc); want = ref::add(a.full, ref::scale(b.full, sv), -1); break;
    case 11: (void)x.add_scal_div(y, sc); want = ref::add(a.full, ref::div(b.full, sv)); break;
    case 12: (void)x.sub_scal_div(y, sc); want = ref::add(a.full, ref::div(b.full, sv), -1); break;
    case 13: { T z(x); (void)z.add_inplace(z); got = coefs(z, dim, first_key); want = ref::scale(a.full, 2); mut = false; break; }
    case 14: (void)x.add_inplace(x); want = ref::scale(a.full, 2); break;
    case 15: (void)x.sub_inplace(x); want = ref::Vec(dim, 0.0); break;
    case 16: (void)x.add_scal_mul(x, sc); want = ref::add(a.full, ref::scale(a.full, sv)); break;
    case 17: x = y; (void)x.add_inplace(y); want = ref::scale(b.full, 2); break;
    case 18: {
        T z = x.add(y).sub(y);
        if (__vc_symbolic()) ENSURES(z == x, "x+y-y equals x");
        T w = y.smul(sc).sub(y.smul(sc));
        ENSURES(w == y.sub(y), "zero equals zero");
        T u = x.add(y);
        bool nz = false; for (double v : b.full) if (v != 0) nz = true;
        if (nz && x.storage_type() == y.storage_type()) if (__vc_symbolic()) ENSURES(!(u == x), "x+y differs from x");
        return;
    }
    case 20: x->clear(); EQUAL_COEFS(coefs(x, dim, first_key), ref::Vec(dim, 0.0), "a cleared element is zero"); (void)x.add_inplace(y); want = b.full; break;
    case 21: { x->clear(); T z = x.mul(x); got = coefs(z, dim, first_key); want = ref::Vec(dim, 0.0); mut = false; a.full = want; (void)z.add_mul(x, x); EQUAL_COEFS(coefs(z, dim, first_key), want, "a cleared element is zero"); break; }
    case 19: { T z = x.sub(x); got = coefs(z, dim, first_key); want = ref::Vec(dim, 0.0); ENSURES(z.is_zero(), "x-x is zero"); mut = false; break; }
    }
    if (mut) got = coefs(x, dim, first_key);
    EQUAL_COEFS(got, want, op_names[op]);
    if (!mut) EQUAL_COEFS(coefs(x, dim, first_key), a.full, "the left operand is unchanged");
    EQUAL_COEFS(coefs(y, dim, first_key), b.full, "the right operand is unchanged");
    COVER("operated");
}
static const Shape shapes[] = {{2, 2}, {3, 2}, {2, 3}, {1, 3}, {2, 1}};

VC_CONTRACT(tensor_vector_ops, real, bounded, "addition, subtraction, scaling, their fused and in-place forms, self-aliasing, copy and comparison of free tensors act coefficient by coefficient, for every storage combination")
{
    Shape s = shapes[vc::choose("shape", 5)];
    ref::Alg A(s.W, s.D);
    vector_ops<FreeTensor>(s, A.size(), A.off[s.D], 0);
}
VC_CONTRACT(shuffle_vector_ops, real, bounded, "the same for shuffle tensors")
{
    Shape s = shapes[vc::choose("shape", 5)];
    ref::Alg A(s.W, s.D);
    vector_ops<ShuffleTensor>(s, A.size(), A.off[s.D], 0);
}
VC_CONTRACT(lie_vector_ops, real, bounded, "the same for Lie elements")
{
    static const size_t dims[] = {3, 6, 5, 1, 2}, cuts[] = {2, 3, 3, 1, 1};
    unsigned i = vc::choose("shape", 5);
    vector_ops<Lie>(shapes[i], dims[i], cuts[i], 1);
}
template <class T> void empty_ops(Shape s, size_t dim, size_t cut, size_t first_key)
{
    unsigned op = vc::choose("operation", 15), ka = vc::choose("storage", 4), none = vc::choose("which operand is empty", 3);
    auto ctx = ctx_of(s);
    Element a = element("a", dim, ka, cut);
    const ref::Vec zero(dim, 0.0);
    T x = none == 0 || none == 2 ? T() : make<T>(ctx, a), y = none == 0 ? make<T>(ctx, a) : T();
    ref::Vec xv = none == 1 ? a.full : zero, yv = none == 0 ? a.full : zero;
    double sv = vc::num("s");
    REQUIRES(sv != 0);
    scalars::Scalar sc(sv);
    ref::Vec want;
    T r;
    switch (op) {
    case 0: r = x.add(y); want = ref::add(xv, yv); break;
    case 1: r = x.sub(y); want = ref::add(xv, yv, -1); break;
    case 2: r = x.mul(y); want = zero; break;
    case 3: (void)x.add_inplace(y); r = x; want = ref::add(xv, yv); break;
    case 4: (void)x.sub_inplace(y); r = x; want = ref::add(xv, yv, -1); break;
    case 5: (void)x.mul_inplace(y); r = x; want = zero; break;
    case 6: (void)x.add_scal_mul(y, sc); r = x; want = ref::add(xv, ref::scale(yv, sv)); break;
    case 7: (void)x.sub_scal_mul(y, sc); r = x; want = ref::add(xv, ref::scale(yv, sv), -1); break;
    case 8: (void)x.add_scal_div(y, sc); r = x; want = ref::add(xv, ref::div(yv, sv)); break;
    case 9: (void)x.sub_scal_div(y, sc); r = x; want = ref::add(xv, ref::div(yv, sv), -1); break;
    case 10: (void)x.add_mul(y, y); (void)x.sub_mul(x, T()); r = x; want = none == 0 ? ref::Vec() : xv; break;
    case 11: (void)x.mul_smul(y, sc); r = x; want = zero; break;
    case 12: r = x.uminus().smul(sc); want = ref::scale(xv, 0.0 - sv); break;
    case 13: { T z(x); r = z; want = xv; bool nz = false; for (double v : xv) if (v != 0) nz = true; if (nz) ENSURES(!(z == T()), "a non-zero element differs from the empty one"); else ENSURES(z == T(), "zero equals the empty element"); break; }
    case 14: (void)x.mul_sdiv(y, sc); r = x; want = zero; break;
    }
    // an element without an implementation reads as zero
    ref::Vec got(zero);
    if (r) got = coefs(r, dim, first_key);
    if (!want.empty()) EQUAL_COEFS(got, want, "an empty element is zero");
    COVER("operated");
}
VC_CONTRACT(empty_tensor_ops, real, bounded, "a default-constructed free tensor is the zero of every operation")
{
    Shape s = shapes[vc::choose("shape", 2)];
    ref::Alg A(s.W, s.D);
    empty_ops<FreeTensor>(s, A.size(), A.off[s.D], 0);
}
VC_CONTRACT(empty_shuffle_ops, real, bounded, "the same for shuffle tensors")
{
    Shape s = shapes[vc::choose("shape", 2)];
    ref::Alg A(s.W, s.D);
    empty_ops<ShuffleTensor>(s, A.size(), A.off[s.D], 0);
}
VC_CONTRACT(empty_lie_ops, real, bounded, "the same for Lie elements")
{
    empty_ops<Lie>({2, 2}, 3, 2, 1);
}
