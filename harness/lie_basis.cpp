// Contracts on the Hall basis (vendored/libalgebra_lite/{hall_set.h,basis/hall_set.cpp}, algebra/src/libalgebra_lite_internal/lie_basis_info.h,
// algebra/src/{context,hall_set_size}.cpp).
// PROPERTY: C08
// SOURCES: lal intervals platform generics devices device scalars algebra
#include "alg.h"
#include "hall.h"
#include <libalgebra_lite_internal/lie_basis_info.h>
struct Ref { std::vector<size_t> pw, off; Ref(Shape s) { pw.push_back(1); off.push_back(0); for (int d = 0; d <= s.D + 1; ++d) { off.push_back(off[d] + pw[d]); pw.push_back(pw[d] * s.W); } } size_t size(int d) const { return off[d + 1]; } int deg(size_t k) const { int d = 0; while (k >= off[d + 1]) ++d; return d; } };
VC_CONTRACT(hall_keys, int, bounded, "the Hall basis of every width and depth in the bound: sizes are Witt's, every element has the parents of a Hall set and is found from them, letters and degrees agree")
{
    static const Shape sh[] = {{1, 1}, {1, 4}, {2, 1}, {2, 2}, {2, 5}, {2, 8}, {3, 3}, {3, 5}, {4, 4}, {5, 3}, {7, 2}, {12, 2}};
    Shape s = sh[vc::choose("shape", sizeof sh / sizeof *sh)];
    lal::hall_basis lb(s.W, s.D);
    LieBasis b(&lb);
    ref::Hall H(s.W, s.D);
    Ref r(s);
    static const int mob[] = {0, 1, -1, -1, 0, -1, 1, -1, 0, 0, 1};
    size_t total = 0;
    for (int d = 0; d <= s.D; ++d) {
        ENSURES(b.start_of_degree(d) == total, "start of a degree");
        long witt = 0;
        if (d > 0) { for (int e = 1; e <= d; ++e) if (d % e == 0) witt += mob[e] * (long)r.pw[d / e]; ENSURES(witt % d == 0 && lb.size_of_degree(d) == (size_t)(witt / d), "Witt's formula for the size of a degree"); total += witt / d; }
        ENSURES((size_t)b.size(d) == total, "size up to a degree");
    }
    ENSURES(b.dimension() == total && (size_t)lb.size(-1) == total && H.size() == total, "dimension");
    ENSURES(b.width() == s.W && b.depth() == s.D, "width and depth");
    size_t last_degree = 1;
    for (size_t k = 1; k <= total; ++k) {
        ENSURES(b.index_to_key(k - 1) == k && b.key_to_index(k) == k - 1, "keys are indices plus one");
        int d = b.degree(k);
        ENSURES(d == H.degree[k], "degree of a key");
        ENSURES((size_t)d >= last_degree, "keys are ordered by degree"); last_degree = d;
        ENSURES(b.start_of_degree(d) < k && k <= (size_t)b.size(d), "keys of a degree are contiguous");
        ENSURES(b.letter(k) == (d == 1), "letter");
        auto p = b.parents(k);
        ENSURES(p.first && p.second, "parents exist");
        ENSURES(*p.first == H.par[k].first && *p.second == H.par[k].second, "parents of the Hall set");
        if (d == 1) { ENSURES(b.to_letter(k) == (let_t)k && b.key_of_letter((let_t)k) == k, "letters"); }
        else {
            ENSURES(b.degree(*p.first) + b.degree(*p.second) == d && *p.first < *p.second, "parents are smaller, ordered, and their degrees add");
            if (!b.letter(*p.second)) ENSURES(*b.lparent(*p.second) <= *p.first, "Hall condition");
            ENSURES(b.lparent(k) == p.first && b.rparent(k) == p.second, "lparent and rparent agree with parents");
            auto c = b.child(*p.first, *p.second);
            ENSURES(c && *c == k, "child of the parents");
        }
        size_t f = k; while (H.degree[f] > 1) f = H.par[f].first;
        ENSURES(b.first_letter(k) == (let_t)f, "first letter");
        auto key = lb.index_to_key(k - 1);
        ENSURES((int)key.degree() == d && lb.key_to_index(key) == k - 1, "packed key round trip");
        if (k < total) { auto n = key; lb.advance_key(n); ENSURES(lb.key_to_index(n) == k && key < n, "advancing a key gives the next one"); }
    }
    COVER("hall basis");
}
VC_CONTRACT(hall_child, int, bounded, "two Hall elements have a child exactly when their pair is an element of the Hall set")
{
    static const Shape sh[] = {{1, 3}, {2, 3}, {2, 5}, {3, 3}, {4, 2}};
    Shape s = sh[vc::choose("shape", sizeof sh / sizeof *sh)];
    lal::hall_basis lb(s.W, s.D);
    LieBasis b(&lb);
    ref::Hall H(s.W, s.D);
    for (size_t i = 1; i <= H.size(); ++i) for (size_t j = 1; j <= H.size(); ++j) {
        size_t want = 0;
        for (size_t k = 1; k <= H.size(); ++k) if (H.degree[k] > 1 && H.par[k].first == i && H.par[k].second == j) want = k;
        auto c = b.child(i, j);
        ENSURES(c.has_value() == (want != 0), "child exists");
        if (c) ENSURES(*c == want, "which child");
    }
    COVER("children");
}
VC_CONTRACT(context_sizes, int, bounded, "the sizes a context reports are those of its bases, whether the context has bases (get_context) or not (get_base_context)")
{
    static const Shape sh[] = {{1, 1}, {2, 2}, {2, 3}, {3, 3}, {2, 6}, {5, 2}};
    Shape s = sh[vc::choose("shape", sizeof sh / sizeof *sh)];
    bool base = vc::choose("base context", 2);
    Ref r(s); ref::Hall H(s.W, s.D);
    context_pointer full;
    if (!base) full = ctx_of(s);
    base_context_pointer c = get_base_context(s.W, s.D);
    ENSURES(c->width() == s.W && c->depth() == s.D, "width and depth");
    for (int d = 0; d <= s.D; ++d) {
        ENSURES(c->tensor_size(d) == r.size(d), "tensor size");
        ENSURES(c->lie_size(d) == H.start(d + 1), "Lie size");
    }
    ENSURES(c->tensor_size(-1) == r.size(s.D) && c->tensor_size(s.D + 3) == r.size(s.D), "whole tensor size");
    ENSURES(c->lie_size(-1) == H.size() && c->lie_size(s.D + 3) == H.size(), "whole Lie size");
    ENSURES(get_base_context(s.W, s.D).get() == c.get(), "one base context per width and depth");
    if (!base) {
        TensorBasis tb = full->get_tensor_basis(); LieBasis lb = full->get_lie_basis();
        ENSURES(tb.dimension() == r.size(s.D) && lb.dimension() == H.size(), "bases of the context");
        ENSURES(tb.width() == s.W && lb.width() == s.W && tb.depth() == s.D && lb.depth() == s.D, "width and depth of the bases");
        ENSURES(full->lie_size(-1) == H.size() && full->tensor_size(-1) == r.size(s.D), "sizes of the full context");
    }
    COVER("sizes");
}
