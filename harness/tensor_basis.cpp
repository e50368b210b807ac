// Contracts on the tensor basis (vendored/libalgebra_lite/{tensor_basis.h,unpacked_tensor_word.h,basis/*.cpp}, algebra/src/libalgebra_lite_internal/
// tensor_basis_info.h). Keys are symbolic; every key of the basis is covered.
// PROPERTY: C07
// SOURCES: lal intervals platform generics devices device scalars algebra
// SHARDS tb_keys: 4
// SHARDS tb_concat: 8
// SHARDS tb_words: 8
// BUDGET tb_concat: 240
// BUDGET tb_words: 240
#include "alg.h"
#include <libalgebra_lite/unpacked_tensor_word.h>
#include <libalgebra_lite_internal/tensor_basis_info.h>
static const Shape tshapes[] = {{1, 1}, {1, 5}, {1, 15}, {2, 1}, {2, 3}, {2, 8}, {2, 15}, {3, 2}, {3, 4}, {3, 9}, {4, 5}, {5, 3}, {7, 4}, {10, 6}, {16, 3}, {100, 2}, {255, 3}, {1000, 2}};
struct Ref { std::vector<size_t> pw, off; Ref(Shape s) { pw.push_back(1); off.push_back(0); for (int d = 0; d <= s.D + 1; ++d) { off.push_back(off[d] + pw[d]); pw.push_back(pw[d] * s.W); } } size_t size(int d) const { return off[d + 1]; } int deg(size_t k) const { int d = 0; while (k >= off[d + 1]) ++d; return d; } };
VC_CONTRACT(tb_keys, int, bounded, "every key of the tensor basis: its degree and index agree with the sizes of the degrees, its parents are its first letter and the rest, and they determine it")
{
    Shape s = tshapes[vc::choose("shape", sizeof tshapes / sizeof *tshapes)];
    lal::tensor_basis lb(s.W, s.D);
    TensorBasis b(&lb);
    Ref r(s);
    ENSURES(b.width() == s.W && b.depth() == s.D, "width and depth");
    ENSURES(b.dimension() == r.size(s.D), "dimension");
    for (int d = 0; d <= s.D; ++d) { ENSURES((size_t)b.size(d) == r.size(d), "size up to a degree"); ENSURES(b.start_of_degree(d) == r.off[d], "start of a degree"); ENSURES(lb.size_of_degree(d) == r.pw[d], "size of a degree"); }
    ENSURES((size_t)lb.size(-1) == r.size(s.D), "whole size");
    uint64_t k = vc::in<uint64_t>("key", 0, r.size(s.D) - 1);
    int d = r.deg(k);
    ENSURES(b.index_to_key(k) == k && b.key_to_index(k) == k, "keys are indices");
    ENSURES(b.degree(k) == d, "degree of a key");
    ENSURES(b.letter(k) == (d == 1), "letter");
    auto p = b.parents(k);
    ENSURES(p.first && p.second, "parents exist");
    if (d == 0) ENSURES(*p.first == 0 && *p.second == 0, "parents of the empty word");
    else {
        ENSURES(*p.first >= 1 && *p.first <= (size_t)s.W, "left parent is a letter");
        ENSURES(b.degree(*p.second) == d - 1, "right parent is one letter shorter");
        ENSURES(k - r.off[d] == (*p.first - 1) * r.pw[d - 1] + (*p.second - r.off[d - 1]), "the parents spell the word");
        ENSURES(b.lparent(k) == p.first && b.rparent(k) == p.second, "lparent and rparent agree with parents");
        auto lp = lb.parents(lb.index_to_key(k));
        ENSURES(lb.key_to_index(lp.first) == *p.first && lb.key_to_index(lp.second) == *p.second, "both forms of parents agree");
        ENSURES(b.first_letter(k) == (let_t)*p.first, "first letter");
        auto c = b.child(*p.first, *p.second);
        ENSURES(c && *c == k, "child of the parents");
        if (d == 1) ENSURES(b.to_letter(k) == (let_t)k && b.key_of_letter((let_t)k) == k, "letters");
    }
    auto key = lb.index_to_key(k);
    ENSURES((int)key.degree() == d && key.index() == k - r.off[d], "packed key");
    ENSURES(lb.key_to_index(key) == k, "packed key round trip");
    if (k + 1 < r.size(s.D)) { auto n = key; lb.advance_key(n); ENSURES(lb.key_to_index(n) == k + 1, "advancing a key gives the next one"); ENSURES(key < n, "keys are ordered by degree then index"); }
    COVER("tensor key");
}
VC_CONTRACT(tb_concat, int, bounded, "child of two words is their concatenation exactly when it fits in the depth; letters add up")
{
    static const Shape sh[] = {{1, 4}, {1, 15}, {2, 3}, {2, 7}, {2, 15}, {3, 3}, {3, 6}, {4, 4}, {5, 3}, {10, 4}, {255, 2}};
    Shape s = sh[vc::choose("shape", sizeof sh / sizeof *sh)];
    lal::tensor_basis lb(s.W, s.D);
    TensorBasis b(&lb);
    Ref r(s);
    int d1 = vc::choose("left degree", s.D + 1), d2 = vc::choose("right degree", s.D + 1);
    uint64_t i = vc::in<uint64_t>("left", 0, r.pw[d1] - 1), j = vc::in<uint64_t>("right", 0, r.pw[d2] - 1);
    auto c = b.child(r.off[d1] + i, r.off[d2] + j);
    ENSURES(c.has_value() == (d1 + d2 <= s.D), "a product exists exactly within the depth");
    if (c) {
        ENSURES(*c == r.off[d1 + d2] + i * r.pw[d2] + j, "concatenation");
        ENSURES(b.degree(*c) == d1 + d2, "lengths add");
    }
    COVER("concatenated");
}
VC_CONTRACT(tb_words, int, bounded, "unpacked words: index, reversed index, advance, split, reverse, product and order agree with the letters, and with the packed basis")
{
    int W = vc::choose("width", 3) + 1, n = vc::choose("length", 4), m = vc::choose("length 2", 3);
    std::vector<unsigned short> a, c;
    // letters are stored last first
    for (int i = 0; i < n; ++i) a.push_back(vc::in<uint16_t>("a", 0, W - 1));
    for (int i = 0; i < m; ++i) c.push_back(vc::in<uint16_t>("c", 0, W - 1));
    lal::unpacked_tensor_word wa(W, a), wc(W, c);
    size_t ia = 0, ra = 0, ic = 0, pa = 1, pc = 1;
    for (int i = n; i-- > 0;) { ia = ia * W + a[i]; pa *= W; }
    for (int i = 0; i < n; ++i) ra = ra * W + a[i];
    for (int i = m; i-- > 0;) { ic = ic * W + c[i]; pc *= W; }
    ENSURES(wa.degree() == n && wc.degree() == m, "length");
    ENSURES(wa.to_index() == ia && wa.to_reverse_index() == ra, "index and reversed index");
    lal::tensor_basis lb(W, 8);
    ENSURES(lb.reverse_idx(n, ia) == ra, "the basis reverses indices");
    auto k = wa.pack();
    ENSURES((int)k.degree() == n && k.index() == ia, "pack");
    ENSURES((int)lb.reverse_key(k).degree() == n && lb.reverse_key(k).index() == ra, "reversed key");
    auto rv = wa; rv.reverse();
    ENSURES(rv.to_index() == ra && rv.to_reverse_index() == ia, "reverse");
    auto p = wa * wc;
    ENSURES(p.degree() == n + m && p.to_index() == ia * pc + ic, "product of words is concatenation");
    int l = vc::choose("left letters", 6);
    auto sp = p.split(l);
    int dl = l < n + m ? l : n + m;
    ENSURES(sp.first.degree() == dl && sp.second.degree() == n + m - dl, "split lengths");
    ENSURES(sp.first * sp.second == p, "the parts of a split concatenate to the word");
    ENSURES((wa == wc) == (n == m && ia == ic), "equality of words");
    ENSURES((wa != wc) != (wa == wc), "inequality");
    auto nx = wa; ++nx;
    ENSURES(nx.degree() == n && (n == 0 || nx.to_index() == (ia + 1 == pa ? 0 : ia + 1)), "advance to the next word of the same length");
    ENSURES((wa < wc) + (wc < wa) + (wa == wc) == 1, "words are totally ordered");
    ENSURES((wa <= wc) == !(wc < wa) && (wa >= wc) == !(wa < wc) && (wa > wc) == (wc < wa), "order relations agree");
    COVER("words");
}
