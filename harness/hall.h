// The Hall basis as documented for libalgebra: letters 1..W, then for each degree the pairs (i, j) of lower
// degree elements, i < j, with the left parent of j at most i, in order of the degree of i, then i, then j.
#pragma once
namespace ref {
struct Hall {
    int W, D;
    std::vector<std::pair<size_t, size_t>> par;   // parents by 1-based index, (0, letter) for letters
    std::vector<int> degree; std::vector<size_t> first;  // first[d]: index of the first element of degree d
    Hall(int w, int d) : W(w), D(d) {
        par.push_back({0, 0}); degree.push_back(0); first.assign(d + 2, 1);
        for (int l = 1; l <= w; ++l) { par.push_back({0, (size_t)l}); degree.push_back(1); }
        if (d >= 1) first[2 <= d + 1 ? 2 : d + 1] = par.size();
        for (int n = 2; n <= d; ++n) {
            first[n] = par.size();
            for (int e = 1; 2 * e <= n; ++e)
                for (size_t i = first[e]; i < first[e + 1]; ++i)
                    for (size_t j = first[n - e] > i + 1 ? first[n - e] : i + 1; j < first[n - e + 1]; ++j)
                        if (par[j].first <= i) { par.push_back({i, j}); degree.push_back(n); }
            first[n + 1] = par.size();
        }
    }
    size_t size() const { return par.size() - 1; }
    size_t start(int d) const { return first[d] - 1; }   // number of elements of degree < d
    // coefficients (0-based) of the expansion of every element into words
    std::vector<Vec> expansions(const Alg& A) const {
        std::vector<Vec> e(par.size());
        for (size_t i = 1; i < par.size(); ++i) {
            if (degree[i] == 1) { e[i] = zero(A); e[i][A.off[1] + par[i].second - 1] = 1.0; }
            else e[i] = add(mul_sparse(A, e[par[i].first], e[par[i].second]), mul_sparse(A, e[par[i].second], e[par[i].first]), -1);
        }
        return e;
    }
    static Vec mul_sparse(const Alg& A, const Vec& a, const Vec& b) {
        Vec r = zero(A);
        for (size_t i = 0; i < A.size(); ++i) if (a[i] != 0) for (size_t j = 0; j < A.size(); ++j) if (b[j] != 0) {
            int di = A.deg(i), dj = A.deg(j);
            if (di + dj <= A.D) r[A.off[di + dj] + (i - A.off[di]) * A.pw[dj] + (j - A.off[dj])] += a[i] * b[j];
        }
        return r;
    }
    Vec expand(const Alg& A, const Vec& a) const {
        auto e = expansions(A);
        Vec r = zero(A);
        for (size_t i = 0; i < size(); ++i) for (size_t k = 0; k < A.size(); ++k) if (e[i + 1][k] != 0) r[k] += a[i] * e[i + 1][k];
        return r;
    }
};
// the Dynkin map: a word w1..wn goes to [w1,[w2,..[.,wn]]]/n, the empty word to 0
inline Vec dynkin(const Alg& A, const Vec& t) {
    Vec r = zero(A);
    for (size_t k = 1; k < A.size(); ++k) {
        auto w = A.word(k);
        Vec b = zero(A); b[A.off[1] + w.back()] = 1.0;
        for (int i = (int)w.size() - 2; i >= 0; --i) { Vec l = zero(A); l[A.off[1] + w[i]] = 1.0; b = add(Hall::mul_sparse(A, l, b), Hall::mul_sparse(A, b, l), -1); }
        for (size_t q = 0; q < A.size(); ++q) if (b[q] != 0) r[q] += t[k] / (double)w.size() * b[q];
    }
    return r;
}
}// namespace ref
