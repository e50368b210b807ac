// Contracts on arrays of scalars and rows of them (scalars/src/{scalar_array,key_scalar_array,scalar_stream,key_scalar_stream,scalar_type}.cpp).
// PROPERTY: C19
// SOURCES: lal platform generics devices device scalars
#include "vc.h"
#include <roughpy/scalars/scalar.h>
#include <roughpy/scalars/scalar_type.h>
#include <roughpy/scalars/scalar_types.h>
#include <roughpy/scalars/scalar_array.h>
#include <roughpy/scalars/key_scalar_array.h>
#include <roughpy/scalars/scalar_stream.h>
#include <roughpy/scalars/key_scalar_stream.h>
#include <cmath>
#include <limits>
#include <stdexcept>
#include <utility>
#include <vector>
using namespace rpy; using namespace rpy::scalars;
using devices::type_info;

template <class... Ts> struct List {};
using Types = List<int8_t, int32_t, int64_t, uint16_t, uint64_t, float, double>;
constexpr unsigned nTypes = 7;
template <class F, class... Ts> static void with_type(unsigned i, List<Ts...>, F&& f) {
    unsigned k = 0; ((k++ == i ? (void)f(Ts()) : (void)0), ...);
}
template <class T> static T value(const char* n) {
    T r = vc::any<T>(n);
    if constexpr (std::is_floating_point_v<T>) REQUIRES(std::fabs(r) <= std::numeric_limits<T>::max());
    return r;
}
template <class D, class S> static bool convertible(S s) {
    if constexpr (std::is_integral_v<D> && std::is_floating_point_v<S>) {
        double lo = static_cast<double>(std::numeric_limits<D>::min()), hi = std::ldexp(1.0, std::numeric_limits<D>::digits);
        return s > lo - 1 && s < hi && s >= lo;
    } else if constexpr (sizeof(D) < sizeof(S) && std::is_floating_point_v<D> && std::is_floating_point_v<S>) return std::fabs(s) <= std::numeric_limits<D>::max();
    else return true;
}
template <class T> static std::vector<T> values(unsigned n, const char* name = "value") {
    std::vector<T> v; for (unsigned i = 0; i < n; ++i) v.push_back(value<T>(name)); return v;
}
template <class T> static bool holds(const ScalarArray& a, const T* v, unsigned n) {
    if (a.size() != n || a.empty() != (n == 0) || (n && a.type_info() != type_info<T>())) return false;
    for (unsigned i = 0; i < n; ++i) if (!(scalar_cast<T>(a[i]) == v[i])) return false;
    if (n) { auto s = a.as_slice<T>(); if (s.size() != n) return false; for (unsigned i = 0; i < n; ++i) if (!(s[i] == v[i])) return false; }
    return true;
}
template <class T> static bool holds(const ScalarArray& a, const std::vector<T>& v) { return holds(a, v.data(), v.size()); }
template <class F> static bool throws(F&& f) { try { f(); } catch (const std::exception&) { return true; } return false; }
// an array of the numbers, held in one of five ways; data outlives it
template <class T> static ScalarArray make(unsigned how, std::vector<T>& data) {
    switch (how) {
        case 0: return ScalarArray(type_info<T>(), static_cast<const void*>(data.data()), data.size());
        case 1: return ScalarArray(type_info<T>(), static_cast<void*>(data.data()), data.size());
        case 2: { ScalarArray r(type_info<T>(), data.size()); for (size_t i = 0; i < data.size(); ++i) r[i] = data[i]; return r; }
        default:
            if constexpr (std::is_floating_point_v<T>) {
                const ScalarType* type = *ScalarType::of<T>();
                if (how == 3) return ScalarArray(type, static_cast<const void*>(data.data()), data.size());
                ScalarArray r(type, data.size()); for (size_t i = 0; i < data.size(); ++i) r[i] = data[i]; return r;
            } else return ScalarArray(const_cast<const T*>(data.data()), data.size());
    }
}
VC_CONTRACT(elements, ieee, bounded, "an array has the numbers it was made from, in order; writing to an element changes that element only, and the data borrowed if they may be written; constants, and what is outside, are refused")
{
    unsigned t = vc::choose("type", nTypes), how = vc::choose("held", 5), n = vc::choose("size", 4);
    with_type(t, Types(), [&](auto z) {
        using T = decltype(z);
        std::vector<T> v = values<T>(n), data = v; T w = value<T>("written");
        ScalarArray a = make<T>(how, data); const ScalarArray& ca = a;
        ENSURES(holds(a, v), "made");
        ENSURES(throws([&] { (void)ca[n]; }) && throws([&] { (void)a[n]; }), "outside");
        bool constant = how == 0 || (how == 3 || (how == 4 && !std::is_floating_point_v<T>));
        if (n) ENSURES(a.is_const() == constant, "constant");
        if (n) {
            unsigned i = vc::choose("element", n);
            if (constant) { ENSURES(throws([&] { a[i] = w; }), "constants are not written"); }
            else { a[i] = w; v[i] = w; }
            ENSURES(holds(a, v), "written");
            if (how <= 1) ENSURES(data == v, "borrowed data"); 
            unsigned b = vc::choose("begin", n), e = b + 1 + vc::choose("length", n - b);
            ScalarArray s = ca[SliceIndex{b, e}];
            ENSURES(holds(s, v.data() + b, e - b) && s.is_const(), "part");
            ENSURES(throws([&] { (void)ca[SliceIndex{0, n + 1}]; }), "part outside");
            if (!constant) {
                ScalarArray m = a[SliceIndex{b, e}]; T u = value<T>("written to the part");
                m[0] = u; v[b] = u; ENSURES(holds(a, v) && holds(m, v.data() + b, e - b), "part written");
                ScalarArray bm = a.borrow_mut(); bm[i] = w; v[i] = w; ENSURES(holds(a, v) && holds(bm, v), "borrowed and written");
            } else ENSURES(throws([&] { (void)a.borrow_mut(); }) && throws([&] { (void)a[SliceIndex{b, e}]; }), "constants are not borrowed to be written");
            ENSURES(holds(a.borrow(), v) && a.borrow().is_const(), "borrowed");
        }
        COVER("accessed");
    });
}
VC_CONTRACT(new_arrays_are_zero, ieee, bounded, "a new array of any type and size holds zeros")
{
    unsigned t = vc::choose("type", nTypes), n = vc::choose("size", 5);
    with_type(t, Types(), [&](auto z) {
        using T = decltype(z);
        std::vector<T> zeros(n, T(0));
        ScalarArray a(type_info<T>(), n); ENSURES(holds(a, zeros), "by type information");
        if constexpr (std::is_floating_point_v<T>) {
            ScalarArray b(*ScalarType::of<T>(), n); ENSURES(holds(b, zeros) && b.type() == *ScalarType::of<T>(), "by type");
            KeyScalarArray k(*ScalarType::of<T>(), n); ENSURES(holds(k, zeros) && !k.has_keys(), "with keys");
            KeyScalarArray l(*ScalarType::of<T>()); l.allocate_scalars(n ? n : 1); if (n) ENSURES(holds(l, zeros), "allocated later");
        }
        ScalarArray d; ENSURES(d.is_null() && d.empty() && d.size() == 0 && throws([&] { (void)d[0]; }), "default");
        COVER("made");
    });
}
VC_CONTRACT(copies_and_moves, ieee, bounded, "assigning an array copies its numbers, into memory of its own; moving carries them over and leaves nothing; either way nothing else changes, whatever the array held before")
{
    unsigned t = vc::choose("type", nTypes), how = vc::choose("held", 5), n = vc::choose("size", 3), before = vc::choose("held before", 4), op = vc::choose("operation", 5);
    with_type(t, Types(), [&](auto z) {
        using T = decltype(z);
        std::vector<T> v = values<T>(n), data = v; T w = value<T>("written");
        std::vector<double> old{1.5, 2.5}, older = old;
        ScalarArray a = make<T>(how, data);
        ScalarArray b;
        if (before == 1) b = ScalarArray(type_info<double>(), static_cast<void*>(old.data()), old.size());
        else if (before == 2) b = ScalarArray(*ScalarType::of<float>(), 3);
        else if (before == 3) b = ScalarArray(type_info<int32_t>(), 2);
        if (op == 0) {
            b = a; ENSURES(holds(b, v) && holds(a, v), "assigned");
            if (n) { ENSURES(b.is_owning() && !b.is_const(), "owned"); b[0] = w; ENSURES(holds(a, v) && data == v, "independent"); v[0] = w; ENSURES(holds(b, v), "and can be written"); }
        } else if (op == 1) {
            b = std::move(a); ENSURES(holds(b, v) && a.empty(), "moved");
            a = b; ENSURES(holds(a, v) && holds(b, v), "and back");
        } else if (op == 2) {
            b = std::move(a).copy_or_clone(); ENSURES(holds(b, v) && data == v, "kept");
            if (n) { ENSURES(b.is_owning(), "owned"); b[0] = w; ENSURES(data == v, "independent"); }
        } else if (op == 3) {
            ScalarArray c(a); b = c; ENSURES(holds(c, v) && holds(b, v) && holds(a, v), "constructed");
            ScalarArray d(std::move(c)); ENSURES(holds(d, v) && holds(a, v) && c.empty(), "constructed by moving");
        } else {
            b = a; b = b; if (n) { const ScalarArray& cb = b; ScalarArray part = cb[SliceIndex{n - 1, n}]; b = part; ENSURES(holds(b, v.data() + n - 1, 1), "assigned a part of itself"); }
            ENSURES(holds(a, v) && data == v, "source");
        }
        ENSURES(old == older, "borrowed before");
        COVER("assigned");
    });
}
VC_CONTRACT(conversion, ieee, bounded, "converting an array into one of another type converts each number as the language does, and changes nothing else")
{
    unsigned i = vc::choose("type", 2), j = vc::choose("type converted", nTypes), n = vc::choose("size", 3), m = vc::choose("held before", 4), how = vc::choose("held", 2);
    with_type(i, List<float, double>(), [&](auto ta) { with_type(j, Types(), [&](auto tb) {
        using A = decltype(ta); using B = decltype(tb);
        const ScalarType* type = *ScalarType::of<A>();
        std::vector<B> v = values<B>(n), data = v; for (auto& x : v) REQUIRES((convertible<A, B>(x)));
        std::vector<A> e; for (auto& x : v) e.push_back(static_cast<A>(x));
        ScalarArray src = make<B>(how * 2, data), dst; std::vector<A> held(m, A(3));
        if (m) dst = make<A>(1 + how, held);
        if (how == 0 && m && m < n) { ENSURES(throws([&] { type->convert_copy(dst, src); }), "no room in borrowed data"); ENSURES(held == std::vector<A>(m, A(3)), "borrowed data unchanged"); COVER("refused"); return; }
        type->convert_copy(dst, src);
        for (unsigned k = n; k < m; ++k) e.push_back(A(3));
        if (n || m) ENSURES(holds(dst, e), "converted");
        ENSURES(holds(src, v), "source");
        if (m && n <= m && how == 0) ENSURES(held == e, "written to the data borrowed");
        A w = value<A>("assigned");
        if (dst.size()) { dst.type().value()->assign(dst, Scalar(w)); ENSURES(holds(dst, std::vector<A>(dst.size(), w)), "assigned"); }
        COVER("converted");
    }); });
}
static bool has_keys(const KeyScalarArray& a, const std::vector<key_type>& k) {
    if (!a.has_keys()) return false;
    for (size_t i = 0; i < k.size(); ++i) if (a.keys()[i] != k[i]) return false;
    return true;
}
VC_CONTRACT(keys_go_with_their_numbers, ieee, bounded, "copying, assigning or moving an array with keys keeps each number with its key; keys that are owned are copied, and freed once")
{
    unsigned n = 1 + vc::choose("size", 2), own = vc::choose("keys owned", 3), how = vc::choose("numbers owned", 3), op = vc::choose("operation", 7), before = vc::choose("held before", 3);
    static const unsigned hows[] = {0, 1, 4};
    std::vector<double> v = values<double>(n), data = v;
    std::vector<key_type> k; for (unsigned i = 0; i < n; ++i) k.push_back(vc::any<key_type>("key"));
    std::vector<key_type> kd = k, k0{7, 8}, k1 = k0; double o[2] = {1, 2};
    KeyScalarArray a = own == 0 ? KeyScalarArray(make<double>(hows[how], data), kd.data()) : KeyScalarArray(make<double>(hows[how], data));
    if (own == 1) { a.allocate_keys(); for (unsigned i = 0; i < n; ++i) { ENSURES(a.keys()[i] == 0, "new keys"); a.keys()[i] = k[i]; } }
    auto keyed = [&](const KeyScalarArray& x) { return holds(x, v) && (own == 2 ? !x.has_keys() : has_keys(x, k)); };
    ENSURES(keyed(a), "made");
    KeyScalarArray b;
    if (before == 1) b = KeyScalarArray(ScalarArray(type_info<double>(), static_cast<const void*>(o), 2), k0.data());
    else if (before == 2) { b = KeyScalarArray(*ScalarType::of<double>(), 3); b.allocate_keys(); }
    switch (op) {
        case 0: b = a; ENSURES(keyed(a) && keyed(b), "assigned"); if (own == 1) { b.keys()[0] ^= 1; ENSURES(keyed(a), "independent"); } break;
        case 1: b = std::move(a); ENSURES(keyed(b) && a.empty() && !a.has_keys(), "moved"); break;
        case 2: { KeyScalarArray c(a); ENSURES(keyed(a) && keyed(c), "copied"); if (own == 1) { c.keys()[0] ^= 1; ENSURES(keyed(a), "independent keys"); } b = a; ENSURES(keyed(b), "and assigned"); break; }
        case 3: { KeyScalarArray c(std::move(a)); ENSURES(keyed(c) && !a.has_keys(), "constructed by moving"); b = c; ENSURES(keyed(b), "and assigned"); break; }
        case 4: {
            b = std::move(a).copy_or_move(); ENSURES(keyed(b), "kept"); ENSURES(b.is_owning(), "numbers owned");
            if (own < 2) { ENSURES(b.keys() != nullptr, "keys owned"); b.keys()[0] ^= 1; ENSURES(kd == k, "borrowed keys"); }
            b[0] = 5.0; ENSURES(data == v, "borrowed numbers"); break;
        }
        case 5: { const ScalarArray& base = a; b = base; ENSURES(holds(b, v) && !b.has_keys(), "numbers assigned"); break; }
        default: { b = a; b = b; b.allocate_keys(); for (unsigned i = 0; i < n; ++i) ENSURES(b.keys()[i] == 0, "new keys replace others"); ENSURES(keyed(a) && holds(b, v), "and nothing else"); }
    }
    ENSURES(kd == k && k0 == k1 && o[0] == 1 && o[1] == 2, "data borrowed");
    COVER("copied");
}
VC_CONTRACT(rows, ieee, bounded, "a stream of scalars has the rows pushed, in order, with their keys; copies and moves of it have the same rows; what it held before goes")
{
    unsigned r = vc::choose("rows", 4), op = vc::choose("operation", 5), before = vc::choose("rows before", 3), pattern = vc::choose("rows with keys", 8);
    std::vector<std::vector<double>> v; std::vector<std::vector<key_type>> k; 
    KeyScalarStream s(*ScalarType::of<double>()), b(*ScalarType::of<float>());
    s.reserve_size(r);
    for (unsigned i = 0; i < r; ++i) {
        v.push_back(values<double>(1 + (i * 2) % 3)); k.emplace_back();
        for (size_t j = 0; j < v[i].size(); ++j) k[i].push_back(vc::any<key_type>("key"));
    }
    bool any = false;
    for (unsigned i = 0; i < r; ++i) {
        const key_type* keys = (pattern >> i) & 1 ? k[i].data() : nullptr; any |= keys != nullptr;
        ScalarArray row(type_info<double>(), static_cast<const void*>(v[i].data()), v[i].size());
        if (i & 1) s.push_back(std::move(row), keys); else s.push_back(row, keys);
    }
    double old[2] = {1, 2}; key_type ok[2] = {3, 4};
    for (unsigned i = 0; i < before; ++i) b.push_back(ScalarArray(type_info<double>(), static_cast<const void*>(old), 2), ok);
    size_t widest = 0; for (auto& x : v) widest = std::max(widest, x.size());
    auto same = [&](const KeyScalarStream& x) {
        if (x.row_count() != r || x.max_row_size() != widest || x.type() != *ScalarType::of<double>()) return false;
        for (unsigned i = 0; i < r; ++i) {
            KeyScalarArray a = x[i];
            if (x.col_count(i) != v[i].size() || !holds(a, v[i])) return false;
            if (((pattern >> i) & 1) ? !has_keys(a, k[i]) : a.has_keys()) return false;
            const ScalarStream& base = x;
            if (!holds(base[i], v[i])) return false;
            for (size_t j = 0; j < v[i].size(); ++j) if (!(scalar_cast<double>(base[std::pair<dimn_t, dimn_t>(i, j)]) == v[i][j])) return false;
        }
        return true;
    };
    ENSURES(same(s), "pushed");
    switch (op) {
        case 0: b = s; ENSURES(same(b) && same(s), "assigned"); break;
        case 1: b = std::move(s); ENSURES(same(b), "moved"); s = b; ENSURES(same(s) && same(b), "and back"); break;
        case 2: { KeyScalarStream c(s); ENSURES(same(c) && same(s), "copied"); b = c; ENSURES(same(b) && same(c), "and assigned"); break; }
        case 3: { KeyScalarStream c(std::move(s)); ENSURES(same(c), "constructed by moving"); b = std::move(c); ENSURES(same(b), "and moved"); break; }
        default: { std::vector<double> flat; for (unsigned i = 0; i < r; ++i) { flat.push_back(v[i][0]); flat.push_back(v[i][0]); }
            if (r) { ScalarStream t(ScalarArray(type_info<double>(), static_cast<void*>(flat.data()), flat.size()), {r, 2}); ENSURES(t.row_count() == r, "rows of a table");
                for (unsigned i = 0; i < r; ++i) ENSURES(holds(t[i], flat.data() + 2 * i, 2), "row of a table"); } }
    }
    COVER("pushed");
}
