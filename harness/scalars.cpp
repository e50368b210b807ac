// Contracts on scalars (scalars/src/scalar.cpp, scalars/src/scalar/{arithmetic,comparison,casts,type_promotion}.cpp).
// PROPERTY: C18
// SOURCES: platform:devices generics devices device scalars lal
// BUDGET arithmetic: 700
// BUDGET arithmetic_in_place: 600
// SHARDS arithmetic_in_place: 10
// SHARDS arithmetic: 10
// SHARDS equality: 10
#include "vc.h"
#include <roughpy/scalars/scalar.h>
#include <roughpy/scalars/scalar_type.h>
#include <roughpy/scalars/scalar_types.h>
#include <cmath>
#include <cstring>
#include <limits>
#include <stdexcept>
#include <utility>
using namespace rpy; using namespace rpy::scalars;
using devices::TypeInfo; using devices::type_info;

template <class... Ts> struct List {};
using Types = List<int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint64_t, float, double>;
using Floats = List<float, double>;
template <class F, class... Ts> static void with_type(unsigned i, List<Ts...>, F&& f) {
    unsigned k = 0; ((k++ == i ? (void)f(Ts()) : (void)0), ...);
}
template <class F> static void with_types(F&& f) {
    unsigned i = vc::choose("left type", 10), j = vc::choose("right type", 10);
    with_type(i, Types(), [&](auto a) { with_type(j, Types(), [&](auto b) { f(a, b); }); });
}
template <class T> static T value(const char* n) {
    T r = vc::any<T>(n);
    if constexpr (std::is_floating_point_v<T>) REQUIRES(std::fabs(r) <= std::numeric_limits<T>::max());
    return r;
}
// the type arithmetic between values of two types takes place in
template <size_t N, bool S> struct Int; 
template <> struct Int<1, true> { using t = int8_t; }; template <> struct Int<1, false> { using t = uint8_t; };
template <> struct Int<2, true> { using t = int16_t; }; template <> struct Int<2, false> { using t = uint16_t; };
template <> struct Int<4, true> { using t = int32_t; }; template <> struct Int<4, false> { using t = uint32_t; };
template <> struct Int<8, true> { using t = int64_t; }; template <> struct Int<8, false> { using t = uint64_t; };
template <class A, class B> struct Common {
    static auto f() {
        constexpr bool fa = std::is_floating_point_v<A>, fb = std::is_floating_point_v<B>;
        if constexpr (fa && fb) { if constexpr (sizeof(A) >= sizeof(B)) return A(); else return B(); }
        else if constexpr (fa) return A();
        else if constexpr (fb) return B();
        else if constexpr (std::is_signed_v<A> == std::is_signed_v<B>) { if constexpr (sizeof(A) >= sizeof(B)) return A(); else return B(); }
        else {
            constexpr size_t u = std::is_signed_v<A> ? sizeof(B) : sizeof(A), s = std::is_signed_v<A> ? sizeof(A) : sizeof(B);
            constexpr size_t n = s > u ? s : (u == 8 ? 8 : 2 * u);
            return typename Int<n, true>::t();
        }
    }
    using t = decltype(f());
};
template <class T> static bool same(T a, T b) { return a == b || (a != a && b != b); }
template <class P> static P as(const Scalar& s) { return s.type_info() == type_info<P>() ? s.as_type<P>() : scalar_cast<P>(s); }
template <class P> static bool compute(unsigned op, P x, P y, P& r) {
    if constexpr (std::is_floating_point_v<P>) {
        switch (op) { case 0: r = x + y; break; case 1: r = x - y; break; case 2: r = x * y; break; default: if (y == 0) return false; r = x / y; }
        return true;
    } else {
        switch (op) {
            case 0: return !__builtin_add_overflow(x, y, &r);
            case 1: return !__builtin_sub_overflow(x, y, &r);
            case 2: return !__builtin_mul_overflow(x, y, &r);
            default:
                if (y == 0) return false;
                if constexpr (std::is_signed_v<P>) if (x == std::numeric_limits<P>::min() && y == P(-1)) return false;
                r = x / y; return true;
        }
    }
}
static Scalar apply(unsigned op, const Scalar& a, const Scalar& b) {
    switch (op) { case 0: return a + b; case 1: return a - b; case 2: return a * b; default: return a / b; }
}
static void apply_inplace(unsigned op, Scalar& a, const Scalar& b) {
    switch (op) { case 0: a += b; break; case 1: a -= b; break; case 2: a *= b; break; default: a /= b; }
}

VC_CONTRACT(arithmetic, ieee, proof, "sums, differences, products and quotients of numbers of any two builtin types are those of the numbers in the common type, and neither operand changes")
{
    with_types([](auto ta, auto tb) {
        using A = decltype(ta); using B = decltype(tb); using P = typename Common<A, B>::t;
        unsigned op = vc::choose("operation", 4);
        A a = value<A>("left"); B b = value<B>("right");
        P r; REQUIRES(compute<P>(op, static_cast<P>(a), static_cast<P>(b), r));
        Scalar x(a), y(b);
        Scalar z = apply(op, x, y);
        ENSURES(same(as<P>(z), r), "the result");
        ENSURES(x.template as_type<A>() == a && y.template as_type<B>() == b, "operands");
        COVER("computed");
    });
}
VC_CONTRACT(arithmetic_in_place, ieee, proof, "operations in place have the value of the binary ones: a scalar that owns its value takes the common type, one that refers to a number elsewhere changes that number and keeps its type")
{
    unsigned i = vc::choose("left type", 10), op = vc::choose("operation", 4), j = vc::choose("right type", 4), ref = vc::choose("refers", 2);
    with_type(i, Types(), [&](auto ta) { with_type(j, List<int32_t, uint64_t, float, double>(), [&](auto tb) {
        using A = decltype(ta); using B = decltype(tb); using P = typename Common<A, B>::t;
        A a = value<A>("left"); B b = value<B>("right");
        Scalar y(b);
        if (!ref) {
            P r; REQUIRES(compute<P>(op, static_cast<P>(a), static_cast<P>(b), r));
            Scalar x(a);
            apply_inplace(op, x, y);
            ENSURES(same(as<P>(x), r), "owned result");
        } else if constexpr (std::is_same_v<A, B>) {
            P r; REQUIRES(compute<P>(op, a, b, r));
            A held = a;
            Scalar x(type_info<A>(), static_cast<void*>(&held));
            apply_inplace(op, x, y);
            ENSURES(same(held, static_cast<A>(r)) && same(as<A>(x), held), "the number referred to changes");
        } else if constexpr (std::is_floating_point_v<A>) {
            A r, c = static_cast<A>(b);
            REQUIRES(std::fabs(c) <= std::numeric_limits<A>::max());
            REQUIRES(op != 3 || c != 0); REQUIRES(compute<A>(op, a, c, r));
            A held = a;
            const ScalarType* type = *ScalarType::of<A>();
            Scalar x(type, static_cast<void*>(&held));
            apply_inplace(op, x, y);
            ENSURES(same(held, r) && x.type_info() == type_info<A>(), "the number referred to changes, in its own type");
        }
        ENSURES(y.template as_type<B>() == b, "right operand");
        COVER("computed");
    }); });
}
VC_CONTRACT(negation, ieee, proof, "the negative of a number of any builtin type is the negative number, of the same type, whichever way the scalar holds it")
{
    unsigned i = vc::choose("type", 10), how = vc::choose("held", 3);
    with_type(i, Types(), [&](auto t) {
        using A = decltype(t);
        A a = value<A>("value"), held = a;
        if constexpr (std::is_integral_v<A> && std::is_signed_v<A>) REQUIRES(a != std::numeric_limits<A>::min());
        auto go = [&](const Scalar& x) {
            Scalar y = -x;
            ENSURES(y.type_info() == type_info<A>() && as<A>(y) == static_cast<A>(-a), "negative");
            ENSURES(x.as_type<A>() == a && as<A>(-y) == a, "the operand, and twice");
        };
        if (how == 0) go(Scalar(a)); else if (how == 1) go(Scalar(type_info<A>(), static_cast<void*>(&held))); else go(Scalar(type_info<A>(), static_cast<const void*>(&held)));
        COVER("negated");
    });
}
// whether an integer and a floating point number are the same number, from the representation of the latter: m * 2^e
template <class I> static bool equal_number(I i, double d) {
    if (d != d) return false;
    uint64_t b; std::memcpy(&b, &d, 8);
    bool neg = b >> 63; int ex = (b >> 52) & 0x7ff; uint64_t m = b & ((uint64_t(1) << 52) - 1);
    if (ex == 0x7ff) return false;
    if (ex == 0) return m == 0 && i == 0;
    m |= uint64_t(1) << 52; int e = ex - 1075;
    uint64_t u = i; if constexpr (std::is_signed_v<I>) { if ((i < 0) != neg) return false; if (neg) u = uint64_t(0) - u; } else if (neg) return false;
    if (u == 0) return false;
    if (e >= 0) return e <= 11 && (m << e) == u;
    return e >= -52 && (m >> -e) == u && (u << -e) == m;
}
template <class A, class B> static bool equal_numbers(A a, B b) {
    if constexpr (std::is_floating_point_v<A> && std::is_floating_point_v<B>) return static_cast<double>(a) == static_cast<double>(b);
    else if constexpr (std::is_floating_point_v<A>) return equal_number(b, static_cast<double>(a));
    else if constexpr (std::is_floating_point_v<B>) return equal_number(a, static_cast<double>(b));
    else return static_cast<__int128>(a) == static_cast<__int128>(b);
}
VC_CONTRACT(equality, ieee, proof, "scalars of any two builtin types are equal exactly when they hold the same number, in either order")
{
    with_types([](auto ta, auto tb) {
        using A = decltype(ta); using B = decltype(tb);
        A a = vc::any<A>("left"); B b = vc::any<B>("right");
        if constexpr (std::is_same_v<A, float>) REQUIRES(a == a);
        if constexpr (std::is_same_v<B, float>) REQUIRES(b == b);
        Scalar x(a), y(b);
        bool e = equal_numbers(a, b);
        ENSURES((x == y) == e, "equal");
        ENSURES((y == x) == e, "the other way");
        ENSURES((x != y) == !e, "unequal");
        COVER("compared");
    });
}
VC_CONTRACT(zero_test, ieee, proof, "a scalar is zero exactly when its number is, and then it equals the default scalar; a sum with the default scalar is the number itself")
{
    unsigned i = vc::choose("type", 10), how = vc::choose("held", 2);
    with_type(i, Types(), [&](auto t) {
        using A = decltype(t);
        A a = value<A>("value"), held = a;
        auto go = [&](const Scalar& x) {
            Scalar none;
            ENSURES(x.is_zero() == (a == 0), "zero");
            ENSURES((x == none) == (a == 0) && (none == x) == (a == 0), "compared to the default");
            ENSURES(as<A>(x + none) == a && as<A>(none + x) == a && as<A>(x - none) == a, "sums with the default");
            ENSURES(as<A>(x * none) == 0 && as<A>(none * x) == 0, "products with the default");
            if constexpr (!std::is_integral_v<A>) ENSURES(as<A>(none - x) == -a, "difference from the default");
            bool thrown = false; try { (void)(x / none); } catch (const std::domain_error&) { thrown = true; }
            ENSURES(thrown, "division by the default");
            thrown = false; try { Scalar q = none / x; ENSURES(q.is_zero(), "quotient of zero"); } catch (const std::domain_error&) { thrown = true; }
            ENSURES(thrown == (a == 0), "division by zero is refused, any other is not");
            thrown = false; try { (void)(Scalar(1.0) / x); } catch (const std::domain_error&) { thrown = true; }
            ENSURES(thrown == (a == 0), "division by zero is refused, for any type");
        };
        if (how == 0) go(Scalar(a)); else go(Scalar(type_info<A>(), static_cast<const void*>(&held)));
        COVER("tested");
    });
}
// whether the conversion of a number to another type is defined by the language
template <class D, class S> static bool convertible(S s) {
    if constexpr (std::is_integral_v<D> && std::is_floating_point_v<S>) {
        double lo = static_cast<double>(std::numeric_limits<D>::min()), hi = std::ldexp(1.0, std::numeric_limits<D>::digits);
        return s > lo - 1 && s < hi && s >= lo;
    } else if constexpr (sizeof(D) < sizeof(S) && std::is_floating_point_v<D> && std::is_floating_point_v<S>) return std::fabs(s) <= std::numeric_limits<D>::max();
    else return true;
}
VC_CONTRACT(assignment, ieee, proof, "assigning converts the number to the type of the scalar assigned to; copies are independent of what they were copied from")
{
    unsigned i = vc::choose("type", 10), j = vc::choose("type assigned", 10), how = vc::choose("how", 4);
    with_type(i, Types(), [&](auto ta) { with_type(j, Types(), [&](auto tb) {
        using A = decltype(ta); using B = decltype(tb);
        A a = value<A>("before"); B b = value<B>("after"); REQUIRES((convertible<A, B>(b)));
        A expect = static_cast<A>(b), held = a; B from = b;
        Scalar x = (how == 3) ? Scalar(type_info<A>(), static_cast<void*>(&held)) : Scalar(a), copy(x);
        ENSURES(copy.template as_type<A>() == a && copy.type_info() == type_info<A>() && !copy.is_reference(), "copy");
        if (how == 0) x = Scalar(b); else if (how == 1) { Scalar y(b); x = y; ENSURES(y.template as_type<B>() == b, "source"); }
        else if (how == 2) { Scalar y(type_info<B>(), static_cast<const void*>(&from)); x = y; } else x = b;
        ENSURES(x.type_info() == type_info<A>() && as<A>(x) == expect, "converted");
        if (how == 3) ENSURES(held == expect, "written through the reference");
        ENSURES(copy.template as_type<A>() == a && from == b, "the copy is independent");
        x = copy; ENSURES(as<A>(x) == a && from == b, "assigned back");
        COVER("assigned");
    }); });
}
VC_CONTRACT(moves_and_swaps, ieee, proof, "moving carries the number over and leaves a scalar that can be assigned; swapping exchanges the numbers of the same type; the default scalar takes what it is assigned; constants are not written")
{
    unsigned i = vc::choose("type", 10);
    with_type(i, Types(), [&](auto t) {
        using A = decltype(t);
        A a = value<A>("first"), b = value<A>("second"), held = a;
        Scalar x(a), y(b);
        std::swap(x, y);
        ENSURES(as<A>(x) == b && as<A>(y) == a, "swapped");
        Scalar z(std::move(x)); ENSURES(as<A>(z) == b && z.type_info() == type_info<A>(), "moved");
        x = a; ENSURES(as<A>(x) == a, "assigned after the move");
        Scalar r(type_info<A>(), static_cast<void*>(&held)), s(std::move(r));
        s = b; ENSURES(held == b, "a moved reference refers to the same number");
        r = a; ENSURES(held == b && as<A>(r) == a, "the scalar moved from does not");
        Scalar d; d = z; ENSURES(as<A>(d) == b && d.type_info() == type_info<A>(), "default assigned");
        Scalar n; n = a; ENSURES(as<A>(n) == a && n.type_info() == type_info<A>(), "default assigned a number");
        Scalar m; m = Scalar(type_info<A>(), static_cast<const void*>(&held)); m += Scalar(A(0));
        ENSURES(as<A>(m) == b, "default assigned a reference");
        held = a; 
        Scalar c(type_info<A>(), static_cast<const void*>(&held)), cc(c);
        ENSURES(c.is_const() || a == 0, "constant");
        bool thrown = false; try { c = b; } catch (const std::exception&) { thrown = true; }
        ENSURES(thrown && held == a, "constants are not written");
        thrown = false; try { c += Scalar(A(1)); } catch (const std::exception&) { thrown = true; }
        ENSURES(thrown && held == a, "constants are not added to");
        cc = b; ENSURES(held == a && as<A>(cc) == b, "copies of constants are not constant");
        COVER("moved");
    });
}
VC_CONTRACT(constructed_with_a_type, ieee, proof, "a scalar constructed with a scalar type holds the number converted to that type; a fraction is the quotient")
{
    unsigned i = vc::choose("type", 2), j = vc::choose("type given", 10);
    with_type(i, Floats(), [&](auto ta) { with_type(j, Types(), [&](auto tb) {
        using A = decltype(ta); using B = decltype(tb);
        B b = value<B>("value"); REQUIRES((convertible<A, B>(b)));
        const ScalarType* type = *ScalarType::of<A>();
        Scalar x(type, B(b));
        ENSURES(x.type_info() == type_info<A>() && x.type() == type && as<A>(x) == static_cast<A>(b), "converted");
        Scalar z(type); ENSURES(z.is_zero() && z.type() == type && z.type_info() == type_info<A>(), "zero of the type");
        z = b; ENSURES(z.type() == type && as<A>(z) == static_cast<A>(b), "zero assigned");
        int64_t n = vc::any<int64_t>("numerator"), m = vc::any<int64_t>("denominator"); REQUIRES(m != 0);
        Scalar q(type, n, m); ENSURES(q.type() == type && same(as<A>(q), static_cast<A>(static_cast<A>(n) / static_cast<A>(m))), "fraction");
        COVER("constructed");
    }); });
}
VC_CONTRACT(casts, ieee, proof, "a scalar of any builtin type cast to any other gives the number converted as the language does")
{
    with_types([](auto ta, auto tb) {
        using A = decltype(ta); using B = decltype(tb);
        A a = value<A>("value"), held = a; REQUIRES((convertible<B, A>(a)));
        ENSURES(scalar_cast<B>(Scalar(a)) == static_cast<B>(a), "cast");
        ENSURES(scalar_cast<B>(Scalar(type_info<A>(), static_cast<const void*>(&held))) == static_cast<B>(a), "cast of a reference");
        COVER("cast");
    });
}
