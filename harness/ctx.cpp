// SOURCES: lal intervals platform generics devices device scalars algebra
#include <vc.h>
#include <roughpy/algebra/context.h>
#include <roughpy/algebra/free_tensor.h>
#include <roughpy/algebra/lie.h>
#include <roughpy/scalars/scalar_types.h>
#include <roughpy/scalars/scalar_type.h>
using namespace rpy;
using namespace rpy::algebra;
VC_CONTRACT(ctx_smoke, real, bounded, "smoke")
{
    auto ctx = get_context(2, 2, *scalars::ScalarType::of<double>(), {});
    double d[7];
    for (int i = 0; i < 7; ++i) d[i] = vc::num("a");
    double e[7];
    for (int i = 0; i < 7; ++i) e[i] = vc::num("b");
    VectorConstructionData A{scalars::KeyScalarArray(scalars::ScalarArray(*scalars::ScalarType::of<double>(), (const void*)d, 7)), VectorType::Dense};
    VectorConstructionData B{scalars::KeyScalarArray(scalars::ScalarArray(*scalars::ScalarType::of<double>(), (const void*)e, 7)), VectorType::Dense};
    FreeTensor a = ctx->construct_free_tensor(A), b = ctx->construct_free_tensor(B);
    FreeTensor c = a.mul(b);
    COVER("done");
    auto r = c[0];
    double x = scalars::scalar_cast<double>(r);
    ENSURES(vc::eq(x, d[0]*e[0]), "unit");
    ENSURES(vc::eq(scalars::scalar_cast<double>(c[3]), d[0]*e[3]+d[1]*e[1]+d[3]*e[0]), "11");
}
// x
