#include "doms.h"
using namespace run;
using namespace dom;
namespace {
struct S425 { static constexpr double value = 42.5; };
using B_p_double_via = PlainKind<tiny::optional_sentinel_via_type<double, S425>, DDoubleSent>;
SIM_KIND(p_double_via, KF_RESERVED, B_p_double_via)
using B_p_cdouble = PlainKind<tiny::optional<double const>, DDouble>;
SIM_KIND(p_cdouble, 0, B_p_cdouble)
using B_p_ldouble = PlainKind<tiny::optional<long double>, DLongDouble>;
SIM_KIND(p_ldouble, 0, B_p_ldouble)
using B_p_voidp = PlainKind<tiny::optional<void *>, DPtr<void *>>;
SIM_KIND(p_voidp, 0, B_p_voidp)
#if SIM_BITS
using B_p_intp = PlainKind<tiny::optional_aip<int const *>, DPtr<int const *>>;
SIM_KIND(p_intp, 0, B_p_intp)
#endif
using B_p_fnp = PlainKind<tiny::optional<int (*)(double)>, DPtr<int (*)(double)>>;
SIM_KIND(p_fnp, 0, B_p_fnp)
}
