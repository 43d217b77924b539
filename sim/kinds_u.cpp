#include "doms.h"
using namespace run;
using namespace dom;
namespace {
using B_p_cint = PlainKind<tiny::optional<int const, 42>, DInt<int, true, 42>>;
SIM_KIND(p_cint, KF_RESERVED, B_p_cint)
struct SLD { static constexpr long double value = -2.5L; };
using B_p_ldouble_via = PlainKind<tiny::optional_sentinel_via_type<long double, SLD>, DLongDoubleSent>;
SIM_KIND(p_ldouble_via, KF_RESERVED, B_p_ldouble_via)
#if SIM_BITS
using B_p_aip_bool = PlainKind<tiny::optional_aip<bool>, DBool>;
SIM_KIND(p_aip_bool, 0, B_p_aip_bool)
#endif
using B_p_array = PlainKind<tiny::optional<std::array<double, 3>>, DArray>;
SIM_KIND(p_array, 0, B_p_array)
using B_p_big = PlainKind<tiny::optional<Big>, DBig>;
SIM_KIND(p_big, 0, B_p_big)
using B_p_nestbool = PlainKind<tiny::optional<tiny::optional<bool>>, DNested<tiny::optional<bool>>>;
SIM_KIND_X(p_nestbool, 0, B_p_nestbool, static constexpr bool braces = false;)
}
