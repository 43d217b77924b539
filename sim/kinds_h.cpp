#include "doms.h"
using namespace run;
using namespace dom;
namespace {
using B_p_int = PlainKind<tiny::optional<int>, DInt<int>>;
SIM_KIND(p_int, 0, B_p_int)
using B_p_int_m1 = PlainKind<tiny::optional<int, -1>, DInt<int, true, -1>>;
SIM_KIND(p_int_m1, KF_RESERVED, B_p_int_m1)
using B_p_aip_int = PlainKind<tiny::optional_aip<int>, DInt<int, true, INT32_MIN>>;
SIM_KIND(p_aip_int, KF_RESERVED, B_p_aip_int)
using B_p_aip_uint = PlainKind<tiny::optional_aip<unsigned>, DInt<unsigned, true, UINT32_MAX>>;
SIM_KIND(p_aip_uint, KF_RESERVED, B_p_aip_uint)
using B_p_aip_short = PlainKind<tiny::optional_aip<short>, DInt<short, true, INT16_MIN>>;
SIM_KIND(p_aip_short, KF_RESERVED, B_p_aip_short)
using B_p_aip_llong = PlainKind<tiny::optional_aip<long long>, DInt<long long, true, INT64_MIN>>;
SIM_KIND(p_aip_llong, KF_RESERVED, B_p_aip_llong)
}
