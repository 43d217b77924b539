#include "doms.h"
using namespace run;
using namespace dom;
namespace {
#if SIM_MEMBITS
using B_p_ts_d = PlainKind<tiny::optional<TS, &TS::d>, DTS<1>>;
SIM_KIND(p_ts_d, KF_MEMPTR, B_p_ts_d)
using B_p_ts_b = PlainKind<tiny::optional<TS, &TS::b>, DTS<0>>;
SIM_KIND(p_ts_b, KF_MEMPTR, B_p_ts_b)
#endif
using B_p_ts_e = PlainKind<tiny::optional<TS, &TS::e, 42>, DTS<2>>;
SIM_KIND(p_ts_e, KF_MEMPTR|KF_RESERVED, B_p_ts_e)
#if SIM_MEMBITS
using B_p_ts_p = PlainKind<tiny::optional<TS, &TS::p>, DTS<3>>;
SIM_KIND(p_ts_p, KF_MEMPTR, B_p_ts_p)
#endif
using B_p_empty = PlainKind<tiny::optional<EmptyS>, DEmptyS>;
SIM_KIND(p_empty, 0, B_p_empty)
using B_p_addrov = PlainKind<tiny::optional<AddrOv>, DAddrOv>;
SIM_KIND(p_addrov, 0, B_p_addrov)
#if SIM_MEMBITS
using B_p_addrov_m = PlainKind<tiny::optional<AddrOv, &AddrOv::p>, DAddrOv>;
SIM_KIND(p_addrov_m, KF_MEMPTR, B_p_addrov_m)
#endif
using B_s_double = PlainKind<std::optional<double>, DDouble>;
SIM_KIND_X(s_double, KF_STD, B_s_double, static constexpr bool is_std = true;)
}
