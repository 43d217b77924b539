#include "doms.h"
using namespace run;
using namespace dom;
namespace {
using B_p_u8_255 = PlainKind<tiny::optional<unsigned char, 255>, DInt<unsigned char, true, 255>>;
SIM_KIND(p_u8_255, KF_RESERVED, B_p_u8_255)
using B_p_aip_ullong = PlainKind<tiny::optional_aip<unsigned long long>, DInt<unsigned long long, true, UINT64_MAX>>;
SIM_KIND(p_aip_ullong, KF_RESERVED, B_p_aip_ullong)
using B_p_aip_ushort = PlainKind<tiny::optional_aip<unsigned short>, DInt<unsigned short, true, 65535>>;
SIM_KIND(p_aip_ushort, KF_RESERVED, B_p_aip_ushort)
using B_p_aip_long = PlainKind<tiny::optional_aip<long>, DInt<long, true, std::numeric_limits<long>::min()>>;
SIM_KIND(p_aip_long, KF_RESERVED, B_p_aip_long)
using B_p_aip_ulong = PlainKind<tiny::optional_aip<unsigned long>, DInt<unsigned long, true, std::numeric_limits<unsigned long>::max()>>;
SIM_KIND(p_aip_ulong, KF_RESERVED, B_p_aip_ulong)
using B_p_bool = PlainKind<tiny::optional<bool>, DBool>;
SIM_KIND(p_bool, 0, B_p_bool)
}
