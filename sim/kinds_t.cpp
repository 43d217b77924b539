#include "doms.h"
using namespace run;
using namespace dom;
namespace {
using B_p_char_z = PlainKind<tiny::optional<char, 'z'>, DInt<char, true, 'z'>>;
SIM_KIND(p_char_z, KF_RESERVED, B_p_char_z)
using B_p_schar_min = PlainKind<tiny::optional<signed char, -128>, DInt<signed char, true, -128>>;
SIM_KIND(p_schar_min, KF_RESERVED, B_p_schar_min)
using B_p_wchar_0 = PlainKind<tiny::optional<wchar_t, L'\0'>, DInt<wchar_t, true, L'\0'>>;
SIM_KIND(p_wchar_0, KF_RESERVED, B_p_wchar_0)
using B_p_u16_0 = PlainKind<tiny::optional<uint16_t, 0>, DInt<uint16_t, true, 0>>;
SIM_KIND(p_u16_0, KF_RESERVED, B_p_u16_0)
using B_p_int_max = PlainKind<tiny::optional<int, INT32_MAX>, DInt<int, true, INT32_MAX>>;
SIM_KIND(p_int_max, KF_RESERVED, B_p_int_max)
using B_p_i64_min = PlainKind<tiny::optional<int64_t, INT64_MIN>, DInt<int64_t, true, INT64_MIN>>;
SIM_KIND(p_i64_min, KF_RESERVED, B_p_i64_min)
}
