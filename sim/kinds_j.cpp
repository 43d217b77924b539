#include "doms.h"
using namespace run;
using namespace dom;
template <> struct tiny::optional_flag_manipulator<dom::E3> : tiny::sentinel_flag_manipulator<dom::E3, dom::E3::none> {};
namespace {
using B_p_bool_s = PlainKind<tiny::optional<bool, false>, DBoolTrue>;
SIM_KIND(p_bool_s, KF_RESERVED, B_p_bool_s)
using B_p_double = PlainKind<tiny::optional<double>, DDouble>;
SIM_KIND(p_double, 0, B_p_double)
using B_p_float = PlainKind<tiny::optional<float>, DFloat>;
SIM_KIND(p_float, 0, B_p_float)
using B_p_enum1 = PlainKind<tiny::optional<E1, E1::none>, DEnum<E1>>;
SIM_KIND(p_enum1, KF_RESERVED, B_p_enum1)
using B_p_enum2 = PlainKind<tiny::optional<E2, E2::none>, DEnum<E2>>;
SIM_KIND(p_enum2, KF_RESERVED, B_p_enum2)
using B_p_enum3 = PlainKind<tiny::optional<E3>, DEnum<E3>>;
SIM_KIND(p_enum3, KF_RESERVED, B_p_enum3)
}
