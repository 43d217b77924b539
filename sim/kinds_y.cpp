// Volatile payloads.
#include "doms.h"
using namespace run;
using namespace dom;
namespace {
template <class D> struct DV : D {
  using Src = SConv<D>;
  static constexpr bool hashable = false;
  static uint64_t fp(typename D::U const volatile &d) {
    typename D::U x = d;
    return D::fp(x);
  }
};
template <class O, class D> struct VKind : PlainKind<O, D> {
  static uint64_t fp(typename D::U const volatile &d) { return D::fp(d); }
};
using B_p_vdouble = VKind<tiny::optional<double volatile>, DV<DDouble>>;
SIM_KIND_X(p_vdouble, 0, B_p_vdouble, static constexpr bool braces = false;)
using B_p_vint = VKind<tiny::optional<int volatile, -1>, DV<DInt<int, true, -1>>>;
SIM_KIND_X(p_vint, KF_RESERVED, B_p_vint, static constexpr bool braces = false;)
using B_p_vcbool = VKind<tiny::optional<bool volatile const>, DV<DBool>>;
SIM_KIND_X(p_vcbool, 0, B_p_vcbool, static constexpr bool braces = false;)
}
