#include "runner.h"
using namespace run;
using namespace pl;
namespace {
using B_c_partial = TrackedKind<tiny::optional<PPartial>, PPartial>;
SIM_KIND_X(c_partial, KF_TRACKED | KF_MANIP, B_c_partial, static constexpr bool manip = true;)
using B_c_partialnt = TrackedKind<tiny::optional_aip<PPartialNt>, PPartialNt>;
SIM_KIND_X(c_partialnt, KF_TRACKED | KF_MANIP, B_c_partialnt, static constexpr bool manip = true;)
#if SIM_MEMFLAG
using B_c_member = TrackedKind<tiny::optional<MManip, &MManip::flag>, MManip>;
SIM_KIND_X(c_member, KF_TRACKED | KF_MANIP | KF_MEMPTR, B_c_member, static constexpr bool manip = true;)
#endif
}
