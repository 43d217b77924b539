#include "runner.h"
using namespace run;
using namespace pl;
namespace {
using B_c_whole = TrackedKind<tiny::optional<PWhole>, PWhole>;
SIM_KIND_X(c_whole, KF_TRACKED | KF_MANIP, B_c_whole, static constexpr bool manip = true;)
using B_c_wholent = TrackedKind<tiny::optional<PWholeNt>, PWholeNt>;
SIM_KIND_X(c_wholent, KF_TRACKED | KF_MANIP, B_c_wholent, static constexpr bool manip = true;)
using B_c_inplace = TrackedKind<tiny::optional_inplace<PInplace, WholeManip<PInplace>>, PInplace>;
SIM_KIND_X(c_inplace, KF_TRACKED | KF_MANIP, B_c_inplace, static constexpr bool manip = true;)
}
