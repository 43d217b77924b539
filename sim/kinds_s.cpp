#include "runner.h"
using namespace run;
using namespace pl;
namespace {
using B_s_throw = TrackedKind<std::optional<TThrow>, TThrow>;
SIM_KIND_X(s_throw, KF_TRACKED | KF_STD, B_s_throw, static constexpr bool is_std = true;)
using B_s_nmove = TrackedKind<std::optional<TNMove>, TNMove>;
SIM_KIND_X(s_nmove, KF_TRACKED | KF_STD, B_s_nmove, static constexpr bool is_std = true;)
using B_s_moveonly = TrackedKind<std::optional<TMoveOnly>, TMoveOnly>;
SIM_KIND_X(s_moveonly, KF_TRACKED | KF_STD, B_s_moveonly, static constexpr bool is_std = true;)
using B_s_heap = TrackedKind<std::optional<THeap>, THeap>;
SIM_KIND_X(s_heap, KF_TRACKED | KF_STD | KF_HEAP, B_s_heap, static constexpr bool is_std = true;)
}
