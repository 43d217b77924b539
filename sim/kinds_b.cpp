#include "runner.h"
using namespace run;
using namespace pl;
namespace {
using B_t_adlswap = TrackedKind<tiny::optional<TAdlSwap>, TAdlSwap>; SIM_KIND(t_adlswap, KF_TRACKED, B_t_adlswap)
using B_t_noassign = TrackedKind<tiny::optional<TNoAssign>, TNoAssign>; SIM_KIND(t_noassign, KF_TRACKED, B_t_noassign)
using B_t_pinned = TrackedKind<tiny::optional<TPinned>, TPinned>; SIM_KIND(t_pinned, KF_TRACKED, B_t_pinned)
using B_t_heap = TrackedKind<tiny::optional<THeap>, THeap>; SIM_KIND(t_heap, KF_TRACKED|KF_HEAP, B_t_heap)
using B_t_aligned = TrackedKind<tiny::optional<TAligned>, TAligned>; SIM_KIND(t_aligned, KF_TRACKED, B_t_aligned)
}
