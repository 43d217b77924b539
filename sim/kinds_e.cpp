#include "runner.h"
using namespace run;
using namespace pl;
namespace {
using B_m_int = TrackedKind<tiny::optional<MInt, &MInt::flag, -1>, MInt>; SIM_KIND(m_int, KF_TRACKED|KF_MEMPTR, B_m_int)
#if SIM_MEMBITS
using B_m_heapbool = TrackedKind<tiny::optional<MHeapBool, &MHeapBool::flag>, MHeapBool>; SIM_KIND(m_heapbool, KF_TRACKED|KF_MEMPTR|KF_HEAP, B_m_heapbool)
using B_m_noassign = TrackedKind<tiny::optional<MNoAssign, &MNoAssign::flag>, MNoAssign>; SIM_KIND(m_noassign, KF_TRACKED|KF_MEMPTR, B_m_noassign)
#endif
struct ViaFd { static constexpr unsigned char value = 0xfd; };
using B_m_via = TrackedKind<tiny::optional_sentinel_via_type<MVia, ViaFd, &MVia::flag>, MVia>; SIM_KIND(m_via, KF_TRACKED|KF_MEMPTR, B_m_via)
}
