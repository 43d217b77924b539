#include "runner.h"
using namespace run;
using namespace pl;
namespace {
#if SIM_MEMBITS
using B_m_double = TrackedKind<tiny::optional<MDouble, &MDouble::flag>, MDouble>; SIM_KIND(m_double, KF_TRACKED|KF_MEMPTR, B_m_double)
using B_m_bool = TrackedKind<tiny::optional<MBool, &MBool::flag>, MBool>; SIM_KIND(m_bool, KF_TRACKED|KF_MEMPTR, B_m_bool)
using B_m_ptr = TrackedKind<tiny::optional<MPtr, &MPtr::flag>, MPtr>; SIM_KIND(m_ptr, KF_TRACKED|KF_MEMPTR, B_m_ptr)
using B_m_float = TrackedKind<tiny::optional<MFloat, &MFloat::flag>, MFloat>; SIM_KIND(m_float, KF_TRACKED|KF_MEMPTR, B_m_float)
#endif
}
