#include "runner.h"
using namespace run;
using namespace pl;
namespace {
#if SIM_MEMBITS
using B_m_nodef = TrackedKind<tiny::optional<MNoDef, &MNoDef::flag>, MNoDef>; SIM_KIND(m_nodef, KF_TRACKED|KF_MEMPTR, B_m_nodef)
using B_m_ntconv = TrackedKind<tiny::optional<MNtConv, &MNtConv::flag>, MNtConv>; SIM_KIND(m_ntconv, KF_TRACKED|KF_MEMPTR, B_m_ntconv)
using B_m_ntcopy = TrackedKind<tiny::optional<MNtCopy, &MNtCopy::flag>, MNtCopy>; SIM_KIND(m_ntcopy, KF_TRACKED|KF_MEMPTR, B_m_ntcopy)
#endif
}
