// Custom flag manipulators, registered the way the documentation asks for.
#pragma once
#include "payloads.h"
#include <tiny/optional_flag_manipulator_fwd.h>
template <> struct tiny::optional_flag_manipulator<pl::MFlag> : pl::MFlagManip {};
template <> struct tiny::optional_flag_manipulator<pl::PWhole> : pl::WholeManip<pl::PWhole> {};
template <> struct tiny::optional_flag_manipulator<pl::PWholeNt> : pl::WholeManip<pl::PWholeNt> {};
template <> struct tiny::optional_flag_manipulator<pl::PPartial> : pl::PartialManip<pl::PPartial> {};
template <> struct tiny::optional_flag_manipulator<pl::PPartialNt> : pl::PartialManip<pl::PPartialNt> {};
template <> struct tiny::optional_flag_manipulator<pl::PNoDef> : pl::PartialManip<pl::PNoDef> {};
template <> struct tiny::optional_flag_manipulator<pl::PNtConv> : pl::PartialManip<pl::PNtConv> {};
template <> struct tiny::optional_flag_manipulator<pl::PMoveOnly> : pl::PartialManip<pl::PMoveOnly> {};
template <> struct tiny::optional_flag_manipulator<pl::RManip> : pl::PartialManip<pl::RManip> {};
#if defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER) || defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS)
#define SIM_MEMFLAG 0
#else
#define SIM_MEMFLAG 1
#endif
#if defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS) || defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS)
#define SIM_BITS 0
#else
#define SIM_BITS 1
#endif
// a member without a chosen sentinel can be the flag (the library refuses it if only the unused bits are disabled)
#define SIM_MEMBITS (SIM_BITS || !SIM_MEMFLAG)
