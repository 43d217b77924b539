// Payload types owned by the simulator ("user code" of the simulated deployments).
#pragma once
#include "core.h"
#include <functional>
#include <initializer_list>
#include <limits>
#include <type_traits>
#include <utility>

namespace pl {
using namespace sim;
enum { VAL_MOVED = -7001, VAL_TORN = -7002, VAL_EMPTY = -7003 };

template <class To, class From> inline To bits(From f) {
  To t;
  static_assert(sizeof t == sizeof f, "");
  memcpy(&t, &f, sizeof t);
  return t;
}
// -------- what the member holding the emptiness flag contains while a value is stored
struct NoFlag {};
inline bool same(NoFlag const &, NoFlag const &) { return true; }
template <class T> inline bool same(T const &a, T const &b) { return memcmp(&a, &b, sizeof a) == 0; }
template <class T> struct FlagOf;
template <> struct FlagOf<NoFlag> {
  static void put(NoFlag &, int) {}
  static bool is(NoFlag const &, int) { return true; }
};
static const uint64_t dbl_pats[] = {
    0x0000000000000000ull, 0x3ff8000000000000ull, 0x8000000000000000ull, 0x7ff8fedcba987655ull, 0x7ff8fedcba987653ull,
    0xfff8fedcba987654ull, 0x7ff8000000000000ull, 0x7ff0000000000000ull, 0xfff0000000000000ull, 0x7ff8fedcba980000ull,
    0x00000000ba987654ull, 0x7ff8fedc00000000ull, 0x7ff8fedcba987600ull, 0x3ff8fedcba987654ull, 0x7fefffffffffffffull,
    0x7ffffedcba987654ull, 0x0000000000000001ull, 0x7ff9fedcba987654ull, 0x7ff8fedcba997654ull, 0x7ff8fedc3a987654ull,
    0xfff8000000000000ull, 0xffffffffffffffffull, 0x7fffffffffffffffull, 0x7ff8fedcba987754ull};
static const uint32_t flt_pats[] = {0x00000000u, 0x3fc00000u, 0x80000000u, 0x7fedcba8u, 0x7fedcbaau, 0xffedcba9u,
                                    0x7fc00000u, 0x7f800000u, 0xff800000u, 0x0000cba9u, 0x7fed0000u, 0x7fedcb00u,
                                    0x3fedcba9u, 0x7fffffffu, 0xffffffffu, 0x00000001u, 0x7feccba9u, 0x7fedcaa9u,
                                    0x7fcdcba9u, 0xffc00000u};
#if defined(__x86_64__)
static const uintptr_t ptr_pats[] = {0,
                                     1,
                                     (uintptr_t)-1,
                                     (uintptr_t)-2,
                                     (uintptr_t)-3,
                                     (uintptr_t)-4,
                                     (uintptr_t)-5,
                                     (uintptr_t)-6,
                                     (uintptr_t)-7,
                                     (uintptr_t)-8,
                                     (uintptr_t)-9,
                                     0xffff800000000000ull,
                                     0xffff7ffffffffffeull,
                                     0x00007fffffffffffull,
                                     0xfffffffful,
                                     0xffffull,
                                     0x7fffffffffffffffull,
                                     0xffff7fff00000000ull,
                                     2,
                                     32,
                                     0xffff800000000001ull,
                                     0x1000};
#else
static const uintptr_t ptr_pats[] = {0,
                                     1,
                                     (uintptr_t)-1,
                                     (uintptr_t)-2,
                                     (uintptr_t)-3,
                                     (uintptr_t)-4,
                                     (uintptr_t)-5,
                                     (uintptr_t)-6,
                                     (uintptr_t)-7,
                                     (uintptr_t)-8,
                                     (uintptr_t)-10,
                                     0x80000000u,
                                     0x7fffffffu,
                                     0xffffu,
                                     0x0000fff7u,
                                     0xfff70000u,
                                     2,
                                     32,
                                     0x1000};
#endif
#define COUNTOF(a) (int)(sizeof(a) / sizeof(a[0]))
inline unsigned uix(int v) { return v < 0 ? (unsigned)(-(long long)v) : (unsigned)v; }
template <> struct FlagOf<double> {
  static void put(double &d, int v) { memcpy(&d, &dbl_pats[uix(v) % COUNTOF(dbl_pats)], 8); }
  static bool is(double const &d, int v) { return memcmp(&d, &dbl_pats[uix(v) % COUNTOF(dbl_pats)], 8) == 0; }
};
template <> struct FlagOf<float> {
  static void put(float &d, int v) { memcpy(&d, &flt_pats[uix(v) % COUNTOF(flt_pats)], 4); }
  static bool is(float const &d, int v) { return memcmp(&d, &flt_pats[uix(v) % COUNTOF(flt_pats)], 4) == 0; }
};
template <> struct FlagOf<void *> {
  static void put(void *&d, int v) { d = (void *)ptr_pats[uix(v) % COUNTOF(ptr_pats)]; }
  static bool is(void *const &d, int v) { return d == (void *)ptr_pats[uix(v) % COUNTOF(ptr_pats)]; }
};
template <> struct FlagOf<bool> {
  static void put(bool &d, int v) { d = uix(v) & 1; }
  static bool is(bool const &d, int v) { return d == bool(uix(v) & 1); }
};
static const int int_pats[] = {0, 1, -2, INT32_MIN, INT32_MAX, 0xff, 0xffff, 0x7f, 0x00ffffff, (int)0xff000000u, 2, (int)0xffffff00u};
template <> struct FlagOf<int> { // sentinel -1
  static void put(int &d, int v) { d = int_pats[uix(v) % COUNTOF(int_pats)]; }
  static bool is(int const &d, int v) { return d == int_pats[uix(v) % COUNTOF(int_pats)]; }
};
template <> struct FlagOf<unsigned char> { // sentinel 0xfd
  static void put(unsigned char &d, int v) { d = (unsigned char)(uix(v) % 0xfd); }
  static bool is(unsigned char const &d, int v) { return d == (unsigned char)(uix(v) % 0xfd); }
};
// a flag type with a custom manipulator of its own (registry-tracked while it acts as flag)
struct MFlag {
  int x;
};
template <> struct FlagOf<MFlag> {
  static void put(MFlag &d, int v) { d.x = (int)(uix(v) % 1000); }
  static bool is(MFlag const &d, int v) { return d.x == (int)(uix(v) % 1000); }
};

struct BigPad { // makes a payload large; every byte follows from the value
  unsigned char b[300];
};
template <> struct FlagOf<BigPad> {
  static void put(BigPad &d, int v) {
    for (int i = 0; i < 300; i++) d.b[i] = (unsigned char)(uix(v) + 7 * i);
  }
  static bool is(BigPad const &d, int v) {
    for (int i = 0; i < 300; i++)
      if (d.b[i] != (unsigned char)(uix(v) + 7 * i)) return false;
    return true;
  }
};

struct VArg { // argument from which payloads can be constructed/assigned
  int v;
};

namespace tk {
template <class D> struct IsHeap { static constexpr bool value = D::heap; };
template <class D> inline void verify_mem(D const *t, Live const *l) {
  if (t->magic != 0x600dbeefu || t->self != t) violate(V_VALUE, "value object overwritten (header)");
  if (t->val != l->shadow) violate(V_VALUE, "value object overwritten: holds %d, its own operations left %d", t->val, l->shadow);
  if (!FlagOf<typename D::FlagT>::is(t->flag, t->val)) violate(V_VALUE, "member of value object overwritten");
  if (D::heap && (!t->heapp || *t->heapp != t->val)) violate(V_VALUE, "heap part of value object wrong");
}
template <class D> inline Live *use(D const *t) {
  Quiet q;
  Live *l = obj_use(t, D::TID, ROLE_PAYLOAD);
  verify_mem(t, l);
  return l;
}
template <class D> inline void set(D *t, int v) {
  t->val = v;
  FlagOf<typename D::FlagT>::put(t->flag, v);
  if (D::heap) *t->heapp = v;
  if (Live *l = obj_find(t, D::TID, ROLE_PAYLOAD)) l->shadow = v;
}
// May throw (injected fault or, for heap payloads, bad_alloc).
template <class D> inline void start(D *t, Pt k, const void *src) {
  obj_check_raw(t, sizeof(D), "value");
  point(k);
  if (fault(k, t, src)) {
    if (late()) scribble(t, sizeof(D));
    throw_fired();
  }
  t->heapp = nullptr;
  if (D::heap) {
    InPayload ip;
    t->heapp = new int(0);
  }
}
template <class D> inline void finish_ctor(D *t, int v) {
  t->magic = 0x600dbeefu;
  t->self = t;
  set(t, v);
  obj_alive(t, sizeof(D), D::TID, ROLE_PAYLOAD, v);
  ev(0x11, D::TID, (uint32_t)v);
  tracef("      + value(%d)", v);
}
template <class D> inline void ctor(D *t, int v, Pt k = P_CTOR) {
  start(t, k, nullptr);
  finish_ctor(t, v);
}
template <class D> inline void copy(D *t, D const &s) {
  use(&s);
  start(t, P_COPY, &s);
  use(&s);
  finish_ctor(t, s.val);
}
template <class D> inline void move(D *t, D &s) { // throwing move
  use(&s);
  obj_check_raw(t, sizeof(D), "value");
  point(P_MOVE);
  if (fault(P_MOVE, t, &s)) {
    if (late()) {
      scribble(t, sizeof(D));
      set(&s, VAL_MOVED);
    }
    throw_fired();
  }
  use(&s);
  t->heapp = nullptr;
  if (D::heap) {
    InPayload ip;
    t->heapp = new int(0);
  }
  finish_ctor(t, s.val);
  set(&s, VAL_MOVED);
}
template <class D> inline void ntmove(D *t, D &s) { // never throws
  use(&s);
  obj_check_raw(t, sizeof(D), "value");
  point(P_NTMOVE);
  use(&s);
  t->heapp = nullptr;
  if (D::heap) {
    Pause pz;
    t->heapp = new int(0);
  }
  finish_ctor(t, s.val);
  set(&s, VAL_MOVED);
}
template <class D> inline void ntcopy(D *t, D const &s) { // never throws
  use(&s);
  obj_check_raw(t, sizeof(D), "value");
  point(P_NTMOVE);
  use(&s);
  t->heapp = nullptr;
  finish_ctor(t, s.val);
}
template <class D> inline void ntctor(D *t, int v) { // never throws
  obj_check_raw(t, sizeof(D), "value");
  point(P_NTMOVE);
  t->heapp = nullptr;
  finish_ctor(t, v);
}
template <class D> inline int getter(D const *t) { // used as a callback: pointer to member function
  use(t);
  point(P_CALLBACK);
  if (fault(P_CALLBACK)) throw_fired();
  use(t);
  return t->val;
}
template <class D> inline void cassign(D *t, D const &s) {
  use(t);
  use(&s);
  point(P_CASSIGN);
  if (fault(P_CASSIGN, t, &s)) {
    if (late() && t != &s) set(t, VAL_TORN);
    throw_fired();
  }
  use(t);
  use(&s);
  set(t, s.val);
  ev(0x12, D::TID, (uint32_t)t->val);
  tracef("      = value(%d)", t->val);
}
template <class D> inline void massign(D *t, D &s, bool nothrow) {
  use(t);
  use(&s);
  point(nothrow ? P_NTMOVE : P_MASSIGN);
  if (!nothrow && fault(P_MASSIGN, t, &s)) {
    if (late() && t != &s) {
      set(t, VAL_TORN);
      set(&s, VAL_MOVED);
    }
    throw_fired();
  }
  use(t);
  use(&s);
  if (t != &s) {
    set(t, s.val);
    set(&s, VAL_MOVED);
  }
  ev(0x13, D::TID, (uint32_t)t->val);
  tracef("      = move value(%d)", t->val);
}
template <class D> inline void vassign(D *t, int v) {
  use(t);
  point(P_VASSIGN);
  if (fault(P_VASSIGN, t, nullptr)) {
    if (late()) set(t, VAL_TORN);
    throw_fired();
  }
  use(t);
  set(t, v);
  ev(0x14, D::TID, (uint32_t)v);
}
template <class D> inline void swp(D &a, D &b, bool nothrow) {
  use(&a);
  use(&b);
  point(nothrow ? P_NTMOVE : P_SWAP);
  if (!nothrow && fault(P_SWAP, &a, &b)) {
    if (late()) {
      set(&a, VAL_TORN);
      set(&b, VAL_TORN);
    }
    throw_fired();
  }
  int x = a.val, y = b.val;
  set(&a, y);
  set(&b, x);
  ev(0x15, D::TID);
  tracef("      swap values(%d,%d)", x, y);
}
template <class D> inline void dtor(D *t) {
  use(t);
  point(P_DTOR);
  use(t);
  ev(0x16, D::TID, (uint32_t)t->val);
  tracef("      - value(%d)", t->val);
  if (D::heap) delete t->heapp;
  obj_dead(t, D::TID, ROLE_PAYLOAD);
  t->magic = 0xdeadbeefu;
  scribble(t, sizeof(D));
}
template <class D> inline bool cmp(D const &a, D const &b, int op) {
  use(&a);
  use(&b);
  point(P_COMPARE);
  if (fault(P_COMPARE, nullptr, nullptr)) throw_fired();
  switch (op) {
  case 0: return a.val == b.val;
  case 1: return a.val != b.val;
  case 2: return a.val < b.val;
  case 3: return a.val <= b.val;
  case 4: return a.val > b.val;
  default: return a.val >= b.val;
  }
}
} // namespace tk

#define CC_YES(N) N(N const &s) { tk::copy(this, s); }
#define CC_NO(N) N(N const &) = delete;
#define MC_THROW(N) N(N &&s) noexcept(false) { tk::move(this, s); }
#define MC_NOTHROW(N) N(N &&s) noexcept { tk::ntmove(this, s); }
#define MC_NO(N) N(N &&) = delete;
#define MC_ABSENT(N)
#define CA_YES(N) N &operator=(N const &s) { tk::cassign(this, s); return *this; }
#define CA_NO(N) N &operator=(N const &) = delete;
#define MA_THROW(N) N &operator=(N &&s) noexcept(false) { tk::massign(this, s, false); return *this; }
#define MA_NOTHROW(N) N &operator=(N &&s) noexcept { tk::massign(this, s, true); return *this; }
#define MA_NO(N) N &operator=(N &&) = delete;
#define MA_ABSENT(N)
#define VA_YES(N) N &operator=(VArg const &x) { tk::vassign(this, x.v); return *this; }
#define VA_NO(N)
#define SW_NONE(N)
#define SW_THROW(N) friend void swap(N &a, N &b) noexcept(false) { tk::swp(a, b, false); }
#define SW_NOTHROW(N) friend void swap(N &a, N &b) noexcept { tk::swp(a, b, true); }

#define NO_CMP(N)
#define OBJ_CMP(N)                                                               \
  friend bool operator==(N const &a, N const &b) { return tk::cmp(a, b, 0); }    \
  friend bool operator!=(N const &a, N const &b) { return tk::cmp(a, b, 1); }    \
  friend bool operator<(N const &a, N const &b) { return tk::cmp(a, b, 2); }     \
  friend bool operator<=(N const &a, N const &b) { return tk::cmp(a, b, 3); }    \
  friend bool operator>(N const &a, N const &b) { return tk::cmp(a, b, 4); }     \
  friend bool operator>=(N const &a, N const &b) { return tk::cmp(a, b, 5); }

#define DC_YES(N) N() { tk::ctor(this, 0); }
#define DC_NO(N)
#define DC_NOTHROW(N) N() noexcept { tk::ntctor(this, 0); }
#define VC_YES(N) N(VArg const &x) { tk::ctor(this, x.v); }
#define VC_NOTHROW(N) N(VArg const &x) noexcept { tk::ntctor(this, x.v); }
#define VC_EXPLICIT(N) explicit N(VArg const &x) { tk::ctor(this, x.v); }
struct Alien {
  int x;
};
// constructible from anything, like std::any
#define VC_GREEDY(N)                                                                                             \
  template <class X, std::enable_if_t<!std::is_same_v<std::decay_t<X>, N>, int> = 0> N(X &&x) {                   \
    if constexpr (std::is_same_v<std::decay_t<X>, VArg>) tk::ctor(this, x.v);                                    \
    else tk::ctor(this, -5555);                                                                                  \
  }
#define DEFINE_OBJ2(N, TIDV, FLAG, ALIGN, HEAP, VIRT, DC, VC, CC, MC, CA, MA, VA, SW, CMP)               \
  struct ALIGN N {                                                                                       \
    static constexpr uint16_t TID = TIDV;                                                                \
    static constexpr bool heap = HEAP;                                                                   \
    using FlagT = FLAG;                                                                                  \
    int32_t val;                                                                                         \
    FLAG flag;                                                                                           \
    uint32_t magic;                                                                                      \
    N *self;                                                                                             \
    int *heapp;                                                                                          \
    DC(N) VC(N)                                                                                          \
    explicit N(int v, int w) { tk::ctor(this, v + w); }                                                  \
    explicit N(int v, VArg const &w, int &&x) { tk::ctor(this, v + w.v + x); }                           \
    explicit N(std::initializer_list<int> il, int w) { tk::ctor(this, w + (il.size() ? *il.begin() : 0)); } \
    CC(N) MC(N) CA(N) MA(N) VA(N)                                                                        \
    VIRT ~N() { tk::dtor(this); }                                                                        \
    int get() const { return tk::getter(this); }                                                         \
    SW(N) CMP(N)                                                                                         \
  };
#define DEFINE_OBJ(N, TIDV, FLAG, ALIGN, HEAP, CC, MC, CA, MA, VA, SW) \
  DEFINE_OBJ2(N, TIDV, FLAG, ALIGN, HEAP, , DC_YES, VC_YES, CC, MC, CA, MA, VA, SW, OBJ_CMP)
#define CC_NOTHROW(N) N(N const &s) noexcept { tk::ntcopy(this, s); }

#define NOALIGN
//          name        tid flag    align      heap   copyc   movec       copya   movea       vala    swap
DEFINE_OBJ(TThrow,      1, NoFlag, NOALIGN,     false, CC_YES, MC_THROW,   CA_YES, MA_THROW,   VA_YES, SW_NONE)
DEFINE_OBJ(TNMove,      2, NoFlag, NOALIGN,     false, CC_YES, MC_NOTHROW, CA_YES, MA_NOTHROW, VA_YES, SW_NONE)
DEFINE_OBJ(TMoveOnly,   3, NoFlag, NOALIGN,     false, CC_NO,  MC_THROW,   CA_NO,  MA_THROW,   VA_YES, SW_NONE)
DEFINE_OBJ(TCopyOnly,   4, NoFlag, NOALIGN,     false, CC_YES, MC_ABSENT,  CA_YES, MA_ABSENT,  VA_YES, SW_NONE)
DEFINE_OBJ(TAdlSwap,    5, NoFlag, NOALIGN,     false, CC_YES, MC_NOTHROW, CA_YES, MA_THROW,   VA_YES, SW_THROW)
DEFINE_OBJ(TNoAssign,   6, NoFlag, NOALIGN,     false, CC_YES, MC_THROW,   CA_NO,  MA_NO,      VA_NO,  SW_NONE)
DEFINE_OBJ(TPinned,     7, NoFlag, NOALIGN,     false, CC_NO,  MC_NO,      CA_NO,  MA_NO,      VA_YES, SW_NONE)
DEFINE_OBJ(THeap,       8, NoFlag, NOALIGN,     true,  CC_YES, MC_THROW,   CA_YES, MA_THROW,   VA_YES, SW_NONE)
DEFINE_OBJ(TAligned,    9, NoFlag, alignas(64), false, CC_YES, MC_THROW,   CA_YES, MA_NOTHROW, VA_YES, SW_NONE)
DEFINE_OBJ(TSwapNoAsg, 10, NoFlag, NOALIGN,     false, CC_YES, MC_THROW,   CA_NO,  MA_NO,      VA_NO,  SW_THROW)
DEFINE_OBJ(TNtCtorMv,  11, NoFlag, NOALIGN,     false, CC_YES, MC_NOTHROW, CA_YES, MA_THROW,   VA_YES, SW_NONE)
DEFINE_OBJ(TMoveOnlyNt,12, NoFlag, NOALIGN,     false, CC_NO,  MC_NOTHROW, CA_NO,  MA_NOTHROW, VA_YES, SW_NOTHROW)
DEFINE_OBJ(TConst,     13, NoFlag, NOALIGN,     false, CC_YES, MC_THROW,   CA_YES, MA_THROW,   VA_YES, SW_NONE)
DEFINE_OBJ(TAsgOnlyMv, 14, NoFlag, NOALIGN,     false, CC_YES, MC_THROW,   CA_NO,  MA_THROW,   VA_NO,  SW_NONE)

//           name         tid flag    align   heap  virt  default     from VArg    copyc       movec       copya   movea       vala    swap      compare
DEFINE_OBJ2(TNoDef,      15, NoFlag, NOALIGN, false, , DC_NO,      VC_YES,      CC_YES,     MC_THROW,   CA_YES, MA_THROW,   VA_YES, SW_NONE,    OBJ_CMP)
DEFINE_OBJ2(TNtConv,     16, NoFlag, NOALIGN, false, , DC_NOTHROW, VC_NOTHROW,  CC_YES,     MC_THROW,   CA_YES, MA_THROW,   VA_YES, SW_NONE,    OBJ_CMP)
DEFINE_OBJ2(TNtCopy,     17, NoFlag, NOALIGN, false, , DC_NO,      VC_YES,      CC_NOTHROW, MC_NOTHROW, CA_YES, MA_THROW,   VA_YES, SW_NONE,    OBJ_CMP)
DEFINE_OBJ2(TNtSwap,     18, NoFlag, NOALIGN, false, , DC_NO,      VC_YES,      CC_YES,     MC_THROW,   CA_YES, MA_THROW,   VA_YES, SW_NOTHROW, OBJ_CMP)
DEFINE_OBJ2(TExplicit,   19, NoFlag, NOALIGN, false, , DC_NO,      VC_EXPLICIT, CC_YES,     MC_THROW,   CA_YES, MA_THROW,   VA_YES, SW_NONE,    OBJ_CMP)
DEFINE_OBJ2(TGreedy,     50, NoFlag, NOALIGN, false, , DC_YES,     VC_GREEDY,   CC_YES,     MC_THROW,   CA_YES, MA_THROW,   VA_YES, SW_NONE,    NO_CMP)
DEFINE_OBJ2(TPoly,       51, NoFlag, NOALIGN, false, virtual, DC_NO, VC_YES,    CC_YES,     MC_THROW,   CA_YES, MA_THROW,   VA_YES, SW_NONE,    OBJ_CMP)
DEFINE_OBJ2(TBig,        52, BigPad, NOALIGN, false, , DC_YES,     VC_YES,      CC_YES,     MC_NOTHROW, CA_YES, MA_THROW,   VA_YES, SW_NONE,    OBJ_CMP)
DEFINE_OBJ2(TCopyNoMove, 53, NoFlag, NOALIGN, false, , DC_NO,      VC_YES,      CC_YES,     MC_ABSENT,  CA_NO,  MA_ABSENT,  VA_YES, SW_NONE,    OBJ_CMP)
DEFINE_OBJ2(MNoDef,      29, bool,   NOALIGN, false, , DC_NO,      VC_YES,      CC_YES,     MC_THROW,   CA_YES, MA_THROW,   VA_YES, SW_NONE,    OBJ_CMP)
DEFINE_OBJ2(MNtConv,     54, void *, NOALIGN, false, , DC_NOTHROW, VC_NOTHROW,  CC_YES,     MC_THROW,   CA_YES, MA_THROW,   VA_YES, SW_NOTHROW, OBJ_CMP)
DEFINE_OBJ2(MNtCopy,     55, float,  NOALIGN, false, , DC_NO,      VC_EXPLICIT, CC_NOTHROW, MC_NOTHROW, CA_YES, MA_THROW,   VA_YES, SW_THROW,   OBJ_CMP)
DEFINE_OBJ2(PNoDef,      35, MFlag,  NOALIGN, false, , DC_NO,      VC_YES,      CC_YES,     MC_THROW,   CA_YES, MA_THROW,   VA_YES, SW_NONE,    OBJ_CMP)
DEFINE_OBJ2(PNtConv,     36, MFlag,  NOALIGN, false, , DC_NOTHROW, VC_NOTHROW,  CC_YES,     MC_THROW,   CA_YES, MA_NOTHROW, VA_YES, SW_THROW,   OBJ_CMP)
DEFINE_OBJ2(PMoveOnly,   37, MFlag,  NOALIGN, false, , DC_NO,      VC_YES,      CC_NO,      MC_THROW,   CA_NO,  MA_THROW,   VA_YES, SW_NONE,    OBJ_CMP)
DEFINE_OBJ2(RManip,      38, MFlag,  NOALIGN, false, , DC_YES,     VC_YES,      CC_YES,     MC_THROW,   CA_YES, MA_THROW,   VA_YES, SW_NONE,    OBJ_CMP)

DEFINE_OBJ(MDouble,    20, double, NOALIGN,     false, CC_YES, MC_THROW,   CA_YES, MA_THROW,   VA_YES, SW_NONE)
DEFINE_OBJ(MBool,      21, bool,   NOALIGN,     false, CC_YES, MC_THROW,   CA_YES, MA_THROW,   VA_YES, SW_NONE)
DEFINE_OBJ(MPtr,       22, void *, NOALIGN,     false, CC_YES, MC_NOTHROW, CA_YES, MA_NOTHROW, VA_YES, SW_NONE)
DEFINE_OBJ(MFloat,     23, float,  NOALIGN,     false, CC_NO,  MC_THROW,   CA_NO,  MA_THROW,   VA_YES, SW_NONE)
DEFINE_OBJ(MInt,       24, int,    NOALIGN,     false, CC_YES, MC_THROW,   CA_YES, MA_THROW,   VA_YES, SW_NONE)
DEFINE_OBJ(MVia,       25, unsigned char, NOALIGN, false, CC_YES, MC_THROW, CA_YES, MA_THROW,  VA_YES, SW_THROW)
DEFINE_OBJ(MManip,     26, MFlag,  NOALIGN,     false, CC_YES, MC_THROW,   CA_YES, MA_THROW,   VA_YES, SW_NONE)
DEFINE_OBJ(MHeapBool,  27, bool,   NOALIGN,     true,  CC_YES, MC_NOTHROW, CA_YES, MA_THROW,   VA_YES, SW_NONE)
DEFINE_OBJ(MNoAssign,  28, bool,   NOALIGN,     false, CC_YES, MC_THROW,   CA_NO,  MA_NO,      VA_NO,  SW_NONE)
DEFINE_OBJ(PPartial,   31, MFlag,  NOALIGN,     false, CC_YES, MC_THROW,   CA_YES, MA_THROW,   VA_YES, SW_NONE)
DEFINE_OBJ(PPartialNt, 32, MFlag,  NOALIGN,     false, CC_YES, MC_NOTHROW, CA_YES, MA_NOTHROW, VA_YES, SW_NONE)
DEFINE_OBJ(RObj,       40, NoFlag, NOALIGN,     false, CC_YES, MC_THROW,   CA_YES, MA_THROW,   VA_YES, SW_NONE)

// Payload that doubles as its own emptiness flag object: the manipulator constructs a whole object in
// the "empty" state and destroys it again.
struct EmptyTag {};
#define DEFINE_WHOLE(N, TIDV, HEAPFLAG, MC, MA)                                                      \
  struct N {                                                                                         \
    static constexpr uint16_t TID = TIDV;                                                            \
    static constexpr bool heap = false;                                                              \
    using FlagT = NoFlag;                                                                            \
    int32_t val;                                                                                     \
    NoFlag flag;                                                                                     \
    uint32_t magic;                                                                                  \
    N *self;                                                                                         \
    int *heapp;                                                                                      \
    N() { tk::ctor(this, 0); }                                                                       \
    N(VArg const &x) { tk::ctor(this, x.v); }                                                        \
    explicit N(int v, int w) { tk::ctor(this, v + w); }                                              \
    explicit N(int v, VArg const &w, int &&x) { tk::ctor(this, v + w.v + x); }                       \
    int get() const { return tk::getter(this); }                                                     \
    explicit N(std::initializer_list<int> il, int w) { tk::ctor(this, w + (il.size() ? *il.begin() : 0)); } \
    explicit N(EmptyTag) noexcept {                                                                  \
      obj_check_raw(this, sizeof(N), "emptiness flag");                                              \
      point(P_FLAGOP);                                                                               \
      val = VAL_EMPTY;                                                                               \
      heapp = HEAPFLAG ? (int *)malloc(4) : nullptr;                                                 \
      obj_alive(this, sizeof(N), TID, ROLE_FLAG, VAL_EMPTY);                                         \
      tracef("      + flag");                                                                        \
    }                                                                                                \
    CC_YES(N) MC(N) CA_YES(N) MA(N) VA_YES(N)                                                        \
    ~N() {                                                                                           \
      if (Live *l = obj_find(this, TID, ROLE_FLAG)) {                                                \
        (void)l;                                                                                     \
        tracef("      - flag");                                                                      \
        if (HEAPFLAG) free(heapp);                                                                   \
        obj_dead(this, TID, ROLE_FLAG);                                                              \
        scribble(this, sizeof(N));                                                                   \
      } else                                                                                         \
        tk::dtor(this);                                                                              \
    }                                                                                                \
    OBJ_CMP(N)                                                                                       \
  };
DEFINE_WHOLE(PWhole, 30, false, MC_THROW, MA_THROW)
DEFINE_WHOLE(PInplace, 33, false, MC_THROW, MA_THROW)
DEFINE_WHOLE(PWholeNt, 34, true, MC_NOTHROW, MA_NOTHROW)

// --- manipulators (state machines over the registry)
inline void flag_query(const void *p, const char *what) {
  if (!W.active) return;
  if (!obj_covering(p)) violate(V_PROTOCOL, "%s: is_empty asked while neither flag nor value exists there", what);
}
template <class T> struct WholeManip {
  static bool is_empty(T const &p) noexcept {
    flag_query(&p, "flag");
    return p.val == VAL_EMPTY;
  }
  static void init_empty_flag(T &m) noexcept { ::new ((void *)&m) T(EmptyTag{}); }
  static void invalidate_empty_flag(T &m) noexcept {
    obj_use(&m, T::TID, ROLE_FLAG);
    m.~T();
  }
};
enum { FLAG_TID = 60 };
struct MFlagManip {
  static bool is_empty(MFlag const &f) noexcept {
    flag_query(&f, "member flag");
    return f.x == -12345;
  }
  static void init_empty_flag(MFlag &f) noexcept {
    if (W.active) {
      obj_check_raw(&f, sizeof f, "emptiness flag");
      point(P_FLAGOP);
      obj_alive(&f, sizeof f, FLAG_TID, ROLE_FLAG, 0);
    }
    ::new ((void *)&f) MFlag{-12345};
  }
  static void invalidate_empty_flag(MFlag &f) noexcept {
    obj_use(&f, FLAG_TID, ROLE_FLAG);
    if (f.x != -12345) violate(V_PROTOCOL, "flag overwritten while it was alive");
    point(P_FLAGOP);
    obj_dead(&f, FLAG_TID, ROLE_FLAG);
    scribble(&f, sizeof f);
  }
};
// The same for payloads which nobody tracks: a flag must be there exactly if the bytes say so.
struct PlainFlagManip {
  static bool is_empty(MFlag const &f) noexcept {
    if (W.active && (obj_find(&f, FLAG_TID, ROLE_FLAG) != nullptr) != (f.x == -12345))
      violate(V_PROTOCOL, "flag: is_empty asked %s", f.x == -12345 ? "after the flag was destroyed" : "while a value was built over a live flag");
    return f.x == -12345;
  }
  static void init_empty_flag(MFlag &f) noexcept { MFlagManip::init_empty_flag(f); }
  static void invalidate_empty_flag(MFlag &f) noexcept { MFlagManip::invalidate_empty_flag(f); }
};
template <class T> struct PartialPlainManip {
  static bool is_empty(T const &p) noexcept { return PlainFlagManip::is_empty(p.f); }
  static void init_empty_flag(T &m) noexcept { PlainFlagManip::init_empty_flag(m.f); }
  static void invalidate_empty_flag(T &m) noexcept { PlainFlagManip::invalidate_empty_flag(m.f); }
};
template <class T> struct PartialManip { // flag = one member of the payload only
  static bool is_empty(T const &p) noexcept { return MFlagManip::is_empty(p.flag); }
  static void init_empty_flag(T &m) noexcept { MFlagManip::init_empty_flag(m.flag); }
  static void invalidate_empty_flag(T &m) noexcept { MFlagManip::invalidate_empty_flag(m.flag); }
};
} // namespace pl

#define OBJ_HASH(N)                                          \
  template <> struct std::hash<pl::N> {                      \
    size_t operator()(pl::N const &x) const {                \
      pl::tk::use(&x);                                       \
      sim::point(sim::P_HASHFN);                             \
      if (sim::fault(sim::P_HASHFN)) sim::throw_fired();     \
      return (size_t)x.val * 2654435761u + 17;               \
    }                                                        \
  };
OBJ_HASH(TThrow) OBJ_HASH(TNMove) OBJ_HASH(MDouble) OBJ_HASH(PWhole) OBJ_HASH(TConst) OBJ_HASH(MInt)
