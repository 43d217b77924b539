// Payloads whose move makes the moved-from value look empty: moving from such an optional is the documented
// misuse that assertions must stop. Legal operations in between must not trip one.
#include "runner.h"
using namespace run;
using namespace pl;
#if !defined(NDEBUG) && SIM_MEMFLAG && SIM_BITS
namespace {
template <int W> struct SE {
  int id;
  int iflag = 0;
  bool bflag = false;
  void *pflag = nullptr;
  explicit SE(int i) : id(i) {}
  SE(SE const &) = default;
  SE &operator=(SE const &) = default;
  SE(SE &&r) noexcept : id(r.id), bflag(false) { r.blank(); }
  SE &operator=(SE &&r) noexcept {
    if (this != &r) {
      id = r.id;
      r.blank();
    }
    return *this;
  }
  void blank() {
    if (W == 0) iflag = -1;
    if (W == 1) memset(&bflag, 0xfe, 1);
    if (W == 2) pflag = (void *)(sizeof(void *) == 8 ? (uintptr_t)0xffff7fffffffffffull : (uintptr_t)0xfffffff7u);
    if (W == 3) id = -1;
  }
};
struct SEManip {
  static bool is_empty(SE<3> const &c) noexcept { return c.id == -1; }
  static void init_empty_flag(SE<3> &c) noexcept { ::new ((void *)&c) SE<3>(-1); }
  static void invalidate_empty_flag(SE<3> &) noexcept {}
};
template <int WH, class Opt> struct SelfEmpty {
  using P = SE<WH>;
  enum { NS = 3 };
  alignas(Opt) static inline char mem[NS][sizeof(Opt)];
  static inline bool alive[NS], eng[NS];
  static inline int val[NS];
  static Opt &o(int s) { return *std::launder(reinterpret_cast<Opt *>(mem[s])); }
  static void prepare(Plan &) {
    for (int s = 0; s < NS; s++) abandon(s);
  }
  static void abandon(int s) {
    alive[s] = eng[s] = false;
    fill_bytes(mem[s], sizeof(Opt), 0);
  }
  static void finish(Plan &) {
    for (int s = 0; s < NS; s++)
      if (alive[s]) o(s).~Opt();
  }
  template <class F> __attribute__((noinline)) static void must_assert(Op const &op, F &&f) {
    poison_stack();
    static jmp_buf jb;
    W.asserted = false;
    W.assert_jmp = &jb;
    W.expect_assert = true;
    if (_setjmp(jb) == 0) {
      C().lib = true;
      f();
    }
    C().lib = false;
    W.expect_assert = false;
    if (!W.asserted) violate(V_NOASSERT, "%s: misuse was not stopped by an assertion", op_name[op.code]);
    S->asserts_expected++;
  }
  static bool go(Op const &op, int a, int b, int v) {
    switch (op.code) {
    case O_C_DEF:
      if (alive[a]) return false;
      ::new ((void *)mem[a]) Opt();
      alive[a] = true;
      eng[a] = false;
      return true;
    case O_C_INPL:
      if (alive[a]) return false;
      ::new ((void *)mem[a]) Opt(std::in_place, v);
      alive[a] = eng[a] = true;
      val[a] = v;
      return true;
    case O_E_SRC:
      if (!alive[a]) return false;
      o(a).emplace(v);
      eng[a] = true;
      val[a] = v;
      return true;
    case O_A_VALL: {
      if (!alive[a]) return false;
      P x(v);
      o(a) = x;
      eng[a] = true;
      val[a] = v;
      return true;
    }
    case O_A_VALR: {
      if (!alive[a]) return false;
      P x(v);
      o(a) = std::move(x);
      eng[a] = true;
      val[a] = v;
      return true;
    }
    case O_RESET:
      if (!alive[a]) return false;
      o(a).reset();
      eng[a] = false;
      return true;
    case O_A_NULL:
      if (!alive[a]) return false;
      o(a) = std::nullopt;
      eng[a] = false;
      return true;
    case O_DTOR:
      if (!alive[a]) return false;
      o(a).~Opt();
      abandon(a);
      return true;
    case O_C_COPY:
      if (alive[a] || !alive[b] || a == b) return false;
      ::new ((void *)mem[a]) Opt(static_cast<Opt const &>(o(b)));
      alive[a] = true;
      eng[a] = eng[b];
      val[a] = val[b];
      return true;
    case O_A_COPY:
      if (!alive[a] || !alive[b]) return false;
      o(a) = static_cast<Opt const &>(o(b));
      eng[a] = eng[b];
      val[a] = val[b];
      return true;
    case O_C_MOVE:
      if (alive[a] || !alive[b] || a == b || eng[b]) return false;
      ::new ((void *)mem[a]) Opt(std::move(o(b)));
      alive[a] = true;
      eng[a] = false;
      return true;
    case O_A_MOVE:
      if (!alive[a] || !alive[b] || eng[b]) return false;
      o(a) = std::move(o(b));
      eng[a] = false;
      return true;
    case O_M_MOVEC:
      if (alive[a] || !alive[b] || a == b || !eng[b]) return false;
      must_assert(op, [&] { ::new ((void *)mem[a]) Opt(std::move(o(b))); });
      abandon(a);
      abandon(b);
      return true;
    case O_M_MOVEA:
      if (!alive[a] || !alive[b] || a == b || !eng[b]) return false;
      must_assert(op, [&] { o(a) = std::move(o(b)); });
      abandon(a);
      abandon(b);
      return true;
    }
    return false;
  }
  static void exec(Plan &p, int idx) {
    Op const &op = p.ops[idx];
    C().opidx = idx;
    int a = op.a % NS, b = op.b % NS;
    tracef("[%d] %s a=%d b=%d v=%d", idx, op_name[op.code], a, b, op.v);
    ev(0x20, op.code, a * 16 + b);
    if (!go(op, a, b, (int)(uix(op.v) % 50))) {
      S->opskip[op.code]++;
      S->skipped++;
      return;
    }
    S->opcount[op.code]++;
    for (int s = 0; s < NS; s++)
      if (alive[s]) {
        if (o(s).has_value() != eng[s]) violate(V_ENGAGED, "optional #%d: wrong emptiness", s);
        if (eng[s] && o(s)->id != val[s]) violate(V_VALUE, "optional #%d: wrong value", s);
        ev(0x21, s, eng[s] ? val[s] + 1 : 0);
      }
  }
  static KindDesc desc(const char *n) {
    KindDesc d{};
    d.name = n;
    d.flags = KF_SELFEMPTY;
    d.prepare = &prepare;
    d.exec = &exec;
    d.finish = &finish;
    d.dom = 50;
    d.weight = 10;
    return d;
  }
};
Reg z1{SelfEmpty<0, tiny::optional<SE<0>, &SE<0>::iflag, -1>>::desc("z_int")};
Reg z2{SelfEmpty<1, tiny::optional<SE<1>, &SE<1>::bflag>>::desc("z_bool")};
Reg z3{SelfEmpty<2, tiny::optional<SE<2>, &SE<2>::pflag>>::desc("z_ptr")};
Reg z4{SelfEmpty<3, tiny::optional_inplace<SE<3>, SEManip>>::desc("z_manip")};
} // namespace
#endif
