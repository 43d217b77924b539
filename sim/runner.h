// Executes plans against one kind of optional and judges every step against the reference model.
#pragma once
#include "manips.h"
#include <algorithm>
#include <csetjmp>
#include <new>
#include <optional>
#include <tiny/optional.h>
#include <type_traits>

namespace run {
using namespace sim;
enum { M_SAME, M_MARK, M_UNKNOWN };
enum { R_OK, R_FAULT, R_BADACC };
enum { ID_SAME, ID_NEW, ID_ANY };

__attribute__((noinline)) inline void poison_stack() {
  volatile char buf[3072];
  fill_bytes((void *)buf, sizeof buf, 0);
}
template <class T> using rcv = std::remove_cv_t<T>;
template <class T> using rcvref = std::remove_cv_t<std::remove_reference_t<T>>;

struct Probe {
  int calls = 0;
  const void *arg = nullptr;
  bool lref = false, cst = false, frv = false, fconst = false;
  const void *fn = nullptr; // the function object that was invoked
};
template <class Body> struct Callable {
  Probe *p;
  Body *body;
  template <class X> decltype(auto) go(X &&x) const {
    p->calls++;
    p->fn = this;
    p->arg = (const void *)std::addressof(x);
    p->lref = std::is_lvalue_reference_v<X>;
    p->cst = std::is_const_v<std::remove_reference_t<X>>;
    point(P_CALLBACK);
    if (fault(P_CALLBACK)) throw_fired();
    return (*body)(std::forward<X>(x));
  }
  template <class X> decltype(auto) operator()(X &&x) & {
    p->frv = false;
    p->fconst = false;
    return go<X>(std::forward<X>(x));
  }
  template <class X> decltype(auto) operator()(X &&x) && {
    p->frv = true;
    p->fconst = false;
    return go<X>(std::forward<X>(x));
  }
  template <class X> decltype(auto) operator()(X &&x) const & {
    p->frv = false;
    p->fconst = true;
    return go<X>(std::forward<X>(x));
  }
};
template <class Body> struct Callable0 {
  Probe *p;
  Body *body;
  decltype(auto) go() const {
    p->calls++;
    p->fn = this;
    point(P_CALLBACK);
    if (fault(P_CALLBACK)) throw_fired();
    return (*body)();
  }
  decltype(auto) operator()() & {
    p->frv = false;
    return go();
  }
  decltype(auto) operator()() && {
    p->frv = true;
    return go();
  }
};
inline void after_effects_fault() {
  point(P_CBRESULT);
  if (fault(P_CBRESULT)) throw_fired();
}

struct M {
  bool alive, eng, known;
  uint64_t fp;
  uint32_t ident;
};

template <class K> struct Runner {
  using Opt = typename K::Opt;
  using P = typename Opt::value_type;
  using U = rcv<P>;
  using Src = typename K::Src;
  static constexpr bool tracked = K::tracked;
  static constexpr bool cc = std::is_copy_constructible_v<U>;
  static constexpr bool mc = std::is_move_constructible_v<U>;
  static constexpr bool srcable = std::is_constructible_v<P, Src const &>;

  enum { MAXS = 12, GUARD = 64 };
  alignas(64) static inline char arena[GUARD + MAXS * ((sizeof(Opt) + 63) / 64 * 64 + 64) + GUARD];
  static inline char snap[MAXS][sizeof(Opt)];
  static inline M m[MAXS];
  static inline uint32_t total, nshared;
  static inline bool storm[MAXT];
  static inline bool cbtouched[MAXT]; // the callback itself modified the optional
  static inline uint32_t cur_a[MAXT], cur_b[MAXT]; // operands of the running operation
  static inline size_t empty_hash;
  static inline bool have_empty_hash;

  static char *raw(uint32_t s) { return arena + GUARD + s * sizeof(Opt); }
  static Opt &o(uint32_t s) { return *std::launder(reinterpret_cast<Opt *>(raw(s))); }
  static Opt const &co(uint32_t s) { return o(s); }
  static void resnap(uint32_t s) { memcpy(snap[s], raw(s), sizeof(Opt)); }
  static bool snap_ok(uint32_t s) { return memcmp(snap[s], raw(s), sizeof(Opt)) == 0; }
  static bool mine(uint32_t s) { return W.slot_owner[s] == W.cur; }

  // ------------------------------------------------------------ prepare / finish
  static void prepare(Plan &p) {
    W.alloc_ok = K::alloc_ok;
    W.img_size = sizeof(Opt) < sizeof W.empty_img ? sizeof(Opt) : sizeof W.empty_img;
    {
      alignas(Opt) char buf[sizeof(Opt)];
      memset(buf, 0x5a, sizeof buf);
      Opt *q = ::new ((void *)buf) Opt();
      asm volatile("" : : "r"(buf) : "memory");
      memcpy(W.empty_img, buf, W.img_size);
      if constexpr (srcable) q->emplace(K::src(1 % K::N));
      asm volatile("" : : "r"(buf) : "memory");
      memcpy(W.engaged_img, buf, W.img_size);
      q->~Opt();
    }
    W.img_ready = true;
    uint32_t per = p.nslots < 1 ? 1 : p.nslots;
    nshared = 0;
    if (p.family == FAM_SHARED) {
      nshared = per > 4 ? 4 : per;
      total = nshared + W.ntasks;
    } else {
      while (per * W.ntasks > MAXS) per--;
      total = per * W.ntasks;
    }
    memset(arena, 0xA7, sizeof arena);
    W.arena_lo = raw(0);
    W.arena_hi = raw(total);
    W.slot_stride = W.slot_size = sizeof(Opt);
    W.slot_count = total;
    have_empty_hash = false;
    W.nest_fn = p.family == FAM_HIST ? &nested : nullptr;
    for (uint32_t s = 0; s < total; s++) {
      W.slot_owner[s] = p.family == FAM_SHARED ? (s < nshared ? 0xff : s - nshared) : s % W.ntasks;
      fill_bytes(raw(s), sizeof(Opt), 0);
      m[s] = M{false, false, true, 0, 0};
    }
    for (int t = 0; t < MAXT; t++) storm[t] = false;
    if (p.family == FAM_SHARED) {
      Rng r(p.fillseed ^ 0x5ead);
      for (uint32_t s = 0; s < nshared; s++) {
        Opt *q = ::new ((void *)raw(s)) Opt();
        m[s].alive = true;
        uint32_t how = r.below(6);
        int i = (int)r.below(K::N);
        if constexpr (srcable) {
          if (how >= 2) {
            q->emplace(K::src(i));
            m[s].eng = true;
            m[s].fp = K::fpv(i);
          }
          if (how == 1) {
            q->emplace(K::src(i));
            q->reset();
          }
          if constexpr (mc)
            if (how == 5) {
              U x(std::move(**q));
              (void)x;
              moved(m[s]);
            }
        }
        adopt_ident(s);
        verify(s);
      }
      W.shared_ro = true;
    }
    for (uint32_t s = 0; s < total; s++) resnap(s);
  }

  static void finish(Plan &) {
    W.shared_ro = false;
    for (uint32_t s = 0; s < total; s++) {
      check_bytes(s, V_NEIGHBOUR, "changed by somebody else before the end");
      verify(s);
    }
    for (uint32_t s = 0; s < total; s++)
      if (m[s].alive) {
        C().lib = true;
        C().armed = false;
        o(s).~Opt();
        C().lib = false;
        m[s].alive = m[s].eng = false;
        verify(s);
        resnap(s);
      }
    for (uint32_t s = 0; s < total; s++) check_bytes(s, V_NEIGHBOUR, "changed by the end of another one");
    guards();
    if (W.nlive) {
      Live &l = W.live[0];
      if (l.role == ROLE_FLAG) violate(V_PROTOCOL, "%u object(s) left at the end, first: emptiness flag", W.nlive);
      violate(V_LEAK, "%u value(s) left at the end (val %d)", W.nlive, l.shadow);
    }
    if (W.heap_live) violate(V_HEAP_LEAK, "%ld heap block(s) left at the end", W.heap_live);
  }

  // ------------------------------------------------------------ checks
  static void guards() {
    for (char *q = arena; q < raw(0); q++)
      if ((unsigned char)*q != 0xA7) violate(V_GUARD, "byte before the optionals overwritten");
    for (char *q = raw(total); q < raw(total) + GUARD; q++)
      if ((unsigned char)*q != 0xA7) violate(V_GUARD, "byte behind the optionals overwritten");
  }
  static void check_bytes(uint32_t s, Cls c, const char *what) {
    if (!snap_ok(s)) violate(c, "bytes of optional #%u %s", s, what);
  }
  static Live *live_at(const void *p) {
    if constexpr (tracked) return obj_find(p, U::TID, ROLE_PAYLOAD);
    else return nullptr;
  }
  static void adopt_ident(uint32_t s) {
    if constexpr (tracked)
      if (m[s].eng) {
        Pause pz;
        if (o(s).has_value())
          if (Live *l = live_at(std::addressof(*o(s)))) m[s].ident = l->serial;
      }
  }
  // Everything the public API shows about slot s must agree with the model.
  static void verify(uint32_t s) {
    Pause pz;
    bool sl = C().lib;
    C().lib = true; // (paused: no faults, no switches; but accesses are library accesses)
    M &x = m[s];
    uint32_t npay = 0, nflag = 0;
    char *lo = raw(s), *hi = lo + sizeof(Opt);
    for (uint32_t i = 0; i < W.nlive; i++)
      if (W.live[i].p >= lo && W.live[i].p < hi) (W.live[i].role == ROLE_FLAG ? nflag : npay)++;
    if (!x.alive) {
      if (npay) violate(V_LEAK, "optional #%u is gone but a value still lives in it", s);
      if (nflag) violate(V_PROTOCOL, "optional #%u is gone but its emptiness flag was not destroyed", s);
      C().lib = sl;
      return;
    }
    bool h = co(s).has_value();
    if (h != x.eng) violate(V_ENGAGED, "optional #%u should %s a value but has_value() is %d", s, x.eng ? "hold" : "not hold", h);
    if (bool(co(s)) != h) violate(V_ENGAGED, "operator bool disagrees with has_value()");
    if ((co(s) == std::nullopt) == h) violate(V_ENGAGED, "comparison with nullopt disagrees with has_value()");
    if (h) {
      P const *a = std::addressof(*co(s));
      if ((const char *)a < lo || (const char *)a + sizeof(P) > hi) violate(V_REFERENCE, "value is not inside the optional");
      if (a != co(s).operator->() || a != std::addressof(*o(s)) || a != o(s).operator->() || a != std::addressof(co(s).value()) ||
          a != std::addressof(o(s).value()))
        violate(V_REFERENCE, "accessors disagree about the value's address");
      if constexpr (tracked) {
        Live *l = live_at(a);
        if (!l) violate(V_USE_DEAD, "optional #%u claims a value, but none is alive there", s);
        if (npay != 1) violate(V_LEAK, "optional #%u contains %u live values", s, npay);
        pl::tk::verify_mem(static_cast<U const *>(a), l);
        if (x.ident && l->serial != x.ident) violate(V_IDENTITY, "optional #%u: value object was replaced", s);
        x.ident = l->serial;
      }
      uint64_t f = K::fp(*const_cast<U const *>(a));
      if (!x.known) {
        x.fp = f;
        x.known = true;
      } else if (f != x.fp)
        violate(V_VALUE, "optional #%u holds %llx, expected %llx", s, (unsigned long long)f, (unsigned long long)x.fp);
      ev(0x21, s, f);
    } else {
      if (npay) violate(V_LEAK, "optional #%u is empty but a value still lives in it", s);
      x.ident = 0;
      ev(0x22, s);
    }
    if (nflag != (K::manip && !h ? 1u : 0u)) violate(V_PROTOCOL, "optional #%u: %u live emptiness flags while %s", s, nflag, h ? "engaged" : "empty");
    C().lib = sl;
  }
  static void no_strays() {
    for (uint32_t i = 0; i < W.nlive; i++) {
      Live &l = W.live[i];
      if (l.task != W.cur) continue;
      if (l.p >= W.arena_lo && l.p < W.arena_hi) continue;
      if (l.role == ROLE_FLAG) violate(V_PROTOCOL, "emptiness flag of a temporary optional left behind");
      violate(V_LEAK, "temporary value left behind (val %d)", l.shadow);
    }
  }

  // ------------------------------------------------------------ one attempt at calling the library
  __attribute__((noinline)) static int attempt(Plan &p, Op const &op, int cat, FnRef f) {
    poison_stack();
    Ctx &c = C();
    c.fired = Fired();
    c.fcount = 0;
    bool st = storm[W.cur] && cat;
    c.nth = st ? 1 : op.f;
    c.late = op.late;
    c.armed = st || (op.f && (p.mask & cat));
    c.payload_depth = 0;
    c.etype = (op.env >> ENV_EXC_SHIFT) % ENV_EXC_N;
    int pause = c.pause;
    c.nest = op.code == O_ROTATE || op.code == O_CALM ? 0 : op.nest;
    Caught k = call_lib(op.env, f);
    c.armed = false;
    c.nest = 0;
    c.pause = pause;
    ev(0x30, op.code, k.r);
    if (c.fired.on) {
      S->opfault[op.code]++;
      bool al = c.fired.kind == P_ALLOC;
      if (k.r == 0) violate(V_EXC_SWALLOWED, "%s: the exception thrown inside was swallowed", op_name[op.code]);
      if (al ? k.r != 2 : (k.r != 1 || k.serial != c.fired.serial || k.etype != c.fired.etype)) violate(V_EXC_WRONG, "%s: a different exception arrived", op_name[op.code]);
      return R_FAULT;
    }
    if (k.r == 3) {
      S->badaccess++;
      return R_BADACC;
    }
    if (k.r) violate(V_EXC_UNEXPECTED, "%s threw although nothing failed", op_name[op.code]);
    return R_OK;
  }
  // User code running inside an operation (a payload's constructor, destructor, assignment, a callback, a flag
  // manipulator) uses another optional of the same type.
  static void nested() {
    Pause pz;
    const Plan &p = *W.plan;
    Op const &op = p.ops[C().opidx];
    const uint32_t a = cur_a[W.cur], b = cur_b[W.cur];
    uint32_t c = total, d = total;
    for (uint32_t k = 0; k < total; k++) {
      uint32_t s = (k + op.w) % total;
      if (!mine(s) || s == a || s == b) continue;
      if (c == total) c = s;
      else if (d == total) d = s;
    }
    if (c == total) return;
    const bool sl = C().lib;
    C().lib = true;
    check_bytes(c, V_NEIGHBOUR, "changed by an operation on another optional");
    const int i = dom(op.v + 1);
    tracef("    ... user code in between uses optional #%u (how %u)", c, op.nk);
    S->nested++;
    if (!m[c].alive) {
      fill_bytes(raw(c), sizeof(Opt), 0);
      if (op.nk & 1) {
        if constexpr (srcable) {
          Src const x = K::src(i);
          ::new ((void *)raw(c)) Opt(std::in_place, x);
          set_new(c, valfp(op.v + 1));
        }
      } else {
        ::new ((void *)raw(c)) Opt();
        set_empty(c);
      }
    } else
      switch (op.nk) {
      default:
        o(c).reset();
        set_empty(c);
        break;
      case 1:
      case 2:
        if constexpr (srcable) {
          Src const x = K::src(i);
          o(c).emplace(x);
          set_new(c, valfp(op.v + 1));
        }
        break;
      case 3:
        o(c).~Opt();
        m[c] = M{false, false, true, 0, 0};
        break;
      case 4:
        if constexpr (std::is_move_constructible_v<P> && std::is_swappable_v<P>)
          if (d != total && m[d].alive) {
            check_bytes(d, V_NEIGHBOUR, "changed by an operation on another optional");
            o(c).swap(o(d));
            swapped(c, d, false);
            verify(d);
            resnap(d);
          }
        break;
      case 5:
        if constexpr (std::is_move_assignable_v<Opt>)
          if (d != total && m[d].alive) {
            check_bytes(d, V_NEIGHBOUR, "changed by an operation on another optional");
            o(c) = std::move(o(d));
            if (m[d].eng) {
              assigned(c, m[d].fp, m[d].known);
              moved_from(d);
            } else
              set_empty(c);
            verify(d);
            resnap(d);
          }
        break;
      case 6:
        if constexpr (std::is_copy_constructible_v<Opt>) {
          Opt t(co(c));
          if (t.has_value() != m[c].eng) violate(V_RESULT, "a copy made by user code inside another operation is wrong");
        }
        break;
      }
    verify(c);
    resnap(c);
    C().lib = sl;
  }
  // Operations that must succeed even while everything else fails.
  static int quiet(Plan &p, Op const &op, FnRef f) {
    int r = attempt(p, op, CAT_QUIET, f);
    if (r == R_FAULT) violate(V_EXC_UNEXPECTED, "%s depends on something that can fail", op_name[op.code]);
    return r;
  }
  static void no_badacc(int r, Op const &op) {
    if (r == R_BADACC) violate(V_EXC_UNEXPECTED, "%s threw bad_optional_access", op_name[op.code]);
  }

  // ------------------------------------------------------------ model helpers
  static void moved(M &x) {
    if (K::moved == M_MARK) x.fp = K::movedfp();
    else if (K::moved == M_UNKNOWN) x.known = false;
  }
  static void set_new(uint32_t s, uint64_t fp, bool known = true) {
    m[s].alive = m[s].eng = true;
    m[s].fp = fp;
    m[s].known = known;
    m[s].ident = 0;
  }
  static void set_empty(uint32_t s) {
    m[s].alive = true;
    m[s].eng = false;
    m[s].ident = 0;
    m[s].known = true;
  }
  static void assigned(uint32_t s, uint64_t fp, bool known = true) { // in place if engaged, else new
    if (!m[s].eng) set_new(s, fp, known);
    else {
      m[s].fp = fp;
      m[s].known = known;
    }
  }
  // After an exception: slot s keeps its engagement; its value may only have been changed by the failed
  // payload operation itself (or by payload operations of a multi-step swap).
  static void after_fault(uint32_t s, bool multi = false) {
    M &x = m[s];
    if (!x.alive || !x.eng) return;
    Fired &f = C().fired;
    if constexpr (tracked) {
      Pause pz;
      if (!co(s).has_value()) return; // verify() reports it
      const void *a = std::addressof(*co(s));
      Live *l = live_at(a);
      if (!l) return;
      if (multi || (f.late && (f.dst == a || f.src == a))) x.fp = (uint64_t)(int64_t)l->shadow;
    } else if (f.kind == P_ALLOC)
      x.known = false;
  }

  // ------------------------------------------------------------ slot selection
  static uint32_t mut_slot(Plan &p, uint32_t i) {
    if (p.family == FAM_SHARED) return nshared + W.cur;
    uint32_t per = total / W.ntasks;
    return W.cur + W.ntasks * (i % per);
  }
  static uint32_t obs_slot(Plan &p, uint32_t i) {
    if (p.family == FAM_SHARED) return i % nshared;
    return mut_slot(p, i);
  }
  static constexpr bool const_op(int code, int var) {
    switch (code) {
    case O_G_VALUE:
    case O_G_DEREF: return (var & 3) == 1 || (var & 3) == 3;
    case O_G_ARROW: return var & 1;
    case O_G_BOOL:
    case O_VOR_C:
    case O_VOR_CSRC:
    case O_CMP:
    case O_CMPVAL:
    case O_CMPNULL:
    case O_CMPSTD:
    case O_HASH: return true;
    case O_AND_THEN:
    case O_TRANSFORM: return (var & 3) == 1 || (var & 3) == 3;
    case O_OR_ELSE: return (var & 1) == 1;
    default: return false;
    }
  }

  static void exec(Plan &p, int idx) {
    Op const &op = p.ops[idx];
    // whoever ran in between must not have touched this task's optionals
    for (uint32_t s = 0; s < total; s++)
      if (mine(s)) check_bytes(s, V_NEIGHBOUR, "changed while no operation on it ran");
    bool cop = const_op(op.code, op.var);
    uint32_t a, b;
    if (cop) {
      a = obs_slot(p, op.a);
      b = obs_slot(p, op.b);
    } else {
      a = mut_slot(p, op.a);
      b = p.family == FAM_SHARED ? obs_slot(p, op.b) : mut_slot(p, op.b);
      if (p.family == FAM_SHARED && op.code != O_DTOR && op.code != O_C_COPY && op.code != O_A_COPY && op.code != O_C_CMOVE &&
          op.code != O_A_CMOVE && op.code != O_RESET && op.code != O_C_DEF && op.code != O_A_FROMVAL)
        return;
    }
    C().opidx = idx;
    tracef("[%d] task %d: %s a=%u b=%u v=%d w=%d var=%u f=%u%s%s", idx, W.cur, op_name[op.code], a, b, op.v, op.w, op.var, op.f,
           op.late ? " late" : "", op.env & ENV_UNWIND ? " (during unwinding)" : op.env & ENV_HANDLER ? " (inside a handler)" : "");
    ev(0x20, op.code, a * 16 + b);
    cbtouched[W.cur] = false;
    cur_a[W.cur] = a;
    cur_b[W.cur] = b;
    bool did = dispatch(p, op, a, b);
    if (!did) {
      S->opskip[op.code]++;
      S->skipped++;
      tracef("    (skipped)");
      return;
    }
    S->opcount[op.code]++;
    // the slots this operation had nothing to do with must be byte-identical
    for (uint32_t s = 0; s < total; s++) {
      if (s < nshared) {
        check_bytes(s, V_CONSTWRITE, "changed by operations that must not modify it");
        continue;
      }
      if (!mine(s)) continue;
      if (cop && (s == a || s == b) && !cbtouched[W.cur]) check_bytes(s, V_CONSTWRITE, "changed by a const operation");
      else if (s != a && s != b) check_bytes(s, V_NEIGHBOUR, "changed by an operation on another optional");
    }
    for (uint32_t s = 0; s < total; s++)
      if (mine(s) || s == a || s == b) {
        verify(s);
        if (mine(s)) resnap(s);
      }
    no_strays();
    guards();
  }

  // ------------------------------------------------------------ the operations
  __attribute__((noinline)) static bool construct(Plan &p, Op const &op, uint32_t a, bool eng, uint64_t fp, FnRef f) {
    fill_bytes(raw(a), sizeof(Opt), 0);
    int r = op.code == O_C_DEF || op.code == O_C_NULL ? quiet(p, op, f) : attempt(p, op, CAT_CONSTRUCT, f);
    no_badacc(r, op);
    if (r == R_FAULT) {
      m[a] = M{false, false, true, 0, 0};
      return false;
    }
    if (eng) set_new(a, fp);
    else set_empty(a);
    return true;
  }
  static void destroy(Plan &p, Op const &op, uint32_t a) {
    int r = quiet(p, op, [&] { o(a).~Opt(); });
    no_badacc(r, op);
    m[a] = M{false, false, true, 0, 0};
    verify(a); // nothing may be left
    fill_bytes(raw(a), sizeof(Opt), 0);
  }
  __attribute__((noinline)) static void assign(Plan &p, Op const &op, uint32_t a, uint64_t fp, bool known, FnRef f) {
    int r = attempt(p, op, m[a].eng ? CAT_ASSIGN : CAT_CONSTRUCT, f);
    no_badacc(r, op);
    if (r == R_FAULT) after_fault(a);
    else assigned(a, fp, known);
  }
  template <class F> static void emplace(Plan &p, Op const &op, uint32_t a, uint64_t fp, F &&f) {
    P *ret = nullptr;
    emplace2(p, op, a, fp, ret, [&] { ret = std::addressof(f()); });
  }
  __attribute__((noinline)) static void emplace2(Plan &p, Op const &op, uint32_t a, uint64_t fp, P *&ret, FnRef f) {
    uint32_t old = m[a].ident;
    int r = attempt(p, op, CAT_CONSTRUCT, f);
    no_badacc(r, op);
    if (r == R_FAULT) set_empty(a);
    else {
      set_new(a, fp);
      {
        Pause pz;
        if (co(a).has_value() && ret != std::addressof(*o(a))) violate(V_REFERENCE, "emplace returned a reference to something else");
      }
      if (tracked) {
        verify(a);
        if (old && m[a].ident == old) violate(V_IDENTITY, "emplace kept the old value object");
      }
    }
  }
  template <class R> static void check_payload_result(R const &x, uint64_t fp, bool known) {
    Pause pz;
    uint64_t f = K::fp(x);
    ev(0x40, f);
    if (known && f != fp) violate(V_RESULT, "result is %llx, expected %llx", (unsigned long long)f, (unsigned long long)fp);
  }
  static void check_addr(const void *p, uint32_t s) {
    Pause pz;
    if (p != (const void *)std::addressof(*co(s))) violate(V_REFERENCE, "returned reference is not the held value");
  }
  static uint64_t valfp(int v) { return K::fpv(dom(v)); }
  // A value of the domain; or, as an argument that is never stored (value_or, comparisons), the reserved value itself.
  static U make_arg(Op const &op, int i) {
    if constexpr (K::has_bad && !K::tracked)
      if (pl::uix(op.w) % 5 == 4) return K::bad();
    return K::make(i);
  }
  static uint64_t arg_fp(U const &d, uint64_t fp) {
    if constexpr (K::has_bad && !K::tracked) {
      Pause pz;
      return K::fp(d);
    }
    return fp;
  }
  static int dom(int v) { return (int)(pl::uix(v) % (unsigned)K::N); }

  static bool dispatch(Plan &p, Op const &op, uint32_t a, uint32_t b) {
    const int i = dom(op.v);
    const uint64_t fp = valfp(op.v);
    M &A = m[a];
    M &B = m[b];
    switch (op.code) {
    case O_DTOR:
      if (!A.alive) return false;
      destroy(p, op, a);
      return true;
    case O_C_DEF:
      if (A.alive) return false;
      if (op.var & 1) construct(p, op, a, false, 0, [&] { ::new ((void *)raw(a)) Opt{}; });
      else construct(p, op, a, false, 0, [&] { ::new ((void *)raw(a)) Opt(); });
      return true;
    case O_C_NULL:
      if (A.alive) return false;
      construct(p, op, a, false, 0, [&] { ::new ((void *)raw(a)) Opt(std::nullopt); });
      return true;
    case O_C_VALL:
      if constexpr (cc && std::is_constructible_v<Opt, U const &>) {
        if (A.alive) return false;
        U x = K::make(i);
        construct(p, op, a, true, fp, [&] {
          if (op.var & 1) ::new ((void *)raw(a)) Opt(x);
          else ::new ((void *)raw(a)) Opt(static_cast<U const &>(x));
        });
        check_payload_result(x, fp, true);
        return true;
      }
      return false;
    case O_C_VALR:
      if constexpr (mc && std::is_constructible_v<Opt, U>) {
        if (A.alive) return false;
        U x = K::make(i);
        bool ok = construct(p, op, a, true, fp, [&] { ::new ((void *)raw(a)) Opt(std::move(x)); });
        if (ok && K::moved == M_MARK) check_payload_result(x, K::movedfp(), true);
        return true;
      }
      return false;
    case O_C_SRC:
      if constexpr (std::is_constructible_v<Opt, Src const &>) {
        if (A.alive) return false;
        Src const x = K::src(i);
        construct(p, op, a, true, fp, [&] { ::new ((void *)raw(a)) Opt(x); });
        return true;
      }
      return false;
    case O_C_SRCR:
      if constexpr (std::is_constructible_v<Opt, Src>) {
        if (A.alive) return false;
        Src x = K::src(i);
        construct(p, op, a, true, fp, [&] { ::new ((void *)raw(a)) Opt(std::move(x)); });
        return true;
      }
      return false;
    case O_C_INPL:
      if constexpr (srcable) {
        if (A.alive) return false;
        Src const x = K::src(i);
        construct(p, op, a, true, fp, [&] { ::new ((void *)raw(a)) Opt(std::in_place, x); });
        return true;
      }
      return false;
    case O_C_INPLVAL:
      if constexpr (mc) {
        if (A.alive) return false;
        U x = K::make(i);
        construct(p, op, a, true, fp, [&] { ::new ((void *)raw(a)) Opt(std::in_place, std::move(x)); });
        return true;
      }
      return false;
    case O_C_INPL0:
      if constexpr (K::dflt) {
        if (A.alive) return false;
        construct(p, op, a, true, K::dfltfp(), [&] { ::new ((void *)raw(a)) Opt(std::in_place); });
        return true;
      }
      return false;
    case O_C_ILIST:
      if constexpr (tracked) {
        if (A.alive) return false;
        construct(p, op, a, true, K::fpi(i + 1), [&] { ::new ((void *)raw(a)) Opt(std::in_place, {i, 7}, 1); });
        return true;
      } else if constexpr (K::ilist) {
        if (A.alive) return false;
        construct(p, op, a, true, K::ilfp(i), [&] { ::new ((void *)raw(a)) Opt(std::in_place, {typename K::IL(i + 1), typename K::IL(7)}); });
        return true;
      }
      return false;
    case O_C_INPL2:
      if constexpr (tracked) {
        if (A.alive) return false;
        construct(p, op, a, true, K::fpi(i + 1), [&] { ::new ((void *)raw(a)) Opt(std::in_place, i, 1); });
        return true;
      }
      return false;
    case O_C_INPL3:
      if constexpr (tracked) {
        if (A.alive) return false;
        pl::VArg const x{1};
        construct(p, op, a, true, K::fpi(i + 3), [&] { ::new ((void *)raw(a)) Opt(std::in_place, i, x, 2); });
        return true;
      }
      return false;
    case O_E_2:
      if constexpr (tracked) {
        if (!A.alive) return false;
        emplace(p, op, a, K::fpi(i + 1), [&]() -> P & { return o(a).emplace(i, 1); });
        return true;
      }
      return false;
    case O_E_3:
      if constexpr (tracked) {
        if (!A.alive) return false;
        pl::VArg const x{1};
        emplace(p, op, a, K::fpi(i + 3), [&]() -> P & { return o(a).emplace(i, x, 2); });
        return true;
      }
      return false;
    case O_C_COPY:
      if constexpr (std::is_copy_constructible_v<Opt>) {
        if (A.alive || !B.alive || a == b) return false;
        bool ok = construct(p, op, a, B.eng, B.fp, [&] {
          if ((op.var & 1) && b >= nshared) ::new ((void *)raw(a)) Opt(o(b)); // from a non-const lvalue
          else ::new ((void *)raw(a)) Opt(co(b));
        });
        if (!ok) after_fault(b);
        return true;
      }
      return false;
    case O_C_CMOVE:
      if constexpr (std::is_copy_constructible_v<Opt>) {
        if (A.alive || !B.alive || a == b) return false;
        bool ok = construct(p, op, a, B.eng, B.fp, [&] { ::new ((void *)raw(a)) Opt(std::move(co(b))); });
        if (!ok) after_fault(b);
        return true;
      }
      return false;
    case O_C_MOVE:
      if constexpr (std::is_move_constructible_v<Opt>) {
        if (A.alive || !B.alive || a == b) return false;
        bool ok = construct(p, op, a, B.eng, B.fp, [&] { ::new ((void *)raw(a)) Opt(std::move(o(b))); });
        if (!ok) after_fault(b);
        else if (B.eng) moved_from(b);
        return true;
      }
      return false;
    case O_C_MAKE:
      if constexpr (K::can_make && mc) {
        if (A.alive) return false;
        U x = K::make(i);
        if constexpr (cc) {
          if (op.var & 1) {
            construct(p, op, a, true, fp, [&] { ::new ((void *)raw(a)) Opt(K::mk(static_cast<U const &>(x))); });
            check_payload_result(x, fp, true);
            return true;
          }
        }
        construct(p, op, a, true, fp, [&] { ::new ((void *)raw(a)) Opt(K::mk(std::move(x))); });
        return true;
      }
      return false;
    case O_C_MAKEARGS:
      if constexpr (K::can_make && srcable) {
        if (A.alive) return false;
        if constexpr (tracked) {
          if (op.var & 1) {
            construct(p, op, a, true, K::fpi(i + 1), [&] { ::new ((void *)raw(a)) Opt(K::mkargs(i, 1)); });
            return true;
          }
        }
        Src const x = K::src(i);
        construct(p, op, a, true, fp, [&] { ::new ((void *)raw(a)) Opt(K::mkargs(x)); });
        return true;
      }
      return false;
    case O_C_MAKEIL:
      if constexpr (K::can_make && tracked) {
        if (A.alive) return false;
        construct(p, op, a, true, K::fpi(i + 1), [&] { ::new ((void *)raw(a)) Opt(K::mkil({i, 7}, 1)); });
        return true;
      }
      return false;
    case O_C_RET:
      if constexpr (srcable && mc) {
        if (A.alive) return false;
        Src const x = K::src(i);
        bool e = op.var & 1;
        construct(p, op, a, !e, fp, [&] {
          ::new ((void *)raw(a)) Opt([&]() -> Opt {
            Opt t;
            if (e) return std::nullopt;
            t.emplace(x);
            return t;
          }());
        });
        return true;
      }
      return false;

    // ---------------------------------------------------------- emptying
    case O_RESET:
      if (!A.alive) return false;
      no_badacc(quiet(p, op, [&] { o(a).reset(); }), op);
      set_empty(a);
      return true;
    case O_A_NULL: {
      if (!A.alive) return false;
      Opt *ret = nullptr;
      no_badacc(quiet(p, op, [&] { ret = &(o(a) = std::nullopt); }), op);
      if (ret != &o(a)) violate(V_REFERENCE, "assignment returned a reference to something else");
      set_empty(a);
      return true;
    }
    case O_A_BRACE:
      if constexpr (K::braces && std::is_move_assignable_v<Opt>) {
        if (!A.alive) return false;
        no_badacc(quiet(p, op, [&] { o(a) = {}; }), op);
        set_empty(a);
        return true;
      }
      return false;
    case O_A_EMPTYTEMP:
      if constexpr (std::is_move_assignable_v<Opt>) {
        if (!A.alive) return false;
        no_badacc(quiet(p, op, [&] { o(a) = Opt(); }), op);
        set_empty(a);
        return true;
      }
      return false;

    // ---------------------------------------------------------- assignment
    case O_A_VALL:
      if constexpr (cc && std::is_assignable_v<Opt &, U const &>) {
        if (!A.alive) return false;
        U x = K::make(i);
        Opt *ret = nullptr;
        assign(p, op, a, fp, true, [&] {
          if (op.var & 1) ret = std::addressof(static_cast<Opt &>(o(a) = x));
          else ret = std::addressof(static_cast<Opt &>(o(a) = static_cast<U const &>(x)));
        });
        if (ret && ret != &o(a)) violate(V_REFERENCE, "assignment returned a reference to something else");
        check_payload_result(x, fp, true);
        return true;
      }
      return false;
    case O_A_VALR:
      if constexpr (mc && std::is_assignable_v<Opt &, U>) {
        if (!A.alive) return false;
        U x = K::make(i);
        bool hadf = false;
        assign(p, op, a, fp, true, [&] { o(a) = std::move(x); hadf = true; });
        if (hadf && K::moved == M_MARK) check_payload_result(x, K::movedfp(), true);
        return true;
      }
      return false;
    case O_A_SRC:
      if constexpr (std::is_assignable_v<Opt &, Src const &> && srcable) {
        if (!A.alive) return false;
        Src const x = K::src(i);
        Opt *ret = nullptr;
        assign(p, op, a, fp, true, [&] { ret = std::addressof(static_cast<Opt &>(o(a) = x)); });
        if (ret && ret != &o(a)) violate(V_REFERENCE, "assignment returned a reference to something else");
        return true;
      }
      return false;
    case O_A_SRCR:
      if constexpr (std::is_assignable_v<Opt &, Src> && srcable) {
        if (!A.alive) return false;
        Src x = K::src(i);
        assign(p, op, a, fp, true, [&] { o(a) = std::move(x); });
        return true;
      }
      return false;
    case O_A_SELFVAL:
      if constexpr (cc && std::is_assignable_v<Opt &, U const &>) {
        if (!A.alive || !A.eng) return false;
        assign(p, op, a, A.fp, A.known, [&] {
          if (op.var & 1) o(a) = *o(a);
          else o(a) = *co(a);
        });
        return true;
      }
      return false;
    case O_A_SELFMOVE: // the optional's own value, moved into it
      if constexpr (mc && std::is_assignable_v<Opt &, U> && !std::is_const_v<P>) {
        if (!A.alive || !A.eng) return false;
        int r = attempt(p, op, CAT_ASSIGN, [&] {
          if (op.var & 1) o(a) = std::move(o(a)).value();
          else o(a) = std::move(*o(a));
        });
        no_badacc(r, op);
        if (r == R_FAULT) after_fault(a);
        else if (K::moved == M_UNKNOWN) A.known = false;
        else if (!tracked && K::moved == M_MARK) A.known = false;
        return true;
      }
      return false;
    case O_A_BRACEVAL: // o = {value}
      if constexpr (tracked && mc && std::is_assignable_v<Opt &, U> && std::is_convertible_v<U, P> && K::braces) {
        if (!A.alive) return false;
        U x = K::make(i);
        assign(p, op, a, fp, true, [&] { o(a) = {std::move(x)}; });
        return true;
      }
      return false;
    case O_A_FROMVAL:
      if constexpr (cc && std::is_assignable_v<Opt &, U const &>) {
        if (!A.alive || !B.alive || !B.eng || a == b) return false;
        assign(p, op, a, B.fp, B.known, [&] { o(a) = *co(b); });
        if (C().fired.on) after_fault(b);
        return true;
      }
      return false;
    case O_A_FROMMOVEVAL:
      if constexpr (mc && std::is_assignable_v<Opt &, U> && !std::is_const_v<P>) {
        if (!A.alive || !B.alive || !B.eng || a == b) return false;
        assign(p, op, a, B.fp, B.known, [&] {
          if (op.var & 1) o(a) = std::move(o(b)).value();
          else o(a) = *std::move(o(b));
        });
        if (C().fired.on) after_fault(b);
        else moved_from(b);
        return true;
      }
      return false;
    case O_A_COPY:
    case O_A_CMOVE:
      if constexpr (std::is_copy_assignable_v<Opt>) {
        if (!A.alive || !B.alive) return false;
        int cat = !B.eng ? 0 : A.eng ? CAT_ASSIGN : CAT_CONSTRUCT;
        Opt *ret = nullptr;
        int r = attempt(p, op, cat, [&] {
          if (op.code == O_A_COPY && (op.var & 1) && b >= nshared) ret = &(o(a) = o(b)); // from a non-const lvalue
          else if (op.code == O_A_COPY) ret = &(o(a) = co(b));
          else ret = &(o(a) = std::move(co(b)));
        });
        no_badacc(r, op);
        if (r == R_FAULT) {
          after_fault(a);
          if (a != b) after_fault(b);
        } else {
          if (ret != &o(a)) violate(V_REFERENCE, "assignment returned a reference to something else");
          if (B.eng) assigned(a, B.fp, B.known);
          else set_empty(a);
        }
        return true;
      }
      return false;
    case O_A_MOVE:
      if constexpr (std::is_move_assignable_v<Opt>) {
        if (!A.alive || !B.alive) return false;
        int cat = !B.eng ? 0 : A.eng ? CAT_ASSIGN : CAT_CONSTRUCT;
        Opt *ret = nullptr;
        int r = attempt(p, op, cat, [&] { ret = &(o(a) = std::move(o(b))); });
        no_badacc(r, op);
        if (r == R_FAULT) {
          after_fault(a);
          if (a != b) after_fault(b);
        } else {
          if (ret != &o(a)) violate(V_REFERENCE, "assignment returned a reference to something else");
          if (a == b) {
            if (A.eng && K::moved == M_UNKNOWN) A.known = false;
          } else if (B.eng) {
            assigned(a, B.fp, B.known);
            moved_from(b);
          } else
            set_empty(a);
        }
        return true;
      }
      return false;
    case O_A_TEMP:
      if constexpr (mc && std::is_move_assignable_v<Opt>) {
        if (!A.alive) return false;
        U x = K::make(i);
        assign(p, op, a, fp, true, [&] { o(a) = Opt(std::in_place, std::move(x)); });
        return true;
      }
      return false;
    case O_A_TEMPSRC:
      if constexpr (srcable && std::is_move_assignable_v<Opt>) {
        if (!A.alive) return false;
        Src const x = K::src(i);
        assign(p, op, a, fp, true, [&] { o(a) = Opt(std::in_place, x); });
        return true;
      }
      return false;

    // ---------------------------------------------------------- emplace
    case O_E_SRC:
      if constexpr (srcable) {
        if (!A.alive) return false;
        Src const x = K::src(i);
        emplace(p, op, a, fp, [&]() -> P & { return o(a).emplace(x); });
        return true;
      }
      return false;
    case O_E_VAL:
      if constexpr (mc) {
        if (!A.alive) return false;
        U x = K::make(i);
        if constexpr (cc) {
          if (op.var & 1) {
            emplace(p, op, a, fp, [&]() -> P & { return o(a).emplace(static_cast<U const &>(x)); });
            check_payload_result(x, fp, true);
            return true;
          }
        }
        emplace(p, op, a, fp, [&]() -> P & { return o(a).emplace(std::move(x)); });
        return true;
      }
      return false;
    case O_E_0:
      if constexpr (K::dflt) {
        if (!A.alive) return false;
        emplace(p, op, a, K::dfltfp(), [&]() -> P & { return o(a).emplace(); });
        return true;
      }
      return false;
    case O_E_ILIST:
      if constexpr (tracked) {
        if (!A.alive) return false;
        emplace(p, op, a, K::fpi(i + 1), [&]() -> P & { return o(a).emplace({i, 7}, 1); });
        return true;
      } else if constexpr (K::ilist) {
        if (!A.alive) return false;
        emplace(p, op, a, K::ilfp(i), [&]() -> P & { return o(a).emplace({typename K::IL(i + 1), typename K::IL(7)}); });
        return true;
      }
      return false;

    // ---------------------------------------------------------- swap
    case O_SWAP_M:
    case O_SWAP_F:
      if constexpr (std::is_move_constructible_v<P> && std::is_swappable_v<P>) {
        if (!A.alive || !B.alive) return false;
        int cat = (A.eng || B.eng) ? CAT_ASSIGN : 0;
        int r = attempt(p, op, cat, [&] {
          if (op.code == O_SWAP_M) o(a).swap(o(b));
          else {
            using std::swap;
            swap(o(a), o(b));
          }
        });
        no_badacc(r, op);
        if (r == R_FAULT) {
          bool both = A.eng && B.eng;
          after_fault(a, both);
          after_fault(b, both);
        } else
          swapped(a, b, false);
        return true;
      }
      return false;
    case O_SWAP_STD:
      if constexpr (std::is_move_constructible_v<Opt> && std::is_move_assignable_v<Opt>) {
        if (!A.alive || !B.alive) return false;
        no_badacc(attempt(p, op, 0, [&] { std::swap(o(a), o(b)); }), op);
        swapped(a, b, true);
        return true;
      }
      return false;

    // ---------------------------------------------------------- access
    case O_MUT:
      if constexpr (std::is_assignable_v<P &, Src const &>) {
        if (!A.alive || !A.eng) return false;
        Src const x = K::src(i);
        int r = attempt(p, op, CAT_OBSERVE, [&] {
          if (op.var & 1) o(a).value() = x;
          else *o(a) = x;
        });
        no_badacc(r, op);
        if (r == R_FAULT) after_fault(a);
        else A.fp = fp, A.known = true;
        return true;
      }
      return false;
    case O_G_VALUE: {
      if (!A.alive) return false;
      const void *ret = nullptr;
      int r = quiet(p, op, [&] {
        switch (op.var & 3) {
        case 0: ret = (const void *)std::addressof(o(a).value()); break;
        case 1: ret = (const void *)std::addressof(co(a).value()); break;
        case 2: {
          P &&x = std::move(o(a)).value();
          ret = (const void *)std::addressof(x);
          break;
        }
        default: {
          P const &&x = std::move(co(a)).value();
          ret = (const void *)std::addressof(x);
        }
        }
      });
      if (A.eng) {
        no_badacc(r, op);
        check_addr(ret, a);
      } else if (r != R_BADACC)
        violate(V_EXC_MISSING, "value() of an empty optional did not throw bad_optional_access");
      return true;
    }
    case O_G_DEREF: {
      if (!A.alive || !A.eng) return false;
      const void *ret = nullptr;
      no_badacc(quiet(p, op,
                        [&] {
                          switch (op.var & 3) {
                          case 0: ret = (const void *)std::addressof(*o(a)); break;
                          case 1: ret = (const void *)std::addressof(*co(a)); break;
                          case 2: {
                            P &&x = *std::move(o(a));
                            ret = (const void *)std::addressof(x);
                            break;
                          }
                          default: {
                            P const &&x = *std::move(co(a));
                            ret = (const void *)std::addressof(x);
                          }
                          }
                        }),
                op);
      check_addr(ret, a);
      return true;
    }
    case O_G_ARROW: {
      if (!A.alive || !A.eng) return false;
      const void *ret = nullptr;
      no_badacc(quiet(p, op, [&] { ret = (op.var & 1) ? (const void *)co(a).operator->() : (const void *)o(a).operator->(); }), op);
      check_addr(ret, a);
      return true;
    }
    case O_G_BOOL: {
      if (!A.alive) return false;
      bool x = false, y = false;
      no_badacc(quiet(p, op, [&] { x = co(a).has_value(); y = static_cast<bool>(co(a)); }), op);
      if (x != A.eng || y != A.eng) violate(V_ENGAGED, "has_value() wrong");
      return true;
    }
    case O_TAKE:
      if constexpr (mc && !std::is_const_v<P>) {
        if (!A.alive || !A.eng) return false;
        int r = attempt(p, op, CAT_OBSERVE, [&] {
          if (op.var & 1) {
            U x(std::move(o(a)).value());
            check_payload_result(x, A.fp, A.known);
          } else {
            U x(*std::move(o(a)));
            check_payload_result(x, A.fp, A.known);
          }
        });
        no_badacc(r, op);
        if (r == R_FAULT) after_fault(a);
        else moved_from(a);
        return true;
      }
      return false;

    // ---------------------------------------------------------- value_or
    case O_VOR_C:
      if constexpr (cc) {
        if (!A.alive) return false;
        U d = make_arg(op, i);
        const uint64_t dfp = arg_fp(d, fp);
        int r = attempt(p, op, CAT_OBSERVE, [&] {
          U x = (op.var & 1) ? co(a).value_or(static_cast<U const &>(d)) : co(a).value_or(std::move(d));
          check_payload_result(x, A.eng ? A.fp : dfp, A.eng ? A.known : true);
        });
        no_badacc(r, op);
        if (r == R_FAULT) after_fault(a);
        return true;
      }
      return false;
    case O_VOR_CSRC:
      if constexpr (cc && std::is_convertible_v<Src const &, U>) {
        if (!A.alive) return false;
        Src const d = K::src(i);
        int r = attempt(p, op, CAT_OBSERVE, [&] {
          U x = co(a).value_or(d);
          check_payload_result(x, A.eng ? A.fp : fp, A.eng ? A.known : true);
        });
        no_badacc(r, op);
        if (r == R_FAULT) after_fault(a);
        return true;
      }
      return false;
    case O_VOR_R:
      if constexpr (mc && !std::is_const_v<P>) {
        if (!A.alive) return false;
        U d = make_arg(op, i);
        const uint64_t dfp = arg_fp(d, fp);
        int r = attempt(p, op, CAT_OBSERVE, [&] {
          U x = std::move(o(a)).value_or(std::move(d));
          check_payload_result(x, A.eng ? A.fp : dfp, A.eng ? A.known : true);
        });
        no_badacc(r, op);
        if (r == R_FAULT) after_fault(a);
        else if (A.eng) moved_from(a);
        return true;
      }
      return false;
    case O_VOR_RSRC:
      if constexpr (mc && std::is_convertible_v<Src const &, U> && !std::is_const_v<P>) {
        if (!A.alive) return false;
        Src const d = K::src(i);
        int r = attempt(p, op, CAT_OBSERVE, [&] {
          U x = std::move(o(a)).value_or(d);
          check_payload_result(x, A.eng ? A.fp : fp, A.eng ? A.known : true);
        });
        no_badacc(r, op);
        if (r == R_FAULT) after_fault(a);
        else if (A.eng) moved_from(a);
        return true;
      }
      return false;

    case O_VOR_SELF: // the default is the held value itself
      if constexpr (cc) {
        if (!A.alive || !A.eng) return false;
        int r = attempt(p, op, CAT_OBSERVE, [&] {
          U x = co(a).value_or(*co(a));
          check_payload_result(x, A.fp, A.known);
        });
        no_badacc(r, op);
        if (r == R_FAULT) after_fault(a);
        return true;
      }
      return false;
    case O_ROTATE: // a standard algorithm over the whole array
      if constexpr (std::is_move_constructible_v<Opt> && std::is_move_assignable_v<Opt> && std::is_swappable_v<P>) {
        if (W.ntasks > 1 || W.shared_ro || total < 2) return false;
        for (uint32_t s = 0; s < total; s++)
          if (!m[s].alive) return false;
        const bool rev = op.var & 1;
        const uint32_t by = 1 + op.v % (total - 1);
        no_badacc(attempt(p, op, 0, [&] {
          if (rev) std::reverse(&o(0), &o(0) + total);
          else std::rotate(&o(0), &o(0) + by, &o(0) + total);
        }), op);
        if (rev) std::reverse(m, m + total);
        else std::rotate(m, m + by, m + total);
        for (uint32_t s = 0; s < total; s++) {
          m[s].ident = 0;
          verify(s);
          resnap(s);
        }
        return true;
      }
      return false;
    case O_AND_THEN:
    case O_TRANSFORM:
    case O_OR_ELSE: return monadic(p, op, a, b);
    case O_CMP:
    case O_CMPVAL:
    case O_CMPNULL:
    case O_CMPSTD:
    case O_HASH: return compare(p, op, a, b);

#ifndef NDEBUG
    case O_M_CV:
    case O_M_INPL:
    case O_M_EMPLACE:
    case O_M_ASSIGN:
    case O_M_CONVASSIGN:
    case O_M_MAKE:
    case O_M_TRANSFORM:
    case O_M_DEREF:
    case O_M_CDEREF:
    case O_M_RDEREF:
    case O_M_CRDEREF:
    case O_M_ARROW:
    case O_M_CARROW: return misuse(p, op, a);
#endif
    case O_STORM:
      storm[W.cur] = true;
      return true;
    case O_CALM: { // faults stop: within one operation per optional, service must have resumed
      storm[W.cur] = false;
      if constexpr (srcable) {
        Op q = op;
        q.f = 0;
        for (uint32_t s = 0; s < total; s++) {
          if (!mine(s)) continue;
          Src const x = K::src(i);
          int r;
          if (!m[s].alive) r = attempt(p, q, 0, [&] { ::new ((void *)raw(s)) Opt(std::in_place, x); });
          else r = attempt(p, q, 0, [&] { o(s).emplace(x); });
          if (r != R_OK) violate(V_PROGRESS, "store failed after the failures stopped");
          set_new(s, fp);
          {
            Pause pz;
            if (!o(s).has_value()) violate(V_PROGRESS, "store after the failures stopped did not hold");
          }
          verify(s);
          resnap(s);
        }
        return true;
      }
      return false;
    }
    }
    return false;
  }

#ifndef NDEBUG
  // One deliberate misuse: an assertion must stop it before it returns.
  __attribute__((noinline)) static void must_assert(Op const &op, FnRef f) {
    poison_stack();
    static jmp_buf jb;
    Ctx &c = C();
    c.fired = Fired();
    c.armed = false;
    W.asserted = false;
    W.assert_jmp = &jb;
    W.expect_assert = true;
    if (_setjmp(jb) == 0) {
      c.lib = true;
      f();
    }
    C().lib = false;
    W.expect_assert = false;
    if (!W.asserted) violate(V_NOASSERT, "%s: misuse was not stopped by an assertion", op_name[op.code]);
    S->asserts_expected++;
  }
  static void abandon(uint32_t a) {
    m[a] = M{false, false, true, 0, 0};
    fill_bytes(raw(a), sizeof(Opt), 0);
  }
  static bool misuse(Plan &, Op const &op, uint32_t a) {
    if (K::is_std || W.ntasks > 1) return false;
    M &A = m[a];
    const void *volatile sink = nullptr;
    switch (op.code) {
    case O_M_DEREF:
      if (!A.alive || A.eng) return false;
      must_assert(op, [&] { sink = (const void *)std::addressof(*o(a)); });
      return true;
    case O_M_CDEREF:
      if (!A.alive || A.eng) return false;
      must_assert(op, [&] { sink = (const void *)std::addressof(*co(a)); });
      return true;
    case O_M_RDEREF:
      if (!A.alive || A.eng) return false;
      must_assert(op, [&] {
        P &&x = *std::move(o(a));
        sink = (const void *)std::addressof(x);
      });
      return true;
    case O_M_CRDEREF:
      if (!A.alive || A.eng) return false;
      must_assert(op, [&] {
        P const &&x = *std::move(co(a));
        sink = (const void *)std::addressof(x);
      });
      return true;
    case O_M_ARROW:
      if (!A.alive || A.eng) return false;
      must_assert(op, [&] { sink = (const void *)o(a).operator->(); });
      return true;
    case O_M_CARROW:
      if (!A.alive || A.eng) return false;
      must_assert(op, [&] { sink = (const void *)co(a).operator->(); });
      return true;
    }
    (void)sink;
    if constexpr (K::has_bad && !tracked) {
      static U x;
      x = K::bad();
      static Src sx;
      sx = K::badsrc();
      U const &cx = x;
      Src const &csx = sx;
      switch (op.code) {
      case O_M_CV:
        if (A.alive) return false;
        must_assert(op, [&] {
          switch (op.var & 3) {
          case 0: ::new ((void *)raw(a)) Opt(cx); break;
          case 1: ::new ((void *)raw(a)) Opt(std::move(x)); break;
          case 2: ::new ((void *)raw(a)) Opt(csx); break;
          default: ::new ((void *)raw(a)) Opt(std::move(sx)); break;
          }
        });
        abandon(a);
        return true;
      case O_M_INPL:
        if (A.alive) return false;
        must_assert(op, [&] {
          if (op.var & 1) ::new ((void *)raw(a)) Opt(std::in_place, cx);
          else ::new ((void *)raw(a)) Opt(std::in_place, csx);
        });
        abandon(a);
        return true;
      case O_M_EMPLACE:
        if (!A.alive) return false;
        must_assert(op, [&] {
          switch (op.var & 3) {
          case 0: o(a).emplace(cx); break;
          case 1: o(a).emplace(std::move(x)); break;
          default: o(a).emplace(csx);
          }
        });
        abandon(a);
        return true;
      case O_M_ASSIGN:
        if constexpr (std::is_assignable_v<Opt &, U const &>) {
          if (!A.alive) return false;
          must_assert(op, [&] {
            if (op.var & 1) o(a) = cx;
            else o(a) = std::move(x);
          });
          abandon(a);
          return true;
        }
        return false;
      case O_M_CONVASSIGN:
        if constexpr (std::is_assignable_v<Opt &, Src const &>) {
          if (!A.alive) return false;
          must_assert(op, [&] {
            if (op.var & 1) o(a) = csx;
            else o(a) = std::move(sx);
          });
          abandon(a);
          return true;
        }
        return false;
      case O_M_MAKE:
        if constexpr (K::can_make) {
          if (A.alive) return false;
          must_assert(op, [&] {
            switch (op.var & 3) {
            case 0: ::new ((void *)raw(a)) Opt(K::mk(cx)); break;
            case 1: ::new ((void *)raw(a)) Opt(K::mk(std::move(x))); break;
            default: ::new ((void *)raw(a)) Opt(K::mkargs(csx));
            }
          });
          abandon(a);
          return true;
        }
        return false;
      }
    }
#if SIM_BITS
    if constexpr (!K::is_std) if (op.code == O_M_TRANSFORM) {
      if (!A.alive || !A.eng) return false;
      must_assert(op, [&] {
        with_cat(a, op.var & 3, [&](auto &&s) {
          auto const ptr = [] { return (void *)(sizeof(void *) == 8 ? (uintptr_t)0xffff7fffffffffffull : (uintptr_t)0xfffffff7u); };
          auto const dbl = [] { return pl::bits<double>((uint64_t)0x7ff8fedcba987654ull); };
          auto const flt = [] { return pl::bits<float>((uint32_t)0x7fedcba9u); };
          switch ((op.var >> 2) % 6) { // with and without the library's scope guard around the call
          case 0: (void)std::forward<decltype(s)>(s).transform([&](auto &&) noexcept { return ptr(); }); break;
          case 1: (void)std::forward<decltype(s)>(s).transform([&](auto &&) { return dbl(); }); break;
          case 2: (void)std::forward<decltype(s)>(s).transform([&](auto &&) { return ptr(); }); break;
          case 3: (void)std::forward<decltype(s)>(s).transform([&](auto &&) noexcept { return dbl(); }); break;
          case 4: (void)std::forward<decltype(s)>(s).transform([&](auto &&) { return flt(); }); break;
          default: (void)std::forward<decltype(s)>(s).transform([&](auto &&) noexcept { return flt(); }); break;
          }
        });
      });
      return true;
    }
#endif
    return false;
  }
#endif

  static void moved_from(uint32_t s) { moved(m[s]); }
  static void swapped(uint32_t a, uint32_t b, bool generic) {
    if (a == b) {
      if (generic && m[a].eng) m[a].ident = 0; // value travelled through a temporary
      if (K::moved == M_UNKNOWN && m[a].eng) m[a].known = false;
      if (generic && m[a].eng && K::moved == M_MARK && false) moved(m[a]);
      return;
    }
    M &A = m[a], &B = m[b];
    std::swap(A.eng, B.eng);
    std::swap(A.fp, B.fp);
    std::swap(A.known, B.known);
    if (!(A.eng && B.eng)) A.ident = B.ident = 0; // mixed: new objects
  }

  // ------------------------------------------------------------ monadic operations
  template <class T> struct Tag { using type = T; };
  struct CbState {
    int beh = 0;
    bool effects = false;
    int newv = 0;
    uint32_t other = 0;
  };
  // what the callback does to its environment; returns after the source has been dealt with
  template <class X> static void cb_effects(CbState &st, uint32_t a, X &&x) {
    Pause pz;
    const uint32_t b = st.other;
    if (st.beh >= 7 && (W.shared_ro || a == b || !m[b].alive)) return;
    switch (st.beh) {
    case 3:
      if constexpr (mc && std::is_same_v<X, U>) {
        U t(std::move(x));
        (void)t;
        st.effects = true;
      }
      break;
    case 4:
      if (!W.shared_ro) {
        o(a).reset();
        st.effects = true;
        S->reentrant++;
      }
      break;
    case 5:
      if constexpr (srcable)
        if (!W.shared_ro) {
          o(a).emplace(K::src(dom(st.newv)));
          st.effects = true;
          S->reentrant++;
        }
      break;
    case 7: // exchange it with another optional
      if constexpr (std::is_move_constructible_v<P> && std::is_swappable_v<P>) {
        o(a).swap(o(b));
        st.effects = true;
        S->reentrant++;
      }
      break;
    case 8: // overwrite it with another optional's contents
      if constexpr (std::is_copy_assignable_v<Opt>) {
        o(a) = co(b);
        st.effects = true;
        S->reentrant++;
      }
      break;
    case 9: // move it out
      if constexpr (std::is_move_assignable_v<Opt>) {
        o(b) = std::move(o(a));
        st.effects = true;
        S->reentrant++;
      }
      break;
    default: (void)x;
    }
  }
  static void cb_model(CbState &st, uint32_t a) {
    if (!st.effects) return;
    cbtouched[W.cur] = true;
    if (st.beh == 3) moved_from(a);
    if (st.beh == 4) set_empty(a);
    if (st.beh == 5) set_new(a, valfp(st.newv));
    const uint32_t b = st.other;
    if (st.beh == 7) swapped(a, b, false);
    if (st.beh == 8) {
      if (m[b].eng) assigned(a, m[b].fp, m[b].known);
      else set_empty(a);
    }
    if (st.beh == 9) {
      if (m[a].eng) {
        assigned(b, m[a].fp, m[a].known);
        moved_from(a);
      } else
        set_empty(b);
    }
  }
  template <class R> struct Res { static uint64_t fp(R const &r) { uint64_t x = 0; memcpy(&x, &r, sizeof(R) < 8 ? sizeof(R) : 8); return x; } };

  template <class F> static void with_cat(uint32_t a, int cat, F &&f) {
    switch (cat) {
    case 0: f(o(a)); break;
    case 1: f(co(a)); break;
    case 2: f(std::move(o(a))); break;
    default: f(std::move(co(a))); break;
    }
  }
  static void check_probe(Op const &op, Probe const &pr, bool engaged, const void *payload, int cat, bool lv, const void *given) {
    if (pr.calls != (engaged ? 1 : 0)) violate(V_CALLBACK, "%s called the function %d times on %s optional", op_name[op.code], pr.calls, engaged ? "an engaged" : "an empty");
    if (!engaged) return;
    if (pr.arg != payload) violate(V_CALLBACK, "%s did not hand over the held value itself", op_name[op.code]);
    bool wantl = cat < 2, wantc = cat == 1 || cat == 3 || std::is_const_v<P>;
    if (pr.lref != wantl || pr.cst != wantc) violate(V_CALLBACK, "%s handed over the value with the wrong category (lvalue %d const %d)", op_name[op.code], pr.lref, pr.cst);
    if (pr.frv != !lv) violate(V_CALLBACK, "%s invoked the function with the wrong value category", op_name[op.code]);
    if (pr.fn != given) violate(V_CALLBACK, "%s invoked something else than the given function object", op_name[op.code]);
  }

  static bool monadic(Plan &p, Op const &op, uint32_t a, uint32_t b) {
    if constexpr (K::is_std) return false;
    else {
      if (!m[a].alive) return false;
      const int cat = op.var & 3;
      const bool lv = (op.var >> 2) & 1;
      const int rk = (op.var >> 3) & 3;
      const bool eng = m[a].eng;
      Probe pr;
      CbState st;
      st.beh = (int)(pl::uix(op.w) % 10);
      st.newv = op.w;
      st.other = b;
      const void *given = nullptr;
      if (W.shared_ro && st.beh >= 3) st.beh = 0;
      const void *payload = nullptr;
      if (eng) {
        Pause pz;
        payload = (const void *)std::addressof(*co(a));
      }
      uint64_t srcfp = m[a].fp;
      bool srcknown = m[a].known;
      int r = R_OK;
      if (op.code == O_TRANSFORM) {
        auto obj_result = [&](auto tag) {
          using RT = typename decltype(tag)::type;
          const int rv = dom(op.v) + 100;
          auto body = [&](auto &&x) -> RT {
            check_payload_result(x, srcfp, srcknown);
            cb_effects(st, a, std::forward<decltype(x)>(x));
            after_effects_fault();
            return RT(pl::VArg{rv});
          };
          r = attempt(p, op, CAT_CALLBACK, [&] {
            Callable<decltype(body)> cb{&pr, &body};
            given = &cb;
            auto check = [&](auto &&res) {
              Pause pz;
              static_assert(std::is_same_v<typename rcvref<decltype(res)>::value_type, RT>, "");
              if (res.has_value() != eng) violate(V_RESULT, "transform: result %s", eng ? "empty" : "not empty");
              if (eng && (*res).val != rv) violate(V_RESULT, "transform: wrong result value");
            };
            with_cat(a, cat, [&](auto &&s) {
              if (lv) check(std::forward<decltype(s)>(s).transform(cb));
              else check(std::forward<decltype(s)>(s).transform(std::move(cb)));
            });
          });
        };
        if (rk == 0) obj_result(Tag<pl::RObj>{});
        else if (rk == 2) obj_result(Tag<pl::RManip>{}); // the result has a flag manipulator of its own
        else if (rk == 3 && tracked) { // pointer to member function
          if constexpr (tracked) {
            r = attempt(p, op, CAT_CALLBACK, [&] {
              auto check = [&](auto &&res) {
                Pause pz;
                if (res.has_value() != eng) violate(V_RESULT, "transform: result %s", eng ? "empty" : "not empty");
                if (eng && srcknown && (uint64_t)(int64_t)*res != srcfp) violate(V_RESULT, "transform: wrong result value");
              };
              with_cat(a, cat, [&](auto &&s) { check(std::forward<decltype(s)>(s).transform(&U::get)); });
            });
            no_badacc(r, op);
            if (r == R_FAULT) after_fault(a);
            return true;
          }
        } else {
          r = attempt(p, op, CAT_CALLBACK, [&] {
            with_cat(a, cat, [&](auto &&s) {
              using SS = decltype(s);
              // a different trivially movable result type per overload
              using R = std::conditional_t<std::is_lvalue_reference_v<SS>, std::conditional_t<std::is_const_v<std::remove_reference_t<SS>>, bool, double>,
                                           std::conditional_t<std::is_const_v<std::remove_reference_t<SS>>, void *, int>>;
              R want = R();
              if constexpr (std::is_pointer_v<R>) want = (R)pl::ptr_pats[pl::uix(op.v) % COUNTOF(pl::ptr_pats)];
              else if constexpr (std::is_same_v<R, double>) want = pl::bits<double>(pl::dbl_pats[pl::uix(op.v) % COUNTOF(pl::dbl_pats)]);
              else want = R(op.v % 2 ? true : false);
              auto body = [&](auto &&x) -> R {
                check_payload_result(x, srcfp, srcknown);
                cb_effects(st, a, std::forward<decltype(x)>(x));
                after_effects_fault();
                return want;
              };
              Callable<decltype(body)> cb{&pr, &body};
            given = &cb;
              auto check = [&](auto &&res) {
                Pause pz;
                static_assert(std::is_same_v<typename rcvref<decltype(res)>::value_type, R>, "");
                if (res.has_value() != eng) violate(V_RESULT, "transform: result %s", eng ? "empty" : "not empty");
                if (eng && memcmp(std::addressof(*res), &want, sizeof want)) violate(V_RESULT, "transform: wrong result value");
              };
              if (lv) check(std::forward<SS>(s).transform(cb));
              else check(std::forward<SS>(s).transform(std::move(cb)));
            });
          });
        }
        if (!C().fired.on || pr.calls) check_probe(op, pr, eng, payload, cat, lv, given);
      } else if (op.code == O_AND_THEN) {
        bool empty_res = st.beh == 2;
        auto go = [&](auto mk, auto checkval) {
          using RO = decltype(mk(true));
          auto body = [&](auto &&x) -> RO {
            check_payload_result(x, srcfp, srcknown);
            cb_effects(st, a, std::forward<decltype(x)>(x));
            after_effects_fault();
            return mk(!empty_res);
          };
          r = attempt(p, op, CAT_CALLBACK, [&] {
            Callable<decltype(body)> cb{&pr, &body};
            given = &cb;
            auto check = [&](auto &&res) {
              Pause pz;
              static_assert(std::is_same_v<rcvref<decltype(res)>, RO>, "");
              bool want = eng && !empty_res;
              if (res.has_value() != want) violate(V_RESULT, "and_then: result %s", want ? "empty" : "not empty");
              if (want) checkval(res);
            };
            with_cat(a, cat, [&](auto &&s) {
              if (lv) check(std::forward<decltype(s)>(s).and_then(cb));
              else check(std::forward<decltype(s)>(s).and_then(std::move(cb)));
            });
          });
        };
        if constexpr (mc && srcable) {
          if (rk == 0) {
            go(
                [&](bool e) -> Opt {
                  if (!e) return Opt();
                  return Opt(std::in_place, K::src(dom(op.v)));
                },
                [&](auto &res) { check_payload_result(*res, valfp(op.v), true); });
            goto done_at;
          }
        }
        if (rk == 2) {
          go(
              [&](bool e) -> tiny::optional<pl::RManip> {
                if (!e) return std::nullopt;
                return tiny::optional<pl::RManip>(std::in_place, pl::VArg{op.v});
              },
              [&](auto &res) {
                if ((*res).val != op.v) violate(V_RESULT, "and_then: wrong result");
              });
          goto done_at;
        }
        go([&](bool e) -> std::optional<int> { return e ? std::optional<int>(op.v) : std::nullopt; },
           [&](auto &res) {
             if (*res != op.v) violate(V_RESULT, "and_then: wrong result");
           });
      done_at:;
        if (!C().fired.on || pr.calls) check_probe(op, pr, eng, payload, cat, lv, given);
      } else {
#if defined(__cpp_concepts) && defined(__cpp_lib_concepts)
        if constexpr (mc && srcable) {
          bool empty_res = st.beh == 2;
          if (st.beh == 3 || st.beh == 4) st.beh = 0;
          const bool constcat = op.var & 1;
          if (constcat && !cc) return false;
          auto body = [&]() -> Opt {
            cb_effects(st, a, 0);
            after_effects_fault();
            if (empty_res) return Opt();
            return Opt(std::in_place, K::src(dom(op.v)));
          };
          r = attempt(p, op, CAT_CALLBACK, [&] {
            Callable0<decltype(body)> cb{&pr, &body};
            given = &cb;
            auto check = [&](Opt &&res) {
              Pause pz;
              bool want = eng || !empty_res;
              if (res.has_value() != want) violate(V_RESULT, "or_else: result %s", want ? "empty" : "not empty");
              if (want) check_payload_result(*res, eng ? srcfp : valfp(op.v), eng ? srcknown : true);
            };
            if constexpr (cc) {
              if (constcat) {
                if (lv) check(co(a).or_else(cb));
                else check(co(a).or_else(std::move(cb)));
                return;
              }
            }
            if (lv) check(std::move(o(a)).or_else(cb));
            else check(std::move(o(a)).or_else(std::move(cb)));
          });
          if (!C().fired.on || pr.calls) {
            if (pr.calls != (eng ? 0 : 1)) violate(V_CALLBACK, "or_else called the function %d times on %s optional", pr.calls, eng ? "an engaged" : "an empty");
            if (!eng && pr.fn != given) violate(V_CALLBACK, "or_else invoked something else than the given function object");
            if (!eng && pr.frv == lv) violate(V_CALLBACK, "or_else invoked the function with the wrong value category");
          }
          no_badacc(r, op);
          if (r == R_FAULT) {
            if (eng) after_fault(a);
            cb_model(st, a);
          } else {
            cb_model(st, a);
            if (eng && !constcat) moved_from(a);
          }
          return true;
        }
#endif
        return false;
      }
      no_badacc(r, op);
      if (r == R_FAULT) after_fault(a);
      cb_model(st, a);
      return true;
    }
  }

  // ------------------------------------------------------------ comparisons within one kind
  template <class X, class Y> static bool rel(int w, X const &x, Y const &y) {
    switch (w) {
    case 0: return x == y;
    case 1: return x != y;
    case 2: return x < y;
    case 3: return x <= y;
    case 4: return x > y;
    default: return x >= y;
    }
  }
  static bool rel_expect(int w, bool ea, bool eb, U const *x, U const *y) {
    Pause pz;
    if (ea && eb) return rel(w, *x, *y);
    int A = ea, B = eb;
    return rel(w, A, B);
  }
  static bool compare(Plan &p, Op const &op, uint32_t a, uint32_t b) {
    if (!m[a].alive) return false;
    M &A = m[a];
    M &B = m[b];
    const int w = (int)(op.var % 6);
    if (op.code == O_CMPNULL) {
      bool got = false, got2 = false;
      no_badacc(quiet(p, op, [&] { got = relnull(w, co(a)); got2 = relnull2(w, co(a)); }), op);
      int e = A.eng;
      if (got != rel(w, e, 0)) violate(V_COMPARE, "comparison #%d with nullopt wrong", w);
      if (got2 != rel(w, 0, e)) violate(V_COMPARE, "comparison #%d of nullopt wrong", w);
      return true;
    }
    if (op.code == O_HASH) {
      if constexpr (K::hashable) {
        size_t h = 0;
        int r = attempt(p, op, CAT_OBSERVE, [&] { h = std::hash<Opt>{}(co(a)); });
        no_badacc(r, op);
        if (r == R_FAULT) {
          after_fault(a);
          return true;
        }
        Pause pz;
        if (A.eng) {
          size_t want = std::hash<U>{}(*co(a));
          if (h != want) violate(V_HASH, "hash differs from the hash of the value");
        } else {
          if (have_empty_hash && h != empty_hash) violate(V_HASH, "empty optionals have different hashes");
          have_empty_hash = true;
          empty_hash = h;
        }
        return true;
      }
      return false;
    }
    if constexpr (K::comparable) {
      if (op.code == O_CMP) {
        if (!B.alive) return false;
        bool got = false;
        int r = attempt(p, op, CAT_OBSERVE, [&] { got = rel(w, co(a), co(b)); });
        no_badacc(r, op);
        if (r == R_FAULT) {
          after_fault(a);
          after_fault(b);
          return true;
        }
        U const *x = nullptr, *y = nullptr;
        {
          Pause pz;
          if (A.eng) x = const_cast<U const *>(std::addressof(*co(a)));
          if (B.eng) y = const_cast<U const *>(std::addressof(*co(b)));
        }
        if (got != rel_expect(w, A.eng, B.eng, x, y)) violate(V_COMPARE, "comparison #%d of two optionals wrong", w);
        return true;
      }
      if constexpr (srcable && mc) {
        if (op.code == O_CMPVAL) {
          U d = make_arg(op, dom(op.v));
          bool got = false;
          bool rev = op.w & 1;
          int r = attempt(p, op, CAT_OBSERVE, [&] { got = rev ? rel(w, d, co(a)) : rel(w, co(a), d); });
          no_badacc(r, op);
          if (r == R_FAULT) {
            after_fault(a);
            return true;
          }
          U const *x = nullptr;
          {
            Pause pz;
            if (A.eng) x = const_cast<U const *>(std::addressof(*co(a)));
          }
          bool want = rev ? rel_expect(w, true, A.eng, std::addressof(d), x) : rel_expect(w, A.eng, true, x, std::addressof(d));
          if (got != want) violate(V_COMPARE, "comparison #%d with a value wrong (reversed %d)", w, rev);
          return true;
        }
        if (op.code == O_CMPSTD && !K::is_std) {
          std::optional<U> d;
          if constexpr (K::has_bad && !K::tracked) {
            if (op.w & 2) d.emplace(make_arg(op, dom(op.v)));
          } else if (op.w & 2)
            d.emplace(K::src(dom(op.v)));
          bool got = false;
          bool rev = op.w & 1;
          int r = attempt(p, op, CAT_OBSERVE, [&] { got = rev ? rel(w, d, co(a)) : rel(w, co(a), d); });
          no_badacc(r, op);
          if (r == R_FAULT) {
            after_fault(a);
            return true;
          }
          U const *x = nullptr, *y = nullptr;
          {
            Pause pz;
            if (A.eng) x = const_cast<U const *>(std::addressof(*co(a)));
            if (d) y = std::addressof(*d);
          }
          bool want = rev ? rel_expect(w, d.has_value(), A.eng, y, x) : rel_expect(w, A.eng, d.has_value(), x, y);
          if (got != want) violate(V_COMPARE, "comparison #%d with std::optional wrong (reversed %d)", w, rev);
          return true;
        }
      }
    }
    return false;
  }
  static bool relnull(int w, Opt const &x) {
    switch (w) {
    case 0: return x == std::nullopt;
    case 1: return x != std::nullopt;
    case 2: return x < std::nullopt;
    case 3: return x <= std::nullopt;
    case 4: return x > std::nullopt;
    default: return x >= std::nullopt;
    }
  }
  static bool relnull2(int w, Opt const &x) {
    switch (w) {
    case 0: return std::nullopt == x;
    case 1: return std::nullopt != x;
    case 2: return std::nullopt < x;
    case 3: return std::nullopt <= x;
    case 4: return std::nullopt > x;
    default: return std::nullopt >= x;
    }
  }

  static KindDesc desc() {
    KindDesc d{};
    d.name = K::name;
    d.flags = K::flags;
    d.prepare = &prepare;
    d.exec = &exec;
    d.finish = &finish;
    d.dom = K::N;
    d.weight = K::weight;
    return d;
  }
};

// ---------------------------------------------------------------- kind traits
template <class T> struct MakeHelper { static constexpr bool can = false; }; // how make_optional is spelled for an optional type
template <class P, auto e, auto i> struct MakeHelper<tiny::optional<P, e, i>> {
  static constexpr bool can = true;
  static constexpr bool plain = std::is_same_v<tiny::optional<P, e, i>, tiny::optional<P>>;
  template <class X> static auto mk(X &&x) {
    if constexpr (plain) return tiny::make_optional(std::forward<X>(x));
    else return tiny::make_optional<P, e, i>(std::forward<X>(x));
  }
  template <class... X> static auto mkargs(X &&...x) { return tiny::make_optional<P, e, i>(std::forward<X>(x)...); }
  static auto mkil(std::initializer_list<int> il, int w) { return tiny::make_optional<P, e, i>(il, w); }
};
template <class P> struct MakeHelper<std::optional<P>> {
  static constexpr bool can = true;
  template <class X> static auto mk(X &&x) { return std::make_optional(std::forward<X>(x)); }
  template <class... X> static auto mkargs(X &&...x) { return std::make_optional<P>(std::forward<X>(x)...); }
  static auto mkil(std::initializer_list<int> il, int w) { return std::make_optional<P>(il, w); }
};

struct KindBase {
  static constexpr bool ilist = false;
  using IL = int;
  static constexpr bool manip = false;
  static constexpr bool is_std = false;
  static constexpr int weight = 10;
  static constexpr bool braces = true;
  static constexpr bool has_bad = false; // a reserved value that must not be stored
};

template <class O, class T> struct TrackedKind : KindBase {
  using Opt = O;
  using Src = pl::VArg;
  static constexpr bool tracked = true;
  static constexpr int N = 24;
  static constexpr bool alloc_ok = false;
  static constexpr int moved = std::is_same_v<T, pl::TCopyOnly> || std::is_same_v<T, pl::TCopyNoMove> || std::is_const_v<typename O::value_type> ? M_SAME : M_MARK;
  static uint64_t movedfp() { return (uint64_t)(int64_t)pl::VAL_MOVED; }
  static Src src(int i) { return pl::VArg{i}; }
  static T make(int i) { return T(pl::VArg{i}); }
  static uint64_t fp(T const &t) { return (uint64_t)(int64_t)t.val; }
  static uint64_t fpv(int i) { return (uint64_t)i; }
  static uint64_t fpi(int i) { return (uint64_t)i; }
  static constexpr bool dflt = std::is_default_constructible_v<T>;
  static uint64_t dfltfp() { return 0; }
  static constexpr bool comparable = !std::is_same_v<T, pl::TGreedy>;
  static constexpr bool hashable = std::is_default_constructible_v<std::hash<T>>;
  static constexpr bool can_make = MakeHelper<O>::can && !std::is_const_v<typename O::value_type> && !std::is_volatile_v<typename O::value_type>;
  template <class X> static auto mk(X &&x) { return MakeHelper<O>::mk(std::forward<X>(x)); }
  template <class... X> static auto mkargs(X &&...x) { return MakeHelper<O>::mkargs(std::forward<X>(x)...); }
  static auto mkil(std::initializer_list<int> il, int w) { return MakeHelper<O>::mkil(il, w); }
};

// Throwing conversion source for payloads without user code of their own.
template <class Dom> struct SConv {
  int i;
  operator typename Dom::U() const {
    point(P_CONVERT);
    if (fault(P_CONVERT)) throw_fired();
    if constexpr (Dom::has_bad)
      if (i < 0) return Dom::bad();
    return Dom::make(i);
  }
};
// Payloads without tracking: Dom supplies U, N, make(i) and the fingerprint.
template <class O, class Dom> struct PlainKind : KindBase {
  using Opt = O;
  using U = typename Dom::U;
  using Src = typename Dom::Src;
  static constexpr bool has_bad = Dom::has_bad;
  static U bad() {
    if constexpr (has_bad) return Dom::bad();
    else return Dom::make(0);
  }
  static Src badsrc() { return Src{-1}; }
  static constexpr bool tracked = false;
  static constexpr int N = Dom::N;
  static constexpr bool alloc_ok = Dom::alloc_ok;
  static constexpr int moved = Dom::moved;
  static uint64_t movedfp() { return Dom::movedfp(); }
  static Src src(int i) { return Dom::src(i); }
  static U make(int i) { return Dom::make(i); }
  static uint64_t fp(U const &u) { return Dom::fp(u); }
  static uint64_t fpv(int i) {
    U u = Dom::make(i);
    return Dom::fp(u);
  }
  static constexpr bool dflt = Dom::dflt;
  static uint64_t dfltfp() {
    U u = U();
    return Dom::fp(u);
  }
  static constexpr bool comparable = Dom::comparable;
  static constexpr bool hashable = Dom::hashable;
  static constexpr bool can_make = MakeHelper<O>::can && !std::is_const_v<typename O::value_type> && !std::is_volatile_v<typename O::value_type> && std::is_same_v<std::decay_t<U>, U>;
  template <class X> static auto mk(X &&x) { return MakeHelper<O>::mk(std::forward<X>(x)); }
  template <class... X> static auto mkargs(X &&...x) { return MakeHelper<O>::mkargs(std::forward<X>(x)...); }
};
template <class D, class T> struct DomBase {
  using U = T;
  using Src = SConv<D>;
  static Src src(int i) { return Src{i}; }
  static constexpr bool has_bad = false;
  static constexpr bool alloc_ok = false;
  static constexpr int moved = M_SAME;
  static uint64_t movedfp() { return 0; }
  static constexpr bool dflt = true;
  static constexpr bool comparable = true;
  static constexpr bool hashable = true;
  static uint64_t fp(T const &t) {
    uint64_t x = 0;
    memcpy(&x, &t, sizeof(T) < 8 ? sizeof(T) : 8);
    return x;
  }
};
} // namespace run

#define SIM_KIND(NAME, FLAGS, BASE)                          \
  struct NAME : BASE {                                       \
    static constexpr const char *name = #NAME;               \
    static constexpr uint32_t flags = FLAGS;                 \
  };                                                         \
  static ::sim::Reg reg_##NAME{::run::Runner<NAME>::desc()};
#define SIM_KIND_X(NAME, FLAGS, BASE, EXTRA)                 \
  struct NAME : BASE {                                       \
    static constexpr const char *name = #NAME;               \
    static constexpr uint32_t flags = FLAGS;                 \
    EXTRA                                                    \
  };                                                         \
  static ::sim::Reg reg_##NAME{::run::Runner<NAME>::desc()};
