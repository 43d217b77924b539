#include "core.h"
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <new>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>

#include "shared.h"

namespace sim {
void race_new_run() __attribute__((weak));
World W;
static Stats local_stats;
Stats *S = &local_stats;
SharedSlot *SH = nullptr;

const char *const cls_name[] = {
#define X(n) #n,
    SIM_CLASSES(X)
#undef X
};
const char *const pt_name[] = {
#define X(n) #n,
    SIM_POINTS(X)
#undef X
};
const char *const op_name[] = {
#define X(n) #n,
    SIM_OPS(X)
#undef X
    nullptr};

std::vector<KindDesc> &kinds() {
  static std::vector<KindDesc> v;
  return v;
}
void register_kind(const KindDesc &d) { kinds().push_back(d); }

void tracef(const char *fmt, ...) {
  if (!W.trace) return;
  char b[512];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b - 1, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof b - 2) n = sizeof b - 2;
  b[n] = '\n';
  (void)!write(2, b, n + 1);
}

void ev(uint32_t tag, uint64_t x, uint64_t y) {
  uint64_t h = W.hash;
  h = (h ^ tag) * 0x100000001b3ull;
  h = (h ^ x) * 0x9e3779b97f4a7c15ull;
  h ^= h >> 29;
  h = (h ^ y) * 0xbf58476d1ce4e5b9ull;
  h ^= h >> 32;
  W.hash = h;
}

[[noreturn]] void violate(Cls c, const char *fmt, ...) {
  W.active = false;
  char b[400];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (SH) {
    SH->cls = c;
    SH->opidx = C().opidx;
    SH->hash = W.hash;
    SH->nfired = W.nfired;
    snprintf(SH->msg, sizeof SH->msg, "%s", b);
    SH->nsw = 0;
    for (auto &s : W.rec)
      if (SH->nsw < SharedSlot::MAXSW) SH->sw[SH->nsw++] = s;
    SH->swoverflow = W.rec.size() > (size_t)SharedSlot::MAXSW;
  }
  _exit(3);
}

// ------------------------------------------------------------------ fibers
struct EhGlobals {
  void *caught;
  unsigned int uncaught;
};
extern "C" EhGlobals *__cxa_get_globals() noexcept __attribute__((weak));

struct Fiber {
  ucontext_t uc;
  EhGlobals eh;
};
static Fiber fib[MAXT];
static ucontext_t main_uc;
static EhGlobals main_eh;
static char *stacks[MAXT];
static const size_t STK = 256 * 1024;
static const KindDesc *curkind;

static void save_eh(EhGlobals &e) { e = *__cxa_get_globals(); }
static void load_eh(const EhGlobals &e) { *__cxa_get_globals() = e; }

static void switch_to(int t) {
  int from = W.cur;
  if (t == from) return;
  save_eh(fib[from].eh);
  load_eh(fib[t].eh);
  W.cur = t;
  swapcontext(&fib[from].uc, &fib[t].uc);
}
static int pick_runnable(int want) {
  for (int i = 0; i < W.ntasks; i++) {
    int t = (want + i) % W.ntasks;
    if (!W.ctx[t].done) return t;
  }
  return -1;
}
static int random_other() {
  int cand[MAXT], n = 0;
  for (int i = 0; i < W.ntasks; i++)
    if (i != W.cur && !W.ctx[i].done) cand[n++] = i;
  if (!n) return -1;
  return cand[W.sched.below(n)];
}

static void maybe_switch() {
  Plan &p = *W.plan;
  int target = -1;
  if (p.randsched) {
    if (p.swprob && W.nswitch < 300 && W.sched.below(1000) < p.swprob) {
      target = random_other();
      if (target >= 0) W.rec.push_back({W.npoints, (uint8_t)target});
    }
  } else {
    while (W.swpos < p.sw.size() && p.sw[W.swpos].first < W.npoints) W.swpos++;
    if (W.swpos < p.sw.size() && p.sw[W.swpos].first == W.npoints) {
      target = p.sw[W.swpos].second;
      W.swpos++;
      if (target >= W.ntasks || target == W.cur || W.ctx[target].done) target = -1;
      else W.rec.push_back({W.npoints, (uint8_t)target});
    }
  }
  if (target >= 0) {
    W.nswitch++;
    ev(0x5157, target);
    tracef("    switch %d -> %d", W.cur, target);
    switch_to(target);
  }
}

void point_slow(Pt k) {
  W.npoints++;
  if (k != P_MEM) ev(0x100 + k, W.cur);
  Ctx &c = C();
  if (c.nest && k != P_MEM && k != P_ALLOC && k != P_FREE && --c.nest == 0 && W.nest_fn) W.nest_fn();
  if (W.ntasks > 1) maybe_switch();
}

bool fault_slow(Pt k, const void *dst, const void *src) {
  Ctx &c = C();
  if (!c.armed || c.fired.on) return false;
  c.fcount++;
  if (c.fcount != c.nth) return false;
  c.fired.on = true;
  c.fired.serial = ++W.fault_serial;
  c.fired.kind = k;
  c.fired.late = c.late;
  c.fired.etype = c.etype;
  c.fired.dst = dst;
  c.fired.src = src;
  W.nfired++;
  S->fired[k]++;
  if (c.late) S->fired_late++;
  ev(0xF00 + k, c.fired.serial, c.late);
  tracef("    FAULT #%d at %s%s", c.fired.serial, pt_name[k], c.late ? " (late)" : "");
  return true;
}
void throw_fired() {
  if (C().fired.kind == P_ALLOC) throw std::bad_alloc();
  int n = C().fired.serial;
  S->exc[C().fired.etype & 7]++;
  switch (C().fired.etype) {
  case 1: throw InjPlain{n};
  case 2: throw InjBadAlloc(n);
  case 3: throw InjBadAccess(n);
  case 4: throw InjBadCast(n);
  case 5: throw n;
  default: throw Injected(n);
  }
}

static void fiber_main(int t) {
  Plan &p = *W.plan;
  for (size_t i = 0; i < p.ops.size(); i++) {
    if ((int)p.ops[i].task % W.ntasks != t) continue;
    Ctx &c = C();
    c.opidx = (int)i;
    S->ops++;
    // the beginning of an operation is a scheduling point, too
    if (W.ntasks > 1) {
      W.npoints++;
      maybe_switch();
    }
    curkind->exec(p, (int)i);
  }
  C().done = true;
  int n = pick_runnable(t + 1);
  if (n >= 0) {
    save_eh(fib[t].eh);
    load_eh(fib[n].eh);
    W.cur = n;
    setcontext(&fib[n].uc);
  }
  load_eh(main_eh);
  setcontext(&main_uc);
}
static void fiber_entry(int t) { fiber_main(t); }

void fill_bytes(void *p, size_t n, size_t off) {
  unsigned char *b = (unsigned char *)p;
  Plan &pl = *W.plan;
  switch (pl.fill) {
  case 0: memset(b, 0, n); break;
  case 1: memset(b, 0xff, n); break;
  case 2: {
    Rng r(pl.fillseed * 977 + n * 31 + off);
    for (size_t i = 0; i < n; i++) b[i] = (unsigned char)(r.next() >> 24);
    break;
  }
  case 3:
  case 4: {
    const unsigned char *img = pl.fill == 3 ? W.empty_img : W.engaged_img;
    if (!W.img_ready) memset(b, 0x5a, n);
    else
      for (size_t i = 0; i < n; i++) b[i] = off + i < W.img_size ? img[off + i] : 0x5a;
    break;
  }
  case 5: memset(b, 1, n); break;
  default: memset(b, 0xfe, n); break;
  }
  asm volatile("" : : "r"(p) : "memory");
}
void scribble(void *p, size_t n) { fill_bytes(p, n, 0); }

void world_init() {
  for (int i = 0; i < MAXT; i++) {
    stacks[i] = (char *)mmap(nullptr, STK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(stacks[i], 4096, PROT_NONE);
  }
}

void run_plan(Plan &p, const KindDesc &k) {
  W.plan = &p;
  W.cur = 0;
  W.ntasks = p.ntasks < 1 ? 1 : p.ntasks > MAXT ? MAXT : p.ntasks;
  W.nlive = 0;
  W.serial = 0;
  W.hash = 0xcbf29ce484222325ull;
  W.npoints = W.nswitch = 0;
  W.swpos = 0;
  W.sched = Rng(p.schedseed);
  W.rec.clear();
  W.rec.reserve(1024 + p.sw.size());
  W.alloc_ok = false;
  W.fault_serial = 0;
  W.nfired = 0;
  W.heap_live = 0;
  W.img_ready = false;
  W.expect_assert = W.asserted = false;
  W.shared_ro = false;
  W.arena_lo = W.arena_hi = nullptr;
  W.slot_count = 0;
  for (int t = 0; t < MAXT; t++) W.ctx[t] = Ctx();
  if (race_new_run) race_new_run();
  W.active = true;
  curkind = &k;
  k.prepare(p);
  W.img_ready = true;
  save_eh(main_eh);
  for (int t = 0; t < W.ntasks; t++) {
    W.ctx[t].done = false;
    W.ctx[t].slo = stacks[t] + 4096;
    W.ctx[t].shi = stacks[t] + 4096 + STK;
    // stale stack contents are part of the plan
    fill_bytes(stacks[t] + 4096 + STK - 16384, 16384, 0);
    getcontext(&fib[t].uc);
    fib[t].uc.uc_stack.ss_sp = stacks[t] + 4096;
    fib[t].uc.uc_stack.ss_size = STK;
    fib[t].uc.uc_link = nullptr;
    fib[t].eh.caught = nullptr;
    fib[t].eh.uncaught = 0;
    makecontext(&fib[t].uc, (void (*)())fiber_entry, 1, t);
  }
  load_eh(fib[0].eh);
  swapcontext(&main_uc, &fib[0].uc);
  W.cur = 0;
  W.ctx[0].opidx = (int)p.ops.size();
  k.finish(p);
  W.active = false;
  S->points += W.npoints;
  S->switches += W.nswitch;
}

// ------------------------------------------------------------------ registry
void obj_check_raw(const void *p, uint32_t size, const char *what) {
  const char *c = (const char *)p;
  for (uint32_t i = 0; i < W.nlive; i++) {
    Live &l = W.live[i];
    if (l.p < c + size && c < l.p + l.size) {
      if (l.role == ROLE_FLAG)
        violate(V_PROTOCOL, "%s constructed over a live emptiness flag", what);
      violate(V_DOUBLE_CTOR, "%s constructed over a live value (val %d)", what, l.shadow);
    }
  }
}
void obj_alive(const void *p, uint32_t size, uint16_t tid, int role, int32_t val) {
  if (W.nlive >= MAXLIVE) violate(V_LEAK, "too many live objects");
  Live &l = W.live[W.nlive++];
  l.p = (const char *)p;
  l.size = size;
  l.tid = tid;
  l.role = (uint8_t)role;
  l.task = (uint8_t)W.cur;
  l.shadow = val;
  l.serial = ++W.serial;
}
Live *obj_find(const void *p, uint16_t tid, int role) {
  for (uint32_t i = 0; i < W.nlive; i++)
    if (W.live[i].p == p && W.live[i].tid == tid && W.live[i].role == role) return &W.live[i];
  return nullptr;
}
Live *obj_covering(const void *p) {
  const char *c = (const char *)p;
  for (uint32_t i = 0; i < W.nlive; i++)
    if (W.live[i].p <= c && c < W.live[i].p + W.live[i].size) return &W.live[i];
  return nullptr;
}
Live *obj_use(const void *p, uint16_t tid, int role) {
  Live *l = obj_find(p, tid, role);
  if (!l) violate(role == ROLE_FLAG ? V_PROTOCOL : V_USE_DEAD, "use of %s outside its lifetime", role == ROLE_FLAG ? "an emptiness flag" : "a value");
  return l;
}
void obj_dead(const void *p, uint16_t tid, int role) {
  for (uint32_t i = 0; i < W.nlive; i++)
    if (W.live[i].p == p && W.live[i].tid == tid && W.live[i].role == role) {
      W.live[i] = W.live[--W.nlive];
      return;
    }
  violate(role == ROLE_FLAG ? V_PROTOCOL : V_BAD_DTOR, "destruction of %s that is not alive", role == ROLE_FLAG ? "an emptiness flag" : "a value");
}
Caught call_lib(uint8_t env, FnRef f) {
  Caught k;
  auto go = [&]() noexcept {
    C().lib = true;
    try {
      f();
    } catch (Injected const &e) {
      C().lib = false;
      k.r = 1, k.serial = e.serial, k.etype = 0;
    } catch (InjPlain const &e) {
      C().lib = false;
      k.r = 1, k.serial = e.serial, k.etype = 1;
    } catch (InjBadAlloc const &e) {
      C().lib = false;
      k.r = 1, k.serial = e.serial, k.etype = 2;
    } catch (InjBadAccess const &e) {
      C().lib = false;
      k.r = 1, k.serial = e.serial, k.etype = 3;
    } catch (InjBadCast const &e) {
      C().lib = false;
      k.r = 1, k.serial = e.serial, k.etype = 4;
    } catch (int e) {
      C().lib = false;
      k.r = 1, k.serial = e, k.etype = 5;
    } catch (std::bad_alloc const &) {
      C().lib = false;
      k.r = 2;
    } catch (std::bad_optional_access const &) {
      C().lib = false;
      k.r = 3;
    } catch (...) {
      C().lib = false;
      k.r = 4;
    }
    C().lib = false;
  };
  if (env & ENV_UNWIND) {
    struct Guard {
      decltype(go) &g;
      ~Guard() { g(); }
    };
    try {
      Guard g{go};
      throw Unrelated{1};
    } catch (Unrelated const &) {
    }
    S->unwinding++;
  } else if (env & ENV_HANDLER) {
    try {
      throw Unrelated{2};
    } catch (Unrelated const &) {
      go();
    }
    S->in_handler++;
  } else
    go();
  return k;
}
} // namespace sim

// ------------------------------------------------------------------ allocator
using namespace sim;
struct Hdr {
  uint64_t magic;
  uint32_t size;
  uint32_t lib;
};
static const uint64_t HM = 0xA110CA7EDB10C000ull, HF = 0xF4EEDB10CF4EED00ull;
extern "C" void sim_mem_released(void *p, size_t n) __attribute__((weak));
static void *sim_alloc(size_t n) {
  bool lib = inlib();
  if (lib) {
    if (!W.alloc_ok && C().payload_depth == 0) violate(V_ALLOC, "the optional itself allocated %zu bytes", n);
    point(P_ALLOC);
    if (fault(P_ALLOC)) throw std::bad_alloc();
  }
  Hdr *h = (Hdr *)malloc(n + sizeof(Hdr));
  if (!h) abort();
  h->magic = HM;
  h->size = (uint32_t)n;
  h->lib = lib;
  if (lib) {
    W.heap_live++;
    if (W.active) fill_bytes(h + 1, n, 0);
    if (sim_mem_released) sim_mem_released(h + 1, n);
  }
  return h + 1;
}
static Hdr *quarantine[32];
static unsigned qpos;
static void sim_free(void *p) {
  if (!p) return;
  Hdr *h = (Hdr *)p - 1;
  if (h->magic == HF) violate(V_HEAP_BADFREE, "heap block released twice");
  if (h->magic != HM) violate(V_HEAP_BADFREE, "release of a pointer that is no heap block");
  if (h->lib) {
    W.heap_live--;
    point(P_FREE);
    memset(p, 0xdd, h->size);
    if (sim_mem_released) sim_mem_released(p, h->size);
  }
  h->magic = HF;
  if (h->lib) {
    unsigned q = qpos++ % 32;
    if (quarantine[q]) free(quarantine[q]);
    quarantine[q] = h;
  } else
    free(h);
}
void *operator new(size_t n) { return sim_alloc(n); }
void *operator new[](size_t n) { return sim_alloc(n); }
void operator delete(void *p) noexcept { sim_free(p); }
void operator delete[](void *p) noexcept { sim_free(p); }
void operator delete(void *p, size_t) noexcept { sim_free(p); }
void operator delete[](void *p, size_t) noexcept { sim_free(p); }

// ------------------------------------------------------------------ fatal events
extern "C" void __assert_fail(const char *expr, const char *file, unsigned line, const char *) noexcept {
  (void)file; (void)line;
  if (W.active && W.expect_assert && C().lib) {
    W.asserted = true;
    W.expect_assert = false;
    ev(0xA55E);
    tracef("    assertion (expected): %s", expr);
    C().lib = false;
    _longjmp(*(jmp_buf *)W.assert_jmp, 1);
  }
  violate(V_ASSERTION, "assertion failed: %s", expr);
}
static void on_terminate() { violate(V_TERMINATE, "std::terminate called (fault in flight: %s)", C().fired.on ? pt_name[C().fired.kind] : "none"); }
static void on_signal(int s) { violate(s == SIGVTALRM ? V_HANG : V_CRASH, "signal %d", s); }
namespace sim {
void install_handlers() {
  std::set_terminate(on_terminate);
  static char alt[65536];
  stack_t ss{};
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP, SIGVTALRM}) {
    struct sigaction sa{};
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_ONSTACK;
    sigaction(s, &sa, nullptr);
  }
}
}
