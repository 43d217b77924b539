// Simulation engine: tasks (fibers), scheduler, fault engine, registry of live objects, allocator,
// event log. Everything here is a pure function of the plan (and of the code under test).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <exception>
#include <new>
#include <optional>
#include <typeinfo>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  uint32_t below(uint32_t n) { return n ? (uint32_t)((next() >> 32) % n) : 0; }
  bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
};

// ---------------------------------------------------------------- violation classes
#define SIM_CLASSES(X)                                                                                    \
  X(NONE) X(DOUBLE_CTOR) X(BAD_DTOR) X(USE_DEAD) X(LEAK) X(HEAP_LEAK) X(HEAP_BADFREE) X(ENGAGED) X(VALUE) \
  X(IDENTITY) X(REFERENCE) X(EXC_SWALLOWED) X(EXC_WRONG) X(EXC_UNEXPECTED) X(EXC_MISSING) X(CALLBACK)      \
  X(RESULT) X(GUARD) X(NEIGHBOUR) X(CONSTWRITE) X(PROTOCOL) X(RACE) X(FOREIGN) X(ALLOC) X(COMPARE) X(HASH) \
  X(ASSERTION) X(NOASSERT) X(TERMINATE) X(CRASH) X(HANG) X(DIVERGE) X(PROGRESS) X(HARNESS)
enum Cls {
#define X(n) V_##n,
  SIM_CLASSES(X)
#undef X
      V_COUNT
};
extern const char *const cls_name[];

// ---------------------------------------------------------------- points at which user code runs
#define SIM_POINTS(X)                                                                                   \
  X(OP) X(CTOR) X(COPY) X(MOVE) X(CASSIGN) X(MASSIGN) X(VASSIGN) X(SWAP) X(CONVERT) X(CALLBACK) X(CBRESULT) \
  X(COMPARE) X(HASHFN) X(ALLOC) X(DTOR) X(NTMOVE) X(FLAGOP) X(MEM) X(FREE)
enum Pt {
#define X(n) P_##n,
  SIM_POINTS(X)
#undef X
      P_COUNT
};
extern const char *const pt_name[];

// ---------------------------------------------------------------- plan
struct Op {
  uint8_t task = 0;
  uint8_t code = 0;
  uint8_t a = 0, b = 0;
  uint8_t var = 0;
  uint8_t f = 0;    // fault: 0 none, n = the n-th fault point reached inside this operation fails
  uint8_t late = 0; // fail after partial effects
  uint8_t env = 0;  // surroundings: see ENV_*
  uint8_t nest = 0; // n: the n-th piece of user code running inside this operation uses yet another optional
  uint8_t nk = 0;   // ... in this way
  int32_t v = 0, w = 0;
};
// Surroundings of one operation: called while another exception unwinds the stack, called from a handler, and
// the type of the exception which an injected failure throws.
enum { ENV_UNWIND = 1, ENV_HANDLER = 2, ENV_EXC_SHIFT = 2, ENV_EXC_N = 6 };
enum { FAM_HIST, FAM_SHARED, FAM_CMP, FAM_MISUSE };
enum { CAT_CONSTRUCT = 1, CAT_ASSIGN = 2, CAT_CALLBACK = 4, CAT_OBSERVE = 8, CAT_ALL = 15, CAT_QUIET = 16 };
struct Plan {
  std::string kind;
  uint32_t fill = 0;
  uint64_t fillseed = 1;
  uint32_t nslots = 1, ntasks = 1;
  uint32_t mask = CAT_ALL;
  uint32_t family = FAM_HIST;
  std::vector<Op> ops;
  // schedule: random (swprob/1000 at every point, from schedseed) or the recorded list
  bool randsched = true;
  uint64_t schedseed = 1;
  uint32_t swprob = 0;
  std::vector<std::pair<uint32_t, uint8_t>> sw;
};

// Exceptions thrown by injected failures. All carry a serial number; `etype` says which one it is.
struct Injected : std::exception {
  int serial;
  explicit Injected(int s) : serial(s) {}
  const char *what() const noexcept override { return "injected"; }
};
struct InjPlain { // not a std::exception
  int serial;
};
struct InjBadAlloc : std::bad_alloc {
  int serial;
  explicit InjBadAlloc(int s) : serial(s) {}
};
struct InjBadAccess : std::bad_optional_access {
  int serial;
  explicit InjBadAccess(int s) : serial(s) {}
};
struct InjBadCast : std::bad_cast {
  int serial;
  explicit InjBadCast(int s) : serial(s) {}
};
// what arrived: 0 nothing, 1 injected exception (serial, etype valid), 2 plain bad_alloc, 3 plain bad_optional_access, 4 something else
struct Caught {
  int r = 0, serial = 0, etype = 0;
};

struct Fired {
  bool on = false;
  int serial = 0;
  Pt kind = P_OP;
  bool late = false;
  int etype = 0;
  const void *dst = nullptr, *src = nullptr;
};

struct Ctx {
  bool lib = false;
  int pause = 0;
  bool armed = false;
  int nth = 0, fcount = 0;
  bool late = false;
  int etype = 0;
  Fired fired;
  int opidx = -1;
  int payload_depth = 0;
  int nest = 0; // countdown to the nested operation
  int quiet = 0; // > 0: memory accesses are no scheduling points
  bool done = true;
  char *slo = nullptr, *shi = nullptr;
};

enum { MAXT = 4, MAXLIVE = 1024 };
struct Live {
  const char *p;
  uint32_t size;
  uint16_t tid;
  uint8_t role; // 0 payload, 1 flag
  uint8_t task;
  int32_t shadow;
  uint32_t serial;
};
enum { ROLE_PAYLOAD = 0, ROLE_FLAG = 1 };

struct Stats {
  uint64_t runs, ops, skipped, points, switches, faulted_runs, switched_runs, distinct, nontrivial_distinct,
      badaccess, asserts_expected, mem_points, fillruns;
  uint64_t fired[P_COUNT];
  uint64_t fired_late;
  uint64_t reentrant, unwinding, in_handler, nested;
  uint64_t exc[8];
  uint64_t opcount[128], opfault[128], opskip[128];
  uint64_t kind_runs[128];
};

struct World {
  bool active = false;
  Plan *plan = nullptr;
  int cur = 0;
  int ntasks = 1;
  Ctx ctx[MAXT];
  Live live[MAXLIVE];
  uint32_t nlive = 0;
  uint32_t serial = 0;
  uint64_t hash = 0;
  uint32_t npoints = 0;
  uint32_t nswitch = 0;
  size_t swpos = 0;
  Rng sched;
  std::vector<std::pair<uint32_t, uint8_t>> rec;
  bool trace = false;
  bool alloc_ok = false;
  uint32_t fault_serial = 0;
  uint32_t nfired = 0;
  long heap_live = 0;
  unsigned char empty_img[512], engaged_img[512];
  uint32_t img_size = 0;
  bool img_ready = false;
  // arena bounds (slots)
  char *arena_lo = nullptr, *arena_hi = nullptr;
  uint32_t slot_stride = 0, slot_size = 0, slot_count = 0;
  uint8_t slot_owner[16];
  void (*nest_fn)() = nullptr;
  bool shared_ro = false; // C08: slots must not be written by anybody
  // expected assertion (misuse family)
  bool expect_assert = false;
  void *assert_jmp = nullptr;
  bool asserted = false;
};
extern World W;
extern Stats *S; // shared memory
inline Ctx &C() { return W.ctx[W.cur]; }
inline bool inlib() { return W.active && C().lib && C().pause == 0; }

[[noreturn]] void violate(Cls c, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void ev(uint32_t tag, uint64_t x = 0, uint64_t y = 0);
void tracef(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// A point where user code runs: the scheduler may switch here.
void point_slow(Pt k);
inline void point(Pt k) {
  if (inlib()) point_slow(k);
}
// Does the fault engine want this point to fail? (counts the point)
bool fault_slow(Pt k, const void *dst, const void *src);
inline bool fault(Pt k, const void *dst = nullptr, const void *src = nullptr) {
  return inlib() && fault_slow(k, dst, src);
}
[[noreturn]] void throw_fired();
struct Unrelated {
  int x;
};
// A call to be made, without its type (keeps the harness from being instantiated once per operation).
struct FnRef {
  void *obj;
  void (*call)(void *);
  template <class F> FnRef(F &f) : obj((void *)&f), call([](void *q) { (*(F *)q)(); }) {}
  template <class F> FnRef(F const &f) : obj((void *)&f), call([](void *q) { (*(F const *)q)(); }) {}
  void operator()() const { call(obj); }
};
// Calls f as library code (c.lib) in the surroundings `env` and says what came out.
Caught call_lib(uint8_t env, FnRef f);
inline bool late() { return C().fired.late; }

// ---------------------------------------------------------------- registry
void obj_check_raw(const void *p, uint32_t size, const char *what);
void obj_alive(const void *p, uint32_t size, uint16_t tid, int role, int32_t val);
void obj_dead(const void *p, uint16_t tid, int role);
Live *obj_find(const void *p, uint16_t tid, int role); // exact
Live *obj_use(const void *p, uint16_t tid, int role);  // violates if not alive
Live *obj_covering(const void *p);
void fill_bytes(void *p, size_t n, size_t image_offset); // prior contents, by the plan's fill
void scribble(void *p, size_t n);                        // what user code leaves behind (same fill)

struct Pause {
  Pause() { C().pause++; }
  ~Pause() { C().pause--; }
};
struct InPayload {
  InPayload() { C().payload_depth++; }
  ~InPayload() { C().payload_depth--; }
};

struct Quiet {
  Quiet() { C().quiet++; }
  ~Quiet() { C().quiet--; }
};

// ---------------------------------------------------------------- kinds
struct KindDesc {
  const char *name;
  uint32_t flags;
  void (*prepare)(Plan &);       // set up arena etc. (inside the run)
  void (*exec)(Plan &, int op);  // one operation, on the current task
  void (*finish)(Plan &);        // end of run checks
  uint32_t dom;                  // number of distinct values
  int weight;
};
enum {
  KF_STD = 1,      // std::optional: calibrates the oracle
  KF_TRACKED = 2,
  KF_MANIP = 4,    // custom flag manipulator
  KF_RESERVED = 8, // has a reserved value (misuse family)
  KF_CMP = 16,
  KF_MISUSE = 32,
  KF_SELFEMPTY = 64,
  KF_MEMPTR = 128,
  KF_HEAP = 256,
};
void register_kind(const KindDesc &);
struct Reg {
  explicit Reg(const KindDesc &d) { register_kind(d); }
};
extern std::vector<KindDesc> &kinds();

void run_plan(Plan &p, const KindDesc &k); // executes; on violation does not return
void world_init();

#define SIM_OPS(X)                                                                                              \
  X(DTOR) X(C_DEF) X(C_NULL) X(C_VALL) X(C_VALR) X(C_SRC) X(C_SRCR) X(C_INPL) X(C_INPLVAL) X(C_INPL0) X(C_ILIST) \
  X(C_INPL2) X(C_INPL3) X(C_COPY) X(C_MOVE) X(C_CMOVE) X(C_MAKE) X(C_MAKEARGS) X(C_MAKEIL) X(C_RET) X(RESET) X(A_NULL) X(A_BRACE)      \
  X(A_VALL) X(A_VALR) X(A_SRC) X(A_SRCR) X(A_COPY) X(A_MOVE) X(A_CMOVE) X(A_SELFVAL) X(A_TEMP) X(A_TEMPSRC)      \
  X(A_EMPTYTEMP) X(A_FROMVAL) X(A_FROMMOVEVAL) X(E_SRC) X(E_VAL) X(E_0) X(E_ILIST) X(SWAP_M) X(SWAP_F)           \
  X(SWAP_STD) X(MUT) X(G_VALUE) X(G_DEREF) X(G_ARROW) X(G_BOOL) X(TAKE) X(VOR_C) X(VOR_CSRC) X(VOR_R)            \
  X(VOR_RSRC) X(AND_THEN) X(TRANSFORM) X(OR_ELSE) X(CMP) X(CMPVAL) X(CMPNULL) X(CMPSTD) X(HASH) X(STORM)         \
  X(CALM) X(X_STORE) X(X_EMPTY) X(X_MOVE) X(X_COPY) X(X_SWAP) X(X_CMP) X(X_CMP3) X(X_HASH) X(X_CMPVAL)           \
  X(X_CMPNULL) X(M_CV) X(M_INPL) X(M_EMPLACE) X(M_ASSIGN) X(M_CONVASSIGN) X(M_MAKE) X(M_TRANSFORM) X(M_MOVEC)    \
  X(M_MOVEA) X(M_DEREF) X(M_ARROW) X(M_CDEREF) X(M_RDEREF) X(M_CARROW) X(M_CRDEREF)       \
  X(E_2) X(E_3) X(A_SELFMOVE) X(A_BRACEVAL) X(VOR_SELF) X(ROTATE)
enum OpCode {
#define X(n) O_##n,
  SIM_OPS(X)
#undef X
      O_COUNT
};
extern const char *const op_name[];
} // namespace sim
