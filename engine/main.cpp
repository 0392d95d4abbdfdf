// Symbolic executor: explores all paths of a harness function; every branch
// feasibility and every assertion is decided by Z3.
#include "engine.hpp"
#include <chrono>
#include <cmath>
#include <fcntl.h>
#include <csignal>
#include <fstream>
#include <llvm-c/Support.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
// ---- options / shared statistics -----------------------------------------
static std::string optBc, optHarness, optOut;
static u64 optCase = 0;
static int optJobs = 1;
static double optTime = 600;
static u64 optSteps = 1000000000;
static int optSamples = 24;
static bool optForkTables = false;
static bool optVerbose = false;
static u64 optHashSeed = 0, optSeed = 1;

struct Shared {
  volatile int active;
  volatile u64 paths, steps, queries, sat, unsat, unknown, killed, forks, infeasible, solverUs, wide, domDecided;
  volatile u64 samples;
  volatile int timeout;
  volatile u64 nviol;
  u64 violKeys[256];
  volatile u64 ncover;
  u64 coverKeys[1024];
  volatile u64 nerr;
  volatile int lock;
};
static Shared *SH;
#define INC(f) __sync_fetch_and_add(&SH->f, 1)
#define ADDN(f, n) __sync_fetch_and_add(&SH->f, (n))
static void lk() { while (__sync_lock_test_and_set(&SH->lock, 1)) usleep(50); }
static void ulk() { __sync_lock_release(&SH->lock); }

static FILE *outF;
static double t0;
static u64 epochCounter = 1;
static std::vector<State *> work;
static std::unordered_set<std::string> funcsSeen;

// ---- solver ----------------------------------------------------------------
static Z3_solver S;
static std::vector<Node *> sstack;
static std::unordered_map<u64, u32> varIds; // (seq,width)
static u32 varFor(u32 seq, u32 w) {
  u64 k = ((u64)seq << 16) | w;
  auto it = varIds.find(k);
  if (it != varIds.end()) return it->second;
  u32 id = (u32)EX.varWidth.size();
  EX.varWidth.push_back(w);
  varIds[k] = id;
  return id;
}
static void syncStack(const std::vector<Node *> &pcs) {
  size_t i = 0;
  while (i < sstack.size() && i < pcs.size() && sstack[i] == pcs[i]) i++;
  if (sstack.size() > i) {
    Z3_solver_pop(Z, S, (unsigned)(sstack.size() - i));
    sstack.resize(i);
  }
  for (; i < pcs.size(); i++) {
    Z3_solver_push(Z, S);
    Z3_solver_assert(Z, S, toBool(pcs[i]));
    sstack.push_back(pcs[i]);
  }
}
static void getModel(Z3_solver s, State *st, std::shared_ptr<Model> &out) {
  Z3_model m = Z3_solver_get_model(Z, s);
  Z3_model_inc_ref(Z, m);
  out = std::make_shared<Model>();
  out->val.assign(EX.varWidth.size(), 0);
  for (u32 idx : st->inputs) {
    Node *v = eVar(idx, EX.varWidth[idx]);
    Z3_ast r;
    if (Z3_model_eval(Z, m, toBV(v), true, &r)) {
      u64 x = 0;
      Z3_get_numeral_uint64(Z, r, &x);
      out->val[idx] = x;
    }
  }
  Z3_model_dec_ref(Z, m);
}
struct PathEnd {};
// 1 sat, 0 unsat, -1 unknown
static bool optProf = getenv("RSE_PROF");
static std::map<std::string, std::pair<u64, double>> prof;
static void profDump() { for (auto &p : prof) fprintf(stderr, "PROF %8llu %8.2f %s\n", (unsigned long long)p.second.first, p.second.second, p.first.c_str()); }
static int query(State *st, Node *cond, std::shared_ptr<Model> *out) {
  double a = now();
  if (SH->timeout || a - t0 > optTime) { SH->timeout = 1; throw PathEnd(); }
  INC(queries);
  syncStack(st->pcs);
  Z3_solver_push(Z, S);
  Z3_solver_assert(Z, S, toBool(cond));
  Z3_lbool r = Z3_solver_check(Z, S);
  int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
  if (res == 1 && out) getModel(S, st, *out);
  Z3_solver_pop(Z, S, 1);
  if (res == -1) { // retry with the generic solver
    Z3_solver s2 = Z3_mk_solver(Z);
    Z3_solver_inc_ref(Z, s2);
    Z3_params p = Z3_mk_params(Z);
    Z3_params_inc_ref(Z, p);
    Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "rlimit"), 400000000);
    Z3_solver_set_params(Z, s2, p);
    for (Node *n : st->pcs) Z3_solver_assert(Z, s2, toBool(n));
    Z3_solver_assert(Z, s2, toBool(cond));
    r = Z3_solver_check(Z, s2);
    res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (res == 1 && out) getModel(s2, st, *out);
    Z3_solver_dec_ref(Z, s2);
    Z3_params_dec_ref(Z, p);
  }
  if (res == 1) INC(sat); else if (res == 0) INC(unsat); else INC(unknown);
  ADDN(solverUs, (u64)((now() - a) * 1e6));
  if (optProf) {
    auto &f = st->frames.back();
    auto &p = prof[f.f->name + " bb" + std::to_string(f.bb) + "." + std::to_string(f.pc) + " " + showNode(cond, 7)];
    p.first++; p.second += now() - a;
  }
  if (res == 1 && out) {
    // sanity: the model must satisfy the condition under our own evaluator
    u64 ep = ++epochCounter;
    if (!evalNode(cond, **out, ep)) die("model does not satisfy condition: " + showNode(cond, 12));
  }
  return res;
}

// ---- conditions on one variable of up to 8 bits ---------------------------
static u32 smallVar(Node *n) { // variable index or ~0
  if (!n->sv || n->sv == ~0u || EX.varWidth[n->sv - 1] > 8) return ~0u;
  return n->sv - 1;
}
static Model &scratch(u32 var) {
  static Model m;
  if (m.val.size() <= var) m.val.resize(EX.varWidth.size() + 64, 0);
  return m;
}
// the values for which c is true
static const Dom &truth(Node *c) {
  static std::unordered_map<Node *, Dom> memo;
  auto it = memo.find(c);
  if (it != memo.end()) return it->second;
  u32 var = c->sv - 1;
  Dom d{{0, 0, 0, 0}};
  Model &m = scratch(var);
  for (u32 x = 0; x < 1u << EX.varWidth[var]; x++) {
    m.val[var] = x;
    if (evalNode(c, m, ++epochCounter)) d.put(x);
  }
  m.val[var] = 0;
  return memo[c] = d;
}
// a short condition that is true on `set` and false on the rest of `dom`
static Node *member(u32 var, const Dom &set, const Dom &dom) {
  u32 w = EX.varWidth[var];
  Node *x = eVar(var, w);
  if (set.empty()) return eFalse();
  if (set == dom) return eTrue();
  struct Run { u32 lo, hi; };
  std::vector<Run> runs[2];
  bool open[2] = {false, false};
  int lastHi = -1, first = -1;
  for (u32 v = 0; v < 1u << w; v++) {
    if (!dom.has(v)) continue;
    if (first < 0) first = v;
    lastHi = v;
    int s = set.has(v);
    if (open[s]) runs[s].back().hi = v;
    else { runs[s].push_back({v, v}); open[s] = true; }
    open[!s] = false;
  }
  int s = runs[1].size() <= runs[0].size();
  Node *r = eFalse();
  for (auto &q : runs[s]) {
    Node *t;
    if (q.lo == q.hi) t = eEq(x, eConst(q.lo, w));
    else {
      t = eTrue();
      if ((int)q.lo != first) t = eBin(ULE, eConst(q.lo, w), x);
      if ((int)q.hi != lastHi) t = eAnd1(t, eBin(ULE, x, eConst(q.hi, w)));
    }
    r = eOr1(r, t);
  }
  return s ? r : eNot1(r);
}
Dom &State::domain(u32 var) {
  while (dom.size() <= var) dom.push_back(EX.varWidth[dom.size()] <= 8 ? Dom::full(EX.varWidth[dom.size()]) : Dom{{0, 0, 0, 0}});
  return dom[var];
}
void State::addPc(Node *c) {
  pcs.push_back(c);
  u32 v = smallVar(c);
  if (v != ~0u) { Dom &d = domain(v); d = d & truth(c); }
  else if (c->sv == ~0u) tied |= c->vm;
}

// ---- path termination ------------------------------------------------------
struct Unsup { std::string what; };
static State *st;

static std::string jesc(const std::string &s) {
  std::string r;
  for (char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if ((u8)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}
static u128 evalM(Node *n) { return evalNode(n, *st->model, st->modelEpoch); }

static std::string inputsStr(const Model &m) {
  std::string s;
  for (u32 i : st->inputs) {
    char b[40];
    snprintf(b, 40, "%s\"%llx\"", s.empty() ? "" : ",", (unsigned long long)(i < m.val.size() ? m.val[i] & (u64)maskw(EX.varWidth[i]) : 0));
    s += b;
  }
  return "[" + s + "]";
}
static std::string obsStr(const Model &m, u64 ep) {
  std::string s;
  for (auto &o : st->obs) {
    char b[64];
    u64 v = o.second.n ? (u64)evalNode(o.second.n, m, ep) : o.second.c;
    snprintf(b, 64, "%s\"%u:%llx\"", s.empty() ? "" : ",", o.first, (unsigned long long)v);
    s += b;
  }
  return "[" + s + "]";
}
static void emit(const std::string &line) {
  lk();
  fputs(line.c_str(), outF);
  fputc('\n', outF);
  fflush(outF);
  ulk();
}
static std::string backtrace() {
  std::string s;
  int k = 0;
  for (size_t i = st->frames.size(); i-- > 0 && k < 14; k++) s += st->frames[i].f->name + " < ";
  return s;
}
static u64 hashStr(const std::string &s) {
  u64 h = 1469598103934665603ull;
  for (char c : s) { h ^= (u8)c; h *= 1099511628211ull; }
  return h;
}
static void violation(const std::string &kind, const std::string &where, const Model &m, u64 ep) {
  u64 key = hashStr(kind + "|" + where);
  lk();
  bool dup = false;
  int cnt = 0;
  for (u64 i = 0; i < SH->nviol && i < 256; i++) if (SH->violKeys[i] == key) cnt++;
  dup = cnt >= 3;
  if (!dup && SH->nviol < 256) { SH->violKeys[SH->nviol] = key; SH->nviol++; }
  ulk();
  if (dup) return;
  emit("{\"type\":\"violation\",\"kind\":\"" + jesc(kind) + "\",\"where\":\"" + jesc(where) + "\",\"case\":" + std::to_string(optCase) + ",\"inputs\":" + inputsStr(m) + ",\"obs\":" + obsStr(m, ep) + ",\"stack\":\"" + jesc(backtrace()) + "\"}");
}
static void addCover(u64 id) {
  lk();
  bool f = false;
  for (u64 i = 0; i < SH->ncover; i++) if (SH->coverKeys[i] == id) { f = true; break; }
  if (!f && SH->ncover < 1024) SH->coverKeys[SH->ncover++] = id;
  ulk();
}
static std::unordered_set<u64> localCover;


static void setModel(std::shared_ptr<Model> m) { st->model = m; st->modelEpoch = ++epochCounter; }
static bool implied(Node *c, bool &val) {
  Node *nc = eNot1(c);
  for (size_t i = st->pcs.size(); i-- > 0;) {
    if (st->pcs[i] == c) { val = true; return true; }
    if (st->pcs[i] == nc) { val = false; return true; }
  }
  for (size_t i = st->known.size(); i-- > 0;) {
    if (st->known[i] == c) { val = true; return true; }
    if (st->known[i] == nc) { val = false; return true; }
  }
  return false;
}
static void runWorker();
static bool isRoot = true;
static pid_t rootPid;
// A worker that has run out of states just ends: the processes it started pass
// to the root (a subreaper), which waits for all of them and looks at how they
// ended, so that no finished worker keeps its memory.
static void finishWorker() {
  __sync_fetch_and_sub(&SH->active, 1);
  if (!isRoot) return;
  int stt;
  for (;;) {
    pid_t k = waitpid(-1, &stt, 0);
    if (k < 0 && errno == EINTR) continue;
    if (k < 0) break;
    if (!(WIFEXITED(stt) && WEXITSTATUS(stt) == 0)) {
      INC(nerr);
      emit("{\"type\":\"error\",\"what\":\"worker ended abnormally (" + std::to_string(stt) + ")\"}");
    }
  }
}
static double lastDonate = 0;
// Hand the oldest queued state to a new process when cores are idle.
static void maybeDonate() {
  if (optJobs <= 1 || work.empty() || SH->active >= optJobs) return;
  double t = now();
  if (t - lastDonate < 0.02) return;
  lastDonate = t;
  lk();
  bool ok = SH->active < optJobs;
  if (ok) SH->active++;
  ulk();
  if (!ok) return;
  fflush(stdout);
  pid_t p = fork();
  if (p < 0) { __sync_fetch_and_sub(&SH->active, 1); return; }
  if (p == 0) {
    isRoot = false;
    State *s = work.front();
    work.clear(); // leak: memory belongs to the parent's image
    work.push_back(s);
    st = nullptr;
    runWorker();
    finishWorker();
    profDump();
    _exit(0);
  }
  delete work.front();
  work.erase(work.begin());
}

// Queue a copy of the current state (which will re-execute the current
// instruction) constrained by `c`.
static void forkState(Node *c, std::shared_ptr<Model> m) {
  INC(forks);
  if (optProf) {
    std::string w = "FORK";
    for (size_t i = st->frames.size(), k = 0; i-- > 0 && k < 3; k++) w += " " + st->frames[i].f->name + " bb" + std::to_string(st->frames[i].bb);
    prof[w + " " + showNode(c, 7)].first++;
  }
  State *o = new State(*st);
  o->addPc(c);
  o->model = m;
  o->modelEpoch = ++epochCounter;
  work.push_back(o);
}

// Decide a symbolic branch: the current state continues on the side its model
// takes; the other side, when feasible, is queued.
static u64 optAudit = 100, auditCount = 0;
// Decisions over the finite domain of one small variable are also put to the solver, one in
// optAudit of them: a difference is an error of the executor.
static void audit(Node *c, bool feasible) {
  if (!optAudit || isC(c) || auditCount++ % optAudit) return;
  int r = query(st, c, nullptr);
  if (r != -1 && (r == 1) != feasible) die("the solver disagrees with a decision over a finite domain");
}
static bool branch(Node *c) {
  if (isC(c)) return c->v != 0;
  bool val;
  u32 sv = smallVar(c);
  if (sv != ~0u) {
    Dom d = st->domain(sv), yes = d & truth(c), no = d.minus(yes);
    INC(domDecided);
    if (yes.empty()) { audit(c, false); return false; }
    if (no.empty()) { audit(eNot1(c), false); return true; }
    if (!((st->tied >> (sv & 63)) & 1)) audit(evalM(c) ? eNot1(c) : c, true);
    c = member(sv, yes, d);
    if (!((st->tied >> (sv & 63)) & 1)) {
      // the rest of the model stays valid whatever value of its set the variable takes
      bool side = evalM(c) != 0;
      auto m = std::make_shared<Model>(*st->model);
      if (m->val.size() <= sv) m->val.resize(EX.varWidth.size(), 0);
      m->val[sv] = (side ? no : yes).first();
      forkState(side ? eNot1(c) : c, m);
      st->addPc(side ? c : eNot1(c));
      return side;
    }
  } else if (implied(c, val)) return val;
  bool side = evalM(c) != 0;
  Node *mine = side ? c : eNot1(c), *other = side ? eNot1(c) : c;
  std::shared_ptr<Model> m;
  int r = query(st, other, &m);
  if (r == -1) throw Unsup{"solver returned unknown"};
  if (r == 0) {
    if (sv != ~0u) { Dom &d = st->domain(sv); d = d & truth(mine); }
    else st->known.push_back(mine);
    return side;
  }
  forkState(other, m);
  st->addPc(mine);
  return side;
}
// Value of v; forks once per feasible value.
static u64 concretize(const V &v) {
  if (!v.n) return v.c;
  u128 x = evalM(v.n);
  if (branch(eEq(v.n, eConst(x, v.n->w)))) return (u64)x;
  die("concretize: model value rejected");
}
static u128 concretizeW(const V &v) {
  if (!v.n) return v.c;
  if (isC(v.n)) return v.n->v;
  u128 x = evalM(v.n);
  if (branch(eEq(v.n, eConst(x, v.n->w)))) return x;
  die("concretizeW");
}
static void assumeC(Node *c) {
  if (isC(c)) { if (!c->v) throw PathEnd(); return; }
  bool val;
  u32 sv = smallVar(c);
  if (sv != ~0u) {
    Dom d = st->domain(sv), yes = d & truth(c);
    if (yes.empty()) { INC(infeasible); throw PathEnd(); }
    if (yes == d) return;
    c = member(sv, yes, d);
  } else if (implied(c, val)) { if (!val) throw PathEnd(); return; }
  if (evalM(c)) { st->addPc(c); return; }
  std::shared_ptr<Model> m;
  if (sv != ~0u && !((st->tied >> (sv & 63)) & 1)) {
    // as in branch: any value of the variable's set completes the model
    m = std::make_shared<Model>(*st->model);
    if (m->val.size() <= sv) m->val.resize(EX.varWidth.size(), 0);
    m->val[sv] = (st->domain(sv) & truth(c)).first();
    INC(domDecided);
    st->addPc(c);
    setModel(m);
    return;
  }
  int r = query(st, c, &m);
  if (r == -1) throw Unsup{"solver returned unknown (assume)"};
  if (r == 0) { INC(infeasible); throw PathEnd(); }
  st->addPc(c);
  setModel(m);
}
// Assertion: c must hold for every value on this path.
static void require(Node *c, const std::string &kind, const std::string &where) {
  if (isC(c)) {
    if (!c->v) { violation(kind, where, *st->model, st->modelEpoch); throw PathEnd(); }
    return;
  }
  bool val;
  u32 sv = smallVar(c);
  if (sv != ~0u) {
    Dom d = st->domain(sv), yes = d & truth(c);
    if (yes == d && kind != "check") return;
    if (!yes.empty() && !(yes == d)) c = member(sv, yes, d);
  }
  if (implied(c, val) && val) return;
  Node *nc = eNot1(c);
  if (!evalM(c)) {
    violation(kind, where, *st->model, st->modelEpoch);
    assumeC(c);
    return;
  }
  std::shared_ptr<Model> m;
  int r = query(st, nc, &m);
  if (r == -1) throw Unsup{"solver returned unknown (assertion)"};
  if (r == 1) {
    violation(kind, where, *m, ++epochCounter);
    st->addPc(c);
  } else st->known.push_back(c);
}

// ---- memory ------------------------------------------------------------------
static u32 stackBase, heapBase;
static const u32 STACK_SLOTS = 8192;
static Obj **globalObjs;

static Obj *globalObj(u32 slot) {
  if (globalObjs[slot]) return globalObjs[slot];
  auto it = globalSlot.find(slot);
  if (it == globalSlot.end()) return nullptr;
  LLVMValueRef g = it->second;
  LLVMTypeRef t = LLVMGlobalGetValueType(g);
  if (LLVMGetTypeKind(t) == LLVMFunctionTypeKind) return nullptr;
  u64 sz = LLVMABISizeOfType(TD, t);
  Obj *o = new Obj(MEM_BASE + ((u64)slot << SLOT_BITS), sz);
  o->ro = LLVMIsGlobalConstant(g);
  LLVMValueRef init = LLVMGetInitializer(g);
  if (init) { initBase = o->base; writeInit(o->data, 0, init); }
  globalObjs[slot] = o;
  return o;
}
static Obj *findObj(u64 addr, u32 &slot) {
  if (addr < MEM_BASE) return nullptr;
  u64 s64 = (addr - MEM_BASE) >> SLOT_BITS;
  if (s64 > 0x7fffffff) return nullptr;
  for (u32 back = 0; back < 128 && back <= s64; back++) {
    u32 s = (u32)s64 - back;
    Obj *o = st->mem.get(s);
    if (!o && s < numGlobalSlots) o = globalObj(s);
    if (o) {
      if (addr - o->base <= o->size) { slot = s; return o; }
      return nullptr;
    }
  }
  return nullptr;
}
static Obj *writableObj(u32 slot) {
  if (!st->mem.get(slot)) { // global: make a private copy
    Obj *o = new Obj(*globalObj(slot));
    st->mem.set(slot, o);
  }
  return st->mem.writable(slot);
}
static u64 newObj(u64 size, u8 kind) {
  if (size > (64ull << 20)) throw Unsup{"allocation larger than 64 MiB"};
  u32 need = 1 + (u32)(size >> SLOT_BITS);
  u32 slot;
  if (kind == 1) {
    if (st->stackNext + need > STACK_SLOTS) throw Unsup{"stack slots exhausted (recursion too deep)"};
    slot = stackBase + st->stackNext;
    st->stackNext += need;
  } else if (need == 1 && st->mem.freeSlots.size() - st->mem.freeHead > 256) {
    slot = st->mem.freeSlots[st->mem.freeHead++];
    if (st->mem.freeHead > 4096) {
      st->mem.freeSlots.erase(st->mem.freeSlots.begin(), st->mem.freeSlots.begin() + st->mem.freeHead);
      st->mem.freeHead = 0;
    }
  } else {
    slot = st->mem.next;
    st->mem.next += need;
  }
  Obj *o = new Obj(MEM_BASE + ((u64)slot << SLOT_BITS), size);
  o->kind = kind;
  st->mem.set(slot, o);
  return o->base;
}
static std::string curFn() { return st->frames.back().f->name; }
// nearest frame that is not part of core/alloc/std
static std::string userFn() {
  for (size_t i = st->frames.size(); i-- > 0;) {
    const std::string &n = st->frames[i].f->name;
    if (n.find("4core") == std::string::npos && n.find("5alloc") == std::string::npos && n.find("3std") == std::string::npos) return n;
  }
  return curFn();
}
[[noreturn]] static void memViolation(const std::string &what) {
  violation("memory", what + " in " + userFn(), *st->model, st->modelEpoch);
  throw PathEnd();
}
struct Res { Obj *o; u32 slot; u64 off; Node *symOff; };
static Res resolve(const V &addr, u64 len, bool write) {
  u64 a = addr.n ? (u64)evalM(addr.n) : addr.c;
  u32 slot = 0;
  Obj *o = findObj(a, slot);
  if (!o || a - o->base + len > o->size) {
    if (addr.n && o) {
      // some value is out of bounds; report, it is a violation for this model
    }
    memViolation(std::string(write ? "write" : "read") + " of " + std::to_string(len) + " bytes " + (o ? "out of bounds of a " + std::to_string(o->size) + "-byte object" : a < 4096 ? "through a null/dangling pointer" : "outside any live object"));
  }
  if (write && o->ro) memViolation("write to read-only memory");
  if (!addr.n) return {o, slot, a - o->base, nullptr};
  Node *off = eBin(SUB, addr.n, eConst(o->base, 64));
  Node *in = eBin(ULE, off, eConst(o->size - len, 64));
  if (!branch(in)) die("resolve");
  if (isC(off)) return {o, slot, (u64)off->v, nullptr};
  return {o, slot, 0, off};
}
static u32 knownTZ(Node *n) {
  switch (n->op) {
  case CONST: { if (n->v == 0) return n->w; u32 k = 0; while (!((n->v >> k) & 1)) k++; return k; }
  case CONCAT: { if (isCv(n->k[1], 0)) return n->k[1]->w + knownTZ(n->k[0]); return knownTZ(n->k[1]); }
  case ZEXT: case SEXT: return knownTZ(n->k[0]);
  case ADD: case SUB: case OR: case XOR: { u32 a = knownTZ(n->k[0]), b = knownTZ(n->k[1]); return a < b ? a : b; }
  case AND: { u32 a = knownTZ(n->k[0]), b = knownTZ(n->k[1]); return a > b ? a : b; }
  case MUL: { u32 a = knownTZ(n->k[0]), b = knownTZ(n->k[1]); return a + b > n->w ? n->w : a + b; }
  case ITE: { u32 a = knownTZ(n->k[1]), b = knownTZ(n->k[2]); return a < b ? a : b; }
  default: return 0;
  }
}
static Node *rdByte(Obj *o, u64 i) { return o->sym && o->sym[i] ? o->sym[i] : eConst(o->data[i], 8); }
static V readAt(Obj *o, u64 off, u32 w) {
  u32 nb = (w + 7) / 8;
  bool sym = false;
  if (o->sym) for (u32 i = 0; i < nb; i++) if (o->sym[off + i]) { sym = true; break; }
  if (!sym) {
    if (w <= 64) {
      u64 x = 0;
      memcpy(&x, o->data + off, nb);
      if (w < 64) x &= ((u64)1 << w) - 1;
      return cv(x);
    }
    if (w <= 128) {
      u128 x = 0;
      memcpy(&x, o->data + off, nb);
      return V{0, eConst(x, w)};
    }
  }
  Node *n = rdByte(o, off);
  for (u32 i = 1; i < nb; i++) n = eConcat(rdByte(o, off + i), n);
  if (n->w > w) n = eExtract(n, 0, w);
  return mkV(n);
}
static void wrByte(Obj *o, u64 i, Node *b) {
  if (isC(b)) {
    o->data[i] = (u8)b->v;
    if (o->sym) o->sym[i] = nullptr;
  } else {
    o->needSym();
    o->sym[i] = b;
  }
}
static void writeAt(Obj *o, u64 off, const V &v, u32 w) {
  u32 nb = (w + 7) / 8;
  if (!v.n) {
    memcpy(o->data + off, &v.c, nb);
    if (o->sym) memset(o->sym + off, 0, nb * sizeof(Node *));
    return;
  }
  Node *n = v.n;
  if (n->w < nb * 8) n = eZext(n, nb * 8);
  for (u32 i = 0; i < nb; i++) wrByte(o, off + i, eExtract(n, i * 8, 8));
}
// range of a symbolic offset (unsigned), by bisection with the solver
static void offRange(Node *off, u64 hiMax, u64 &lo, u64 &hi) {
  u64 cur = (u64)evalM(off);
  u32 sv = smallVar(off);
  if (sv != ~0u) {
    Dom d = st->domain(sv);
    Model &m = scratch(sv);
    lo = hi = cur;
    for (u32 x = 0; x < 1u << EX.varWidth[sv]; x++) {
      if (!d.has(x)) continue;
      m.val[sv] = x;
      u64 o = (u64)evalNode(off, m, ++epochCounter);
      if (o < lo) lo = o;
      if (o > hi) hi = o;
    }
    m.val[sv] = 0;
    return;
  }
  u64 a = cur, b = hiMax; // max in [a,b]
  while (a < b) {
    u64 mid = a + (b - a + 1) / 2;
    int r = query(st, eBin(ULE, eConst(mid, 64), off), nullptr);
    if (r == -1) { a = b; break; }
    if (r) a = mid; else b = mid - 1;
  }
  hi = a;
  a = 0; b = cur; // min in [a,b]
  while (a < b) {
    u64 mid = a + (b - a) / 2;
    int r = query(st, eBin(ULE, off, eConst(mid, 64)), nullptr);
    if (r == -1) { b = a; break; }
    if (r) b = mid; else a = mid + 1;
  }
  lo = b;
}
// Rebuild n with one subterm replaced.
static Node *subst(Node *n, Node *from, Node *to, std::unordered_map<Node *, Node *> &memo) {
  if (n == from) return to;
  if (!n->hasvar || !(n->vm & from->vm)) return n;
  auto it = memo.find(n);
  if (it != memo.end()) return it->second;
  Node *k[3] = {nullptr, nullptr, nullptr};
  for (int i = 0; i < 3; i++) if (n->k[i]) k[i] = subst(n->k[i], from, to, memo);
  Node *r;
  switch (n->op) {
  case VAR: r = n; break;
  case ITE: r = eIte(k[0], k[1], k[2]); break;
  case CONCAT: r = eConcat(k[0], k[1]); break;
  case EXTRACT: r = eExtract(k[0], n->aux, n->w); break;
  case ZEXT: r = eZext(k[0], n->w); break;
  case SEXT: r = eSext(k[0], n->w); break;
  case FCMP: r = eFcmp(n->aux, k[0], k[1]); break;
  default: r = n->op == XOR && n->w == 1 && isCv(k[1], 1) ? eNot1(k[0]) : eBin(n->op, k[0], k[1]);
  }
  return memo[n] = r;
}
static void smallTerms(Node *n, std::unordered_set<Node *> &seen, std::vector<Node *> &out) {
  if (!n->sv || out.size() > 16 || !seen.insert(n).second) return;
  if (smallVar(n) != ~0u) { out.push_back(n); return; }
  for (Node *k : n->k) if (k) smallTerms(k, seen, out);
}
// A table offset over several variables: when one part of it depends on one
// small variable and takes few values, decide that part first.
static Node *splitOffset(Node *off) {
  for (;;) {
    if (off->sv != ~0u) return off;
    std::unordered_set<Node *> seen;
    std::vector<Node *> parts;
    smallTerms(off, seen, parts);
    Node *best = nullptr;
    size_t bestN = 41;
    for (Node *p : parts) {
      u32 sv = smallVar(p);
      Dom d = st->domain(sv);
      Model &m = scratch(sv);
      std::set<u128> vals;
      for (u32 x = 0; x < 1u << EX.varWidth[sv] && vals.size() < bestN; x++)
        if (d.has(x)) { m.val[sv] = x; vals.insert(evalNode(p, m, ++epochCounter)); }
      m.val[sv] = 0;
      if (vals.size() < bestN) { bestN = vals.size(); best = p; }
    }
    if (!best) return off;
    u128 x = evalM(best);
    Node *c = eConst(x, best->w);
    if (!branch(eEq(best, c))) die("splitOffset");
    std::unordered_map<Node *, Node *> memo;
    off = subst(off, best, c, memo);
  }
}
static V splitAddr(const V &addr) {
  if (!addr.n || addr.n->sv != ~0u) return addr;
  u32 slot = 0;
  Obj *o = findObj((u64)evalM(addr.n), slot);
  return o && o->size > 64 ? mkV(splitOffset(addr.n)) : addr;
}
static void loadLeaves(const V &addr0, TyInfo *ti, V *dst) {
  V addr = splitAddr(addr0);
  Res r = resolve(addr, ti->store, false);
  if (r.symOff && smallVar(r.symOff) != ~0u) {
    // a table indexed by one small variable: case distinction over its values
    u32 sv = smallVar(r.symOff);
    Dom d = st->domain(sv);
    Model &m = scratch(sv);
    std::vector<std::pair<u32, u64>> offs;
    for (u32 x = 0; x < 1u << EX.varWidth[sv]; x++) {
      if (!d.has(x)) continue;
      m.val[sv] = x;
      offs.push_back({x, (u64)evalNode(r.symOff, m, ++epochCounter)});
      if (offs.back().second > r.o->size - ti->store) die("table offset");
    }
    m.val[sv] = 0;
    if (optForkTables && ti->leaves.size() == 1 && ti->leaves[0].w >= 32) {
      // continue separately with each value found
      u64 o = (u64)evalM(r.symOff);
      Node *mine = N(readAt(r.o, o, ti->leaves[0].w), ti->leaves[0].w);
      Dom s{{0, 0, 0, 0}};
      for (auto &p : offs) if (N(readAt(r.o, p.second, ti->leaves[0].w), ti->leaves[0].w) == mine) s.put(p.first);
      if (!branch(member(sv, s, d))) die("forkTables");
      dst[0] = mkV(mine);
      return;
    }
    for (size_t l = 0; l < ti->leaves.size(); l++) {
      Leaf &lf = ti->leaves[l];
      std::vector<std::pair<Node *, Dom>> groups;
      for (auto &p : offs) {
        Node *n = N(readAt(r.o, p.second + lf.off, lf.w), lf.w);
        size_t k = 0;
        while (k < groups.size() && groups[k].first != n) k++;
        if (k == groups.size()) groups.push_back({n, Dom{{0, 0, 0, 0}}});
        groups[k].second.put(p.first);
      }
      Node *acc = groups.back().first;
      for (size_t k = groups.size() - 1; k-- > 0;) acc = eIte(member(sv, groups[k].second, d), groups[k].first, acc);
      dst[l] = mkV(acc);
    }
    return;
  }
  if (r.symOff) {
    u64 lo = 0, hi = r.o->size - ti->store;
    u32 tz = knownTZ(r.symOff);
    u64 stride = tz > 12 ? 4096 : (u64)1 << tz;
    if ((hi - lo) / stride > 64) offRange(r.symOff, hi, lo, hi);
    lo = (lo + stride - 1) / stride * stride;
    if ((hi - lo) / stride > 2048) {
      u64 o = concretize(mkV(r.symOff));
      r.off = o; r.symOff = nullptr;
    } else {
      size_t L = ti->leaves.size();
      for (size_t l = 0; l < L; l++) {
        Leaf &lf = ti->leaves[l];
        Node *acc = nullptr;
        for (u64 o = lo; o <= hi; o += stride) {
          Node *x = N(readAt(r.o, o + lf.off, lf.w), lf.w);
          acc = acc ? eIte(eEq(r.symOff, eConst(o, 64)), x, acc) : x;
        }
        dst[l] = mkV(acc);
      }
      return;
    }
  }
  if (ti->bitpacked) {
    u32 tot = 0;
    for (auto &l : ti->leaves) tot += l.w;
    Node *n = N(readAt(r.o, r.off, tot), tot);
    u32 b = 0;
    for (size_t l = 0; l < ti->leaves.size(); l++) { dst[l] = mkV(eExtract(n, b, ti->leaves[l].w)); b += ti->leaves[l].w; }
    return;
  }
  for (size_t l = 0; l < ti->leaves.size(); l++) dst[l] = readAt(r.o, r.off + ti->leaves[l].off, ti->leaves[l].w);
}
static void storeLeaves(const V &addr0, TyInfo *ti, const V *src) {
  V addr = splitAddr(addr0);
  Res r = resolve(addr, ti->store, true);
  if (r.symOff) {
    u64 lo = 0, hi = r.o->size - ti->store;
    u32 tz = knownTZ(r.symOff);
    u64 stride = tz > 12 ? 4096 : (u64)1 << tz;
    if ((hi - lo) / stride > 16) offRange(r.symOff, hi, lo, hi);
    lo = (lo + stride - 1) / stride * stride;
    if ((hi - lo) / stride > 128) {
      r.off = concretize(mkV(r.symOff));
      r.symOff = nullptr;
    } else {
      Obj *o = writableObj(r.slot);
      for (size_t l = 0; l < ti->leaves.size(); l++) {
        Leaf &lf = ti->leaves[l];
        u32 nb = (lf.w + 7) / 8;
        Node *n = N(src[l], lf.w);
        if (n->w < nb * 8) n = eZext(n, nb * 8);
        for (u64 p = lo; p <= hi; p += stride) {
          Node *c = eEq(r.symOff, eConst(p, 64));
          for (u32 i = 0; i < nb; i++) {
            u64 q = p + lf.off + i;
            wrByte(o, q, eIte(c, eExtract(n, i * 8, 8), rdByte(o, q)));
          }
        }
      }
      return;
    }
  }
  Obj *o = writableObj(r.slot);
  if (ti->bitpacked) {
    Node *n = nullptr;
    for (size_t l = 0; l < ti->leaves.size(); l++) { Node *x = N(src[l], ti->leaves[l].w); n = n ? eConcat(x, n) : x; }
    writeAt(o, r.off, mkV(n), n->w);
    return;
  }
  for (size_t l = 0; l < ti->leaves.size(); l++) writeAt(o, r.off + ti->leaves[l].off, src[l], ti->leaves[l].w);
}
static void copyMem(const V &dst, const V &src, u64 len) {
  if (!len) return;
  V d = cv(concretize(dst)), s = cv(concretize(src));
  Res a = resolve(s, len, false);
  Res b0 = resolve(d, len, true);
  if (a.o == b0.o && a.off == b0.off) return;
  Obj *so = a.o;
  so->rc++; // keep the source image alive while the destination is made writable
  Obj *o = writableObj(b0.slot);
  if (!so->sym) {
    memmove(o->data + b0.off, so->data + a.off, len);
    if (o->sym) memset(o->sym + b0.off, 0, len * sizeof(Node *));
  } else {
    if (!o->sym) o->needSym();
    memmove(o->data + b0.off, so->data + a.off, len);
    memmove(o->sym + b0.off, so->sym + a.off, len * sizeof(Node *));
  }
  unref(so);
}
static void setMem(const V &dst, const V &val, u64 len) {
  if (!len) return;
  V d = cv(concretize(dst));
  Res b = resolve(d, len, true);
  Obj *o = writableObj(b.slot);
  if (!val.n) {
    memset(o->data + b.off, (int)(val.c & 255), len);
    if (o->sym) memset(o->sym + b.off, 0, len * sizeof(Node *));
  } else {
    Node *n = eExtract(val.n, 0, 8);
    for (u64 i = 0; i < len; i++) wrByte(o, b.off + i, n);
  }
}
static V cmpMem(const V &x, const V &y, u64 len, bool eqOnly) {
  if (!len) return cv(0);
  V a = cv(concretize(x)), b = cv(concretize(y));
  Res p = resolve(a, len, false), q = resolve(b, len, false);
  if (!p.o->sym && !q.o->sym) {
    int r = memcmp(p.o->data + p.off, q.o->data + q.off, len);
    return cv((u32)(r < 0 ? -1 : r > 0 ? 1 : 0));
  }
  if (eqOnly) {
    Node *e = eTrue();
    for (u64 i = 0; i < len; i++) e = eAnd1(e, eEq(rdByte(p.o, p.off + i), rdByte(q.o, q.off + i)));
    return mkV(eIte(e, eConst(0, 32), eConst(1, 32)));
  }
  Node *r = eConst(0, 32);
  for (u64 i = len; i-- > 0;) {
    Node *s = rdByte(p.o, p.off + i), *t = rdByte(q.o, q.off + i);
    r = eIte(eEq(s, t), r, eIte(eBin(ULT, s, t), eConst(0xffffffffu, 32), eConst(1, 32)));
  }
  return mkV(r);
}
static void freeObj(u64 a) {
  u32 slot;
  Obj *o = findObj(a, slot);
  if (!o || o->base != a || o->kind != 2) memViolation("free of a pointer that is not a live allocation");
  bool big = o->size >> SLOT_BITS;
  st->mem.set(slot, nullptr);
  if (!big) st->mem.freeSlots.push_back(slot);
}

// ---- instruction helpers -----------------------------------------------------
static inline u64 m64(u32 w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static V doBin(Op op, const V &a, const V &b, u32 w) {
  if (!a.n && !b.n && w <= 64) {
    u64 x = a.c, y = b.c, m = m64(w);
    switch (op) {
    case ADD: return cv((x + y) & m);
    case SUB: return cv((x - y) & m);
    case MUL: return cv((x * y) & m);
    case AND: return cv(x & y);
    case OR: return cv(x | y);
    case XOR: return cv(x ^ y);
    case SHL: return cv(y >= w ? 0 : (x << y) & m);
    case LSHR: return cv(y >= w ? 0 : x >> y);
    default: return cv((u64)foldBin(op, x, y, w));
    }
  }
  return mkV(eBin(op, N(a, w), N(b, w)));
}
static V doCmp(u32 pred, const V &a, const V &b, u32 w) {
  if (!a.n && !b.n && w <= 64) {
    u64 x = a.c, y = b.c;
    int64_t sx = (int64_t)(x << (64 - w)) >> (64 - w), sy = (int64_t)(y << (64 - w)) >> (64 - w);
    switch (pred) {
    case LLVMIntEQ: return cv(x == y);
    case LLVMIntNE: return cv(x != y);
    case LLVMIntUGT: return cv(x > y);
    case LLVMIntUGE: return cv(x >= y);
    case LLVMIntULT: return cv(x < y);
    case LLVMIntULE: return cv(x <= y);
    case LLVMIntSGT: return cv(sx > sy);
    case LLVMIntSGE: return cv(sx >= sy);
    case LLVMIntSLT: return cv(sx < sy);
    case LLVMIntSLE: return cv(sx <= sy);
    }
  }
  Node *x = N(a, w), *y = N(b, w);
  switch (pred) {
  case LLVMIntEQ: return mkV(eEq(x, y));
  case LLVMIntNE: return mkV(eNot1(eEq(x, y)));
  case LLVMIntUGT: return mkV(eBin(ULT, y, x));
  case LLVMIntUGE: return mkV(eBin(ULE, y, x));
  case LLVMIntULT: return mkV(eBin(ULT, x, y));
  case LLVMIntULE: return mkV(eBin(ULE, x, y));
  case LLVMIntSGT: return mkV(eBin(SLT, y, x));
  case LLVMIntSGE: return mkV(eBin(SLE, y, x));
  case LLVMIntSLT: return mkV(eBin(SLT, x, y));
  case LLVMIntSLE: return mkV(eBin(SLE, x, y));
  }
  die("icmp pred");
}
static double toD(u64 v, u32 w) {
  if (w == 32) { u32 u = (u32)v; float f; memcpy(&f, &u, 4); return f; }
  double d; memcpy(&d, &v, 8); return d;
}
static u64 fromD(double d, u32 w) {
  if (w == 32) { float f = (float)d; u32 u; memcpy(&u, &f, 4); return u; }
  u64 u; memcpy(&u, &d, 8); return u;
}
static u64 needC(const V &v, const char *what) {
  if (v.n) throw Unsup{std::string("symbolic operand of ") + what};
  return v.c;
}
static V fbin(int opc, const V &a, const V &b, u32 w) {
  u64 x = needC(a, "float arithmetic"), y = needC(b, "float arithmetic");
  if (w == 32) {
    u32 ux = (u32)x, uy = (u32)y; float fx, fy, r;
    memcpy(&fx, &ux, 4); memcpy(&fy, &uy, 4);
    switch (opc) { case LLVMFAdd: r = fx + fy; break; case LLVMFSub: r = fx - fy; break; case LLVMFMul: r = fx * fy; break; case LLVMFDiv: r = fx / fy; break; default: r = fmodf(fx, fy); }
    u32 u; memcpy(&u, &r, 4); return cv(u);
  }
  double fx = toD(x, 64), fy = toD(y, 64), r;
  switch (opc) { case LLVMFAdd: r = fx + fy; break; case LLVMFSub: r = fx - fy; break; case LLVMFMul: r = fx * fy; break; case LLVMFDiv: r = fx / fy; break; default: r = fmod(fx, fy); }
  return cv(fromD(r, 64));
}
static i128 d2i(double d, bool sgn, u32 w, bool) {
  if (std::isnan(d)) return 0;
  double lo = sgn ? -ldexp(1.0, w - 1) : 0, hi = sgn ? ldexp(1.0, w - 1) : ldexp(1.0, w);
  if (d <= lo) return sgn ? -((i128)1 << (w - 1)) : 0;
  if (d >= hi) return sgn ? ((i128)1 << (w - 1)) - 1 : (i128)maskw(w);
  return (i128)d;
}
static Node *popcount(Node *x) {
  Node *r = eConst(0, x->w);
  for (u32 i = 0; i < x->w; i++) r = eBin(ADD, r, eZext(eExtract(x, i, 1), x->w));
  return r;
}
static Node *clzN(Node *x) {
  Node *r = eConst(x->w, x->w > 128 ? 128 : x->w);
  for (u32 i = 0; i < x->w; i++) r = eIte(eExtract(x, i, 1), eConst(x->w - 1 - i, x->w), r);
  return r;
}
static Node *ctzN(Node *x) {
  Node *r = eConst(x->w, x->w);
  for (u32 i = x->w; i-- > 0;) r = eIte(eExtract(x, i, 1), eConst(i, x->w), r);
  return r;
}
static void pushFrame(Func *f, const std::vector<V> &args, int retDst, int invokeEdge) {
  decodeFunc(f);
  if (st->frames.size() > 4000) throw Unsup{"call depth"};
  f->calls++;
  Frame fr;
  fr.f = f;
  fr.retDst = retDst;
  fr.invokeEdge = invokeEdge;
  fr.stackMark = st->stackNext;
  fr.regs.assign(f->nslots, cv(0));
  for (size_t i = 0; i < args.size() && i < (size_t)f->nslots; i++) fr.regs[i] = args[i];
  st->frames.push_back(std::move(fr));
}
static void takeEdge(Frame &F, int e) {
  Edge &E = F.f->edges[e];
  size_t n = E.copies.size();
  if (n == 1) {
    int s = E.copies[0].second;
    F.regs[E.copies[0].first] = s >= 0 ? F.regs[s] : F.f->pool[~s];
  } else if (n) {
    V tmp[64];
    std::vector<V> big;
    V *t = tmp;
    if (n > 64) { big.resize(n); t = big.data(); }
    for (size_t i = 0; i < n; i++) { int s = E.copies[i].second; t[i] = s >= 0 ? F.regs[s] : F.f->pool[~s]; }
    for (size_t i = 0; i < n; i++) F.regs[E.copies[i].first] = t[i];
  }
  F.bb = E.target;
  F.pc = 0;
}
static std::string readStr(u64 p, u64 n) {
  u32 slot;
  Obj *o = findObj(p, slot);
  if (!o || p - o->base + n > o->size || n > 4096) return "?";
  return std::string((char *)o->data + (p - o->base), n);
}
// source location of a panic: any pointer argument that looks like &Location
static std::string panicWhere(Inst &I, Frame &F) {
  auto G = [&](int op) -> V { return op >= 0 ? F.regs[op] : F.f->pool[~op]; };
  for (size_t k = I.args.size(); k-- > 0;) {
    if (I.args[k] == 0x7fffffff || I.argTys[k]->leaves.size() != 1) continue;
    V v = G(I.args[k]);
    if (v.n) continue;
    u32 slot;
    Obj *o = findObj(v.c, slot);
    if (!o || o->kind != 0 || o->base != v.c || o->size != 24) continue;
    u64 p, n; u32 line, col;
    memcpy(&p, o->data, 8); memcpy(&n, o->data + 8, 8); memcpy(&line, o->data + 16, 4); memcpy(&col, o->data + 20, 4);
    std::string s = readStr(p, n);
    if (s.size() && s.find('\0') == s.size() - 1) s.pop_back();
    if (s.find(".rs") != std::string::npos) return s + ":" + std::to_string(line) + ":" + std::to_string(col);
  }
  return "";
}
[[noreturn]] static void panicPath(Inst *I, const std::string &what) {
  // the checks that the compiler adds to unsafe operations in a build with debug assertions: no
  // panic without them, and never a refusal
  if (st->expectPanic && (what.find("nounwind") != std::string::npos || what.find("misaligned_pointer") != std::string::npos || what.find("null_pointer") != std::string::npos)) {
    violation("ub", "condition of an unsafe operation in " + userFn(), *st->model, st->modelEpoch);
    throw PathEnd();
  }
  if (st->expectPanic) { throw PathEnd(); }
  Frame &F = st->frames.back();
  std::string w = I ? panicWhere(*I, F) : "";
  if (w.empty() || w.find("/repo/") == std::string::npos && w.find("src/") != 0) {
    std::string u = userFn();
    w += (w.empty() ? "" : " ") + ("in " + u);
  }
  violation("panic", w, *st->model, st->modelEpoch);
  throw PathEnd();
}

static void execCall(Inst &I, Frame &F) {
  auto G = [&](int op) -> V { return op >= 0 ? F.regs[op] : F.f->pool[~op]; };
  auto A = [&](size_t k, int lane = 0) -> V { int op = I.args[k]; op = op >= 0 ? op + lane : op - lane; return G(op); };
  auto AW = [&](size_t k) -> u32 { return I.argTys[k]->leaves[0].w; };
  int id = I.intr;
  Func *callee = I.callee;
  if (id < 0 && !callee) {
    u64 fa = concretize(G(I.a));
    auto it = funcAt.find(fa);
    if (it == funcAt.end()) memViolation("call through a bad function pointer");
    callee = it->second;
    id = callee->intr;
  }
  if (id < 0) {
    if (callee->decl) throw Unsup{"call of external function " + callee->name};
    std::vector<V> args;
    for (size_t k = 0; k < I.args.size(); k++)
      for (size_t l = 0; l < I.argTys[k]->leaves.size(); l++) args.push_back(A(k, (int)l));
    F.pc++;
    pushFrame(callee, args, I.dst, I.edges.empty() ? -1 : I.edges[0]);
    return;
  }
  auto ret = [&](const V &v, u32 lane = 0) { if (I.dst >= 0) F.regs[I.dst + lane] = v; };
  auto lanewise = [&](auto fn) {
    for (u32 l = 0; l < I.lanes; l++) ret(fn(l), l);
  };
  u32 w = I.w;
  switch (id) {
  case X_NOP: break;
  case X_ID: for (u32 l = 0; l < I.lanes; l++) ret(A(0, (int)l), l); break;
  case X_ZERO: case X_NOTPANICKING: if (I.dst >= 0) { bool one = id == X_NOTPANICKING && I.name.find("is_zero") != std::string::npos; ret(cv(one)); } break;
  case X_ONES: ret(cv(m64(w))); break;
  case X_MEMCPY: case X_MEMMOVE: {
    u64 n = concretize(A(2));
    V d = A(0);
    copyMem(A(0), A(1), n);
    if (I.dst >= 0) ret(d);
    break;
  }
  case X_MEMSET: {
    u64 n = concretize(A(2));
    V d = A(0);
    setMem(A(0), A(1), n);
    if (I.dst >= 0) ret(d);
    break;
  }
  case X_BCMP: case X_MEMCMP: {
    u64 n = concretize(A(2));
    ret(cmpMem(A(0), A(1), n, id == X_BCMP));
    break;
  }
  case X_STRLEN: {
    u64 a = concretize(A(0)), n = 0;
    for (;; n++) {
      Res r = resolve(cv(a + n), 1, false);
      V b = readAt(r.o, r.off, 8);
      if (concretize(b) == 0) break;
    }
    ret(cv(n));
    break;
  }
  case X_UMIN: case X_UMAX: case X_SMIN: case X_SMAX:
    lanewise([&](u32 l) {
      V a = A(0, l), b = A(1, l);
      u32 p = id == X_UMIN ? LLVMIntULT : id == X_UMAX ? LLVMIntUGT : id == X_SMIN ? LLVMIntSLT : LLVMIntSGT;
      V c = doCmp(p, a, b, w);
      if (!c.n) return c.c ? a : b;
      return mkV(eIte(c.n, N(a, w), N(b, w)));
    });
    break;
  case X_ABS: lanewise([&](u32 l) { Node *a = N(A(0, l), w); return mkV(eIte(eBin(SLT, a, eConst(0, w)), eBin(SUB, eConst(0, w), a), a)); }); break;
  case X_CTPOP: lanewise([&](u32 l) { V a = A(0, l); if (!a.n) return cv(__builtin_popcountll(a.c)); return mkV(popcount(a.n)); }); break;
  case X_CTLZ: lanewise([&](u32 l) { V a = A(0, l); if (!a.n) return cv(a.c ? __builtin_clzll(a.c) - (64 - w) : w); return mkV(clzN(a.n)); }); break;
  case X_CTTZ: lanewise([&](u32 l) { V a = A(0, l); if (!a.n) return cv(a.c ? __builtin_ctzll(a.c) : w); return mkV(ctzN(a.n)); }); break;
  case X_BSWAP: lanewise([&](u32 l) {
      Node *a = N(A(0, l), w), *r = eExtract(a, 0, 8);
      for (u32 i = 1; i < w / 8; i++) r = eConcat(r, eExtract(a, i * 8, 8));
      return mkV(r);
    }); break;
  case X_BITREV: lanewise([&](u32 l) {
      Node *a = N(A(0, l), w), *r = eExtract(a, 0, 1);
      for (u32 i = 1; i < w; i++) r = eConcat(r, eExtract(a, i, 1));
      return mkV(r);
    }); break;
  case X_FSHL: case X_FSHR: lanewise([&](u32 l) {
      Node *a = N(A(0, l), w), *b = N(A(1, l), w), *c = N(A(2, l), w);
      Node *s = eBin(UREM, c, eConst(w, w));
      Node *z = eEq(s, eConst(0, w));
      Node *inv = eBin(SUB, eConst(w, w), s);
      Node *x = id == X_FSHL ? eBin(OR, eBin(SHL, a, s), eBin(LSHR, b, inv)) : eBin(OR, eBin(SHL, a, inv), eBin(LSHR, b, s));
      return mkV(eIte(z, id == X_FSHL ? a : b, x));
    }); break;
  case X_UADDO: case X_SADDO: case X_USUBO: case X_SSUBO: case X_UMULO: case X_SMULO: {
    u32 aw = AW(0);
    u32 L = (u32)I.argTys[0]->leaves.size();
    for (u32 l = 0; l < L; l++) {
      V a = A(0, l), b = A(1, l);
      Op op = id <= X_SADDO ? ADD : id <= X_SSUBO ? SUB : MUL;
      bool sg = id == X_SADDO || id == X_SSUBO || id == X_SMULO;
      V r, o;
      if (!a.n && !b.n && aw <= 64) {
        i128 x = sg ? sext128(a.c, aw) : (i128)a.c, y = sg ? sext128(b.c, aw) : (i128)b.c;
        i128 t = 0;
        bool ov;
        if (op == ADD) t = x + y; else if (op == SUB) t = x - y;
        if (op == MUL && !sg) { u128 ut = (u128)a.c * b.c; r = cv((u64)(ut & maskw(aw))); ov = (ut >> aw) != 0; }
        else {
          if (op == MUL) t = x * y;
          r = cv((u64)((u128)t & maskw(aw)));
          ov = sg ? sext128((u128)t & maskw(aw), aw) != t : (t < 0 || ((u128)t >> aw) != 0);
        }
        o = cv(ov);
      } else {
        Node *x = N(a, aw), *y = N(b, aw);
        Node *res = eBin(op, x, y);
        Node *ov;
        if (op == ADD && !sg) ov = eBin(ULT, res, x);
        else if (op == SUB && !sg) ov = eBin(ULT, x, y);
        else if (op == ADD || op == SUB) {
          Node *sx = eBin(XOR, x, op == ADD ? res : y), *sy = eBin(XOR, op == ADD ? y : x, res);
          ov = eExtract(eBin(AND, sx, sy), aw - 1, 1);
        } else if (op == MUL && !sg && (isC(y) || isC(x))) {
          if (!isC(y)) std::swap(x, y);
          ov = y->v == 0 ? eFalse() : eBin(ULT, eConst(maskw(aw) / y->v, aw), x);
        } else if (op == MUL && sg && (isC(y) || isC(x)) && sext128((isC(y) ? y : x)->v, aw) > 0) {
          if (!isC(y)) std::swap(x, y);
          i128 k = sext128(y->v, aw), mx = (i128)(maskw(aw) >> 1), mn = -mx - 1;
          ov = eBin(OR, eBin(SLT, eConst((u128)(mx / k) & maskw(aw), aw), x), eBin(SLT, x, eConst((u128)(mn / k) & maskw(aw), aw)));
        } else {
          u32 ww = op == MUL ? aw * 2 : aw + 1;
          if (ww > 128 && op == MUL) throw Unsup{"wide multiply overflow"};
          Node *X = sg ? eSext(x, ww) : eZext(x, ww), *Y = sg ? eSext(y, ww) : eZext(y, ww);
          Node *R = eBin(op, X, Y);
          Node *B = sg ? eSext(res, ww) : eZext(res, ww);
          ov = eNot1(eEq(R, B));
        }
        r = mkV(res);
        o = mkV(ov);
      }
      ret(r, l);
      ret(o, L + l);
    }
    break;
  }
  case X_UADDS: case X_USUBS: lanewise([&](u32 l) {
      Node *a = N(A(0, l), w), *b = N(A(1, l), w);
      if (id == X_USUBS) return mkV(eIte(eBin(ULT, a, b), eConst(0, w), eBin(SUB, a, b)));
      Node *s = eBin(ADD, a, b);
      return mkV(eIte(eBin(ULT, s, a), eConst(maskw(w), w), s));
    }); break;
  case X_SADDS: case X_SSUBS: lanewise([&](u32 l) {
      Node *a = eSext(N(A(0, l), w), w + 1), *b = eSext(N(A(1, l), w), w + 1);
      Node *s = eBin(id == X_SADDS ? ADD : SUB, a, b);
      u128 mx = maskw(w) >> 1, mn = (u128)1 << (w - 1);
      Node *hi = eSext(eConst(mx, w), w + 1), *lo = eSext(eConst(mn, w), w + 1);
      return mkV(eIte(eBin(SLT, hi, s), eConst(mx, w), eIte(eBin(SLT, s, lo), eConst(mn, w), eExtract(s, 0, w))));
    }); break;
  case X_RADD: case X_RAND: case X_ROR: case X_RXOR: case X_RMUL: case X_RUMAX: case X_RUMIN: case X_RSMAX: case X_RSMIN: {
    u32 L = (u32)I.argTys[0]->leaves.size();
    V acc = A(0, 0);
    for (u32 l = 1; l < L; l++) {
      V x = A(0, (int)l);
      switch (id) {
      case X_RADD: acc = doBin(ADD, acc, x, w); break;
      case X_RAND: acc = doBin(AND, acc, x, w); break;
      case X_ROR: acc = doBin(OR, acc, x, w); break;
      case X_RXOR: acc = doBin(XOR, acc, x, w); break;
      case X_RMUL: acc = doBin(MUL, acc, x, w); break;
      default: {
        u32 p = id == X_RUMAX ? LLVMIntUGT : id == X_RUMIN ? LLVMIntULT : id == X_RSMAX ? LLVMIntSGT : LLVMIntSLT;
        V c = doCmp(p, acc, x, w);
        if (!c.n) { if (!c.c) acc = x; } else acc = mkV(eIte(c.n, N(acc, w), N(x, w)));
      }
      }
    }
    ret(acc);
    break;
  }
  case X_PTRMASK: ret(doBin(AND, A(0), A(1), 64)); break;
  case X_UCMP: case X_SCMP: lanewise([&](u32 l) {
      u32 aw = AW(0);
      V a = A(0, l), b = A(1, l);
      Node *lt = N(doCmp(id == X_UCMP ? LLVMIntULT : LLVMIntSLT, a, b, aw), 1), *eq = N(doCmp(LLVMIntEQ, a, b, aw), 1);
      return mkV(eIte(lt, eConst(maskw(w), w), eIte(eq, eConst(0, w), eConst(1, w))));
    }); break;
  case X_LOADREL: {
    u64 p = concretize(A(0));
    V off = doBin(ADD, cv(p), A(1), 64);
    V x[1];
    static TyInfo t32;
    if (t32.leaves.empty()) { t32.leaves.push_back({32, 0, false, false}); t32.store = 4; }
    if (off.n) { resolve(off, 4, false); off = cv(concretize(off)); }
    loadLeaves(off, &t32, x);
    auto rel = relTargets.find(off.c);
    if (rel != relTargets.end()) { ret(cv(p + rel->second)); break; }
    ret(mkV(eBin(ADD, eConst(p, 64), eSext(N(x[0], 32), 64))));
    break;
  }
  case X_FABS: lanewise([&](u32 l) { return doBin(AND, A(0, l), cv(m64(w) >> 1), w); }); break;
  case X_COPYSIGN: lanewise([&](u32 l) { return mkV(eBin(OR, eBin(AND, N(A(0, l), w), eConst(maskw(w) >> 1, w)), eBin(AND, N(A(1, l), w), eConst((u128)1 << (w - 1), w)))); }); break;
  case X_FLOOR: lanewise([&](u32 l) { return cv(fromD(floor(toD(needC(A(0, l), "floor"), w)), w)); }); break;
  case X_CEIL: lanewise([&](u32 l) { return cv(fromD(ceil(toD(needC(A(0, l), "ceil"), w)), w)); }); break;
  case X_FTRUNC: lanewise([&](u32 l) { return cv(fromD(trunc(toD(needC(A(0, l), "trunc"), w)), w)); }); break;
  case X_FMA: lanewise([&](u32 l) { return cv(fromD(fma(toD(needC(A(0, l), "fma"), w), toD(needC(A(1, l), "fma"), w), toD(needC(A(2, l), "fma"), w)), w)); }); break;
  case X_FPTOUISAT: case X_FPTOSISAT: lanewise([&](u32 l) {
      i128 r = d2i(toD(needC(A(0, l), "fptoi.sat"), AW(0)), id == X_FPTOSISAT, w, true);
      return w <= 64 ? cv((u64)r & m64(w)) : mkV(eConst((u128)r, w));
    }); break;
  case X_FPCLASS: {
    u32 fw = AW(0);
    u32 mask = (u32)needC(A(1), "is.fpclass");
    Node *x = N(A(0), fw);
    u32 mb = fw == 32 ? 23 : 52, eb = fw - mb - 1;
    Node *sign = eExtract(x, fw - 1, 1), *ex = eExtract(x, mb, eb), *ma = eExtract(x, 0, mb);
    Node *e1 = eEq(ex, eConst(maskw(eb), eb)), *e0 = eEq(ex, eConst(0, eb)), *m0 = eEq(ma, eConst(0, mb));
    Node *qn = eExtract(x, mb - 1, 1);
    Node *r = eFalse();
    auto add = [&](u32 bit, Node *c) { if (mask & bit) r = eOr1(r, c); };
    Node *nan = eAnd1(e1, eNot1(m0));
    add(1, eAnd1(nan, eNot1(qn))); add(2, eAnd1(nan, qn));
    Node *inf = eAnd1(e1, m0), *norm = eAnd1(eNot1(e1), eNot1(e0)), *sub = eAnd1(e0, eNot1(m0)), *zero = eAnd1(e0, m0);
    Node *ns = eNot1(sign);
    add(4, eAnd1(inf, sign)); add(8, eAnd1(norm, sign)); add(16, eAnd1(sub, sign)); add(32, eAnd1(zero, sign));
    add(64, eAnd1(zero, ns)); add(128, eAnd1(sub, ns)); add(256, eAnd1(norm, ns)); add(512, eAnd1(inf, ns));
    ret(mkV(r));
    break;
  }
  case X_MOVMSK: {
    u32 L = (u32)I.argTys[0]->leaves.size();
    Node *r = eConst(0, 32);
    for (u32 l = 0; l < L; l++) r = eBin(OR, r, eBin(SHL, eZext(eExtract(N(A(0, (int)l), 8), 7, 1), 32), eConst(l, 32)));
    ret(mkV(r));
    break;
  }
  case X_PSHUFB: {
    for (u32 l = 0; l < 16; l++) {
      u64 ix = concretize(A(1, (int)l));
      ret(ix & 0x80 ? cv(0) : A(0, (int)(ix & 15)), l);
    }
    break;
  }
  case X_ERRNO: {
    ret(cv(newObj(8, 2)));
    break;
  }
  case X_MALLOC: { u64 n = concretize(A(0)); ret(cv(newObj(n, 2))); break; }
  case X_CALLOC: { u64 n = concretize(A(0)), m = concretize(A(1)); ret(cv(newObj(n * m, 2))); break; }
  case X_FREE: { u64 p = concretize(A(0)); if (p) freeObj(p); break; }
  case X_RALLOC: case X_RALLOCZ: case X_ALIGNEDALLOC: {
    u64 n = concretize(A(id == X_ALIGNEDALLOC ? 1 : 0));
    u64 p = newObj(n, 2);
    if (id == X_RALLOC) {
      Obj *o = st->mem.get((u32)((p - MEM_BASE) >> SLOT_BITS));
      memset(o->data, 0xCD, o->size);
    }
    ret(cv(p));
    break;
  }
  case X_MEMALIGN: {
    u64 n = concretize(A(2));
    u64 p = newObj(n, 2);
    static TyInfo t64;
    if (t64.leaves.empty()) { t64.leaves.push_back({64, 0, false, true}); t64.store = 8; }
    V x = cv(p);
    storeLeaves(A(0), &t64, &x);
    ret(cv(0));
    break;
  }
  case X_RDEALLOC: { u64 p = concretize(A(0)); freeObj(p); break; }
  case X_REALLOC: case X_RREALLOC: {
    u64 p = concretize(A(0));
    u64 n = concretize(A(id == X_REALLOC ? 1 : 3));
    if (!p) { ret(cv(newObj(n, 2))); break; }
    u32 slot;
    Obj *o = findObj(p, slot);
    if (!o || o->base != p || o->kind != 2) memViolation("realloc of a pointer that is not a live allocation");
    u64 q = newObj(n, 2);
    u64 old = o->size < n ? o->size : n;
    copyMem(cv(q), cv(p), old);
    freeObj(p);
    ret(cv(q));
    break;
  }
  case X_MMAP: { u64 n = concretize(A(1)); ret(cv(newObj(n, 2))); break; }
  case X_ABORT: case X_TRAP: panicPath(&I, I.name);
  case X_PANIC: panicPath(&I, callee ? callee->name : I.name);
  case X_SYSCONF: { // _SC_PAGESIZE and _SC_NPROCESSORS_ONLN are what the standard library asks for
    u64 k = concretize(A(0));
    ret(cv(k == 30 ? 4096 : k == 84 || k == 83 ? 1 : ~0ull));
    break;
  }
  case X_CLOCK: { // time stands still
    u64 p = concretize(A(1));
    for (int i = 0; i < 2; i++) {
      Res r = resolve(cv(p + 8 * i), 8, true);
      Obj *o = writableObj(r.slot);
      writeAt(o, r.off, cv(i ? 0 : 1000), 64);
    }
    ret(cv(0));
    break;
  }
  case X_MUNMAP: {
    u64 p = concretize(A(0));
    freeObj(p);
    ret(cv(0));
    break;
  }
  case X_HASHKEYS: {
    // returns (u64,u64) either directly or through sret
    if (I.dst >= 0) { ret(cv(0x0123456789abcdefull ^ optHashSeed), 0); ret(cv(0xfedcba9876543210ull + optHashSeed), 1); }
    else throw Unsup{"hashmap_random_keys ABI"};
    break;
  }
  case X_ASM: {
    // black_box and cpuid are the only expected uses
    if (I.name.find("cpuid") != std::string::npos || I.name.find("xgetbv") != std::string::npos || I.name.find("asm sideeffect \"\"") != std::string::npos || I.dst < 0) {
      for (u32 l = 0; l < I.lanes && I.dst >= 0; l++) ret(cv(0), l);
    } else throw Unsup{"inline asm: " + I.name};
    break;
  }
  // ---- harness interface ----
  case H_SYM: {
    u32 bits = (u32)needC(A(0), "rse_sym");
    u32 v = varFor((u32)st->inputs.size(), bits);
    st->inputs.push_back(v);
    { // any value satisfies the path so far: start from a varied one
      auto m = std::make_shared<Model>(*st->model);
      if (m->val.size() <= v) m->val.resize(EX.varWidth.size() + 64, 0);
      m->val[v] = (ExprCtx::mix(optSeed + 77, v * 2654435761u + bits) >> 7) & (u64)maskw(bits);
      setModel(m);
    }
    Node *n = eVar(v, bits);
    ret(mkV(bits < 64 ? eZext(n, 64) : n));
    break;
  }
  case H_PICK: { // n-way choice: every value is feasible, no query needed
    u64 n = needC(A(0), "rse_pick");
    if (n == 0) throw PathEnd();
    u32 v = varFor((u32)st->inputs.size(), 32);
    Node *x = eVar(v, 32);
    st->inputs.push_back(v);
    F.pc++;
    auto base = std::make_shared<Model>(*st->model);
    if (base->val.size() <= v) base->val.resize(EX.varWidth.size() + 64, 0);
    for (u64 k = n; k-- > 0;) {
      auto m = std::make_shared<Model>(*base);
      m->val[v] = k;
      if (k) {
        INC(forks);
        State *o = new State(*st);
        if (I.dst >= 0) o->frames.back().regs[I.dst] = cv(k);
        o->addPc(eEq(x, eConst(k, 32)));
        o->model = m;
        o->modelEpoch = ++epochCounter;
        work.push_back(o);
      } else {
        ret(cv(0));
        st->addPc(eEq(x, eConst(0, 32)));
        setModel(m);
      }
    }
    return;
  }
  case H_CASE: ret(cv(optCase)); break;
  case H_ASSUME: assumeC(eExtract(N(A(0), AW(0)), 0, 1)); break;
  case H_CHECK: {
    u64 cid = needC(A(1), "rse_check");
    require(eExtract(N(A(0), AW(0)), 0, 1), "check", std::to_string(cid));
    break;
  }
  case H_COVER: {
    u64 cid = needC(A(0), "rse_cover");
    if (localCover.insert(cid).second) addCover(cid);
    st->obs.push_back({1, cv(cid)});
    break;
  }
  case H_OBSERVE: st->obs.push_back({0, A(0)}); break;
  case H_NOTE: if (optVerbose) fprintf(stderr, "note %llu\n", (unsigned long long)A(0).c); break;
  case H_CONCRETIZE: ret(cv(concretize(A(0)))); break;
  case H_CONCBYTES: {
    u64 p = concretize(A(0)), n = concretize(A(1));
    for (u64 i = 0; i < n; i++) {
      Res r = resolve(cv(p + i), 1, true);
      V b = readAt(r.o, r.off, 8);
      if (b.n) { u64 x = concretize(b); Obj *o = writableObj(r.slot); writeAt(o, r.off, cv(x), 8); }
    }
    break;
  }
  case H_EXPECT_PANIC: st->expectPanic = (concretize(A(0)) & 1) != 0; break;
  case H_ISSYM: ret(cv(A(0).n != nullptr)); break;
  default: throw Unsup{"intrinsic/external " + (callee ? callee->name : I.name)};
  }
  if (!I.edges.empty()) takeEdge(F, I.edges[0]);
  else F.pc++;
}

static u64 stepsLocal = 0;
// Execute the current state until its path ends.
static void runPath() {
  for (;;) {
    Frame &F = st->frames.back();
    Inst &I = F.f->blocks[F.bb].insts[F.pc];
    auto G = [&](int op) -> const V & { return op >= 0 ? F.regs[op] : F.f->pool[~op]; };
    auto GL = [&](int op, u32 l) -> const V & { return op >= 0 ? F.regs[op + l] : F.f->pool[~op + l]; };
    stepsLocal++;
    if (++st->steps > optSteps) {
      violation("hang", "more than " + std::to_string(optSteps) + " instructions in " + userFn(), *st->model, st->modelEpoch);
      throw PathEnd();
    }
    if ((stepsLocal & 0xfffff) == 0) {
      if (now() - t0 > optTime || kill(rootPid, 0)) { SH->timeout = 1; throw PathEnd(); }
      maybeDonate();
    }
    switch (I.kind) {
    case I_BIN:
      if (I.sub >= UDIV && I.sub <= SREM) {
        for (u32 l = 0; l < I.lanes; l++) {
          V b = GL(I.b, l);
          if (!b.n && b.c == 0 && I.w <= 64) { violation("ub", "division by zero in " + userFn(), *st->model, st->modelEpoch); throw PathEnd(); }
          if (b.n && !isC(b.n)) require(eNot1(eEq(b.n, eConst(0, I.w))), "ub", "division by zero in " + userFn());
        }
      }
      for (u32 l = 0; l < I.lanes; l++) F.regs[I.dst + l] = doBin((Op)I.sub, GL(I.a, l), GL(I.b, l), I.w);
      F.pc++;
      break;
    case I_ICMP:
      for (u32 l = 0; l < I.lanes; l++) F.regs[I.dst + l] = doCmp(I.sub, GL(I.a, l), GL(I.b, l), I.w2);
      F.pc++;
      break;
    case I_FCMP:
      for (u32 l = 0; l < I.lanes; l++) {
        V a = GL(I.a, l), b = GL(I.b, l);
        if (!a.n && !b.n) F.regs[I.dst + l] = cv(evalFcmp(I.sub, a.c, b.c, I.w2));
        else F.regs[I.dst + l] = mkV(eFcmp(I.sub, N(a, I.w2), N(b, I.w2)));
      }
      F.pc++;
      break;
    case I_FBIN:
      for (u32 l = 0; l < I.lanes; l++) F.regs[I.dst + l] = fbin(I.sub, GL(I.a, l), GL(I.b, l), I.w);
      F.pc++;
      break;
    case I_FNEG:
      for (u32 l = 0; l < I.lanes; l++) F.regs[I.dst + l] = doBin(XOR, GL(I.a, l), cv(1ull << (I.w - 1)), I.w);
      F.pc++;
      break;
    case I_FPCAST:
      for (u32 l = 0; l < I.lanes; l++) {
        V a = GL(I.a, l);
        u64 r;
        switch (I.sub) {
        case LLVMFPTrunc: case LLVMFPExt: r = fromD(toD(needC(a, "fp cast"), I.w2), I.w); break;
        case LLVMFPToUI: case LLVMFPToSI: r = (u64)d2i(toD(needC(a, "fp to int"), I.w2), I.sub == LLVMFPToSI, I.w, false) & m64(I.w); break;
        case LLVMUIToFP: { u128 x = I.w2 > 64 ? concretizeW(a) : needC(a, "int to fp"); r = I.w == 32 ? ({ float f = (float)x; u32 u; memcpy(&u, &f, 4); (u64)u; }) : ({ double d = (double)x; fromD(d, 64); }); break; }
        default: { i128 x = sext128(I.w2 > 64 ? concretizeW(a) : needC(a, "int to fp"), I.w2); r = I.w == 32 ? ({ float f = (float)x; u32 u; memcpy(&u, &f, 4); (u64)u; }) : fromD((double)x, 64); break; }
        }
        F.regs[I.dst + l] = cv(r);
      }
      F.pc++;
      break;
    case I_SELECT: {
      u32 nc = (u32)I.ty2->leaves.size();
      for (u32 l = 0; l < I.lanes; l++) {
        V c = GL(I.a, nc > 1 ? l : 0);
        if (!c.n) F.regs[I.dst + l] = c.c ? GL(I.b, l) : GL(I.c, l);
        else {
          V x = GL(I.b, l), y = GL(I.c, l);
          u32 lw = I.ty->leaves[l].w;
          F.regs[I.dst + l] = mkV(eIte(c.n, N(x, lw), N(y, lw)));
        }
      }
      F.pc++;
      break;
    }
    case I_TRUNC:
      for (u32 l = 0; l < I.lanes; l++) {
        V a = GL(I.a, l);
        F.regs[I.dst + l] = a.n ? mkV(eExtract(a.n, 0, I.w)) : cv(a.c & m64(I.w));
      }
      F.pc++;
      break;
    case I_ZEXT:
      for (u32 l = 0; l < I.lanes; l++) {
        V a = GL(I.a, l);
        F.regs[I.dst + l] = a.n || I.w > 64 ? mkV(eZext(N(a, I.w2), I.w)) : a;
      }
      F.pc++;
      break;
    case I_SEXT:
      for (u32 l = 0; l < I.lanes; l++) {
        V a = GL(I.a, l);
        if (a.n || I.w > 64) F.regs[I.dst + l] = mkV(eSext(N(a, I.w2), I.w));
        else F.regs[I.dst + l] = cv((u64)sext128(a.c, I.w2) & m64(I.w));
      }
      F.pc++;
      break;
    case I_COPY: {
      size_t n = I.copies.size();
      if (n <= 2) for (auto &c : I.copies) F.regs[c.first] = G(c.second);
      else {
        // destination never overlaps its sources (SSA)
        for (auto &c : I.copies) F.regs[c.first] = G(c.second);
      }
      F.pc++;
      break;
    }
    case I_BITCAST: {
      Node *n = nullptr;
      for (size_t l = 0; l < I.ty2->leaves.size(); l++) { Node *x = N(GL(I.a, (u32)l), I.ty2->leaves[l].w); n = n ? eConcat(x, n) : x; }
      u32 b = 0;
      for (u32 l = 0; l < I.lanes; l++) { F.regs[I.dst + l] = mkV(eExtract(n, b, I.ty->leaves[l].w)); b += I.ty->leaves[l].w; }
      F.pc++;
      break;
    }
    case I_GEP: {
      V r = G(I.a);
      if (!r.n) {
        bool sym = false;
        u64 x = r.c + (u64)I.k;
        for (auto &t : I.terms) { const V &v = G(t.first); if (v.n) { sym = true; break; } x += v.c * (u64)t.second; }
        if (!sym) { F.regs[I.dst] = cv(x); F.pc++; break; }
      }
      Node *n = N(r, 64);
      for (auto &t : I.terms) n = eBin(ADD, n, eBin(MUL, N(G(t.first), 64), eConst((u64)t.second, 64)));
      n = eBin(ADD, n, eConst((u64)I.k, 64));
      F.regs[I.dst] = mkV(n);
      F.pc++;
      break;
    }
    case I_LOAD: {
      if (I.lanes <= 64) {
        V tmp[64];
        loadLeaves(G(I.a), I.ty, tmp);
        Frame &F2 = st->frames.back();
        for (u32 l = 0; l < I.lanes && I.dst >= 0; l++) F2.regs[I.dst + l] = tmp[l];
      } else {
        std::vector<V> tmp(I.lanes);
        loadLeaves(G(I.a), I.ty, tmp.data());
        for (u32 l = 0; l < I.lanes; l++) F.regs[I.dst + l] = tmp[l];
      }
      F.pc++;
      break;
    }
    case I_STORE: {
      size_t L = I.ty->leaves.size();
      if (L == 1) { V v = G(I.a); storeLeaves(G(I.b), I.ty, &v); }
      else if (L) {
        std::vector<V> tmp(L);
        for (size_t l = 0; l < L; l++) tmp[l] = GL(I.a, (u32)l);
        storeLeaves(G(I.b), I.ty, tmp.data());
      }
      F.pc++;
      break;
    }
    case I_ALLOCA: {
      u64 n = concretize(G(I.a));
      u64 p = newObj((u64)I.k * n, 1);
      F.regs[I.dst] = cv(p);
      F.pc++;
      break;
    }
    case I_BR: takeEdge(F, I.edges[0]); break;
    case I_CONDBR: {
      V c = G(I.a);
      bool side = c.n ? branch(c.n) : c.c != 0;
      takeEdge(st->frames.back(), I.edges[side ? 0 : 1]);
      if (c.n) maybeDonate();
      break;
    }
    case I_SWITCH: {
      V c = G(I.a);
      if (!c.n) {
        int e = I.edges[0];
        for (auto &s : I.cases) if ((u64)s.v == c.c) { e = s.edge; break; }
        takeEdge(F, e);
        break;
      }
      // group the cases by target edge; decide target by target
      std::vector<int> order;
      std::unordered_map<int, Node *> cond;
      for (auto &s : I.cases) {
        Node *q = eEq(c.n, eConst(s.v, I.w));
        auto it = cond.find(s.edge);
        if (it == cond.end()) { cond[s.edge] = q; order.push_back(s.edge); }
        else it->second = eOr1(it->second, q);
      }
      int e = I.edges[0];
      for (int k : order) {
        if (k == I.edges[0]) continue;
        if (branch(cond[k])) { e = k; break; }
      }
      takeEdge(st->frames.back(), e);
      maybeDonate();
      break;
    }
    case I_RET: {
      V tmp[64];
      std::vector<V> big;
      V *t = tmp;
      if (I.lanes > 64) { big.resize(I.lanes); t = big.data(); }
      for (u32 l = 0; l < I.lanes; l++) t[l] = GL(I.a, l);
      // release stack objects
      for (u32 s = F.stackMark; s < st->stackNext; s++) if (st->mem.get(stackBase + s)) st->mem.set(stackBase + s, nullptr);
      st->stackNext = F.stackMark;
      int rd = F.retDst, ie = F.invokeEdge;
      u32 L = I.lanes;
      st->frames.pop_back();
      if (st->frames.empty()) return;
      Frame &P = st->frames.back();
      if (rd >= 0) for (u32 l = 0; l < L; l++) P.regs[rd + l] = t[l];
      if (ie >= 0) takeEdge(P, ie);
      break;
    }
    case I_CALL: execCall(I, F); break;
    case I_EXTELT: {
      u64 ix = concretize(G(I.b));
      if (ix >= I.w2) ix = 0;
      F.regs[I.dst] = GL(I.a, (u32)ix);
      F.pc++;
      break;
    }
    case I_INSELT: {
      u64 ix = concretize(G(I.c));
      std::vector<V> t(I.lanes);
      for (u32 l = 0; l < I.lanes; l++) t[l] = l == ix ? G(I.b) : GL(I.a, l);
      for (u32 l = 0; l < I.lanes; l++) F.regs[I.dst + l] = t[l];
      F.pc++;
      break;
    }
    case I_RMW: {
      TyInfo *ti = I.ty;
      V old, v = G(I.b), nv;
      loadLeaves(G(I.a), ti, &old);
      u32 w = I.w;
      auto mm = [&](u32 p) { V c = doCmp(p, old, v, w); return c.n ? mkV(eIte(c.n, N(old, w), N(v, w))) : c.c ? old : v; };
      switch (I.sub) {
      case LLVMAtomicRMWBinOpXchg: nv = v; break;
      case LLVMAtomicRMWBinOpAdd: nv = doBin(ADD, old, v, w); break;
      case LLVMAtomicRMWBinOpSub: nv = doBin(SUB, old, v, w); break;
      case LLVMAtomicRMWBinOpAnd: nv = doBin(AND, old, v, w); break;
      case LLVMAtomicRMWBinOpOr: nv = doBin(OR, old, v, w); break;
      case LLVMAtomicRMWBinOpXor: nv = doBin(XOR, old, v, w); break;
      case LLVMAtomicRMWBinOpUMax: nv = mm(LLVMIntUGT); break;
      case LLVMAtomicRMWBinOpUMin: nv = mm(LLVMIntULT); break;
      case LLVMAtomicRMWBinOpMax: nv = mm(LLVMIntSGT); break;
      case LLVMAtomicRMWBinOpMin: nv = mm(LLVMIntSLT); break;
      default: throw Unsup{"atomicrmw"};
      }
      storeLeaves(G(I.a), ti, &nv);
      F.regs[I.dst] = old;
      F.pc++;
      break;
    }
    case I_CMPXCHG: {
      V old, e = G(I.b), nv = G(I.c);
      loadLeaves(G(I.a), I.ty2, &old);
      V c = doCmp(LLVMIntEQ, old, e, I.w2);
      bool s = c.n ? branch(c.n) : c.c;
      if (s) storeLeaves(G(I.a), I.ty2, &nv);
      F.regs[I.dst] = old;
      F.regs[I.dst + 1] = cv(s);
      F.pc++;
      break;
    }
    case I_UNREACH:
      if (st->expectPanic) throw PathEnd();
      violation("ub", "unreachable code reached in " + userFn(), *st->model, st->modelEpoch);
      throw PathEnd();
    default: {
      char *s = LLVMPrintValueToString(I.val);
      throw Unsup{std::string("instruction ") + s};
    }
    }
  }
}
static void runWorker() {
  while (!work.empty()) {
    if (SH->timeout) break;
    maybeDonate();
    if (work.empty()) break;
    st = work.back();
    work.pop_back();
    u64 s0 = stepsLocal;
    bool done = false;
    try {
      runPath();
      done = true;
    } catch (PathEnd &) {
    } catch (Unsup &u) {
      u64 n = INC(nerr);
      if (n < 20) emit("{\"type\":\"error\",\"what\":\"" + jesc(u.what) + "\",\"stack\":\"" + (st->frames.empty() ? "" : jesc(backtrace())) + "\",\"inputs\":" + inputsStr(*st->model) + "}");
    }
    ADDN(steps, stepsLocal - s0);
    if (done) {
      u64 p = INC(paths);
      // sample completed paths for native replay: the first few and then exponentially rarer
      if (SH->samples < (u64)optSamples && (p < 4 || (p & (p - 1)) == 0 || (p % 37) == 5)) {
        INC(samples);
        emit("{\"type\":\"sample\",\"case\":" + std::to_string(optCase) + ",\"inputs\":" + inputsStr(*st->model) + ",\"obs\":" + obsStr(*st->model, st->modelEpoch) + "}");
      }
    }
    delete st;
    st = nullptr;
  }
  // functions executed by this worker
  std::string l;
  for (auto &f : funcOf) if (f.second->calls) l += (l.empty() ? "\"" : ",\"") + jesc(f.second->name) + "\"";
  emit("{\"type\":\"funcs\",\"names\":[" + l + "]}");
  for (State *s : work) (void)s;
}

int main(int argc, char **argv) {
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--bc") optBc = nx();
    else if (a == "--harness") optHarness = nx();
    else if (a == "--out") optOut = nx();
    else if (a == "--case") optCase = strtoull(nx().c_str(), 0, 0);
    else if (a == "--jobs") optJobs = atoi(nx().c_str());
    else if (a == "--time") optTime = atof(nx().c_str());
    else if (a == "--steps") optSteps = strtoull(nx().c_str(), 0, 0);
    else if (a == "--samples") optSamples = atoi(nx().c_str());
    else if (a == "--forktables") optForkTables = nx() != "0";
    else if (a == "--hashseed") optHashSeed = strtoull(nx().c_str(), 0, 0);
    else if (a == "--audit") optAudit = strtoull(nx().c_str(), 0, 0);
    else if (a == "--seed") optSeed = strtoull(nx().c_str(), 0, 0);
    else if (a == "-v") optVerbose = true;
    else die("bad option " + a);
  }
  // deep recursion in expression walks: run on a large stack
  struct rlimit rl;
  getrlimit(RLIMIT_STACK, &rl);
  if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ull << 30)) {
    rl.rlim_cur = rl.rlim_max == RLIM_INFINITY || rl.rlim_max > (1ull << 30) ? (1ull << 30) : rl.rlim_max;
    if (!getenv("RSE_STACK") && setrlimit(RLIMIT_STACK, &rl) == 0) {
      setenv("RSE_STACK", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  t0 = now();
  SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)SH, 0, sizeof(Shared));
  SH->active = 1;
  rootPid = getpid();
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  outF = fopen(optOut.c_str(), "w");
  if (!outF) die("cannot open " + optOut);
  int fd = fileno(outF);
  fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_APPEND);

  LLVMContextRef C = LLVMContextCreate();
  LLVMMemoryBufferRef buf;
  char *err = nullptr;
  if (LLVMCreateMemoryBufferWithContentsOfFile(optBc.c_str(), &buf, &err)) die(std::string("read ") + err);
  if (LLVMParseIRInContext(C, buf, &M, &err)) die(std::string("parse ") + err);
  TD = LLVMGetModuleDataLayout(M);
  loadModule();

  Z3_config cfg = Z3_mk_config();
  Z = Z3_mk_context_rc(cfg);
  S = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV"));
  Z3_solver_inc_ref(Z, S);
  Z3_params p = Z3_mk_params(Z);
  Z3_params_inc_ref(Z, p);
  Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "rlimit"), 100000000);
  Z3_solver_set_params(Z, S, p);

  stackBase = (numGlobalSlots + CH) / CH * CH;
  heapBase = stackBase + STACK_SLOTS;
  globalObjs = (Obj **)calloc(numGlobalSlots + 1, sizeof(Obj *));

  Func *H = nullptr;
  for (auto &f : funcOf) if (f.second->name == optHarness && !f.second->decl) H = f.second;
  if (!H) die("no such harness: " + optHarness);
  st = new State();
  st->model = std::make_shared<Model>();
  st->modelEpoch = ++epochCounter;
  st->mem.next = heapBase;
  pushFrame(H, {}, -1, -1);
  work.push_back(st);
  runWorker();
  finishWorker();

  std::string cov;
  for (u64 i = 0; i < SH->ncover; i++) cov += (i ? "," : "") + std::to_string(SH->coverKeys[i]);
  char b[1024];
  profDump();
  snprintf(b, sizeof b,
           "{\"type\":\"summary\",\"harness\":\"%s\",\"case\":%llu,\"paths\":%llu,\"forks\":%llu,\"steps\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"domain\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"errors\":%llu,\"violations\":%llu,\"timeout\":%d,\"covers\":[%s]}",
           optHarness.c_str(), (unsigned long long)optCase, (unsigned long long)SH->paths, (unsigned long long)SH->forks, (unsigned long long)SH->steps,
           (unsigned long long)SH->queries, (unsigned long long)SH->sat, (unsigned long long)SH->unsat, (unsigned long long)SH->unknown, (unsigned long long)SH->domDecided, SH->solverUs / 1e6, now() - t0,
           (unsigned long long)SH->nerr, (unsigned long long)SH->nviol, SH->timeout, cov.c_str());
  emit(b);
  if (optVerbose) puts(b);
  fflush(outF);
  _exit(0);
}
