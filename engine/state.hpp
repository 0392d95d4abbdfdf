// Program representation, memory and path state.
#pragma once
#include "expr.hpp"
#include <llvm-c/Core.h>
#include <llvm-c/Target.h>
#include <map>
#include <memory>
#include <set>
#include <unordered_map>
#include <unordered_set>

// ---- values -------------------------------------------------------------
struct V {
  u64 c;
  Node *n; // null => concrete (width <= 64)
};
inline V cv(u64 c) { return V{c, nullptr}; }
inline Node *N(const V &v, u32 w) { return v.n ? v.n : eConst(v.c, w); }
inline V mkV(Node *n) {
  if (isC(n) && n->w <= 64) return V{(u64)n->v, nullptr};
  return V{0, n};
}

// ---- types --------------------------------------------------------------
struct Leaf { u32 w; u64 off; bool fp; bool ptr; };
struct TyInfo {
  std::vector<Leaf> leaves;
  u64 store = 0, alloc = 0;
  u32 align = 1;
  bool bitpacked = false; // vector of non-byte elements
};

// ---- instructions -------------------------------------------------------
enum IK : u8 {
  I_BIN, I_ICMP, I_FCMP, I_FBIN, I_FNEG, I_SELECT, I_TRUNC, I_ZEXT, I_SEXT, I_COPY, I_BITCAST, I_FPCAST,
  I_GEP, I_LOAD, I_STORE, I_ALLOCA, I_BR, I_CONDBR, I_SWITCH, I_RET, I_CALL, I_EXTELT, I_INSELT,
  I_UNREACH, I_RMW, I_CMPXCHG, I_UNSUP,
};
struct Func;
struct Edge {
  int target;
  std::vector<std::pair<int, int>> copies; // dst slot, src operand
};
struct SwCase { u128 v; int edge; };
struct Inst {
  IK kind;
  u8 sub = 0;
  bool flag = false;
  u32 lanes = 1, w = 0, w2 = 0;
  int dst = -1, a = 0, b = 0, c = 0;
  TyInfo *ty = nullptr, *ty2 = nullptr;
  std::vector<std::pair<int, int>> copies; // I_COPY
  i128 k = 0;                              // gep constant
  std::vector<std::pair<int, i128>> terms; // gep: operand (64-bit), scale ; width in w
  std::vector<int> edges;
  std::vector<SwCase> cases;
  // calls
  Func *callee = nullptr;
  std::string name; // intrinsic/external name
  int intr = -1;
  std::vector<int> args;
  std::vector<TyInfo *> argTys;
  LLVMValueRef val = nullptr;
};
struct Block { std::vector<Inst> insts; };
struct Func {
  LLVMValueRef val;
  std::string name;
  u64 addr = 0;
  bool decoded = false, decl = false;
  int intr = -1; // intercepted
  int nslots = 0, nargs = 0;
  std::vector<Block> blocks;
  std::vector<Edge> edges;
  std::vector<V> pool;
  u64 calls = 0;
};

// ---- memory -------------------------------------------------------------
struct Obj {
  int rc = 1;
  u64 base;
  u64 size;
  bool ro = false;
  u8 kind = 0; // 0 global 1 stack 2 heap
  u8 *data = nullptr;
  Node **sym = nullptr;
  Obj(u64 b, u64 s) : base(b), size(s) { data = (u8 *)calloc(1, s ? s : 1); }
  Obj(const Obj &o) : rc(1), base(o.base), size(o.size), ro(o.ro), kind(o.kind) {
    data = (u8 *)malloc(size ? size : 1);
    memcpy(data, o.data, size);
    if (o.sym) {
      sym = (Node **)malloc(sizeof(Node *) * (size ? size : 1));
      memcpy(sym, o.sym, sizeof(Node *) * size);
    }
  }
  ~Obj() { free(data); free(sym); }
  void needSym() { if (!sym) sym = (Node **)calloc(size ? size : 1, sizeof(Node *)); }
};
inline void unref(Obj *o) { if (o && --o->rc == 0) delete o; }

static const u64 MEM_BASE = 1ull << 36;
static const u32 SLOT_BITS = 20;
static const u32 CH = 64;
struct Chunk {
  int rc = 1;
  Obj *o[CH];
  Chunk() { memset(o, 0, sizeof o); }
  Chunk(const Chunk &c) : rc(1) {
    memcpy(o, c.o, sizeof o);
    for (auto x : o) if (x) x->rc++;
  }
  ~Chunk() { for (auto x : o) unref(x); }
};
struct Mem {
  std::vector<Chunk *> t;
  std::vector<u32> freeSlots; // FIFO quarantine
  size_t freeHead = 0;
  u32 next = 0;
  Mem() {}
  Mem(const Mem &m) : t(m.t), freeSlots(m.freeSlots.begin() + m.freeHead, m.freeSlots.end()), freeHead(0), next(m.next) {
    for (auto c : t) if (c) c->rc++;
  }
  ~Mem() { for (auto c : t) if (c && --c->rc == 0) delete c; }
  Obj *get(u32 slot) const {
    u32 ci = slot / CH;
    if (ci >= t.size() || !t[ci]) return nullptr;
    return t[ci]->o[slot % CH];
  }
  Chunk *wchunk(u32 ci) {
    if (ci >= t.size()) t.resize(ci + 1, nullptr);
    if (!t[ci]) t[ci] = new Chunk();
    else if (t[ci]->rc > 1) { t[ci]->rc--; t[ci] = new Chunk(*t[ci]); }
    return t[ci];
  }
  void set(u32 slot, Obj *o) {
    Chunk *c = wchunk(slot / CH);
    unref(c->o[slot % CH]);
    c->o[slot % CH] = o;
  }
  Obj *writable(u32 slot) {
    u32 ci = slot / CH;
    Chunk *c = t[ci];
    if (c->rc > 1) c = wchunk(ci);
    Obj *&o = c->o[slot % CH];
    if (o->rc > 1) { o->rc--; o = new Obj(*o); }
    return o;
  }
};

struct Frame {
  Func *f;
  int bb = 0;
  size_t pc = 0;
  int retDst = -1;
  int invokeEdge = -1;
  u32 stackMark = 0;
  std::vector<V> regs;
};

// Set of values of a variable of up to 8 bits.
struct Dom {
  u64 b[4];
  bool has(u32 x) const { return (b[x >> 6] >> (x & 63)) & 1; }
  void put(u32 x) { b[x >> 6] |= (u64)1 << (x & 63); }
  bool empty() const { return !(b[0] | b[1] | b[2] | b[3]); }
  bool operator==(const Dom &o) const { return !memcmp(b, o.b, sizeof b); }
  Dom operator&(const Dom &o) const { return Dom{{b[0] & o.b[0], b[1] & o.b[1], b[2] & o.b[2], b[3] & o.b[3]}}; }
  Dom minus(const Dom &o) const { return Dom{{b[0] & ~o.b[0], b[1] & ~o.b[1], b[2] & ~o.b[2], b[3] & ~o.b[3]}}; }
  u32 first() const { for (u32 i = 0; i < 4; i++) if (b[i]) return i * 64 + (u32)__builtin_ctzll(b[i]); return 256; }
  static Dom full(u32 w) { Dom d{{0, 0, 0, 0}}; if (w == 8) memset(d.b, 255, sizeof d.b); else if (w >= 6) for (u32 i = 0; i < (1u << (w - 6)); i++) d.b[i] = ~(u64)0; else d.b[0] = ((u64)1 << (1u << w)) - 1; return d; }
};

struct State {
  std::vector<Frame> frames;
  Mem mem;
  std::vector<Node *> pcs, known;
  std::vector<Dom> dom;  // by variable index: values left by the conditions on that variable alone
  u64 tied = 0;          // variables (modulo 64) in conditions on several variables
  void addPc(Node *c);
  Dom &domain(u32 var);
  std::shared_ptr<Model> model;
  u64 modelEpoch = 0;
  std::vector<u32> inputs; // var indexes in creation order
  std::vector<std::pair<u32, V>> obs; // kind<<16.. , value
  u64 steps = 0;
  u32 stackNext = 0; // next stack slot
  bool expectPanic = false;
  std::map<u64, u64> allocSize; // not used
};
