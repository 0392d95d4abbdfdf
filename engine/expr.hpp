// Hash-consed bit-vector expressions with local simplification, model
// evaluation and translation to Z3.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
#include <unistd.h>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

[[noreturn]] inline void die(const std::string &m) {
  fprintf(stderr, "ENGINE-FATAL: %s\n", m.c_str());
  fflush(stderr);
  _exit(70);
}

enum Op : u8 {
  CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  EQ, ULT, ULE, SLT, SLE, ITE, CONCAT, EXTRACT, ZEXT, SEXT,
  FCMP, // aux = LLVM real predicate, kids are 32/64-bit patterns
};

struct Node {
  Op op;
  u32 w;
  u32 id;
  u32 aux;          // extract low bit / var index / fcmp predicate
  Node *k[3];
  u128 v;           // constant value
  Node *hnext;
  u64 hash;
  // evaluation memo
  u64 epoch;
  u128 ev;
  // z3 memo
  Z3_ast zbv, zbool;
  bool hasvar;
  u32 sv;           // 0: no variable, 1+index: this variable only, ~0: several
  u64 vm;           // the variables, by index modulo 64
};

inline u128 maskw(u32 w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sext128(u128 v, u32 w) {
  if (w >= 128) return (i128)v;
  u128 m = (u128)1 << (w - 1);
  v &= maskw(w);
  return (i128)((v ^ m) - m);
}

struct ExprCtx {
  std::vector<Node *> table;
  size_t count = 0;
  std::vector<u32> varWidth;
  char *arena = nullptr;
  size_t arenaLeft = 0;
  ExprCtx() { table.assign(1 << 16, nullptr); }

  Node *alloc() {
    if (arenaLeft < sizeof(Node)) {
      arenaLeft = 1 << 20;
      arena = (char *)malloc(arenaLeft);
    }
    Node *n = (Node *)arena;
    arena += sizeof(Node);
    arenaLeft -= sizeof(Node);
    return n;
  }
  static u64 mix(u64 h, u64 x) {
    h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    return h;
  }
  Node *mk(Op op, u32 w, Node *a = nullptr, Node *b = nullptr, Node *c = nullptr, u32 aux = 0, u128 v = 0) {
    u64 h = mix(op, w);
    h = mix(h, aux);
    h = mix(h, a ? a->id + 1 : 0);
    h = mix(h, b ? b->id + 1 : 0);
    h = mix(h, c ? c->id + 1 : 0);
    h = mix(h, (u64)v);
    h = mix(h, (u64)(v >> 64));
    size_t i = h & (table.size() - 1);
    for (Node *n = table[i]; n; n = n->hnext)
      if (n->hash == h && n->op == op && n->w == w && n->aux == aux && n->k[0] == a && n->k[1] == b && n->k[2] == c && n->v == v)
        return n;
    Node *n = alloc();
    n->op = op; n->w = w; n->aux = aux; n->k[0] = a; n->k[1] = b; n->k[2] = c; n->v = v;
    n->id = (u32)count++;
    n->hash = h; n->epoch = 0; n->zbv = n->zbool = nullptr;
    n->sv = op == VAR ? aux + 1 : 0;
    n->vm = op == VAR ? (u64)1 << (aux & 63) : 0;
    for (Node *k : n->k) if (k) { n->vm |= k->vm; if (k->sv) n->sv = n->sv && n->sv != k->sv ? ~0u : k->sv; }
    n->hasvar = op == VAR || (a && a->hasvar) || (b && b->hasvar) || (c && c->hasvar);
    n->hnext = table[i];
    table[i] = n;
    if (count > table.size() * 2) grow();
    return n;
  }
  void grow() {
    std::vector<Node *> t(table.size() * 4, nullptr);
    for (Node *n : table)
      while (n) {
        Node *x = n->hnext;
        size_t i = n->hash & (t.size() - 1);
        n->hnext = t[i];
        t[i] = n;
        n = x;
      }
    table.swap(t);
  }
};

extern ExprCtx EX;

inline Node *eConst(u128 v, u32 w) {
  if (w > 128) {
    // wide constant: concat of 64-bit pieces (value limited to 128 bits)
    Node *lo = EX.mk(CONST, 128, nullptr, nullptr, nullptr, 0, v);
    Node *hi = eConst(0, w - 128);
    return EX.mk(CONCAT, w, hi, lo);
  }
  return EX.mk(CONST, w, nullptr, nullptr, nullptr, 0, v & maskw(w));
}
inline bool isC(Node *n) { return n->op == CONST; }
inline bool isCv(Node *n, u128 v) { return n->op == CONST && n->v == v; }
inline bool isOnes(Node *n) { return n->op == CONST && n->v == maskw(n->w); }

inline Node *eVar(u32 idx, u32 w) { return EX.mk(VAR, w, nullptr, nullptr, nullptr, idx); }

inline u128 foldBin(Op op, u128 a, u128 b, u32 w) {
  u128 m = maskw(w);
  switch (op) {
  case ADD: return (a + b) & m;
  case SUB: return (a - b) & m;
  case MUL: return (a * b) & m;
  case UDIV: return b ? (a / b) & m : m;
  case UREM: return b ? (a % b) & m : a;
  case SDIV: {
    if (!b) return sext128(a, w) >= 0 ? m : 1;
    i128 x = sext128(a, w), y = sext128(b, w);
    if (y == -1) return (u128)(-(u128)x) & m;
    return (u128)(x / y) & m;
  }
  case SREM: {
    if (!b) return a;
    i128 x = sext128(a, w), y = sext128(b, w);
    if (y == -1) return 0;
    return (u128)(x % y) & m;
  }
  case AND: return a & b;
  case OR: return a | b;
  case XOR: return a ^ b;
  case SHL: return b >= w ? 0 : (a << (u32)b) & m;
  case LSHR: return b >= w ? 0 : (a >> (u32)b);
  case ASHR: {
    u32 s = b >= w ? w - 1 : (u32)b;
    return (u128)(sext128(a, w) >> s) & m;
  }
  case EQ: return a == b;
  case ULT: return a < b;
  case ULE: return a <= b;
  case SLT: return sext128(a, w) < sext128(b, w);
  case SLE: return sext128(a, w) <= sext128(b, w);
  default: die("foldBin");
  }
}

Node *eBin(Op op, Node *a, Node *b);
Node *eIte(Node *c, Node *a, Node *b);
Node *eExtract(Node *n, u32 lo, u32 w);
Node *eConcat(Node *hi, Node *lo);
Node *eZext(Node *n, u32 w);
Node *eSext(Node *n, u32 w);
Node *eNot1(Node *n);
inline Node *eTrue() { return eConst(1, 1); }
inline Node *eFalse() { return eConst(0, 1); }
inline Node *eEq(Node *a, Node *b) { return eBin(EQ, a, b); }
inline Node *eAnd1(Node *a, Node *b) { return eBin(AND, a, b); }
inline Node *eOr1(Node *a, Node *b) { return eBin(OR, a, b); }
bool evalFcmp(u32 pred, u64 a, u64 b, u32 w);
Node *eFcmp(u32 pred, Node *a, Node *b);

// A model: values of variables by index.
struct Model {
  std::vector<u64> val;
};
u128 evalNode(Node *n, const Model &m, u64 epoch);
void wideEval(Node *n, const Model &m, u64 epoch, std::vector<u8> &bytes);
std::string showNode(Node *n, int depth = 6);

// Z3 translation
extern Z3_context Z;
Z3_ast toBV(Node *n);
Z3_ast toBool(Node *n);
