#include "expr.hpp"
#include <cmath>
ExprCtx EX;
Z3_context Z;

static bool isCmp(Op o) { return o >= EQ && o <= SLE; }
static bool commut(Op o) { return o == ADD || o == MUL || o == AND || o == OR || o == XOR || o == EQ; }

Node *eNot1(Node *n) {
  if (isC(n)) return eConst(n->v ^ 1, 1);
  if (n->op == XOR && isCv(n->k[1], 1)) return n->k[0];
  if (n->op == ULT) return eBin(ULE, n->k[1], n->k[0]);
  if (n->op == ULE) return eBin(ULT, n->k[1], n->k[0]);
  if (n->op == SLT) return eBin(SLE, n->k[1], n->k[0]);
  if (n->op == SLE) return eBin(SLT, n->k[1], n->k[0]);
  return EX.mk(XOR, 1, n, eConst(1, 1));
}

// number of known-zero high bits
static u32 leadZeros(Node *n, int d = 0) {
  switch (n->op) {
  case CONST: {
    u32 l = 0;
    for (u32 i = n->w; i-- > 0;) { if ((n->v >> i) & 1) break; l++; }
    return l;
  }
  case ZEXT: return n->w - n->k[0]->w + (d < 6 ? leadZeros(n->k[0], d + 1) : 0);
  case AND: if (d < 6) { u32 a = leadZeros(n->k[0], d + 1), b = leadZeros(n->k[1], d + 1); return a > b ? a : b; } return 0;
  case OR: case XOR: if (d < 6) { u32 a = leadZeros(n->k[0], d + 1), b = leadZeros(n->k[1], d + 1); return a < b ? a : b; } return 0;
  case ITE: if (d < 6) { u32 a = leadZeros(n->k[1], d + 1), b = leadZeros(n->k[2], d + 1); return a < b ? a : b; } return 0;
  case LSHR: if (isC(n->k[1]) && d < 6) { u32 s = n->k[1]->v > n->w ? n->w : (u32)n->k[1]->v; u32 r = s + leadZeros(n->k[0], d + 1); return r > n->w ? n->w : r; } return 0;
  case UREM: case UDIV: if (d < 6) return leadZeros(n->op == UREM ? n->k[1] : n->k[0], d + 1); return 0;
  case CONCAT: if (isCv(n->k[0], 0)) return n->k[0]->w + (d < 6 ? leadZeros(n->k[1], d + 1) : 0); return d < 6 && n->k[0]->w <= 128 ? 0 : 0;
  default: return 0;
  }
}

Node *eBin(Op op, Node *a, Node *b) {
  u32 w = a->w;
  if (a->w != b->w) die("eBin width mismatch op=" + std::to_string(op) + " " + std::to_string(a->w) + " vs " + std::to_string(b->w));
  u32 rw = isCmp(op) ? 1 : w;
  if (isC(a) && isC(b)) return eConst(foldBin(op, a->v, b->v, w), rw);
  if (w > 128 && rw == 1 && !a->hasvar && !b->hasvar && (op == EQ || op == ULT || op == ULE)) {
    Model none;
    return eConst(evalNode(EX.mk(op, 1, a, b), none, ~(u64)0), 1);
  }
  if (commut(op)) {
    if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
  }
  switch (op) {
  case ADD:
    if (isCv(b, 0)) return a;
    if (w == 1) return eBin(XOR, a, b);
    if (isC(b) && a->op == ADD && isC(a->k[1])) return eBin(ADD, a->k[0], eConst(a->k[1]->v + b->v, w));
    if (isC(b) && a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return eIte(a->k[0], eBin(ADD, a->k[1], b), eBin(ADD, a->k[2], b));
    break;
  case SUB:
    if (a == b) return eConst(0, w);
    if (w == 1) return eBin(XOR, a, b);
    if (isC(b)) return eBin(ADD, a, eConst((u128)0 - b->v, w));
    if (a->op == ADD && a->k[0] == b) return a->k[1];
    if (a->op == ADD && a->k[1] == b) return a->k[0];
    if (a->op == ADD && isC(a->k[1]) && b->op == ADD && isC(b->k[1])) return eBin(ADD, eBin(SUB, a->k[0], b->k[0]), eConst(a->k[1]->v - b->v*0 - b->k[1]->v, w));
    break;
  case MUL:
    if (isCv(b, 0)) return b;
    if (isCv(b, 1)) return a;
    if (w == 1) return eBin(AND, a, b);
    if (isC(b) && w <= 128 && (b->v & (b->v - 1)) == 0) {
      u32 s = 0; while (!((b->v >> s) & 1)) s++;
      return eBin(SHL, a, eConst(s, w));
    }
    break;
  case UDIV:
    if (isCv(b, 1)) return a;
    if (isC(b) && b->v && (b->v & (b->v - 1)) == 0) {
      u32 s = 0; while (!((b->v >> s) & 1)) s++;
      return eBin(LSHR, a, eConst(s, w));
    }
    break;
  case UREM:
    if (isCv(b, 1)) return eConst(0, w);
    if (isC(b) && b->v && (b->v & (b->v - 1)) == 0) return eBin(AND, a, eConst(b->v - 1, w));
    break;
  case AND:
    if (a == b) return a;
    if (isCv(b, 0)) return b;
    if (isOnes(b)) return a;
    if (isC(b) && a->op == AND && isC(a->k[1])) return eBin(AND, a->k[0], eConst(a->k[1]->v & b->v, w));
    if (w == 1) {
      if (eNot1(a) == b) return eFalse();
    }
    if (isC(b) && w <= 128 && w > 1) {
      // low mask -> zext(extract)
      u128 m = b->v;
      if ((m & (m + 1)) == 0) {
        u32 n = 0; while (n < w && ((m >> n) & 1)) n++;
        if (n < w) return eZext(eExtract(a, 0, n), w);
      }
      // contiguous mask shifted
      u32 lo = 0; while (!((m >> lo) & 1)) lo++;
      u128 mm = m >> lo;
      if ((mm & (mm + 1)) == 0) {
        u32 n = 0; while (lo + n < w && ((mm >> n) & 1)) n++;
        Node *x = eExtract(a, lo, n);
        x = eConcat(x, eConst(0, lo));
        return x->w < w ? eZext(x, w) : x;
      }
    }
    break;
  case OR:
    if (a == b) return a;
    if (isCv(b, 0)) return a;
    if (isOnes(b)) return b;
    if (isC(b) && a->op == OR && isC(a->k[1])) return eBin(OR, a->k[0], eConst(a->k[1]->v | b->v, w));
    if (w == 1) {
      if (eNot1(a) == b) return eTrue();
    } else if (!isC(b) && w <= 128) {
      // disjoint or: zext(lo) | concat(hi, 0)
      for (int sw = 0; sw < 2; sw++) {
        Node *x = sw ? b : a, *y = sw ? a : b; // x low part, y has low zeros
        if (y->op == CONCAT && isCv(y->k[1], 0)) {
          u32 lz = leadZeros(x);
          u32 lowN = y->k[1]->w;
          if (w - lz <= lowN) return eConcat(y->k[0], eExtract(x, 0, lowN));
        }
        if (y->op == ZEXT && y->k[0]->op == CONCAT && isCv(y->k[0]->k[1], 0)) {
          u32 lz = leadZeros(x);
          u32 lowN = y->k[0]->k[1]->w;
          if (w - lz <= lowN) return eZext(eConcat(y->k[0]->k[0], eExtract(x, 0, lowN)), w);
        }
      }
    }
    break;
  case XOR:
    if (a == b) return eConst(0, w);
    if (isCv(b, 0)) return a;
    if (w == 1 && isCv(b, 1)) return eNot1(a);
    if (isC(b) && a->op == XOR && isC(a->k[1])) return eBin(XOR, a->k[0], eConst(a->k[1]->v ^ b->v, w));
    break;
  case SHL:
    if (isC(b)) {
      if (b->v == 0) return a;
      if (b->v >= w) return eConst(0, w);
      u32 s = (u32)b->v;
      return eConcat(eExtract(a, 0, w - s), eConst(0, s));
    }
    if (isCv(a, 0)) return a;
    break;
  case LSHR:
    if (isC(b)) {
      if (b->v == 0) return a;
      if (b->v >= w) return eConst(0, w);
      u32 s = (u32)b->v;
      return eZext(eExtract(a, s, w - s), w);
    }
    if (isCv(a, 0)) return a;
    break;
  case ASHR:
    if (isC(b)) {
      if (b->v == 0) return a;
      u32 s = b->v >= w ? w - 1 : (u32)b->v;
      return eSext(eExtract(a, s, w - s), w);
    }
    break;
  case EQ: {
    if (a == b) return eTrue();
    if (w == 1) {
      if (isC(b)) return b->v ? a : eNot1(a);
    }
    if (isC(b)) {
      if (a->op == ZEXT) {
        u32 iw = a->k[0]->w;
        if (iw < 128 && (b->v >> iw)) return eFalse();
        return eEq(a->k[0], eConst(b->v, iw));
      }
      if (a->op == SEXT) {
        u32 iw = a->k[0]->w;
        u128 t = b->v & maskw(iw);
        if (((u128)sext128(t, iw) & maskw(w)) != b->v) return eFalse();
        return eEq(a->k[0], eConst(t, iw));
      }
      if (a->op == ADD && isC(a->k[1])) return eEq(a->k[0], eConst(b->v - a->k[1]->v, w));
      if (a->op == XOR && isC(a->k[1])) return eEq(a->k[0], eConst(b->v ^ a->k[1]->v, w));
      if (a->op == CONCAT && w <= 128) {
        Node *h = a->k[0], *l = a->k[1];
        return eAnd1(eEq(h, eConst(b->v >> l->w, h->w)), eEq(l, eConst(b->v, l->w)));
      }
      if (a->op == ITE) {
        bool c1 = isC(a->k[1]), c2 = isC(a->k[2]);
        if (c1 && c2) {
          bool e1 = a->k[1]->v == b->v, e2 = a->k[2]->v == b->v;
          if (e1 && e2) return eTrue();
          if (e1) return a->k[0];
          if (e2) return eNot1(a->k[0]);
          return eFalse();
        }
        if (c1) {
          if (a->k[1]->v == b->v) return eOr1(a->k[0], eEq(a->k[2], b));
          return eAnd1(eNot1(a->k[0]), eEq(a->k[2], b));
        }
        if (c2) {
          if (a->k[2]->v == b->v) return eOr1(eNot1(a->k[0]), eEq(a->k[1], b));
          return eAnd1(a->k[0], eEq(a->k[1], b));
        }
      }
      if (w > 1 && w <= 128) {
        u32 lz = leadZeros(a);
        if (lz > 0) {
          if (lz >= w) return b->v == 0 ? eTrue() : eFalse();
          if (b->v >> (w - lz)) return eFalse();
        }
      }
    } else {
      if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return eEq(a->k[0], b->k[0]);
      if (a->op == CONCAT && b->op == CONCAT && a->k[1]->w == b->k[1]->w)
        return eAnd1(eEq(a->k[0], b->k[0]), eEq(a->k[1], b->k[1]));
      if (a->op == ADD && b->op == ADD && isC(a->k[1]) && isC(b->k[1])) {
        if (a->k[0] == b->k[0]) return a->k[1]->v == b->k[1]->v ? eTrue() : eFalse();
      }
      if (a->op == ADD && isC(a->k[1]) && a->k[0] == b) return eFalse();
      if (b->op == ADD && isC(b->k[1]) && b->k[0] == a) return eFalse();
    }
    break;
  }
  case ULT:
    if (a == b) return eFalse();
    if (isCv(b, 0)) return eFalse();
    if (isCv(b, 1)) return eEq(a, eConst(0, w));
    if (isOnes(a)) return eFalse();
    if (isCv(a, 0)) return eNot1(eEq(b, a));
    if (w == 1) return eAnd1(eNot1(a), b);
    if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return eBin(ULT, a->k[0], b->k[0]);
    if (a->op == ZEXT && isC(b)) {
      u32 iw = a->k[0]->w;
      if (b->v > maskw(iw)) return eTrue();
      return eBin(ULT, a->k[0], eConst(b->v, iw));
    }
    if (b->op == ZEXT && isC(a)) {
      u32 iw = b->k[0]->w;
      if (a->v >= maskw(iw)) return eFalse();
      return eBin(ULT, eConst(a->v, iw), b->k[0]);
    }
    break;
  case ULE:
    if (a == b) return eTrue();
    if (isCv(a, 0)) return eTrue();
    if (isOnes(b)) return eTrue();
    if (isCv(b, 0)) return eEq(a, b);
    if (w == 1) return eOr1(eNot1(a), b);
    if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return eBin(ULE, a->k[0], b->k[0]);
    if (a->op == ZEXT && isC(b)) {
      u32 iw = a->k[0]->w;
      if (b->v >= maskw(iw)) return eTrue();
      return eBin(ULE, a->k[0], eConst(b->v, iw));
    }
    if (b->op == ZEXT && isC(a)) {
      u32 iw = b->k[0]->w;
      if (a->v > maskw(iw)) return eFalse();
      return eBin(ULE, eConst(a->v, iw), b->k[0]);
    }
    break;
  case SLT:
    if (a == b) return eFalse();
    if (a->op == ZEXT && b->op == ZEXT) return eBin(ULT, a, b);
    if (a->op == ZEXT && isC(b)) return sext128(b->v, w) <= 0 ? eFalse() : eBin(ULT, a, b);
    if (b->op == ZEXT && isC(a)) return sext128(a->v, w) < 0 ? eTrue() : eBin(ULT, a, b);
    break;
  case SLE:
    if (a == b) return eTrue();
    if (a->op == ZEXT && b->op == ZEXT) return eBin(ULE, a, b);
    if (a->op == ZEXT && isC(b)) return sext128(b->v, w) < 0 ? eFalse() : eBin(ULE, a, b);
    if (b->op == ZEXT && isC(a)) return sext128(a->v, w) <= 0 ? eTrue() : eBin(ULE, a, b);
    break;
  default: break;
  }
  // push binary ops with a constant into ites of constants
  if (isC(b) && a->op == ITE && isC(a->k[1]) && isC(a->k[2]))
    return eIte(a->k[0], eBin(op, a->k[1], b), eBin(op, a->k[2], b));
  if (isC(a) && b->op == ITE && isC(b->k[1]) && isC(b->k[2]))
    return eIte(b->k[0], eBin(op, a, b->k[1]), eBin(op, a, b->k[2]));
  return EX.mk(op, rw, a, b);
}

Node *eIte(Node *c, Node *a, Node *b) {
  if (isC(c)) return c->v ? a : b;
  if (a == b) return a;
  if (a->w != b->w) die("eIte width");
  if (c->op == XOR && c->w == 1 && isCv(c->k[1], 1)) return eIte(c->k[0], b, a);
  if (a->w == 1) {
    if (isCv(a, 1) && isCv(b, 0)) return c;
    if (isCv(a, 0) && isCv(b, 1)) return eNot1(c);
    if (isCv(a, 1)) return eOr1(c, b);
    if (isCv(a, 0)) return eAnd1(eNot1(c), b);
    if (isCv(b, 0)) return eAnd1(c, a);
    if (isCv(b, 1)) return eOr1(eNot1(c), a);
  }
  if (b->op == ITE && b->k[0] == c) b = b->k[2];
  if (a->op == ITE && a->k[0] == c) a = a->k[1];
  if (a == b) return a;
  // ite(c1, x, ite(c2, x, y)) -> ite(c1|c2, x, y)
  if (b->op == ITE && b->k[1] == a) return eIte(eOr1(c, b->k[0]), a, b->k[2]);
  return EX.mk(ITE, a->w, c, a, b);
}

Node *eExtract(Node *n, u32 lo, u32 w) {
  if (lo == 0 && w == n->w) return n;
  if (lo + w > n->w) die("eExtract range");
  switch (n->op) {
  case CONST: return eConst(n->v >> lo, w);
  case EXTRACT: return eExtract(n->k[0], n->aux + lo, w);
  case CONCAT: {
    u32 lw = n->k[1]->w;
    if (lo + w <= lw) return eExtract(n->k[1], lo, w);
    if (lo >= lw) return eExtract(n->k[0], lo - lw, w);
    return eConcat(eExtract(n->k[0], 0, lo + w - lw), eExtract(n->k[1], lo, lw - lo));
  }
  case ZEXT: {
    u32 iw = n->k[0]->w;
    if (lo >= iw) return eConst(0, w);
    if (lo + w <= iw) return eExtract(n->k[0], lo, w);
    return eZext(eExtract(n->k[0], lo, iw - lo), w);
  }
  case SEXT: {
    u32 iw = n->k[0]->w;
    if (lo + w <= iw) return eExtract(n->k[0], lo, w);
    if (lo == 0) return eSext(n->k[0], w);
    if (lo < iw) return eSext(eExtract(n->k[0], lo, iw - lo), w);
    break;
  }
  case ITE:
    if (isC(n->k[1]) || isC(n->k[2])) return eIte(n->k[0], eExtract(n->k[1], lo, w), eExtract(n->k[2], lo, w));
    break;
  case AND: case OR: case XOR:
    if (isC(n->k[1]) || w <= 8) return eBin(n->op, eExtract(n->k[0], lo, w), eExtract(n->k[1], lo, w));
    break;
  case ADD: case SUB: case MUL:
    if (lo == 0) return eBin(n->op, eExtract(n->k[0], 0, w), eExtract(n->k[1], 0, w));
    break;
  default: break;
  }
  if (n->w > 128 && !n->hasvar && w <= 128) {
    Model none;
    std::vector<u8> bits;
    wideEval(n, none, ~(u64)0, bits);
    u128 v = 0;
    for (u32 i = 0; i < w; i++) v |= (u128)bits[lo + i] << i;
    return eConst(v, w);
  }
  return EX.mk(EXTRACT, w, n, nullptr, nullptr, lo);
}

Node *eConcat(Node *hi, Node *lo) {
  u32 w = hi->w + lo->w;
  if (isC(hi) && isC(lo) && w <= 128) return eConst((hi->v << lo->w) | lo->v, w);
  if (hi->op == EXTRACT && lo->op == EXTRACT && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->w)
    return eExtract(hi->k[0], lo->aux, w);
  if (isCv(hi, 0)) return eZext(lo, w);
  // hi: extract of x above lo, where lo == extract/whole low part of the same x
  if (hi->op == EXTRACT && hi->k[0] == lo && false) return nullptr;
  if (hi->op == SEXT && false) return nullptr;
  if (hi->op == ZEXT) return eZext(eConcat(hi->k[0], lo), w);
  // right-assoc: concat(a, concat(b,c)) where a,b adjacent extracts
  if (lo->op == CONCAT && lo->k[0]->op == EXTRACT && hi->op == EXTRACT && hi->k[0] == lo->k[0]->k[0] && hi->aux == lo->k[0]->aux + lo->k[0]->w)
    return eConcat(eExtract(hi->k[0], lo->k[0]->aux, hi->w + lo->k[0]->w), lo->k[1]);
  if (lo->op == CONCAT && isC(hi) && isC(lo->k[0]) && hi->w + lo->k[0]->w <= 128)
    return eConcat(eConcat(hi, lo->k[0]), lo->k[1]);
  // sign pieces: concat(extract(sext x)) handled by extract rules
  // ite(c,..) both same condition with constants
  if (hi->op == ITE && lo->op == ITE && hi->k[0] == lo->k[0]) {
    return eIte(hi->k[0], eConcat(hi->k[1], lo->k[1]), eConcat(hi->k[2], lo->k[2]));
  }
  return EX.mk(CONCAT, w, hi, lo);
}

Node *eZext(Node *n, u32 w) {
  if (w == n->w) return n;
  if (w < n->w) die("eZext");
  if (isC(n) && w <= 128) return eConst(n->v, w);
  if (n->op == ZEXT) return eZext(n->k[0], w);
  if (n->op == ITE && isC(n->k[1]) && isC(n->k[2]) && w <= 128)
    return eIte(n->k[0], eZext(n->k[1], w), eZext(n->k[2], w));
  return EX.mk(ZEXT, w, n);
}
Node *eSext(Node *n, u32 w) {
  if (w == n->w) return n;
  if (isC(n) && w <= 128) return eConst((u128)sext128(n->v, n->w), w);
  if (n->op == SEXT) return eSext(n->k[0], w);
  if (n->op == ZEXT) return eZext(n->k[0], w);
  if (n->w == 1 && w <= 128) return eIte(n, eConst(maskw(w), w), eConst(0, w));
  if (n->op == ITE && isC(n->k[1]) && isC(n->k[2]) && w <= 128)
    return eIte(n->k[0], eSext(n->k[1], w), eSext(n->k[2], w));
  return EX.mk(SEXT, w, n);
}

bool evalFcmp(u32 pred, u64 a, u64 b, u32 w) {
  double x, y;
  if (w == 32) {
    float fx, fy; u32 ua = (u32)a, ub = (u32)b;
    memcpy(&fx, &ua, 4); memcpy(&fy, &ub, 4); x = fx; y = fy;
  } else { memcpy(&x, &a, 8); memcpy(&y, &b, 8); }
  bool uno = std::isnan(x) || std::isnan(y);
  bool eq = x == y, lt = x < y, gt = x > y;
  // predicate bits: 1=eq 2=gt 4=lt 8=unordered
  return ((pred & 1) && eq) || ((pred & 2) && gt) || ((pred & 4) && lt) || ((pred & 8) && uno);
}
Node *eFcmp(u32 pred, Node *a, Node *b) {
  if (isC(a) && isC(b)) return eConst(evalFcmp(pred, (u64)a->v, (u64)b->v, a->w), 1);
  return EX.mk(FCMP, 1, a, b, nullptr, pred);
}

// ---- evaluation ---------------------------------------------------------
u128 evalNode(Node *n, const Model &m, u64 epoch) {
  if (n->op == CONST) return n->v;
  if (n->epoch == epoch) return n->ev;
  u128 r = 0;
  switch (n->op) {
  case VAR: r = n->aux < m.val.size() ? m.val[n->aux] & maskw(n->w) : 0; break;
  case ITE: r = evalNode(n->k[0], m, epoch) ? evalNode(n->k[1], m, epoch) : evalNode(n->k[2], m, epoch); break;
  case CONCAT: {
    if (n->w > 128) r = evalNode(n->k[1], m, epoch); // low part only; see wideEval
    else r = (evalNode(n->k[0], m, epoch) << n->k[1]->w) | evalNode(n->k[1], m, epoch);
    break;
  }
  case EXTRACT: {
    if (n->k[0]->w > 128) {
      std::vector<u8> bits;
      wideEval(n->k[0], m, epoch, bits);
      for (u32 i = 0; i < n->w; i++) r |= (u128)bits[n->aux + i] << i;
    } else r = (evalNode(n->k[0], m, epoch) >> n->aux) & maskw(n->w);
    break;
  }
  case ZEXT: r = evalNode(n->k[0], m, epoch); break;
  case SEXT: r = (u128)sext128(evalNode(n->k[0], m, epoch), n->k[0]->w) & maskw(n->w); break;
  case FCMP: r = evalFcmp(n->aux, (u64)evalNode(n->k[0], m, epoch), (u64)evalNode(n->k[1], m, epoch), n->k[0]->w); break;
  default:
    if (n->k[0]->w > 128) {
      std::vector<u8> x, y;
      wideEval(n->k[0], m, epoch, x); wideEval(n->k[1], m, epoch, y);
      if (n->op == EQ) r = x == y;
      else if (n->op == ULT || n->op == ULE) {
        r = n->op == ULE;
        for (size_t i = x.size(); i-- > 0;) if (x[i] != y[i]) { r = x[i] < y[i]; break; }
      } else die("wide op eval");
    } else r = foldBin(n->op, evalNode(n->k[0], m, epoch), evalNode(n->k[1], m, epoch), n->k[0]->w);
  }
  n->epoch = epoch;
  n->ev = r;
  return r;
}
void wideEval(Node *n, const Model &m, u64 epoch, std::vector<u8> &bits) {
  bits.assign(n->w, 0);
  if (n->w <= 128) {
    u128 v = evalNode(n, m, epoch);
    for (u32 i = 0; i < n->w; i++) bits[i] = (u8)((v >> i) & 1);
    return;
  }
  std::vector<u8> a, b;
  switch (n->op) {
  case CONCAT:
    wideEval(n->k[0], m, epoch, a); wideEval(n->k[1], m, epoch, b);
    for (size_t i = 0; i < b.size(); i++) bits[i] = b[i];
    for (size_t i = 0; i < a.size(); i++) bits[b.size() + i] = a[i];
    return;
  case ZEXT: case SEXT:
    wideEval(n->k[0], m, epoch, a);
    for (u32 i = 0; i < n->w; i++) bits[i] = i < a.size() ? a[i] : (n->op == SEXT ? a.back() : 0);
    return;
  case EXTRACT:
    wideEval(n->k[0], m, epoch, a);
    for (u32 i = 0; i < n->w; i++) bits[i] = a[n->aux + i];
    return;
  case ITE:
    wideEval(evalNode(n->k[0], m, epoch) ? n->k[1] : n->k[2], m, epoch, bits);
    return;
  case AND: case OR: case XOR:
    wideEval(n->k[0], m, epoch, a); wideEval(n->k[1], m, epoch, b);
    for (u32 i = 0; i < n->w; i++) bits[i] = n->op == AND ? a[i] & b[i] : n->op == OR ? a[i] | b[i] : a[i] ^ b[i];
    return;
  case ADD: case SUB: {
    wideEval(n->k[0], m, epoch, a); wideEval(n->k[1], m, epoch, b);
    u32 c = n->op == SUB;
    for (u32 i = 0; i < n->w; i++) {
      u32 t = a[i] + (n->op == SUB ? !b[i] : b[i]) + c;
      bits[i] = t & 1; c = t >> 1;
    }
    return;
  }
  case MUL:
    wideEval(n->k[0], m, epoch, a); wideEval(n->k[1], m, epoch, b);
    for (u32 j = 0; j < n->w; j++) {
      if (!b[j]) continue;
      u32 c = 0;
      for (u32 i = j; i < n->w; i++) { u32 t = bits[i] + a[i - j] + c; bits[i] = t & 1; c = t >> 1; }
    }
    return;
  case SHL: case LSHR: case ASHR: {
    wideEval(n->k[0], m, epoch, a); wideEval(n->k[1], m, epoch, b);
    u64 k = 0;
    for (u32 i = 0; i < b.size(); i++) if (b[i]) k = i >= 32 ? n->w : k | (1ull << i);
    if (k > n->w) k = n->w;
    u8 fill = n->op == ASHR ? a[n->w - 1] : 0;
    for (u32 i = 0; i < n->w; i++)
      if (n->op == SHL) bits[i] = i >= k ? a[i - k] : 0;
      else bits[i] = i + k < n->w ? a[i + k] : fill;
    return;
  }
  default: die("wideEval op");
  }
}

// ---- printing -----------------------------------------------------------
std::string showNode(Node *n, int d) {
  static const char *nm[] = {"const", "var", "+", "-", "*", "/u", "/s", "%u", "%s", "&", "|", "^", "<<", ">>", ">>a", "=", "<u", "<=u", "<s", "<=s", "ite", "concat", "extract", "zext", "sext", "fcmp"};
  if (isC(n)) return std::to_string((u64)n->v);
  if (n->op == VAR) return "v" + std::to_string(n->aux) + ":" + std::to_string(n->w);
  if (d == 0) return "..";
  std::string s = std::string("(") + nm[n->op];
  if (n->op == EXTRACT) s += "[" + std::to_string(n->aux) + "+" + std::to_string(n->w) + "]";
  if (n->op == ZEXT || n->op == SEXT) s += std::to_string(n->w);
  for (int i = 0; i < 3; i++) if (n->k[i]) s += " " + showNode(n->k[i], d - 1);
  return s + ")";
}

// ---- Z3 -----------------------------------------------------------------
// the context counts references and only the latest result is kept alive by it
static Z3_ast K(Z3_ast a) { Z3_inc_ref(Z, a); return a; }
static Z3_sort bvs(u32 w) { return Z3_mk_bv_sort(Z, w); }
static Z3_ast mkNum(u128 v, u32 w) {
  if (w <= 64) return Z3_mk_unsigned_int64(Z, (u64)v, bvs(w));
  Z3_ast hi = K(Z3_mk_unsigned_int64(Z, (u64)(v >> 64), bvs(w - 64)));
  Z3_ast lo = K(Z3_mk_unsigned_int64(Z, (u64)v, bvs(64)));
  return Z3_mk_concat(Z, hi, lo);
}
Z3_ast toBV(Node *n) {
  if (n->zbv) return n->zbv;
  Z3_ast r;
  switch (n->op) {
  case CONST: r = mkNum(n->v, n->w); break;
  case VAR: {
    std::string s = "v" + std::to_string(n->aux);
    r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, s.c_str()), bvs(n->w));
    break;
  }
  case ITE: r = Z3_mk_ite(Z, toBool(n->k[0]), toBV(n->k[1]), toBV(n->k[2])); break;
  case CONCAT: r = Z3_mk_concat(Z, toBV(n->k[0]), toBV(n->k[1])); break;
  case EXTRACT: r = Z3_mk_extract(Z, n->aux + n->w - 1, n->aux, toBV(n->k[0])); break;
  case ZEXT: r = Z3_mk_zero_ext(Z, n->w - n->k[0]->w, toBV(n->k[0])); break;
  case SEXT: r = Z3_mk_sign_ext(Z, n->w - n->k[0]->w, toBV(n->k[0])); break;
  case EQ: case ULT: case ULE: case SLT: case SLE: case FCMP:
    {
      static Z3_ast one = K(Z3_mk_unsigned_int64(Z, 1, bvs(1))), zero = K(Z3_mk_unsigned_int64(Z, 0, bvs(1)));
      r = Z3_mk_ite(Z, toBool(n), one, zero);
    }
    break;
  default: {
    Z3_ast a = toBV(n->k[0]), b = toBV(n->k[1]);
    switch (n->op) {
    case ADD: r = Z3_mk_bvadd(Z, a, b); break;
    case SUB: r = Z3_mk_bvsub(Z, a, b); break;
    case MUL: r = Z3_mk_bvmul(Z, a, b); break;
    case UDIV: r = Z3_mk_bvudiv(Z, a, b); break;
    case SDIV: r = Z3_mk_bvsdiv(Z, a, b); break;
    case UREM: r = Z3_mk_bvurem(Z, a, b); break;
    case SREM: r = Z3_mk_bvsrem(Z, a, b); break;
    case AND: r = Z3_mk_bvand(Z, a, b); break;
    case OR: r = Z3_mk_bvor(Z, a, b); break;
    case XOR: r = Z3_mk_bvxor(Z, a, b); break;
    case SHL: r = Z3_mk_bvshl(Z, a, b); break;
    case LSHR: r = Z3_mk_bvlshr(Z, a, b); break;
    case ASHR: r = Z3_mk_bvashr(Z, a, b); break;
    default: die("toBV");
    }
  }
  }
  Z3_inc_ref(Z, r);
  return n->zbv = r;
}
Z3_ast toBool(Node *n) {
  if (n->zbool) return n->zbool;
  if (n->w != 1) die("toBool width");
  Z3_ast r;
  switch (n->op) {
  case CONST: r = n->v ? Z3_mk_true(Z) : Z3_mk_false(Z); break;
  case EQ:
    if (n->k[0]->w == 1) r = Z3_mk_iff(Z, toBool(n->k[0]), toBool(n->k[1]));
    else r = Z3_mk_eq(Z, toBV(n->k[0]), toBV(n->k[1]));
    break;
  case ULT: r = Z3_mk_bvult(Z, toBV(n->k[0]), toBV(n->k[1])); break;
  case ULE: r = Z3_mk_bvule(Z, toBV(n->k[0]), toBV(n->k[1])); break;
  case SLT: r = Z3_mk_bvslt(Z, toBV(n->k[0]), toBV(n->k[1])); break;
  case SLE: r = Z3_mk_bvsle(Z, toBV(n->k[0]), toBV(n->k[1])); break;
  case FCMP: {
    Z3_sort fs = (Z3_sort)K((Z3_ast)(n->k[0]->w == 32 ? Z3_mk_fpa_sort_32(Z) : Z3_mk_fpa_sort_64(Z)));
    Z3_ast a = K(Z3_mk_fpa_to_fp_bv(Z, toBV(n->k[0]), fs)), b = K(Z3_mk_fpa_to_fp_bv(Z, toBV(n->k[1]), fs));
    std::vector<Z3_ast> ors;
    if (n->aux & 1) ors.push_back(K(Z3_mk_fpa_eq(Z, a, b)));
    if (n->aux & 2) ors.push_back(K(Z3_mk_fpa_gt(Z, a, b)));
    if (n->aux & 4) ors.push_back(K(Z3_mk_fpa_lt(Z, a, b)));
    if (n->aux & 8) { ors.push_back(K(Z3_mk_fpa_is_nan(Z, a))); ors.push_back(K(Z3_mk_fpa_is_nan(Z, b))); }
    r = ors.empty() ? Z3_mk_false(Z) : Z3_mk_or(Z, (unsigned)ors.size(), ors.data());
    break;
  }
  case AND: { Z3_ast k[2] = {toBool(n->k[0]), toBool(n->k[1])}; r = Z3_mk_and(Z, 2, k); break; }
  case OR: { Z3_ast k[2] = {toBool(n->k[0]), toBool(n->k[1])}; r = Z3_mk_or(Z, 2, k); break; }
  case XOR:
    if (isCv(n->k[1], 1)) r = Z3_mk_not(Z, toBool(n->k[0]));
    else r = Z3_mk_xor(Z, toBool(n->k[0]), toBool(n->k[1]));
    break;
  case ITE: r = Z3_mk_ite(Z, toBool(n->k[0]), toBool(n->k[1]), toBool(n->k[2])); break;
  default: r = Z3_mk_eq(Z, toBV(n), Z3_mk_unsigned_int64(Z, 1, bvs(1))); break;
  }
  Z3_inc_ref(Z, r);
  return n->zbool = r;
}
