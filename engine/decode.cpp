// LLVM module -> engine program.
#include "engine.hpp"

LLVMModuleRef M;
LLVMTargetDataRef TD;
std::unordered_map<LLVMValueRef, Func *> funcOf;
std::unordered_map<u64, Func *> funcAt;
std::unordered_map<LLVMValueRef, u64> globalAddr;
std::unordered_map<u32, LLVMValueRef> globalSlot;
static std::unordered_map<LLVMTypeRef, TyInfo *> tyCache;
u32 numGlobalSlots = 0;

static void flatten(LLVMTypeRef t, u64 off, TyInfo *ti) {
  switch (LLVMGetTypeKind(t)) {
  case LLVMIntegerTypeKind: ti->leaves.push_back({LLVMGetIntTypeWidth(t), off, false, false}); break;
  case LLVMPointerTypeKind: ti->leaves.push_back({64, off, false, true}); break;
  case LLVMFloatTypeKind: ti->leaves.push_back({32, off, true, false}); break;
  case LLVMDoubleTypeKind: ti->leaves.push_back({64, off, true, false}); break;
  case LLVMHalfTypeKind: ti->leaves.push_back({16, off, true, false}); break;
  case LLVMStructTypeKind: {
    unsigned n = LLVMCountStructElementTypes(t);
    for (unsigned i = 0; i < n; i++) flatten(LLVMStructGetTypeAtIndex(t, i), off + LLVMOffsetOfElement(TD, t, i), ti);
    break;
  }
  case LLVMArrayTypeKind: {
    LLVMTypeRef e = LLVMGetElementType(t);
    u64 es = LLVMABISizeOfType(TD, e);
    u64 n = LLVMGetArrayLength2(t);
    if (n > 4096) die("flatten: huge array value");
    for (u64 i = 0; i < n; i++) flatten(e, off + i * es, ti);
    break;
  }
  case LLVMVectorTypeKind: {
    LLVMTypeRef e = LLVMGetElementType(t);
    unsigned n = LLVMGetVectorSize(t);
    u32 bits = LLVMGetTypeKind(e) == LLVMIntegerTypeKind ? LLVMGetIntTypeWidth(e) : (u32)LLVMSizeOfTypeInBits(TD, e);
    if (bits % 8) ti->bitpacked = true;
    for (unsigned i = 0; i < n; i++) flatten(e, off + (u64)i * bits / 8, ti);
    break;
  }
  case LLVMVoidTypeKind: break;
  default: {
    char *s = LLVMPrintTypeToString(t);
    die(std::string("flatten: type ") + s);
  }
  }
}
TyInfo *tyInfo(LLVMTypeRef t) {
  auto it = tyCache.find(t);
  if (it != tyCache.end()) return it->second;
  TyInfo *ti = new TyInfo();
  LLVMTypeKind k = LLVMGetTypeKind(t);
  if (k != LLVMVoidTypeKind && k != LLVMLabelTypeKind && k != LLVMMetadataTypeKind && k != LLVMTokenTypeKind) {
    flatten(t, 0, ti);
    ti->store = LLVMStoreSizeOfType(TD, t);
    ti->alloc = LLVMABISizeOfType(TD, t);
    ti->align = LLVMABIAlignmentOfType(TD, t);
  }
  return tyCache[t] = ti;
}

static u128 constIntVal(LLVMValueRef c) {
  u32 w = LLVMGetIntTypeWidth(LLVMTypeOf(c));
  if (w <= 64) return (u128)LLVMConstIntGetZExtValue(c) & maskw(w);
  char *s = LLVMPrintValueToString(c);
  std::string t(s);
  LLVMDisposeMessage(s);
  size_t sp = t.rfind(' ');
  t = t.substr(sp + 1);
  bool neg = t[0] == '-';
  u128 v = 0;
  for (char ch : t) if (ch >= '0' && ch <= '9') v = v * 10 + (ch - '0');
  if (neg) v = (u128)0 - v;
  return v & maskw(w);
}

static V vConst(u128 v, u32 w) { return w <= 64 ? cv((u64)v) : V{0, eConst(v, w)}; }

static void constLeaves(LLVMValueRef c, std::vector<V> &out);
static i128 gepConst(LLVMValueRef c) {
  // constant expression GEP offset
  LLVMTypeRef t = LLVMGetGEPSourceElementType(c);
  i128 off = 0;
  int n = LLVMGetNumOperands(c);
  for (int i = 1; i < n; i++) {
    std::vector<V> iv;
    LLVMValueRef op = LLVMGetOperand(c, i);
    constLeaves(op, iv);
    u32 w = LLVMGetIntTypeWidth(LLVMTypeOf(op));
    i128 idx = sext128(iv[0].c, w);
    if (i == 1) off += idx * (i128)LLVMABISizeOfType(TD, t);
    else {
      LLVMTypeKind k = LLVMGetTypeKind(t);
      if (k == LLVMStructTypeKind) {
        off += LLVMOffsetOfElement(TD, t, (unsigned)idx);
        t = LLVMStructGetTypeAtIndex(t, (unsigned)idx);
      } else {
        t = LLVMGetElementType(t);
        off += idx * (i128)LLVMABISizeOfType(TD, t);
      }
    }
  }
  return off;
}
static void constLeaves(LLVMValueRef c, std::vector<V> &out) {
  LLVMTypeRef t = LLVMTypeOf(c);
  if (LLVMIsAConstantInt(c) && LLVMGetTypeKind(t) == LLVMIntegerTypeKind) {
    u32 w = LLVMGetIntTypeWidth(t);
    out.push_back(vConst(constIntVal(c), w));
    return;
  }
  if (LLVMIsAFunction(c)) { out.push_back(cv(funcOf.at(c)->addr)); return; }
  if (LLVMIsAGlobalVariable(c)) { out.push_back(cv(globalAddr.at(c))); return; }
  if (LLVMIsAGlobalAlias(c)) { constLeaves(LLVMAliasGetAliasee(c), out); return; }
  if (LLVMIsUndef(c) || LLVMIsPoison(c) || LLVMIsNull(c)) {
    for (auto &l : tyInfo(t)->leaves) out.push_back(vConst(0, l.w));
    return;
  }
  LLVMTypeKind k = LLVMGetTypeKind(t);
  if (LLVMIsAConstantFP(c) && (k == LLVMDoubleTypeKind || k == LLVMFloatTypeKind)) {
    LLVMBool lossy;
    double d = LLVMConstRealGetDouble(c, &lossy);
    if (k == LLVMDoubleTypeKind) {
      u64 u; memcpy(&u, &d, 8); out.push_back(cv(u));
    } else {
      float f = (float)d; u32 u; memcpy(&u, &f, 4); out.push_back(cv(u));
    }
    return;
  }
  if (k == LLVMStructTypeKind || k == LLVMArrayTypeKind || k == LLVMVectorTypeKind) {
    unsigned n = k == LLVMStructTypeKind ? LLVMCountStructElementTypes(t) : k == LLVMArrayTypeKind ? (unsigned)LLVMGetArrayLength2(t) : LLVMGetVectorSize(t);
    for (unsigned i = 0; i < n; i++) {
      LLVMValueRef e = LLVMGetAggregateElement(c, i);
      if (!e) { char *s = LLVMPrintValueToString(c); die(std::string("aggregate const: ") + s); }
      constLeaves(e, out);
    }
    return;
  }
  if (LLVMIsAConstantExpr(c)) {
    LLVMOpcode op = LLVMGetConstOpcode(c);
    u32 w = tyInfo(t)->leaves[0].w;
    std::vector<V> a, b;
    constLeaves(LLVMGetOperand(c, 0), a);
    switch ((int)op) {
    case LLVMGetElementPtr: out.push_back(cv(a[0].c + (u64)gepConst(c))); return;
    case LLVMPtrToInt: case LLVMIntToPtr: case LLVMBitCast: case LLVMTrunc: case LLVMAddrSpaceCast: case LLVMZExt:
      out.push_back(w <= 64 ? cv(a[0].c & (u64)maskw(w)) : vConst(a[0].n ? a[0].n->v : a[0].c, w));
      return;
    case LLVMAdd: constLeaves(LLVMGetOperand(c, 1), b); out.push_back(cv((a[0].c + b[0].c) & (u64)maskw(w))); return;
    case LLVMSub: constLeaves(LLVMGetOperand(c, 1), b); out.push_back(cv((a[0].c - b[0].c) & (u64)maskw(w))); return;
    case LLVMXor: constLeaves(LLVMGetOperand(c, 1), b); out.push_back(cv((a[0].c ^ b[0].c) & (u64)maskw(w))); return;
    default: if (LLVMGetNumOperands(c) == 1) { out.push_back(cv(a[0].c & (u64)maskw(w > 64 ? 64 : w))); return; } // ptrtoaddr
    }
  }
  char *s = LLVMPrintValueToString(c);
  die(std::string("constant: ") + s);
}

u64 initBase;
std::unordered_map<u64, u64> relTargets;
void writeInit(u8 *data, u64 off, LLVMValueRef c) {
  LLVMTypeRef t = LLVMTypeOf(c);
  if (LLVMIsUndef(c) || LLVMIsNull(c)) return;
  LLVMTypeKind k = LLVMGetTypeKind(t);
  if (LLVMIsAConstantDataSequential(c)) {
    size_t len;
    LLVMTypeRef e = LLVMGetElementType(t);
    if (k == LLVMArrayTypeKind && LLVMGetTypeKind(e) == LLVMIntegerTypeKind) {
      const char *raw = LLVMGetRawDataValues(c, &len);
      memcpy(data + off, raw, len);
      return;
    }
  }
  if (k == LLVMStructTypeKind) {
    unsigned n = LLVMCountStructElementTypes(t);
    for (unsigned i = 0; i < n; i++) writeInit(data, off + LLVMOffsetOfElement(TD, t, i), LLVMGetAggregateElement(c, i));
    return;
  }
  if (k == LLVMArrayTypeKind) {
    u64 n = LLVMGetArrayLength2(t);
    u64 es = LLVMABISizeOfType(TD, LLVMGetElementType(t));
    for (u64 i = 0; i < n; i++) writeInit(data, off + i * es, LLVMGetAggregateElement(c, (unsigned)i));
    return;
  }
  std::vector<V> vs;
  constLeaves(c, vs);
  // a distance between objects need not fit 32 bits here: remember it
  if (LLVMIsAConstantExpr(c) && LLVMGetConstOpcode(c) == LLVMTrunc) {
    std::vector<V> full;
    constLeaves(LLVMGetOperand(c, 0), full);
    relTargets[initBase + off] = full[0].c;
  }
  TyInfo *ti = tyInfo(t);
  for (size_t i = 0; i < vs.size(); i++) {
    u128 v = vs[i].n ? vs[i].n->v : vs[i].c;
    u32 nb = (ti->leaves[i].w + 7) / 8;
    memcpy(data + off + ti->leaves[i].off, &v, nb);
  }
}

static int intrId(const std::string &n);

void loadModule() {
  u32 slot = 1;
  auto addGlobal = [&](LLVMValueRef g) {
    LLVMTypeRef t = LLVMGlobalGetValueType(g);
    u64 sz = LLVMGetTypeKind(t) == LLVMFunctionTypeKind ? 8 : LLVMABISizeOfType(TD, t);
    globalAddr[g] = MEM_BASE + ((u64)slot << SLOT_BITS);
    globalSlot[slot] = g;
    slot += 1 + (u32)(sz >> SLOT_BITS);
  };
  for (LLVMValueRef g = LLVMGetFirstGlobal(M); g; g = LLVMGetNextGlobal(g)) addGlobal(g);
  numGlobalSlots = slot;
  u64 fa = 0x40000000;
  for (LLVMValueRef f = LLVMGetFirstFunction(M); f; f = LLVMGetNextFunction(f)) {
    Func *F = new Func();
    F->val = f;
    size_t len;
    const char *s = LLVMGetValueName2(f, &len);
    F->name = std::string(s, len);
    F->addr = fa;
    fa += 16;
    F->decl = LLVMIsDeclaration(f);
    F->intr = intrId(F->name);
    funcOf[f] = F;
    funcAt[F->addr] = F;
  }
}

// ---- names handled by the engine ----------------------------------------
static bool has(const std::string &s, const char *p) { return s.find(p) != std::string::npos; }
static bool starts(const std::string &s, const char *p) { return s.rfind(p, 0) == 0; }

static int intrId(const std::string &n) {
  if (starts(n, "llvm.")) {
    struct P { const char *p; int id; };
    static const P tab[] = {
        {"llvm.lifetime.", X_NOP}, {"llvm.assume", X_NOP}, {"llvm.dbg.", X_NOP}, {"llvm.experimental.noalias", X_NOP},
        {"llvm.invariant.", X_NOP}, {"llvm.prefetch", X_NOP}, {"llvm.x86.sse2.pause", X_NOP}, {"llvm.donothing", X_NOP},
        {"llvm.expect", X_ID}, {"llvm.memcpy.", X_MEMCPY}, {"llvm.memmove.", X_MEMMOVE}, {"llvm.memset.", X_MEMSET},
        {"llvm.umin.", X_UMIN}, {"llvm.umax.", X_UMAX}, {"llvm.smin.", X_SMIN}, {"llvm.smax.", X_SMAX}, {"llvm.abs.", X_ABS},
        {"llvm.ctpop.", X_CTPOP}, {"llvm.ctlz.", X_CTLZ}, {"llvm.cttz.", X_CTTZ}, {"llvm.bswap.", X_BSWAP}, {"llvm.bitreverse.", X_BITREV},
        {"llvm.fshl.", X_FSHL}, {"llvm.fshr.", X_FSHR},
        {"llvm.uadd.with.overflow", X_UADDO}, {"llvm.sadd.with.overflow", X_SADDO}, {"llvm.usub.with.overflow", X_USUBO},
        {"llvm.ssub.with.overflow", X_SSUBO}, {"llvm.umul.with.overflow", X_UMULO}, {"llvm.smul.with.overflow", X_SMULO},
        {"llvm.uadd.sat", X_UADDS}, {"llvm.usub.sat", X_USUBS}, {"llvm.sadd.sat", X_SADDS}, {"llvm.ssub.sat", X_SSUBS},
        {"llvm.is.constant", X_ZERO}, {"llvm.objectsize", X_ONES}, {"llvm.trap", X_TRAP}, {"llvm.ubsantrap", X_TRAP}, {"llvm.debugtrap", X_TRAP},
        {"llvm.vector.reduce.add", X_RADD}, {"llvm.vector.reduce.and", X_RAND}, {"llvm.vector.reduce.or", X_ROR}, {"llvm.vector.reduce.xor", X_RXOR},
        {"llvm.vector.reduce.mul", X_RMUL}, {"llvm.vector.reduce.umax", X_RUMAX}, {"llvm.vector.reduce.umin", X_RUMIN},
        {"llvm.vector.reduce.smax", X_RSMAX}, {"llvm.vector.reduce.smin", X_RSMIN},
        {"llvm.threadlocal.address", X_ID}, {"llvm.ptrmask", X_PTRMASK}, {"llvm.ucmp", X_UCMP}, {"llvm.scmp", X_SCMP},
        {"llvm.fabs", X_FABS}, {"llvm.load.relative", X_LOADREL}, {"llvm.launder", X_ID}, {"llvm.strip", X_ID},
        {"llvm.fptoui.sat", X_FPTOUISAT}, {"llvm.fptosi.sat", X_FPTOSISAT}, {"llvm.is.fpclass", X_FPCLASS}, {"llvm.copysign", X_COPYSIGN},
        {"llvm.floor", X_FLOOR}, {"llvm.ceil", X_CEIL}, {"llvm.trunc.", X_FTRUNC}, {"llvm.fma", X_FMA}, {"llvm.x86.sse2.pmovmskb", X_MOVMSK},
        {"llvm.x86.ssse3.pshuf.b", X_PSHUFB}, {"llvm.stacksave", X_ZERO}, {"llvm.stackrestore", X_NOP}, {"llvm.returnaddress", X_ZERO}, {"llvm.frameaddress", X_ZERO},
    };
    for (auto &p : tab) if (starts(n, p.p)) return p.id;
    return X_UNKNOWN;
  }
  if (starts(n, "rse_")) {
    if (n == "rse_sym") return H_SYM;
    if (n == "rse_assume") return H_ASSUME;
    if (n == "rse_check") return H_CHECK;
    if (n == "rse_cover") return H_COVER;
    if (n == "rse_observe") return H_OBSERVE;
    if (n == "rse_pick") return H_PICK;
    if (n == "rse_case") return H_CASE;
    if (n == "rse_concretize") return H_CONCRETIZE;
    if (n == "rse_expect_panic") return H_EXPECT_PANIC;
    if (n == "rse_is_symbolic") return H_ISSYM;
    if (n == "rse_concretize_bytes") return H_CONCBYTES;
    if (n == "rse_note") return H_NOTE;
    return X_UNKNOWN;
  }
  if (n == "malloc") return X_MALLOC;
  if (n == "calloc") return X_CALLOC;
  if (n == "free") return X_FREE;
  if (n == "realloc") return X_REALLOC;
  if (n == "posix_memalign") return X_MEMALIGN;
  if (n == "aligned_alloc") return X_ALIGNEDALLOC;
  if (n == "memcpy") return X_MEMCPY;
  if (n == "memmove") return X_MEMMOVE;
  if (n == "memset") return X_MEMSET;
  if (n == "memcmp" || n == "bcmp") return n == "bcmp" ? X_BCMP : X_MEMCMP;
  if (n == "strlen") return X_STRLEN;
  if (n == "abort" || n == "_exit" || n == "exit") return X_ABORT;
  if (n == "__cxa_thread_atexit_impl") return X_ZERO;
  if (n == "getauxval" || n == "sched_yield" || n == "pthread_key_create" || n == "pthread_setspecific" || n == "getenv") return X_ZERO;
  if (n == "rust_eh_personality") return X_NOP;
  if (n == "__errno_location") return X_ERRNO;
  if (n == "mmap" || n == "mmap64") return X_MMAP;
  if (n == "munmap") return X_MUNMAP;
  if (n == "clock_gettime") return X_CLOCK;
  if (n == "sysconf") return X_SYSCONF;
  if (n == "munmap") return X_ZERO;
  // allocator shims
  if (has(n, "__rust_alloc_zeroed")) return X_RALLOCZ;
  if (has(n, "__rust_alloc_error_handler")) return X_PANIC;
  if (has(n, "__rust_no_alloc_shim")) return X_NOP;
  if (has(n, "__rust_alloc")) return X_RALLOC;
  if (has(n, "__rust_dealloc")) return X_RDEALLOC;
  if (has(n, "__rust_realloc")) return X_RREALLOC;
  if (has(n, "__rdl_alloc_zeroed")) return X_RALLOCZ;
  if (has(n, "__rdl_alloc")) return X_RALLOC;
  if (has(n, "__rdl_dealloc")) return X_RDEALLOC;
  if (has(n, "__rdl_realloc")) return X_RREALLOC;
  if (has(n, "4core9panicking") || has(n, "rust_begin_unwind") || has(n, "3std9panicking11begin_panic") || has(n, "3std9panicking20rust_panic") ||
      has(n, "3std9panicking14begin_panic") || has(n, "3std9panicking13panic_handler") || has(n, "18handle_alloc_error") || has(n, "5alloc7raw_vec12handle_error") ||
      has(n, "capacity_overflow") || has(n, "3std7process5abort") || has(n, "rtabort") || has(n, "begin_panic_handler"))
    return X_PANIC;
  if (has(n, "hashmap_random_keys")) return X_HASHKEYS;
  if (has(n, "6thread9panicking") || has(n, "panic_count17is_zero_slow_path") || has(n, "panicking11panic_count")) return X_NOTPANICKING;
  return -1;
}

// ---- function decoding --------------------------------------------------
struct Dec {
  Func *F;
  std::unordered_map<LLVMValueRef, int> slotOf;
  std::unordered_map<LLVMValueRef, int> poolOf;
  std::unordered_map<LLVMBasicBlockRef, int> bbOf;

  int opnd(LLVMValueRef v) {
    auto it = slotOf.find(v);
    if (it != slotOf.end()) return it->second;
    if (LLVMIsConstant(v)) {
      auto p = poolOf.find(v);
      if (p != poolOf.end()) return p->second;
      std::vector<V> vs;
      constLeaves(v, vs);
      int idx = -(int)F->pool.size() - 1;
      // pool is addressed by ~idx upward
      for (auto &x : vs) F->pool.push_back(x);
      if (vs.empty()) F->pool.push_back(cv(0));
      return poolOf[v] = idx;
    }
    return 0x7fffffff; // metadata, inline asm, block
  }
  static int at(int op, int i) { return op >= 0 ? op + i : op - i; }

  int edge(LLVMBasicBlockRef from, LLVMBasicBlockRef to) {
    Edge e;
    e.target = bbOf.at(to);
    for (LLVMValueRef i = LLVMGetFirstInstruction(to); i && LLVMGetInstructionOpcode(i) == LLVMPHI; i = LLVMGetNextInstruction(i)) {
      unsigned n = LLVMCountIncoming(i);
      bool found = false;
      for (unsigned k = 0; k < n && !found; k++)
        if (LLVMGetIncomingBlock(i, k) == from) {
          found = true;
          int d = slotOf.at(i), s = opnd(LLVMGetIncomingValue(i, k));
          size_t L = tyInfo(LLVMTypeOf(i))->leaves.size();
          for (size_t l = 0; l < L; l++) e.copies.push_back({d + (int)l, at(s, (int)l)});
        }
      if (!found) die("phi without edge");
    }
    F->edges.push_back(e);
    return (int)F->edges.size() - 1;
  }

  Inst dec(LLVMValueRef i, LLVMBasicBlockRef bb) {
    Inst I;
    I.val = i; if (getenv("RSE_DEC")) { char *s = LLVMPrintValueToString(i); fprintf(stderr, "dec %d %s\n", (int)LLVMGetInstructionOpcode(i), s); }
    LLVMTypeRef t = LLVMTypeOf(i);
    TyInfo *ti = tyInfo(t);
    I.ty = ti;
    if (!ti->leaves.empty()) {
      I.dst = slotOf.at(i);
      I.w = ti->leaves[0].w;
      I.lanes = (u32)ti->leaves.size();
    }
    int opc = LLVMGetInstructionOpcode(i);
    auto A = [&](int k) { return opnd(LLVMGetOperand(i, k)); };
    auto OT = [&](int k) { return tyInfo(LLVMTypeOf(LLVMGetOperand(i, k))); };
    auto bin = [&](Op o) { I.kind = I_BIN; I.sub = o; I.a = A(0); I.b = A(1); };
    switch (opc) {
    case LLVMAdd: bin(ADD); break;
    case LLVMSub: bin(SUB); break;
    case LLVMMul: bin(MUL); break;
    case LLVMUDiv: bin(UDIV); break;
    case LLVMSDiv: bin(SDIV); break;
    case LLVMURem: bin(UREM); break;
    case LLVMSRem: bin(SREM); break;
    case LLVMShl: bin(SHL); break;
    case LLVMLShr: bin(LSHR); break;
    case LLVMAShr: bin(ASHR); break;
    case LLVMAnd: bin(AND); break;
    case LLVMOr: bin(OR); break;
    case LLVMXor: bin(XOR); break;
    case LLVMFAdd: case LLVMFSub: case LLVMFMul: case LLVMFDiv: case LLVMFRem:
      I.kind = I_FBIN; I.sub = (u8)opc; I.a = A(0); I.b = A(1); break;
    case LLVMFNeg: I.kind = I_FNEG; I.a = A(0); break;
    case LLVMICmp:
      I.kind = I_ICMP; I.sub = (u8)LLVMGetICmpPredicate(i); I.a = A(0); I.b = A(1); I.w2 = OT(0)->leaves[0].w; break;
    case LLVMFCmp:
      I.kind = I_FCMP; I.sub = (u8)LLVMGetFCmpPredicate(i); I.a = A(0); I.b = A(1); I.w2 = OT(0)->leaves[0].w; break;
    case LLVMSelect:
      I.kind = I_SELECT; I.a = A(0); I.b = A(1); I.c = A(2); I.ty2 = OT(0); break;
    case LLVMTrunc: I.kind = I_TRUNC; I.a = A(0); I.w2 = OT(0)->leaves[0].w; break;
    case LLVMZExt: I.kind = I_ZEXT; I.a = A(0); I.w2 = OT(0)->leaves[0].w; break;
    case LLVMSExt: I.kind = I_SEXT; I.a = A(0); I.w2 = OT(0)->leaves[0].w; break;
    case LLVMPtrToInt: case LLVMIntToPtr:
      I.a = A(0); I.w2 = OT(0)->leaves[0].w;
      if (I.w2 == I.w) goto copyop;
      I.kind = I.w < I.w2 ? I_TRUNC : I_ZEXT; break;
    case LLVMBitCast: {
      TyInfo *st = OT(0);
      I.a = A(0);
      if (st->leaves.size() == ti->leaves.size() && st->leaves[0].w == ti->leaves[0].w) goto copyop;
      I.kind = I_BITCAST; I.ty2 = st; break;
    }
    case LLVMFreeze: case LLVMAddrSpaceCast:
      I.a = A(0);
    copyop:
      I.kind = I_COPY;
      for (u32 l = 0; l < I.lanes && I.dst >= 0; l++) I.copies.push_back({I.dst + (int)l, at(I.a, (int)l)});
      break;
    case LLVMFPTrunc: case LLVMFPExt: case LLVMFPToUI: case LLVMFPToSI: case LLVMUIToFP: case LLVMSIToFP:
      I.kind = I_FPCAST; I.sub = (u8)opc; I.a = A(0); I.w2 = OT(0)->leaves[0].w; break;
    case LLVMGetElementPtr: {
      I.kind = I_GEP;
      I.a = A(0);
      if (OT(0)->leaves.size() != 1) { I.kind = I_UNSUP; break; }
      LLVMTypeRef st = LLVMGetGEPSourceElementType(i);
      int n = LLVMGetNumOperands(i);
      for (int k = 1; k < n; k++) {
        LLVMValueRef op = LLVMGetOperand(i, k);
        if (k > 1 && LLVMGetTypeKind(st) == LLVMStructTypeKind) {
          unsigned idx = (unsigned)LLVMConstIntGetZExtValue(op);
          I.k += LLVMOffsetOfElement(TD, st, idx);
          st = LLVMStructGetTypeAtIndex(st, idx);
          continue;
        }
        if (k > 1) st = LLVMGetElementType(st);
        i128 sc = (i128)LLVMABISizeOfType(TD, st);
        if (LLVMIsAConstantInt(op)) I.k += sext128(constIntVal(op), LLVMGetIntTypeWidth(LLVMTypeOf(op))) * sc;
        else {
          if (tyInfo(LLVMTypeOf(op))->leaves.size() != 1) { I.kind = I_UNSUP; break; }
          u32 ow = LLVMGetIntTypeWidth(LLVMTypeOf(op));
          if (ow != 64) { I.kind = I_UNSUP; break; }
          I.terms.push_back({opnd(op), sc});
        }
      }
      break;
    }
    case LLVMLoad: I.kind = I_LOAD; I.a = A(0); break;
    case LLVMStore: I.kind = I_STORE; I.a = A(0); I.b = A(1); I.ty = OT(0); break;
    case LLVMAlloca: {
      I.kind = I_ALLOCA;
      I.k = LLVMABISizeOfType(TD, LLVMGetAllocatedType(i));
      I.a = A(0);
      I.w2 = LLVMGetIntTypeWidth(LLVMTypeOf(LLVMGetOperand(i, 0)));
      break;
    }
    case LLVMRet:
      I.kind = I_RET;
      if (LLVMGetNumOperands(i)) { I.a = A(0); I.ty = OT(0); I.lanes = (u32)I.ty->leaves.size(); } else I.lanes = 0;
      break;
    case LLVMSwitch: {
      I.kind = I_SWITCH;
      I.a = opnd(LLVMGetOperand(i, 0));
      I.w = tyInfo(LLVMTypeOf(LLVMGetOperand(i, 0)))->leaves[0].w;
      unsigned n = LLVMGetNumSuccessors(i);
      std::unordered_map<LLVMBasicBlockRef, int> em;
      for (unsigned k = 0; k < n; k++) {
        LLVMBasicBlockRef b = LLVMGetSuccessor(i, k);
        if (!em.count(b)) em[b] = edge(bb, b);
        if (k == 0) I.edges.push_back(em[b]);
        else I.cases.push_back({constIntVal(LLVMGetSwitchCaseValue(i, k)), em[b]});
      }
      break;
    }
    case LLVMUnreachable: I.kind = I_UNREACH; break;
    case LLVMExtractValue: case LLVMInsertValue: {
      I.kind = I_COPY;
      LLVMTypeRef at0 = LLVMTypeOf(LLVMGetOperand(i, 0));
      unsigned n = LLVMGetNumIndices(i);
      const unsigned *idx = LLVMGetIndices(i);
      int off = 0;
      LLVMTypeRef ct = at0;
      for (unsigned k = 0; k < n; k++) {
        if (LLVMGetTypeKind(ct) == LLVMStructTypeKind) {
          for (unsigned q = 0; q < idx[k]; q++) off += (int)tyInfo(LLVMStructGetTypeAtIndex(ct, q))->leaves.size();
          ct = LLVMStructGetTypeAtIndex(ct, idx[k]);
        } else {
          ct = LLVMGetElementType(ct);
          off += (int)(idx[k] * tyInfo(ct)->leaves.size());
        }
      }
      int L = (int)tyInfo(ct)->leaves.size();
      int a = A(0);
      if (opc == LLVMExtractValue) {
        for (int l = 0; l < L; l++) I.copies.push_back({I.dst + l, at(a, off + l)});
      } else {
        int b = A(1);
        int T = (int)ti->leaves.size();
        for (int l = 0; l < T; l++) I.copies.push_back({I.dst + l, l >= off && l < off + L ? at(b, l - off) : at(a, l)});
      }
      break;
    }
    case LLVMExtractElement: I.kind = I_EXTELT; I.a = A(0); I.b = A(1); I.w2 = (u32)OT(0)->leaves.size(); break;
    case LLVMInsertElement: I.kind = I_INSELT; I.a = A(0); I.b = A(1); I.c = A(2); break;
    case LLVMShuffleVector: {
      I.kind = I_COPY;
      int a = A(0), b = A(1);
      int n0 = (int)OT(0)->leaves.size();
      unsigned n = LLVMGetNumMaskElements(i);
      for (unsigned k = 0; k < n; k++) {
        int m = LLVMGetMaskValue(i, k);
        if (m < 0) m = 0;
        I.copies.push_back({I.dst + (int)k, m < n0 ? at(a, m) : at(b, m - n0)});
      }
      break;
    }
    case LLVMFence: I.kind = I_COPY; break;
    case LLVMLandingPad: I.kind = I_UNSUP; break;
    case LLVMResume: I.kind = I_UNSUP; break;
    case LLVMAtomicRMW: I.kind = I_RMW; I.sub = (u8)LLVMGetAtomicRMWBinOp(i); I.a = A(0); I.b = A(1); break;
    case LLVMAtomicCmpXchg: I.kind = I_CMPXCHG; I.a = A(0); I.b = A(1); I.c = A(2); I.ty2 = OT(1); I.w2 = OT(1)->leaves[0].w; break;
    case LLVMCall: case LLVMInvoke: {
      I.kind = I_CALL;
      LLVMValueRef c = LLVMGetCalledValue(i);
      unsigned n = LLVMGetNumArgOperands(i);
      for (unsigned k = 0; k < n; k++) {
        LLVMValueRef op = LLVMGetOperand(i, k);
        LLVMTypeKind kk = LLVMGetTypeKind(LLVMTypeOf(op));
        if (kk == LLVMMetadataTypeKind) { I.args.push_back(0x7fffffff); I.argTys.push_back(tyInfo(LLVMTypeOf(op))); continue; }
        I.args.push_back(opnd(op));
        I.argTys.push_back(tyInfo(LLVMTypeOf(op)));
      }
      if (opc == LLVMInvoke) I.edges.push_back(edge(bb, LLVMGetNormalDest(i)));
      while (LLVMIsAGlobalAlias(c)) c = LLVMAliasGetAliasee(c);
      if (LLVMIsAFunction(c)) {
        I.callee = funcOf.at(c);
        I.intr = I.callee->intr;
        I.name = I.callee->name;
      } else if (LLVMIsAInlineAsm(c)) {
        I.intr = X_ASM;
        char *s = LLVMPrintValueToString(i);
        I.name = s;
        LLVMDisposeMessage(s);
      } else {
        I.a = opnd(c);
        I.intr = -1;
      }
      break;
    }
    default: {
      // branches (opcode numbering of conditional branches differs between LLVM versions)
      unsigned n = LLVMIsATerminatorInst(i) ? LLVMGetNumSuccessors(i) : 0;
      if (n == 1) { I.kind = I_BR; I.edges.push_back(edge(bb, LLVMGetSuccessor(i, 0))); }
      else if (n == 2) {
        I.kind = I_CONDBR;
        I.a = opnd(LLVMGetOperand(i, 0));
        I.edges.push_back(edge(bb, LLVMGetSuccessor(i, 0)));
        I.edges.push_back(edge(bb, LLVMGetSuccessor(i, 1)));
      } else if (ti->leaves.size() == 1 && LLVMGetNumOperands(i) == 1 && OT(0)->leaves.size() == 1) {
        // ptrtoaddr and friends
        I.a = A(0); I.w2 = OT(0)->leaves[0].w;
        if (I.w2 == I.w) goto copyop;
        I.kind = I.w < I.w2 ? I_TRUNC : I_ZEXT;
      } else I.kind = I_UNSUP;
    }
    }
    return I;
  }
};

void decodeFunc(Func *F) {
  if (F->decoded) return;
  F->decoded = true;
  Dec D;
  D.F = F;
  int slot = 0;
  unsigned np = LLVMCountParams(F->val);
  for (unsigned k = 0; k < np; k++) {
    LLVMValueRef p = LLVMGetParam(F->val, k);
    D.slotOf[p] = slot;
    slot += (int)tyInfo(LLVMTypeOf(p))->leaves.size();
  }
  F->nargs = slot;
  int nb = 0;
  for (LLVMBasicBlockRef b = LLVMGetFirstBasicBlock(F->val); b; b = LLVMGetNextBasicBlock(b)) {
    D.bbOf[b] = nb++;
    for (LLVMValueRef i = LLVMGetFirstInstruction(b); i; i = LLVMGetNextInstruction(i)) {
      LLVMTypeRef t = LLVMTypeOf(i);
      LLVMTypeKind k = LLVMGetTypeKind(t);
      if (k == LLVMVoidTypeKind || k == LLVMTokenTypeKind || k == LLVMMetadataTypeKind) continue;
      int L = (int)tyInfo(t)->leaves.size();
      if (L == 0) { D.slotOf[i] = slot; continue; }
      D.slotOf[i] = slot;
      slot += L;
    }
  }
  F->nslots = slot;
  F->blocks.resize(nb);
  int bi = 0;
  for (LLVMBasicBlockRef b = LLVMGetFirstBasicBlock(F->val); b; b = LLVMGetNextBasicBlock(b), bi++)
    for (LLVMValueRef i = LLVMGetFirstInstruction(b); i; i = LLVMGetNextInstruction(i)) {
      if (LLVMGetInstructionOpcode(i) == LLVMPHI) continue;
      F->blocks[bi].insts.push_back(D.dec(i, b));
    }
}
