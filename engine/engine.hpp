#pragma once
#include "state.hpp"
#include <llvm-c/IRReader.h>
extern "C" const char *LLVMGetRawDataValues(LLVMValueRef c, size_t *len);
extern "C" LLVMValueRef LLVMGetSwitchCaseValue(LLVMValueRef s, unsigned i);
enum {
  X_UNKNOWN = 0, X_NOP, X_ID, X_MEMCPY, X_MEMMOVE, X_MEMSET, X_UMIN, X_UMAX, X_SMIN, X_SMAX, X_ABS, X_CTPOP, X_CTLZ, X_CTTZ, X_BSWAP, X_BITREV,
  X_FSHL, X_FSHR, X_UADDO, X_SADDO, X_USUBO, X_SSUBO, X_UMULO, X_SMULO, X_UADDS, X_USUBS, X_SADDS, X_SSUBS, X_ZERO, X_ONES, X_TRAP,
  X_RADD, X_RAND, X_ROR, X_RXOR, X_RMUL, X_RUMAX, X_RUMIN, X_RSMAX, X_RSMIN, X_PTRMASK, X_UCMP, X_SCMP, X_FABS, X_LOADREL, X_FPTOUISAT, X_FPTOSISAT,
  X_FPCLASS, X_COPYSIGN, X_FLOOR, X_CEIL, X_FTRUNC, X_FMA, X_MOVMSK, X_PSHUFB,
  X_MALLOC, X_CALLOC, X_FREE, X_REALLOC, X_MEMALIGN, X_ALIGNEDALLOC, X_BCMP, X_MEMCMP, X_STRLEN, X_ABORT, X_ERRNO, X_MMAP, X_SYSCONF, X_CLOCK, X_MUNMAP,
  X_RALLOC, X_RALLOCZ, X_RDEALLOC, X_RREALLOC, X_PANIC, X_HASHKEYS, X_NOTPANICKING, X_ASM,
  H_SYM, H_ASSUME, H_CHECK, H_COVER, H_OBSERVE, H_PICK, H_CASE, H_CONCRETIZE, H_EXPECT_PANIC, H_ISSYM, H_CONCBYTES, H_NOTE,
};
extern LLVMModuleRef M;
extern LLVMTargetDataRef TD;
extern std::unordered_map<LLVMValueRef, Func *> funcOf;
extern std::unordered_map<u64, Func *> funcAt;
extern std::unordered_map<LLVMValueRef, u64> globalAddr;
extern std::unordered_map<u32, LLVMValueRef> globalSlot;
extern u32 numGlobalSlots;
TyInfo *tyInfo(LLVMTypeRef t);
void decodeFunc(Func *F);
void loadModule();
extern u64 initBase;
extern std::unordered_map<u64, u64> relTargets; // address of a relative pointer -> full distance
void writeInit(u8 *data, u64 off, LLVMValueRef c);
