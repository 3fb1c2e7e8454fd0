// Hash-consed bit-vector / floating-point expression layer of the symbolic
// executor.  Every value is a bit-vector; floating-point values are carried as
// their IEEE-754 bit patterns.  An "FScaled" node is a double (or float) whose
// value is exactly (-1)^sign * mag * 2^k: conversions, scalings by powers of
// two, exact sums, comparisons and truncations of such nodes become integer
// reasoning instead of floating-point theory.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
#include <llvm/ADT/APInt.h>
#include <z3.h>

using llvm::APInt;

enum Op : uint8_t {
    Const, Var, Concat, Extract, ZExt, SExt,
    Add, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Ite,
    FScaled,             // a=sign(1) b=mag k=exponent ; w=64 or 32
    FAdd, FSub, FMul, FDiv, FRem,
    FOeq, FOlt, FOle, FUno,  // width-1 results
    SIToF, UIToF,        // a=int ; w = fp width
    FToSI, FToUI,        // a=fp  ; w = int width (x86-64 semantics)
    FPExt, FPTrunc,
    FUn                  // unary libm function, k = fn id
};
enum Fn { FnLog, FnLog2, FnLog10, FnSqrt, FnExp, FnExp2, FnFloor, FnCeil, FnTrunc, FnRound, FnRint, FnLog1p, FnCbrt, FnRoundEven };

struct Expr {
    Op op; uint32_t w; int32_t k = 0; // k: extract offset / exponent / fn id / var id
    Expr *a = nullptr, *b = nullptr, *c = nullptr;
    uint64_t v = 0;        // constant (w<=64)
    APInt* big = nullptr;  // constant (w>64)
    size_t h = 0;
    uint32_t id = 0;
    uint32_t ub = 0;       // upper bound on number of significant bits (unsigned)
    uint32_t sb = 0;       // upper bound on number of bits needed as signed value
    bool hasFP = false;
    // evaluation memo
    uint32_t epoch = 0; uint64_t ev = 0; APInt* evbig = nullptr;
    // lowering memo
    Z3_ast z = nullptr; Z3_ast zb = nullptr; Z3_ast zf = nullptr;
    const std::vector<int>* vars = nullptr;
};

APInt constVal(const Expr* e);
Expr* mkC(uint32_t w, uint64_t v);
Expr* mkC(const APInt& v);
Expr* mkVar(int id); // 8-bit
Expr* mkBin(Op op, Expr* a, Expr* b);
Expr* mkExtract(Expr* a, uint32_t off, uint32_t w);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkZExt(Expr* a, uint32_t w);
Expr* mkSExt(Expr* a, uint32_t w);
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkNot(Expr* a);
Expr* mkNeg(Expr* a);
inline Expr* mkSub(Expr* a, Expr* b) { return mkBin(Add, a, mkNeg(b)); }
inline bool isC(const Expr* e) { return e->op == Const; }
inline bool isC(const Expr* e, uint64_t v) { return e->op == Const && (e->w <= 64 ? e->v == v : *e->big == v); }
inline bool isTrue(const Expr* e) { return e->op == Const && e->v == 1; }
inline bool isFalse(const Expr* e) { return e->op == Const && e->v == 0; }

Expr* mkFScaled(uint32_t w, Expr* sign, Expr* mag, int k);
Expr* mkFBin(Op op, Expr* a, Expr* b);
Expr* mkFCmp(Op op, Expr* a, Expr* b);
Expr* mkIToF(bool sgn, Expr* a, uint32_t fw);
Expr* mkFToI(bool sgn, Expr* a, uint32_t iw);
Expr* mkFPExt(Expr* a);
Expr* mkFPTrunc(Expr* a);
Expr* mkFNeg(Expr* a);
Expr* mkFAbs(Expr* a);
Expr* mkFUn(Fn f, Expr* a);
double nativeFn(int f, double x);
bool fpExact(Expr* e); // FScaled or constant

// evaluation under an assignment of byte variables
extern std::vector<uint8_t> gModel;
void newEpoch();
APInt evalBig(Expr* e);
uint64_t evalU(Expr* e); // w<=64
const std::vector<int>& varsOf(Expr* e);
std::string show(Expr* e, int depth = 6);

// Z3 lowering
extern Z3_context gZ3;
void z3init();
Z3_ast z3bv(Expr* e);
Z3_ast z3bool(Expr* e);

// hook used by FToSI/FToUI over monotone chains: returns range of integer expr
extern std::function<bool(Expr*, APInt&, APInt&)> gRangeHook;
