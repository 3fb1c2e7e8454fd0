// Symbolic executor for LLVM IR (LLVM 18): path-forking, byte-precise memory,
// C++ exceptions, Z3 back end.  See ../DESIGN.md.
#include "solver.hpp"
#include <cmath>
#include <cstring>
#include <fcntl.h>
#include <set>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;
using std::string;
using std::vector;
using VExpr = ::Expr;
#define E ::Expr
namespace std { size_t _Hash_bytes(const void*, size_t, size_t); }

// ---------------------------------------------------------------- globals
static Module* M; static const DataLayout* DL;
static int gOutFd = 1; static double gDeadline = 0;
static bool gDebug = false;
static uint64_t gMaxInst = 60000000, gConcLimit = 3000;
static vector<string> gEntryNames;
static bool gAsync = false; static int gSyncFd = -1; static int gKids = 0;
static bool gIncompleteFlag = false;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct SymInfo { string name; int first, n; bool uninit; };
static vector<SymInfo> gSyms; static int gNextVar = 0;

// ---------------------------------------------------------------- values
struct Val { E* e = nullptr; uint64_t c = 0; vector<Val>* agg = nullptr; };
static inline Val cv(uint64_t c) { Val v; v.c = c; return v; }
static inline Val ev(E* e) { Val v; if (e->op == Const && e->w <= 64) v.c = e->v; else v.e = e; return v; }
static inline E* X(const Val& v, uint32_t w) { return v.e ? v.e : mkC(w, v.c); }
static inline uint64_t maskw(uint64_t v, uint32_t w) { return w >= 64 ? v : v & ((1ull << w) - 1); }

// ---------------------------------------------------------------- events
static string jesc(const string& s)
{
    string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}
static void emit(const string& line) { string l = line + "\n"; ssize_t k = write(gOutFd, l.data(), l.size()); (void)k; }
static unsigned seenCount(const string& key)
{ // returns how often this key was recorded before (and records it)
    uint32_t h = 2166136261u;
    for (unsigned char c : key) h = (h ^ c) * 16777619u;
    if (!h) h = 1;
    for (int i = 0; i < MAXL; ++i) {
        int j = (h + i) % MAXL; uint32_t z = 0;
        if (SH->lblHash[j].compare_exchange_strong(z, h) || z == h) return SH->lblCount[j]++;
    }
    return 1000;
}
static Instruction* gCur = nullptr; static vector<Instruction*> gStackTrace;
static string locOf(Instruction* I)
{
    if (!I) return "?";
    string s = demangle(I->getFunction()->getName().str());
    if (auto& d = I->getDebugLoc()) {
        const DILocation* l = d.get();
        s += " (" + l->getFilename().str() + ":" + std::to_string(l->getLine()) + ")";
    }
    return s;
}
static string modelJson()
{
    string r = "{";
    bool f = true;
    for (auto& s : gSyms) {
        if (s.uninit) continue;
        r += string(f ? "" : ",") + "\"" + jesc(s.name) + "\":\"";
        f = false;
        char b[3];
        for (int i = 0; i < s.n; ++i) { snprintf(b, 3, "%02x", (size_t)(s.first + i) < gModel.size() ? gModel[s.first + i] : 0); r += b; }
        r += "\"";
    }
    return r + "}";
}
static string traceStr()
{
    string r;
    for (int i = (int)gStackTrace.size() - 1; i >= 0 && i > (int)gStackTrace.size() - 9; --i) r += (r.empty() ? "" : " < ") + locOf(gStackTrace[i]);
    return r;
}
static void violation(const string& kind, const string& msg)
{
    SH->e[gEntry].viol++;
    string loc = gCur ? locOf(gCur) : "";
    unsigned n = seenCount(std::to_string(gEntry) + "|" + kind + "|" + msg + (kind == "check" ? "" : loc));
    if (n >= 4) return;
    bool un = false;
    for (auto& s : gSyms) un |= s.uninit;
    emit("{\"t\":\"viol\",\"entry\":\"" + jesc(gEntryNames[gEntry]) + "\",\"kind\":\"" + kind + "\",\"msg\":\"" + jesc(msg) + "\",\"loc\":\"" + jesc(loc) + "\",\"trace\":\"" + jesc(traceStr()) + "\",\"uninit\":" + (un ? "true" : "false") + ",\"model\":" + modelJson() + "}");
}
static void incomplete(const string& why)
{
    SH->e[gEntry].incomplete++;
    if (seenCount(std::to_string(gEntry) + "|inc|" + why) < 1)
        emit("{\"t\":\"incomplete\",\"entry\":\"" + jesc(gEntryNames[gEntry]) + "\",\"why\":\"" + jesc(why) + "\",\"loc\":\"" + jesc(locOf(gCur)) + "\",\"trace\":\"" + jesc(traceStr()) + "\"}");
}
// ---------------------------------------------------------------- processes
[[noreturn]] static void endPath(bool counted = true)
{
    if (counted) SH->e[gEntry].paths++;
    if (gSyncFd >= 0) { char c = 1; ssize_t k = write(gSyncFd, &c, 1); (void)k; close(gSyncFd); }
    if (gAsync) sem_post(&SH->tokens);
    while (waitpid(-1, nullptr, 0) > 0) {}
    SH->live--;
    _exit(0);
}
static bool forkState()
{ // true in the child
    bool async = sem_trywait(&SH->tokens) == 0;
    int p[2] = { -1, -1 };
    if (!async && pipe(p)) { perror("pipe"); _exit(3); }
    SH->live++; SH->e[gEntry].forks++;
    pid_t pid = fork();
    if (pid < 0) {
        if (async) sem_post(&SH->tokens);
        SH->live--;
        incomplete("fork failed");
        return false;
    }
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (gSyncFd >= 0) close(gSyncFd);
        gSyncFd = -1; gAsync = async;
        if (!async) { close(p[0]); gSyncFd = p[1]; }
        return true;
    }
    if (!async) {
        close(p[1]);
        char c; ssize_t k = read(p[0], &c, 1); (void)k;
        close(p[0]);
    }
    while (waitpid(-1, nullptr, WNOHANG) > 0) {}
    return false;
}
static void timeCheck()
{
    if (gDeadline && now() > gDeadline) { incomplete("time budget exhausted"); endPath(false); }
}
// ---------------------------------------------------------------- solver glue
static void assumeTrue(E* c)
{ // add constraint, keep model in sync; kills the path if infeasible
    if (isTrue(c)) return;
    if (isFalse(c)) { SH->e[gEntry].infeasible++; endPath(false); }
    newEpoch();
    if (evalU(c) != 1) {
        vector<uint8_t> m;
        Res r = solve(c, &m);
        if (r == UNK) { incomplete("solver gave no answer on an assumption"); endPath(false); }
        if (r == UNSAT) { SH->e[gEntry].infeasible++; endPath(false); }
        gModel = m; newEpoch();
    }
    addPC(c);
}
static int knownBool(E* c)
{
    if (isC(c)) return (int)c->v;
    auto it = gPC.known.find(c);
    return it == gPC.known.end() ? -1 : (int)it->second;
}
static bool branch(E* c)
{ // fork on condition
    int k = knownBool(c);
    if (k >= 0) return k;
    timeCheck();
    newEpoch();
    bool v = evalU(c);
    E* other = v ? mkNot(c) : c;
    vector<uint8_t> m;
    Res r = solve(other, &m);
    if (r == UNSAT) { addPC(v ? c : mkNot(c)); return v; }
    if (r == UNK) { incomplete("solver gave no answer on a branch"); addPC(v ? c : mkNot(c)); return v; }
    if (forkState()) { gModel = m; newEpoch(); addPC(other); return !v; }
    addPC(v ? c : mkNot(c));
    return v;
}
static uint64_t concretize(E* e, const char* why, uint64_t limit = 0)
{
    if (isC(e)) return e->v;
    if (!limit) limit = gConcLimit;
    for (uint64_t n = 0;; ++n) {
        timeCheck();
        newEpoch();
        uint64_t v = evalU(e);
        E* eq = mkBin(Eq, e, mkC(e->w, v));
        int k = knownBool(eq);
        if (k == 1) return v;
        vector<uint8_t> m;
        Res r = solve(mkNot(eq), &m);
        if (r == UNK) incomplete(string("solver gave no answer while enumerating ") + why);
        if (r != SAT) { addPC(eq); return v; }
        SH->e[gEntry].enumerated++;
        if (n + 1 >= limit) { incomplete(string("more than the allowed number of values of ") + why); addPC(eq); return v; }
        // child takes this value, parent goes on with the others
        if (forkState()) { addPC(eq); return v; }
        gModel = m; newEpoch(); addPC(mkNot(eq));
    }
}
static bool mayBe(E* c, vector<uint8_t>& m)
{
    if (isC(c)) { m = gModel; return c->v; }
    int k = knownBool(c);
    if (k >= 0) { m = gModel; return k; }
    newEpoch();
    if (evalU(c)) { m = gModel; return true; }
    Res r = solve(c, &m);
    if (r == UNK) incomplete("solver gave no answer on a safety condition");
    return r == SAT;
}
// report a violation if `bad` can hold, then go on where it does not
static void safety(E* bad, const string& kind, const string& msg)
{
    if (isFalse(bad)) return;
    vector<uint8_t> m;
    if (!mayBe(bad, m)) return;
    vector<uint8_t> save = gModel;
    gModel = m; newEpoch();
    violation(kind, msg);
    gModel = save; newEpoch();
    SH->e[gEntry].errs++;
    if (isTrue(bad)) endPath();
    assumeTrue(mkNot(bad));
}
[[noreturn]] static void fatal(const string& kind, const string& msg) { violation(kind, msg); SH->e[gEntry].errs++; endPath(); }
[[noreturn]] static void unsupported(const string& what) { incomplete("unsupported: " + what); endPath(false); }

// ---------------------------------------------------------------- memory
struct Obj {
    uint64_t base, size; E* symSize = nullptr;
    uint8_t* d; E** s = nullptr; uint8_t* u = nullptr;
    uint8_t kind; bool freed = false, ro = false; string name;
    bool capped = false;
};
static std::map<uint64_t, Obj*> gMem; static Obj* gLast = nullptr;
static uint64_t gNextAddr = 0x100000000ull;
static Obj* alloc(uint64_t size, uint8_t kind, const string& name, bool uninit)
{
    Obj* o = new Obj;
    o->base = gNextAddr; o->size = size; o->kind = kind; o->name = name;
    o->d = (uint8_t*)calloc(1, size ? size : 1);
    if (uninit && size) { o->u = (uint8_t*)malloc(size); memset(o->u, 1, size); }
    gNextAddr += (size + 64 + 31) & ~31ull;
    gMem[o->base] = o;
    return o;
}
static Obj* findObj(uint64_t a)
{
    if (gLast && a >= gLast->base && a < gLast->base + gLast->size) return gLast;
    auto it = gMem.upper_bound(a);
    if (it == gMem.begin()) return nullptr;
    --it;
    Obj* o = it->second;
    if (a > o->base + o->size) return nullptr;
    gLast = o;
    return o;
}
static void freeObj(Obj* o)
{
    gMem.erase(o->base);
    if (gLast == o) gLast = nullptr;
    free(o->d); free(o->s); free(o->u); delete o;
}
static string ptrDesc(uint64_t a)
{
    char b[64];
    auto it = gMem.upper_bound(a);
    if (it == gMem.begin()) { snprintf(b, 64, "address 0x%llx", (unsigned long long)a); return b; }
    --it;
    Obj* o = it->second;
    snprintf(b, 64, "offset %lld of a %llu-byte ", (long long)(a - o->base), (unsigned long long)o->size);
    return string(b) + (o->kind == 2 ? "heap" : o->kind == 1 ? "stack" : "global") + " object " + o->name + (o->freed ? " (freed)" : "");
}
static Obj* access(uint64_t a, uint64_t n, bool wr)
{
    Obj* o = findObj(a);
    const char* what = wr ? "write" : "read";
    if (!o || a < o->base || a + n > o->base + o->size) {
        if (o && o->capped && a >= o->base) { incomplete("object larger than the modelled cap"); endPath(false); }
        if (a < 4096) fatal("memory", string("null pointer ") + what);
        fatal("memory", string("out-of-bounds ") + what + " of " + std::to_string(n) + " bytes at " + ptrDesc(a));
    }
    if (o->freed) fatal("memory", string("use after free: ") + what + " at " + ptrDesc(a));
    if (wr && o->ro) fatal("memory", "write to constant " + ptrDesc(a));
    if (o->symSize) {
        uint64_t end = a + n - o->base;
        safety(mkBin(Ult, o->symSize, mkC(64, end)), "memory", string("out-of-bounds ") + what + " at " + ptrDesc(a) + " of symbolic size");
    }
    return o;
}
static E* byteAt(Obj* o, uint64_t off)
{
    if (o->u && o->u[off]) {
        if (!o->s) o->s = (E**)calloc(o->size, sizeof(E*));
        if ((size_t)gNextVar >= gModel.size()) gModel.resize(gNextVar + 64, 0xAA);
        gModel[gNextVar] = 0xAA;
        gSyms.push_back({ "uninit", gNextVar, 1, true });
        o->s[off] = mkVar(gNextVar++);
        o->u[off] = 0;
        newEpoch();
    }
    if (o->s && o->s[off]) return o->s[off];
    return mkC(8, o->d[off]);
}
static Val loadC(uint64_t a, uint32_t n)
{
    Obj* o = access(a, n, false);
    uint64_t off = a - o->base;
    bool conc = true;
    if (o->s) for (uint32_t i = 0; i < n; ++i) if (o->s[off + i]) { conc = false; break; }
    if (conc && o->u) for (uint32_t i = 0; i < n; ++i) if (o->u[off + i]) { conc = false; break; }
    if (conc && n <= 8) { uint64_t v = 0; memcpy(&v, o->d + off, n); return cv(v); }
    // group runs cheaply: low byte first
    E* r = byteAt(o, off + n - 1);
    // fast path: all bytes slices of one expression
    vector<E*> bs(n);
    for (uint32_t i = 0; i < n; ++i) bs[i] = byteAt(o, off + i);
    if (bs[0]->op == Extract) {
        E* src = bs[0]->a; bool ok = true;
        for (uint32_t i = 0; i < n && ok; ++i) ok = bs[i]->op == Extract && bs[i]->a == src && bs[i]->k == bs[0]->k + (int)(8 * i) && bs[i]->w == 8;
        if (ok) return ev(mkExtract(src, bs[0]->k, 8 * n));
    }
    r = bs[0];
    for (uint32_t i = 1; i < n; ++i) r = mkConcat(bs[i], r);
    return ev(r);
}
static void storeC(uint64_t a, uint32_t n, const Val& v)
{
    Obj* o = access(a, n, true);
    uint64_t off = a - o->base;
    if (o->u) memset(o->u + off, 0, n);
    if (!v.e) {
        uint64_t x = v.c;
        if (n <= 8) memcpy(o->d + off, &x, n);
        else { memcpy(o->d + off, &x, 8); memset(o->d + off + 8, 0, n - 8); }
        if (o->s) memset(o->s + off, 0, n * sizeof(E*));
        return;
    }
    E* e = v.e;
    if (e->w < 8 * n) e = mkZExt(e, 8 * n);
    if (!o->s) o->s = (E**)calloc(o->size, sizeof(E*));
    // FScaled etc. must not be torn apart by extraction rules: plain Extract nodes keep the source
    for (uint32_t i = 0; i < n; ++i) {
        E* b = mkExtract(e, 8 * i, 8);
        if (isC(b)) { o->s[off + i] = nullptr; o->d[off + i] = b->v; }
        else o->s[off + i] = b;
    }
}
static void copyBytes(uint64_t dst, uint64_t src, uint64_t n)
{
    if (!n) return;
    Obj* so = access(src, n, false);
    Obj* dO = access(dst, n, true);
    uint64_t a = src - so->base, b = dst - dO->base;
    memmove(dO->d + b, so->d + a, n);
    if (so->s || dO->s) {
        if (!dO->s) dO->s = (E**)calloc(dO->size, sizeof(E*));
        if (so->s) memmove(dO->s + b, so->s + a, n * sizeof(E*));
        else memset(dO->s + b, 0, n * sizeof(E*));
    }
    if (so->u || dO->u) {
        if (!dO->u) dO->u = (uint8_t*)calloc(1, dO->size);
        if (so->u) memmove(dO->u + b, so->u + a, n);
        else memset(dO->u + b, 0, n);
    }
}
static string cstr(uint64_t a)
{
    string r;
    for (;; ++a) {
        Val v = loadC(a, 1);
        uint64_t c = v.e ? concretize(v.e, "a C string byte") : v.c;
        if (!c || r.size() > 4000) return r;
        r += (char)c;
    }
}
static bool leaves(E* e, E* cond, vector<std::pair<E*, uint64_t>>& out, uint64_t off = 0)
{
    if (isC(e)) { out.push_back({ cond, e->v + off }); return out.size() <= 64; }
    if (e->op == Ite) {
        return leaves(e->b, mkBin(And, cond, e->a), out, off) && leaves(e->c, mkBin(And, cond, mkNot(e->a)), out, off);
    }
    if (e->op == ::Add && isC(e->b)) return leaves(e->a, cond, out, off + e->b->v);
    if (e->op == ::Add && isC(e->a)) return leaves(e->b, cond, out, off + e->a->v);
    return false;
}
// a choice between addresses, plus a constant: a member of one of several objects
static bool choice(E* a)
{
    while (a->op == ::Add && (isC(a->a) || isC(a->b))) a = isC(a->a) ? a->b : a->a;
    return a->op == Ite;
}
static Val loadS(E* a, uint32_t n)
{ // symbolic address
    if (choice(a)) {
        vector<std::pair<E*, uint64_t>> ls;
        if (leaves(a, mkC(1, 1), ls)) {
            E* r = nullptr;
            vector<std::pair<E*, uint64_t>> feas;
            vector<uint8_t> m;
            for (auto& l : ls) if (mayBe(l.first, m)) feas.push_back(l);
            for (int i = (int)feas.size() - 1; i >= 0; --i) {
                // only dereference an address in states where it is the one used
                Obj* o = findObj(feas[i].second);
                if (!o || o->freed || feas[i].second + n > o->base + o->size) { return loadC(concretize(a, "an address"), n); }
                E* v = X(loadC(feas[i].second, n), 8 * n);
                r = r ? mkIte(feas[i].first, v, r) : v;
            }
            if (r) return ev(r);
        }
        return loadC(concretize(a, "an address"), n);
    }
    newEpoch();
    uint64_t v0 = evalU(a);
    Obj* o = findObj(v0);
    if (!o || o->freed) return loadC(concretize(a, "an address"), n);
    E* rel = mkBin(Add, a, mkC(64, -o->base));
    // all feasible addresses inside this object?
    safety(mkBin(Ult, mkC(64, o->size - n), rel), "memory", "out-of-bounds read at a symbolic offset of a " + std::to_string(o->size) + "-byte object " + o->name);
    APInt lo, hi;
    if (!getRange(rel, lo, hi)) return loadC(concretize(a, "an address"), n);
    uint64_t L = lo.getZExtValue(), H = hi.getZExtValue();
    if (L == H) return loadC(o->base + L, n);
    if ((H - L) / (n ? 1 : 1) > 4096) return loadC(concretize(a, "an address"), n);
    // table read: only offsets congruent to the stride that can occur
    uint64_t step = 1;
    E* low = mkExtract(rel, 0, 3);
    if (isC(low)) step = 8, L = (L & ~7ull) | low->v;
    else if (isC(mkExtract(rel, 0, 2))) step = 4;
    else if (isC(mkExtract(rel, 0, 1))) step = 2;
    // balanced selection tree on the offset
    std::function<E*(uint64_t, uint64_t)> tree = [&](uint64_t a0, uint64_t cnt) -> E* {
        if (cnt == 1) return X(loadC(o->base + a0, n), 8 * n);
        uint64_t h = cnt / 2;
        E* x = tree(a0, h); E* y = tree(a0 + h * step, cnt - h);
        return mkIte(mkBin(Ult, rel, mkC(64, a0 + h * step)), x, y);
    };
    return ev(tree(L, (H - L) / step + 1));
}
static Val load(const Val& p, uint32_t n) { return p.e ? loadS(p.e, n) : loadC(p.c, n); }
static uint64_t addrOf(const Val& p, const char* why)
{
    if (!p.e) return p.c;
    return concretize(p.e, why);
}
static void store(const Val& p, uint32_t n, const Val& v)
{
    if (!p.e) { storeC(p.c, n, v); return; }
    newEpoch();
    Obj* o = findObj(evalU(p.e));
    if (o && !o->freed && !choice(p.e)) {
        E* rel = mkBin(Add, p.e, mkC(64, -o->base));
        if (o->size >= n) safety(mkBin(Ult, mkC(64, o->size - n), rel), "memory", "out-of-bounds write at a symbolic offset of a " + std::to_string(o->size) + "-byte object " + o->name);
    }
    storeC(concretize(p.e, "a store address"), n, v);
}

// ---------------------------------------------------------------- module
static DenseMap<const GlobalValue*, uint64_t> gAddr;
static std::unordered_map<uint64_t, Function*> gFnAt; static std::unordered_map<uint64_t, GlobalVariable*> gGvAt;
static std::unordered_map<Function*, int> gFnIdx; static vector<Function*> gFns;
static uint64_t gStdVtable = 0, gWhatStr = 0;

static uint32_t tyW(Type* t)
{
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    if (t->isX86_FP80Ty()) return 80;
    if (t->isVectorTy()) return DL->getTypeSizeInBits(t).getFixedValue();
    return 0;
}
static bool isAgg(Type* t) { return t->isStructTy() || t->isArrayTy(); }
static Val constToVal(Constant* c);
static Val zeroOf(Type* t)
{
    if (isAgg(t)) {
        Val v; v.agg = new vector<Val>;
        unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
        for (unsigned i = 0; i < n; ++i) v.agg->push_back(zeroOf(t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType()));
        return v;
    }
    uint32_t w = tyW(t);
    return w > 64 ? ev(mkC(w, 0)) : cv(0);
}
static uint64_t constAddr(Constant* c)
{
    Val v = constToVal(c);
    return v.e ? 0 : v.c;
}
static Val constToVal(Constant* c)
{
    Type* t = c->getType();
    if (auto* ci = dyn_cast<ConstantInt>(c)) return ci->getBitWidth() <= 64 ? cv(ci->getZExtValue()) : ev(mkC(ci->getValue()));
    if (auto* cf = dyn_cast<ConstantFP>(c)) { APInt b = cf->getValueAPF().bitcastToAPInt(); return b.getBitWidth() <= 64 ? cv(b.getZExtValue()) : ev(mkC(b)); }
    if (isa<ConstantPointerNull>(c)) return cv(0);
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroOf(t);
    if (auto* ga = dyn_cast<GlobalAlias>(c)) return constToVal(ga->getAliasee());
    if (auto* gv = dyn_cast<GlobalValue>(c)) return cv(gAddr.lookup(gv));
    if (t->isVectorTy()) {
        unsigned n = cast<FixedVectorType>(t)->getNumElements();
        E* r = nullptr; uint32_t ew = tyW(t->getScalarType());
        for (unsigned i = 0; i < n; ++i) { E* x = X(constToVal(c->getAggregateElement(i)), ew); r = r ? mkConcat(x, r) : x; }
        return ev(r);
    }
    if (isAgg(t)) {
        Val v; v.agg = new vector<Val>;
        unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
        for (unsigned i = 0; i < n; ++i) v.agg->push_back(constToVal(c->getAggregateElement(i)));
        return v;
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            APInt off(64, 0);
            cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off);
            return cv(constAddr(ce->getOperand(0)) + off.getZExtValue());
        }
        case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast:
            return cv(maskw(constAddr(ce->getOperand(0)), tyW(t)));
        case Instruction::Trunc: return cv(maskw(constAddr(ce->getOperand(0)), tyW(t)));
        case Instruction::Add: return cv(maskw(constAddr(ce->getOperand(0)) + constAddr(ce->getOperand(1)), tyW(t)));
        case Instruction::Sub: return cv(maskw(constAddr(ce->getOperand(0)) - constAddr(ce->getOperand(1)), tyW(t)));
        case Instruction::Xor: return cv(maskw(constAddr(ce->getOperand(0)) ^ constAddr(ce->getOperand(1)), tyW(t)));
        case Instruction::ICmp: {
            uint64_t a = constAddr(ce->getOperand(0)), b = constAddr(ce->getOperand(1));
            switch (ce->getPredicate()) {
            case CmpInst::ICMP_EQ: return cv(a == b); case CmpInst::ICMP_NE: return cv(a != b);
            case CmpInst::ICMP_ULT: return cv(a < b); case CmpInst::ICMP_UGT: return cv(a > b);
            default: break;
            }
        }
        }
    }
    string s; raw_string_ostream os(s); c->print(os);
    fprintf(stderr, "unsupported constant %s\n", s.c_str());
    _exit(3);
}
static void initConst(Obj* o, uint64_t off, Constant* c)
{
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto* cds = dyn_cast<ConstantDataSequential>(c)) {
        StringRef r = cds->getRawDataValues(); memcpy(o->d + off, r.data(), r.size()); return;
    }
    if (t->isStructTy()) {
        auto* sl = DL->getStructLayout(cast<StructType>(t));
        for (unsigned i = 0; i < t->getStructNumElements(); ++i) initConst(o, off + sl->getElementOffset(i), c->getAggregateElement(i));
        return;
    }
    if (t->isArrayTy() || t->isVectorTy()) {
        Type* et = t->isArrayTy() ? t->getArrayElementType() : t->getScalarType();
        unsigned n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        uint64_t sz = DL->getTypeAllocSize(et);
        for (unsigned i = 0; i < n; ++i) initConst(o, off + i * sz, c->getAggregateElement(i));
        return;
    }
    Val v = constToVal(c);
    uint32_t n = (tyW(t) + 7) / 8;
    if (!v.e) memcpy(o->d + off, &v.c, n > 8 ? 8 : n);
    else { APInt x = constVal(v.e); memcpy(o->d + off, x.getRawData(), n); }
}
// decoded instructions
struct Opnd { int slot = -1; Val c; };
struct DI {
    Instruction* I; unsigned op; int dst = -1; uint32_t w = 0, w2 = 0;
    vector<Opnd> o; uint64_t off = 0; vector<std::pair<int, uint64_t>> idx;
    Function* callee = nullptr; int ext = -1; unsigned intr = 0; int pred = 0;
    int succ[2] = { -1, -1 };
};
struct DB { vector<DI> in; unsigned nphi = 0; BasicBlock* bb; };
struct FI { vector<DB> bbs; int nslots = 0; DenseMap<BasicBlock*, int> bidx; };
static std::unordered_map<Function*, FI*> gFI;
typedef bool (*ExtFn)(DI& d, CallBase* cb, vector<Val>& a, Val& ret); // returns true if it throws
static std::map<string, ExtFn> gExt; 
struct ExtEntry { string name; ExtFn f; };
static vector<ExtEntry> gExtList; static std::map<string, int> gExtIdx;
static ExtFn lookupExt(const string& n);

static FI* decode(Function* F)
{
    auto it = gFI.find(F);
    if (it != gFI.end()) return it->second;
    FI* fi = new FI; gFI[F] = fi;
    DenseMap<const Value*, int> slot;
    int ns = 0;
    for (auto& a : F->args()) slot[&a] = ns++;
    for (auto& b : *F) for (auto& i : b) if (!i.getType()->isVoidTy()) slot[&i] = ns++;
    fi->nslots = ns;
    int bi = 0;
    for (auto& b : *F) fi->bidx[&b] = bi++;
    for (auto& b : *F) {
        fi->bbs.emplace_back();
        DB& db = fi->bbs.back(); db.bb = &b;
        for (auto& i : b) {
            if (isa<DbgInfoIntrinsic>(i)) continue;
            DI d; d.I = &i; d.op = i.getOpcode();
            if (!i.getType()->isVoidTy()) { d.dst = slot[&i]; d.w = tyW(i.getType()); }
            if (isa<PHINode>(i)) db.nphi++;
            auto opnd = [&](Value* v) {
                Opnd o;
                auto f = slot.find(v);
                if (f != slot.end()) o.slot = f->second;
                else if (auto* c = dyn_cast<Constant>(v)) o.c = constToVal(c);
                return o;
            };
            if (auto* cb = dyn_cast<CallBase>(&i)) {
                Function* cf = cb->getCalledFunction();
                if (!cf) if (auto* ga = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts())) cf = dyn_cast<Function>(ga->getAliaseeObject());
                d.callee = cf;
                if (cf && cf->isIntrinsic()) d.intr = cf->getIntrinsicID();
                for (auto& u : cb->args()) { if (isa<MetadataAsValue>(u.get())) { d.o.push_back(Opnd()); continue; } d.o.push_back(opnd(u.get())); }
                if (!cf) d.o.push_back(opnd(cb->getCalledOperand()));
                if (auto* inv = dyn_cast<InvokeInst>(cb)) { d.succ[0] = fi->bidx[inv->getNormalDest()]; d.succ[1] = fi->bidx[inv->getUnwindDest()]; }
            } else if (auto* g = dyn_cast<GetElementPtrInst>(&i)) {
                d.o.push_back(opnd(g->getPointerOperand()));
                for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
                    Value* ix = gi.getOperand();
                    if (StructType* st = gi.getStructTypeOrNull()) { d.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
                    uint64_t sz = DL->getTypeAllocSize(gi.getIndexedType());
                    if (auto* ci = dyn_cast<ConstantInt>(ix)) { d.off += sz * (uint64_t)ci->getSExtValue(); continue; }
                    d.idx.push_back({ (int)d.o.size(), sz });
                    d.o.push_back(opnd(ix));
                    d.w2 = tyW(ix->getType());
                }
            } else if (auto* br = dyn_cast<BranchInst>(&i)) {
                if (br->isConditional()) { d.o.push_back(opnd(br->getCondition())); d.succ[0] = fi->bidx[br->getSuccessor(0)]; d.succ[1] = fi->bidx[br->getSuccessor(1)]; }
                else d.succ[0] = fi->bidx[br->getSuccessor(0)];
            } else if (isa<PHINode>(i)) {
                for (auto& u : i.operands()) d.o.push_back(opnd(u.get()));
            } else {
                for (auto& u : i.operands()) { if (isa<BasicBlock>(u.get())) { d.o.push_back(Opnd()); continue; } d.o.push_back(opnd(u.get())); }
                if (i.getNumOperands() && !isa<BasicBlock>(i.getOperand(0))) d.w2 = tyW(i.getOperand(0)->getType());
                if (auto* c = dyn_cast<CmpInst>(&i)) d.pred = c->getPredicate();
            }
            db.in.push_back(std::move(d));
        }
    }
    return fi;
}
// ---------------------------------------------------------------- exceptions
struct Exc { uint64_t obj = 0, ti = 0; };
static Exc gExc; static vector<Exc> gCaught; static uint64_t gUncaught = 0;
static std::map<uint64_t, int> gTypeId;
static int typeId(uint64_t ti) { auto& i = gTypeId[ti]; if (!i) i = (int)gTypeId.size(); return i; }
static const std::map<string, string> stdBase = {
    { "_ZTISt9bad_alloc", "_ZTISt9exception" }, { "_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc" },
    { "_ZTISt8bad_cast", "_ZTISt9exception" }, { "_ZTISt10bad_typeid", "_ZTISt9exception" },
    { "_ZTISt11logic_error", "_ZTISt9exception" }, { "_ZTISt13runtime_error", "_ZTISt9exception" },
    { "_ZTISt12length_error", "_ZTISt11logic_error" }, { "_ZTISt12out_of_range", "_ZTISt11logic_error" },
    { "_ZTISt16invalid_argument", "_ZTISt11logic_error" }, { "_ZTISt12domain_error", "_ZTISt11logic_error" },
    { "_ZTISt14overflow_error", "_ZTISt13runtime_error" }, { "_ZTISt11range_error", "_ZTISt13runtime_error" },
    { "_ZTISt15underflow_error", "_ZTISt13runtime_error" }, { "_ZTISt12system_error", "_ZTISt13runtime_error" },
    { "_ZTINSt8ios_base7failureB5cxx11E", "_ZTISt12system_error" }, { "_ZTISt17bad_function_call", "_ZTISt9exception" },
    { "_ZTISt18bad_variant_access", "_ZTISt9exception" }, { "_ZTISt19bad_optional_access", "_ZTISt9exception" },
};
static std::map<string, uint64_t> gExtraTI; static std::map<uint64_t, string> gTIName;
static uint64_t tiByName(const string& n)
{
    if (auto* g = M->getNamedGlobal(n)) return gAddr.lookup(g);
    auto& a = gExtraTI[n];
    if (!a) { a = alloc(64, 0, n, false)->base; gTIName[a] = n; }
    return a;
}
static uint64_t tiBase(uint64_t ti)
{ // 0 if none
    auto it = gTIName.find(ti);
    string n = it == gTIName.end() ? "" : it->second;
    auto g = gGvAt.find(ti);
    if (g != gGvAt.end()) {
        GlobalVariable* gv = g->second;
        if (gv->hasInitializer()) {
            auto* st = dyn_cast<ConstantStruct>(gv->getInitializer());
            if (st && st->getNumOperands() == 3) return constAddr(st->getOperand(2));
            if (st && st->getNumOperands() > 3) { Obj* o = findObj(ti); uint64_t b; memcpy(&b, o->d + 24, 8); return b; } // first base of vmi
            return 0;
        }
        n = gv->getName().str();
    }
    auto s = stdBase.find(n);
    return s == stdBase.end() ? 0 : tiByName(s->second);
}
static bool derives(uint64_t ti, uint64_t base)
{
    for (int i = 0; ti && i < 20; ++i) { if (ti == base) return true; ti = tiBase(ti); }
    return false;
}
static void throwStd(const string& tiName)
{
    Obj* o = alloc(64, 2, "exception " + tiName, false);
    memcpy(o->d, &gStdVtable, 8);
    gExc.obj = o->base; gExc.ti = tiByName(tiName);
}
static string excName(uint64_t ti)
{
    auto g = gGvAt.find(ti);
    if (g != gGvAt.end()) return demangle(g->second->getName().str());
    auto it = gTIName.find(ti);
    return it == gTIName.end() ? "?" : demangle(it->second);
}
// ---------------------------------------------------------------- execution
static uint64_t gInsts = 0;
static bool callFn(Function* F, vector<Val>& args, Val& ret, DI* site, CallBase* cb);
static bool doIntrinsic(DI& d, CallBase* cb, vector<Val>& a, Val& ret);

static Val binop(unsigned op, uint32_t w, const Val& a, const Val& b)
{
    if (!a.e && !b.e) {
        uint64_t x = a.c, y = b.c, r = 0;
        auto sx = [&](uint64_t v) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); };
        switch (op) {
        case Instruction::Add: r = x + y; break;
        case Instruction::Sub: r = x - y; break;
        case Instruction::Mul: r = x * y; break;
        case Instruction::UDiv: if (!y) fatal("arith", "division by zero"); r = x / y; break;
        case Instruction::URem: if (!y) fatal("arith", "division by zero"); r = x % y; break;
        case Instruction::SDiv: if (!y) fatal("arith", "division by zero"); r = sx(y) == -1 ? -x : (uint64_t)(sx(x) / sx(y)); break;
        case Instruction::SRem: if (!y) fatal("arith", "division by zero"); r = sx(y) == -1 ? 0 : (uint64_t)(sx(x) % sx(y)); break;
        case Instruction::And: r = x & y; break;
        case Instruction::Or: r = x | y; break;
        case Instruction::Xor: r = x ^ y; break;
        case Instruction::Shl: r = y >= w ? 0 : x << y; break;
        case Instruction::LShr: r = y >= w ? 0 : x >> y; break;
        case Instruction::AShr: r = (uint64_t)(sx(x) >> (y >= w ? w - 1 : y)); break;
        }
        return cv(maskw(r, w));
    }
    E *x = X(a, w), *y = X(b, w);
    Op o;
    switch (op) {
    case Instruction::Add: o = ::Add; break;
    case Instruction::Sub: return ev(mkSub(x, y));
    case Instruction::Mul: o = ::Mul; break;
    case Instruction::UDiv: o = ::UDiv; break;
    case Instruction::URem: o = ::URem; break;
    case Instruction::SDiv: o = ::SDiv; break;
    case Instruction::SRem: o = ::SRem; break;
    case Instruction::And: o = ::And; break;
    case Instruction::Or: o = ::Or; break;
    case Instruction::Xor: o = ::Xor; break;
    case Instruction::Shl: o = ::Shl; break;
    case Instruction::LShr: o = ::LShr; break;
    default: o = ::AShr;
    }
    if (o == ::UDiv || o == ::URem || o == ::SDiv || o == ::SRem) safety(mkBin(Eq, y, mkC(w, 0)), "arith", "division by zero");
    return ev(mkBin(o, x, y));
}
static Val icmp(int p, uint32_t w, const Val& a, const Val& b)
{
    if (!a.e && !b.e) {
        uint64_t x = a.c, y = b.c;
        auto sx = [&](uint64_t v) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); };
        switch (p) {
        case CmpInst::ICMP_EQ: return cv(x == y); case CmpInst::ICMP_NE: return cv(x != y);
        case CmpInst::ICMP_ULT: return cv(x < y); case CmpInst::ICMP_ULE: return cv(x <= y);
        case CmpInst::ICMP_UGT: return cv(x > y); case CmpInst::ICMP_UGE: return cv(x >= y);
        case CmpInst::ICMP_SLT: return cv(sx(x) < sx(y)); case CmpInst::ICMP_SLE: return cv(sx(x) <= sx(y));
        case CmpInst::ICMP_SGT: return cv(sx(x) > sx(y)); default: return cv(sx(x) >= sx(y));
        }
    }
    E *x = X(a, w), *y = X(b, w);
    switch (p) {
    case CmpInst::ICMP_EQ: return ev(mkBin(Eq, x, y)); case CmpInst::ICMP_NE: return ev(mkNot(mkBin(Eq, x, y)));
    case CmpInst::ICMP_ULT: return ev(mkBin(Ult, x, y)); case CmpInst::ICMP_ULE: return ev(mkBin(Ule, x, y));
    case CmpInst::ICMP_UGT: return ev(mkBin(Ult, y, x)); case CmpInst::ICMP_UGE: return ev(mkBin(Ule, y, x));
    case CmpInst::ICMP_SLT: return ev(mkBin(Slt, x, y)); case CmpInst::ICMP_SLE: return ev(mkBin(Sle, x, y));
    case CmpInst::ICMP_SGT: return ev(mkBin(Slt, y, x)); default: return ev(mkBin(Sle, y, x));
    }
}
static Val fcmp(int p, E* a, E* b)
{
    auto N = [](E* e) { return mkNot(e); };
    E* r;
    switch (p) {
    case CmpInst::FCMP_FALSE: return cv(0); case CmpInst::FCMP_TRUE: return cv(1);
    case CmpInst::FCMP_OEQ: r = mkFCmp(FOeq, a, b); break;
    case CmpInst::FCMP_OLT: r = mkFCmp(FOlt, a, b); break;
    case CmpInst::FCMP_OLE: r = mkFCmp(FOle, a, b); break;
    case CmpInst::FCMP_OGT: r = mkFCmp(FOlt, b, a); break;
    case CmpInst::FCMP_OGE: r = mkFCmp(FOle, b, a); break;
    case CmpInst::FCMP_ONE: r = mkBin(Or, mkFCmp(FOlt, a, b), mkFCmp(FOlt, b, a)); break;
    case CmpInst::FCMP_ORD: r = N(mkFCmp(FUno, a, b)); break;
    case CmpInst::FCMP_UNO: r = mkFCmp(FUno, a, b); break;
    case CmpInst::FCMP_UEQ: r = mkBin(Or, mkFCmp(FUno, a, b), mkFCmp(FOeq, a, b)); break;
    case CmpInst::FCMP_ULT: r = N(mkFCmp(FOle, b, a)); break;
    case CmpInst::FCMP_ULE: r = N(mkFCmp(FOlt, b, a)); break;
    case CmpInst::FCMP_UGT: r = N(mkFCmp(FOle, a, b)); break;
    case CmpInst::FCMP_UGE: r = N(mkFCmp(FOlt, a, b)); break;
    default: r = N(mkFCmp(FOeq, a, b));
    }
    return ev(r);
}
static Val loadTy(Type* t, const Val& p)
{
    if (isAgg(t)) {
        Val v; v.agg = new vector<Val>;
        unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
        uint64_t a = addrOf(p, "an aggregate load address");
        for (unsigned i = 0; i < n; ++i) {
            Type* et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
            uint64_t off = t->isStructTy() ? (uint64_t)DL->getStructLayout(cast<StructType>(t))->getElementOffset(i) : i * DL->getTypeAllocSize(et);
            v.agg->push_back(loadTy(et, cv(a + off)));
        }
        return v;
    }
    uint32_t w = tyW(t), n = (w + 7) / 8;
    Val v = load(p, n);
    if (w != n * 8) { if (v.e) v = ev(mkExtract(v.e, 0, w)); else v.c = maskw(v.c, w); }
    return v;
}
static void storeTy(Type* t, const Val& p, const Val& v)
{
    if (isAgg(t)) {
        unsigned n = v.agg->size();
        uint64_t a = addrOf(p, "an aggregate store address");
        for (unsigned i = 0; i < n; ++i) {
            Type* et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
            uint64_t off = t->isStructTy() ? (uint64_t)DL->getStructLayout(cast<StructType>(t))->getElementOffset(i) : i * DL->getTypeAllocSize(et);
            storeTy(et, cv(a + off), (*v.agg)[i]);
        }
        return;
    }
    uint32_t w = tyW(t), n = (w + 7) / 8;
    store(p, n, v);
}

static bool landing(LandingPadInst* lp, Val& out)
{ // decide whether this landing pad is entered for gExc; fills {ptr, sel}
    int sel = 0; bool enter = lp->isCleanup();
    for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
        Constant* c = lp->getClause(i);
        if (lp->isCatch(i)) {
            if (isa<ConstantPointerNull>(c)) { sel = typeId(0); enter = true; break; }
            uint64_t ti = constAddr(c);
            if (derives(gExc.ti, ti)) { sel = typeId(ti); enter = true; break; }
        } else { sel = -1; enter = true; break; }
    }
    out.agg = new vector<Val> { cv(gExc.obj), cv((uint32_t)sel) };
    return enter;
}

static bool execFn(Function* F, vector<Val>& args, Val& ret)
{
    FI* fi = decode(F);
    {
        auto it = gFnIdx.find(F);
        if (it != gFnIdx.end() && it->second < MAXF) SH->fn[it->second] = 1;
    }
    if (gStackTrace.size() > 3000) fatal("resource", "call depth exceeds 3000 (runaway recursion)");
    vector<Val> R(fi->nslots);
    for (unsigned i = 0; i < args.size() && i < F->arg_size(); ++i) R[i] = args[i];
    vector<Obj*> stk;
    int b = 0, prev = -1;
    bool threw = false;
    gStackTrace.push_back(nullptr);
    auto G = [&](const Opnd& o) -> const Val& { return o.slot >= 0 ? R[o.slot] : o.c; };
    for (;;) {
        DB& db = fi->bbs[b];
        unsigned ip = 0;
        if (db.nphi) {
            vector<Val> tmp(db.nphi);
            BasicBlock* pb = fi->bbs[prev].bb;
            for (unsigned i = 0; i < db.nphi; ++i) {
                PHINode* ph = cast<PHINode>(db.in[i].I);
                int k = ph->getBasicBlockIndex(pb);
                tmp[i] = G(db.in[i].o[k]);
            }
            for (unsigned i = 0; i < db.nphi; ++i) R[db.in[i].dst] = tmp[i];
            ip = db.nphi;
        }
        int next = -1;
        for (; ip < db.in.size(); ++ip) {
            DI& d = db.in[ip];
            gCur = d.I; gStackTrace.back() = d.I;
            if (++gInsts >= gMaxInst) { SH->e[gEntry].insts += gInsts; fatal("resource", "instruction bound exceeded on one path (possible non-termination)"); }
            if ((gInsts & 0xfffff) == 0) timeCheck();
            switch (d.op) {
            case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
            case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor:
            case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
                if (d.I->getType()->isVectorTy()) {
                    auto* vt = cast<FixedVectorType>(d.I->getType()); uint32_t ew = tyW(vt->getElementType()); E* r = nullptr;
                    E *x = X(G(d.o[0]), d.w), *y = X(G(d.o[1]), d.w);
                    for (unsigned i = 0; i < vt->getNumElements(); ++i) { E* z = X(binop(d.op, ew, ev(mkExtract(x, i * ew, ew)), ev(mkExtract(y, i * ew, ew))), ew); r = r ? mkConcat(z, r) : z; }
                    R[d.dst] = ev(r); break;
                }
                R[d.dst] = binop(d.op, d.w, G(d.o[0]), G(d.o[1]));
                break;
            case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
                if (d.w > 64 || d.I->getType()->isVectorTy()) unsupported("vector or long double arithmetic");
                Op o = d.op == Instruction::FAdd ? ::FAdd : d.op == Instruction::FSub ? ::FSub : d.op == Instruction::FMul ? ::FMul : d.op == Instruction::FDiv ? ::FDiv : ::FRem;
                E *x = X(G(d.o[0]), d.w), *y = X(G(d.o[1]), d.w);
                if (o == ::FRem) { x = mkC(x->w, concretize(x, "an fmod operand")); y = mkC(y->w, concretize(y, "an fmod operand")); }
                R[d.dst] = ev(mkFBin(o, x, y));
                break;
            }
            case Instruction::FNeg: R[d.dst] = ev(mkFNeg(X(G(d.o[0]), d.w))); break;
            case Instruction::ICmp:
                if (d.I->getType()->isVectorTy()) unsupported("vector icmp");
                R[d.dst] = icmp(d.pred, d.w2, G(d.o[0]), G(d.o[1])); break;
            case Instruction::FCmp: R[d.dst] = fcmp(d.pred, X(G(d.o[0]), d.w2), X(G(d.o[1]), d.w2)); break;
            case Instruction::ZExt: { const Val& v = G(d.o[0]); R[d.dst] = v.e || d.w > 64 ? ev(mkZExt(X(v, d.w2), d.w)) : v; break; }
            case Instruction::SExt: {
                const Val& v = G(d.o[0]);
                if (v.e || d.w > 64) R[d.dst] = ev(mkSExt(X(v, d.w2), d.w));
                else R[d.dst] = cv(maskw((uint64_t)((int64_t)(v.c << (64 - d.w2)) >> (64 - d.w2)), d.w));
                break;
            }
            case Instruction::Trunc: { const Val& v = G(d.o[0]); R[d.dst] = v.e ? ev(mkExtract(v.e, 0, d.w)) : cv(maskw(v.c, d.w)); break; }
            case Instruction::PtrToInt: case Instruction::IntToPtr: {
                const Val& v = G(d.o[0]);
                if (d.w == d.w2) R[d.dst] = v;
                else if (d.w < d.w2) R[d.dst] = v.e ? ev(mkExtract(v.e, 0, d.w)) : cv(maskw(v.c, d.w));
                else R[d.dst] = ev(mkZExt(X(v, d.w2), d.w));
                break;
            }
            case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Freeze: R[d.dst] = G(d.o[0]); break;
            case Instruction::SIToFP: R[d.dst] = ev(mkIToF(true, X(G(d.o[0]), d.w2), d.w)); break;
            case Instruction::UIToFP: R[d.dst] = ev(mkIToF(false, X(G(d.o[0]), d.w2), d.w)); break;
            case Instruction::FPToSI: R[d.dst] = ev(mkFToI(true, X(G(d.o[0]), d.w2), d.w)); break;
            case Instruction::FPToUI: R[d.dst] = ev(mkFToI(false, X(G(d.o[0]), d.w2), d.w)); break;
            case Instruction::FPExt: if (d.w > 64) unsupported("long double"); R[d.dst] = ev(mkFPExt(X(G(d.o[0]), d.w2))); break;
            case Instruction::FPTrunc: if (d.w2 > 64) unsupported("long double"); R[d.dst] = ev(mkFPTrunc(X(G(d.o[0]), d.w2))); break;
            case Instruction::Select: {
                const Val& c = G(d.o[0]);
                if (!c.e) { R[d.dst] = G(d.o[c.c ? 1 : 2]); break; }
                int k = knownBool(c.e);
                if (k >= 0) { R[d.dst] = G(d.o[k ? 1 : 2]); break; }
                if (!d.w) { R[d.dst] = G(d.o[branch(c.e) ? 1 : 2]); break; }
                R[d.dst] = ev(mkIte(c.e, X(G(d.o[1]), d.w), X(G(d.o[2]), d.w)));
                break;
            }
            case Instruction::Alloca: {
                auto* ai = cast<AllocaInst>(d.I);
                uint64_t n = DL->getTypeAllocSize(ai->getAllocatedType());
                if (ai->isArrayAllocation()) { const Val& c = G(d.o[0]); n *= c.e ? concretize(c.e, "an alloca size") : c.c; }
                Obj* o = alloc(n, 1, ai->getName().str() + " in " + F->getName().str(), true);
                stk.push_back(o);
                R[d.dst] = cv(o->base);
                break;
            }
            case Instruction::Load: R[d.dst] = loadTy(d.I->getType(), G(d.o[0])); break;
            case Instruction::Store: storeTy(cast<StoreInst>(d.I)->getValueOperand()->getType(), G(d.o[1]), G(d.o[0])); break;
            case Instruction::GetElementPtr: {
                const Val& p = G(d.o[0]);
                E* e = p.e; uint64_t a = p.c + d.off;
                if (e) { e = mkBin(::Add, e, mkC(64, d.off)); }
                for (auto& ix : d.idx) {
                    const Val& v = G(d.o[ix.first]);
                    uint32_t iw = tyW(d.I->getOperand(0)->getType());
                    iw = d.w2;
                    if (!v.e && !e) {
                        int64_t s = iw >= 64 ? (int64_t)v.c : (int64_t)(v.c << (64 - iw)) >> (64 - iw);
                        a += (uint64_t)s * ix.second;
                    } else {
                        E* x = X(v, v.e ? v.e->w : iw);
                        if (x->w < 64) x = mkSExt(x, 64);
                        x = mkBin(::Mul, x, mkC(64, ix.second));
                        e = mkBin(::Add, e ? e : mkC(64, a), x);
                    }
                }
                R[d.dst] = e ? ev(e) : cv(a);
                break;
            }
            case Instruction::ExtractValue: {
                Val v = G(d.o[0]);
                for (unsigned k : cast<ExtractValueInst>(d.I)->indices()) { Val t = (*v.agg)[k]; v = t; }
                R[d.dst] = v;
                break;
            }
            case Instruction::InsertValue: {
                Val v = G(d.o[0]); Val n; n.agg = new vector<Val>(*v.agg);
                vector<Val>* cur = n.agg; auto ids = cast<InsertValueInst>(d.I)->getIndices();
                for (unsigned k = 0; k + 1 < ids.size(); ++k) { (*cur)[ids[k]].agg = new vector<Val>(*(*cur)[ids[k]].agg); cur = (*cur)[ids[k]].agg; }
                (*cur)[ids.back()] = G(d.o[1]);
                R[d.dst] = n;
                break;
            }
            case Instruction::ExtractElement: {
                auto* vt = cast<FixedVectorType>(d.I->getOperand(0)->getType()); uint32_t ew = tyW(vt->getElementType());
                const Val& ix = G(d.o[1]); uint64_t k = ix.e ? concretize(ix.e, "a vector index") : ix.c;
                R[d.dst] = ev(mkExtract(X(G(d.o[0]), ew * vt->getNumElements()), k * ew, ew));
                break;
            }
            case Instruction::InsertElement: {
                auto* vt = cast<FixedVectorType>(d.I->getType()); uint32_t ew = tyW(vt->getElementType()), n = vt->getNumElements();
                const Val& ix = G(d.o[2]); uint64_t k = ix.e ? concretize(ix.e, "a vector index") : ix.c;
                E* x = X(G(d.o[0]), ew * n); E* r = nullptr;
                for (unsigned i = 0; i < n; ++i) { E* z = i == k ? X(G(d.o[1]), ew) : mkExtract(x, i * ew, ew); r = r ? mkConcat(z, r) : z; }
                R[d.dst] = ev(r);
                break;
            }
            case Instruction::ShuffleVector: {
                auto* sv = cast<ShuffleVectorInst>(d.I); auto* vt = cast<FixedVectorType>(sv->getOperand(0)->getType());
                uint32_t ew = tyW(vt->getElementType()), n = vt->getNumElements();
                E *x = X(G(d.o[0]), ew * n), *y = X(G(d.o[1]), ew * n), *r = nullptr;
                for (int m : sv->getShuffleMask()) { E* z = m < 0 ? mkC(ew, 0) : (unsigned)m < n ? mkExtract(x, m * ew, ew) : mkExtract(y, (m - n) * ew, ew); r = r ? mkConcat(z, r) : z; }
                R[d.dst] = ev(r);
                break;
            }
            case Instruction::Br:
                if (d.succ[1] < 0) next = d.succ[0];
                else {
                    const Val& c = G(d.o[0]);
                    bool t = c.e ? branch(c.e) : c.c;
                    next = d.succ[t ? 0 : 1];
                }
                break;
            case Instruction::Switch: {
                auto* sw = cast<SwitchInst>(d.I);
                Val c = G(d.o[0]);
                if (!c.e) {
                    BasicBlock* t = sw->getDefaultDest();
                    for (auto& k : sw->cases()) if (k.getCaseValue()->getZExtValue() == c.c) { t = k.getCaseSuccessor(); break; }
                    next = fi->bidx[t];
                } else {
                    std::map<int, E*> conds; vector<int> order; E* any = mkC(1, 0);
                    for (auto& k : sw->cases()) {
                        int t = fi->bidx[k.getCaseSuccessor()];
                        E* q = mkBin(Eq, c.e, mkC(c.e->w, k.getCaseValue()->getZExtValue()));
                        any = mkBin(Or, any, q);
                        if (!conds.count(t)) { conds[t] = q; order.push_back(t); } else conds[t] = mkBin(Or, conds[t], q);
                    }
                    next = fi->bidx[sw->getDefaultDest()];
                    for (int t : order) {
                        if (t == fi->bidx[sw->getDefaultDest()]) continue;
                        if (branch(conds[t])) { next = t; break; }
                    }
                }
                break;
            }
            case Instruction::Call: case Instruction::Invoke: {
                CallBase* cb = cast<CallBase>(d.I);
                Val r; bool t;
                unsigned n = cb->arg_size();
                vector<Val> a; a.reserve(n);
                for (unsigned i = 0; i < n; ++i) a.push_back(G(d.o[i]));
                if (d.intr) t = doIntrinsic(d, cb, a, r);
                else {
                    Function* f = d.callee;
                    if (!f) {
                        const Val& p = G(d.o.back());
                        uint64_t ad = p.e ? concretize(p.e, "a function pointer") : p.c;
                        auto it = gFnAt.find(ad);
                        if (it == gFnAt.end()) {
                            if (ad == gStdVtable + 8) { r = cv(gWhatStr); t = false; goto called; }
                            fatal("memory", "call through an invalid function pointer");
                        }
                        f = it->second;
                    }
                    // byval arguments get a private copy
                    for (unsigned i = 0; i < n; ++i)
                        if (cb->isByValArgument(i)) {
                            uint64_t sz = DL->getTypeAllocSize(cb->getParamByValType(i));
                            Obj* o = alloc(sz, 1, "byval", true); stk.push_back(o);
                            copyBytes(o->base, addrOf(a[i], "a byval argument"), sz);
                            a[i] = cv(o->base);
                        }
                    t = callFn(f, a, r, &d, cb);
                }
            called:
                gCur = d.I; gStackTrace.back() = d.I;
                if (t) {
                    if (d.op == Instruction::Invoke) {
                        LandingPadInst* lp = fi->bbs[d.succ[1]].bb->getLandingPadInst();
                        Val lv;
                        if (landing(lp, lv)) {
                            // the landingpad instruction follows the phis
                            next = d.succ[1];
                            break;
                        }
                    }
                    threw = true; goto out;
                }
                if (d.dst >= 0) R[d.dst] = r;
                if (d.op == Instruction::Invoke) next = d.succ[0];
                break;
            }
            case Instruction::LandingPad: { Val lv; landing(cast<LandingPadInst>(d.I), lv); R[d.dst] = lv; break; }
            case Instruction::Resume: {
                const Val& v = G(d.o[0]);
                if ((*v.agg)[0].c != gExc.obj) { /* nested: keep the object's own record */ }
                gExc.obj = (*v.agg)[0].c;
                threw = true; goto out;
            }
            case Instruction::Ret: if (!d.o.empty()) ret = G(d.o[0]); goto out;
            case Instruction::Unreachable: fatal("memory", "reached code that must be unreachable (undefined behaviour)");
            case Instruction::AtomicRMW: {
                auto* ar = cast<AtomicRMWInst>(d.I); uint32_t w = d.w;
                Val old = loadTy(ar->getType(), G(d.o[0])), nv;
                switch (ar->getOperation()) {
                case AtomicRMWInst::Xchg: nv = G(d.o[1]); break;
                case AtomicRMWInst::Add: nv = binop(Instruction::Add, w, old, G(d.o[1])); break;
                case AtomicRMWInst::Sub: nv = binop(Instruction::Sub, w, old, G(d.o[1])); break;
                default: unsupported("atomicrmw");
                }
                storeTy(ar->getType(), G(d.o[0]), nv);
                R[d.dst] = old;
                break;
            }
            case Instruction::AtomicCmpXchg: { // one thread: a compare and a store
                auto* cx = cast<AtomicCmpXchgInst>(d.I); Type* ty = cx->getCompareOperand()->getType(); uint32_t w = tyW(ty);
                Val old = loadTy(ty, G(d.o[0]));
                E* eq = mkBin(Eq, X(old, w), X(G(d.o[1]), w));
                bool hit = isC(eq) ? eq->v : branch(eq);
                if (hit) storeTy(ty, G(d.o[0]), G(d.o[2]));
                R[d.dst].agg = new vector<Val> { old, cv(hit) };
                break;
            }
            case Instruction::Fence: break;
            default: unsupported(string("instruction ") + d.I->getOpcodeName());
            }
            if (next >= 0) break;
        }
        prev = b; b = next;
    }
out:
    for (Obj* o : stk) freeObj(o);
    gStackTrace.pop_back();
    return threw;
}
static bool callFn(Function* F, vector<Val>& args, Val& ret, DI* site, CallBase* cb)
{
    // modelled functions take precedence over bodies only when external
    if (F->isDeclaration()) {
        static std::unordered_map<Function*, ExtFn> cache;
        auto it = cache.find(F);
        ExtFn f = it == cache.end() ? (cache[F] = lookupExt(F->getName().str())) : it->second;
        if (!f) unsupported("external function " + demangle(F->getName().str()));
        return f(*site, cb, args, ret);
    }
    return execFn(F, args, ret);
}
// ---------------------------------------------------------------- memory intrinsics
static void doMemcpy(const Val& dst, const Val& src, const Val& len)
{
    uint64_t n;
    if (len.e) {
        APInt lo, hi;
        uint64_t d = addrOf(dst, "a memcpy destination"), s = addrOf(src, "a memcpy source");
        if (getRange(len.e, lo, hi) && hi.getZExtValue() <= 512 && lo != hi) {
            uint64_t h = hi.getZExtValue();
            Obj* so = findObj(s); Obj* dO = findObj(d);
            if (so && dO && !so->freed && !dO->freed && s + h <= so->base + so->size && d + h <= dO->base + dO->size && !so->symSize && !dO->symSize) {
                vector<E*> src8;
                for (uint64_t i = 0; i < h; ++i) src8.push_back(byteAt(so, s - so->base + i));
                for (uint64_t i = 0; i < h; ++i) {
                    E* c = mkBin(Ult, mkC(64, i), len.e->w == 64 ? len.e : mkZExt(len.e, 64));
                    if (isTrue(c)) { storeC(d + i, 1, ev(src8[i])); continue; }
                    E* old = byteAt(dO, d - dO->base + i);
                    storeC(d + i, 1, ev(mkIte(c, src8[i], old)));
                }
                return;
            }
        }
        n = concretize(len.e, "a copy length", 64);
        copyBytes(d, s, n);
        return;
    }
    n = len.c;
    if (!n) return;
    copyBytes(addrOf(dst, "a memcpy destination"), addrOf(src, "a memcpy source"), n);
}
static void doMemset(const Val& dst, const Val& b, const Val& len)
{
    uint64_t d = addrOf(dst, "a memset destination");
    uint64_t n = len.c;
    if (len.e) {
        Obj* o = findObj(d);
        E* L = len.e->w == 64 ? len.e : mkZExt(len.e, 64);
        if (o && o->symSize && !o->freed) {
            uint64_t off = d - o->base;
            safety(mkBin(Or, mkBin(Ult, o->symSize, mkBin(::Add, L, mkC(64, off))), mkBin(Ult, mkBin(::Add, L, mkC(64, off)), L)), "memory", "memset past the end of an object of symbolic size");
            // bytes past the length are still outside the object or never written before
            bool fresh = true;
            for (uint64_t i = off; i < o->size; ++i) if (!o->u || !o->u[i]) { fresh = false; break; }
            if (fresh) {
                E* bb = b.e;
                for (uint64_t i = off; i < o->size; ++i) { o->d[i] = b.c; if (o->s) o->s[i] = bb; }
                if (bb && !o->s) { o->s = (E**)calloc(o->size, sizeof(E*)); for (uint64_t i = off; i < o->size; ++i) o->s[i] = bb; }
                memset(o->u + off, 0, o->size - off);
                return;
            }
        }
        n = concretize(len.e, "a fill length", 64);
    }
    if (!n) return;
    Obj* o = access(d, n, true);
    uint64_t off = d - o->base;
    if (o->u) memset(o->u + off, 0, n);
    if (!b.e) { memset(o->d + off, (int)b.c, n); if (o->s) memset(o->s + off, 0, n * sizeof(E*)); }
    else { if (!o->s) o->s = (E**)calloc(o->size, sizeof(E*)); E* x = mkExtract(b.e, 0, 8); for (uint64_t i = 0; i < n; ++i) o->s[off + i] = x; }
}
static Val bitlen(E* x)
{ // number of significant bits, as 64-bit expression
    E* r = mkC(64, 0);
    for (uint32_t i = 0; i < x->w; ++i) r = mkIte(mkExtract(x, i, 1), mkC(64, i + 1), r);
    return ev(r);
}
static Val fscale(E* x, int n)
{ // x * 2^n (ldexp)
    double f;
    while (n > 1000) { x = mkFBin(::FMul, x, mkC(64, [] { double d = ldexp(1, 1000); uint64_t v; memcpy(&v, &d, 8); return v; }())); n -= 1000; }
    while (n < -1000) { x = mkFBin(::FMul, x, mkC(64, [] { double d = ldexp(1, -1000); uint64_t v; memcpy(&v, &d, 8); return v; }())); n += 1000; }
    f = ldexp(1.0, n);
    uint64_t v; memcpy(&v, &f, 8);
    return ev(mkFBin(::FMul, x, mkC(64, v)));
}
static uint64_t dbits(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static double bitsd(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static Val mathPow(E* x, E* y)
{
    if (isC(x) && isC(y)) return cv(dbits(pow(bitsd(x->v), bitsd(y->v))));
    if (isC(y)) {
        double d = bitsd(y->v);
        if (d == 1) return ev(x);
        if (d == 2) return ev(mkFBin(::FMul, x, x));
        if (d == 0) return cv(dbits(1.0));
        if (d == 0.5) return ev(mkFUn(FnSqrt, x));
        if (d == -1) return ev(mkFBin(::FDiv, mkC(64, dbits(1.0)), x));
    }
    uint64_t yv = concretize(y, "an exponent");
    if (!isC(x)) x = mkC(64, concretize(x, "a pow base"));
    return cv(dbits(pow(bitsd(x->v), bitsd(yv))));
}
static bool doIntrinsic(DI& d, CallBase* cb, vector<Val>& a, Val& ret)
{
    uint32_t w = d.w;
    auto x = [&](int i) { return X(a[i], tyW(cb->getArgOperand(i)->getType())); };
    switch (d.intr) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: doMemcpy(a[0], a[1], a[2]); return false;
    case Intrinsic::memset: case Intrinsic::memset_inline: doMemset(a[0], a[1], a[2]); return false;
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing:
    case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
    case Intrinsic::stackrestore: case Intrinsic::prefetch: case Intrinsic::vaend: case Intrinsic::vastart: return false;
    case Intrinsic::stacksave: ret = cv(0); return false;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
    case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy: ret = a[0]; return false;
    case Intrinsic::is_constant: ret = cv(0); return false;
    case Intrinsic::objectsize: ret = cv(maskw(~0ull, w)); return false;
    case Intrinsic::trap: case Intrinsic::ubsantrap: fatal("memory", "trap");
    case Intrinsic::umax: ret = ev(mkIte(mkBin(Ult, x(0), x(1)), x(1), x(0))); return false;
    case Intrinsic::umin: ret = ev(mkIte(mkBin(Ult, x(0), x(1)), x(0), x(1))); return false;
    case Intrinsic::smax: ret = ev(mkIte(mkBin(Slt, x(0), x(1)), x(1), x(0))); return false;
    case Intrinsic::smin: ret = ev(mkIte(mkBin(Slt, x(0), x(1)), x(0), x(1))); return false;
    case Intrinsic::abs: { E* v = x(0); ret = ev(mkIte(mkExtract(v, w - 1, 1), mkNeg(v), v)); return false; }
    case Intrinsic::bswap: {
        E* v = x(0); E* r = mkExtract(v, 0, 8);
        for (uint32_t i = 8; i < w; i += 8) r = mkConcat(r, mkExtract(v, i, 8));
        ret = ev(r); return false;
    }
    case Intrinsic::bitreverse: { E* v = x(0); E* r = mkExtract(v, 0, 1); for (uint32_t i = 1; i < w; ++i) r = mkConcat(r, mkExtract(v, i, 1)); ret = ev(r); return false; }
    case Intrinsic::ctpop: { E* v = x(0); E* r = mkC(w, 0); for (uint32_t i = 0; i < w; ++i) r = mkBin(::Add, r, w == 1 ? mkExtract(v, i, 1) : mkZExt(mkExtract(v, i, 1), w)); ret = ev(r); return false; }
    case Intrinsic::ctlz: { E* v = x(0); E* r = mkC(w, w); for (uint32_t i = 0; i < w; ++i) r = mkIte(mkExtract(v, i, 1), mkC(w, w - 1 - i), r); ret = ev(r); return false; }
    case Intrinsic::cttz: { E* v = x(0); E* r = mkC(w, w); for (int i = w - 1; i >= 0; --i) r = mkIte(mkExtract(v, i, 1), mkC(w, i), r); ret = ev(r); return false; }
    case Intrinsic::fshl: case Intrinsic::fshr: {
        E *h = x(0), *l = x(1), *s = mkBin(::URem, x(2), mkC(w, w));
        E* cc = mkConcat(h, l); E* ss = mkZExt(s, 2 * w);
        ret = ev(d.intr == Intrinsic::fshl ? mkExtract(mkBin(::Shl, cc, ss), w, w) : mkExtract(mkBin(::LShr, cc, ss), 0, w));
        return false;
    }
    case Intrinsic::uadd_sat: case Intrinsic::usub_sat: {
        E *p = x(0), *q = x(1);
        if (d.intr == Intrinsic::usub_sat) ret = ev(mkIte(mkBin(Ult, p, q), mkC(w, 0), mkSub(p, q)));
        else { E* s = mkBin(::Add, p, q); ret = ev(mkIte(mkBin(Ult, s, p), mkC(APInt::getAllOnes(w)), s)); }
        return false;
    }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        uint32_t iw = tyW(cb->getArgOperand(0)->getType());
        E *p = x(0), *q = x(1);
        bool s = d.intr == Intrinsic::sadd_with_overflow || d.intr == Intrinsic::ssub_with_overflow || d.intr == Intrinsic::smul_with_overflow;
        bool mul = d.intr == Intrinsic::umul_with_overflow || d.intr == Intrinsic::smul_with_overflow;
        bool sub = d.intr == Intrinsic::usub_with_overflow || d.intr == Intrinsic::ssub_with_overflow;
        uint32_t W = mul ? 2 * iw : iw + 1;
        E *P = s ? mkSExt(p, W) : mkZExt(p, W), *Q = s ? mkSExt(q, W) : mkZExt(q, W);
        E* r = mul ? mkBin(::Mul, P, Q) : sub ? mkSub(P, Q) : mkBin(::Add, P, Q);
        E* t = mkExtract(r, 0, iw);
        E* ov = mkNot(mkBin(Eq, r, s ? mkSExt(t, W) : mkZExt(t, W)));
        ret.agg = new vector<Val> { ev(t), ev(ov) };
        return false;
    }
    case Intrinsic::eh_typeid_for: ret = cv((uint32_t)typeId(a[0].c)); return false;
    case Intrinsic::fabs: ret = ev(mkFAbs(x(0))); return false;
    case Intrinsic::copysign: { E *p = x(0), *q = x(1); E* s = q->op == FScaled ? q->a : mkExtract(q, w - 1, 1); E* ab = mkFAbs(p); ret = ev(mkIte(s, mkFNeg(ab), ab)); return false; }
    case Intrinsic::floor: ret = ev(mkFUn(FnFloor, x(0))); return false;
    case Intrinsic::ceil: ret = ev(mkFUn(FnCeil, x(0))); return false;
    case Intrinsic::trunc: ret = ev(mkFUn(FnTrunc, x(0))); return false;
    case Intrinsic::round: ret = ev(mkFUn(FnRound, x(0))); return false;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: ret = ev(mkFUn(FnRint, x(0))); return false;
    case Intrinsic::sqrt: ret = ev(mkFUn(FnSqrt, x(0))); return false;
    case Intrinsic::log: ret = ev(mkFUn(FnLog, x(0))); return false;
    case Intrinsic::log2: ret = ev(mkFUn(FnLog2, x(0))); return false;
    case Intrinsic::log10: ret = ev(mkFUn(FnLog10, x(0))); return false;
    case Intrinsic::exp2: ret = mathPow(mkC(64, dbits(2.0)), x(0)); return false;
    case Intrinsic::pow: ret = mathPow(x(0), x(1)); return false;
    case Intrinsic::powi: { E* n = x(1); int k = (int)concretize(n, "an exponent"); ret = mathPow(x(0), mkC(64, dbits(k))); return false; }
    case Intrinsic::ldexp: { E* n = x(1); uint64_t k = concretize(n, "an exponent"); ret = fscale(x(0), (int)(n->w == 32 ? (int32_t)k : (int64_t)k)); return false; }
    case Intrinsic::fmuladd: ret = ev(mkFBin(::FAdd, mkFBin(::FMul, x(0), x(1)), x(2))); return false;
    case Intrinsic::minnum: case Intrinsic::maxnum: {
        E *p = x(0), *q = x(1); E* c = d.intr == Intrinsic::minnum ? mkFCmp(FOlt, q, p) : mkFCmp(FOlt, p, q);
        E* r = mkIte(c, q, p); r = mkIte(mkFCmp(FUno, p, p), q, r); ret = ev(r); return false;
    }
    case Intrinsic::is_fpclass: {
        E* p = x(0); uint64_t m = a[1].c; uint64_t inf = p->w == 64 ? 0x7ff0000000000000ull : 0x7f800000ull;
        E* mag = mkExtract(p, 0, p->w - 1); E* r = mkC(1, 0);
        if ((m & 3) == 3) r = mkBin(Or, r, mkBin(Ult, mkC(p->w - 1, inf), mag)); else if (m & 3) unsupported("is.fpclass");
        if ((m & 0x204) == 0x204) r = mkBin(Or, r, mkBin(Eq, mag, mkC(p->w - 1, inf))); else if (m & 0x204) unsupported("is.fpclass");
        if ((m & 0x1f8) == 0x1f8) r = mkBin(Or, r, mkBin(Ult, mag, mkC(p->w - 1, inf))); else if (m & 0x1f8) unsupported("is.fpclass");
        ret = ev(r); return false;
    }
    default: unsupported("intrinsic " + cb->getCalledFunction()->getName().str());
    }
}
// ---------------------------------------------------------------- external functions
static Obj* heapAlloc(const Val& sz, const char* nm)
{
    if (!sz.e) {
        if (sz.c > (1ull << 36)) return nullptr;
        if (sz.c > (1ull << 28)) { Obj* o = alloc(1 << 20, 2, nm, true); o->symSize = mkC(64, sz.c); o->capped = true; return o; }
        return alloc(sz.c, 2, nm, true);
    }
    if (branch(mkBin(Ult, mkC(64, 1ull << 36), sz.e))) return nullptr;
    APInt lo, hi;
    if (!getRange(sz.e, lo, hi)) { incomplete("range of an allocation size"); return alloc(concretize(sz.e, "an allocation size", 8), 2, nm, true); }
    if (lo == hi) return alloc(lo.getZExtValue(), 2, nm, true);
    uint64_t cap = hi.getZExtValue(); bool capped = false;
    if (cap > (1 << 16)) { cap = 1 << 16; capped = true; }
    Obj* o = alloc(cap, 2, string(nm) + " of symbolic size", true);
    o->symSize = sz.e; o->capped = capped;
    return o;
}
#define EXT(n) static bool n(DI& d, CallBase* cb, vector<Val>& a, Val& ret)
EXT(x_new) { Obj* o = heapAlloc(a[0], "operator new"); if (!o) { throwStd("_ZTISt9bad_alloc"); return true; } ret = cv(o->base); return false; }
EXT(x_newnt) { Obj* o = heapAlloc(a[0], "operator new"); ret = cv(o ? o->base : 0); return false; }
EXT(x_calloc) { Val n = binop(Instruction::Mul, 64, a[0], a[1]); Obj* o = heapAlloc(n, "calloc"); if (o) { if (o->u) memset(o->u, 0, o->size); } ret = cv(o ? o->base : 0); return false; }
EXT(x_del)
{
    uint64_t p = addrOf(a[0], "a freed pointer");
    if (!p) return false;
    auto it = gMem.find(p);
    if (it == gMem.end()) fatal("memory", "free of an invalid pointer: " + ptrDesc(p));
    if (it->second->kind != 2) fatal("memory", "free of a non-heap object: " + ptrDesc(p));
    if (it->second->freed) fatal("memory", "double free of " + ptrDesc(p));
    Obj* o = it->second;
    o->freed = true;
    return false;
}
EXT(x_nop) { return false; }
EXT(x_zero) { ret = cv(0); return false; }
EXT(x_one) { ret = cv(1); return false; }
EXT(x_what) { ret = cv(gWhatStr); return false; }
EXT(x_memcpy) { doMemcpy(a[0], a[1], a[2]); ret = a[0]; return false; }
EXT(x_memset) { Val b = a[1].e ? ev(mkExtract(a[1].e, 0, 8)) : cv(a[1].c & 0xff); doMemset(a[0], b, a[2]); ret = a[0]; return false; }
EXT(x_memcmp)
{
    uint64_t n = a[2].e ? concretize(a[2].e, "a memcmp length", 64) : a[2].c;
    if (!n) { ret = cv(0); return false; }
    uint64_t p = addrOf(a[0], "memcmp"), q = addrOf(a[1], "memcmp");
    Obj *o1 = access(p, n, false), *o2 = access(q, n, false);
    if (!o1->s && !o2->s && !o1->u && !o2->u) { int c = memcmp(o1->d + (p - o1->base), o2->d + (q - o2->base), n); ret = cv((uint32_t)(c < 0 ? -1 : c > 0)); return false; }
    E* r = mkC(32, 0);
    for (int64_t i = n - 1; i >= 0; --i) {
        E *x = byteAt(o1, p - o1->base + i), *y = byteAt(o2, q - o2->base + i);
        if (x == y) continue;
        r = mkIte(mkBin(Eq, x, y), r, mkIte(mkBin(Ult, x, y), mkC(32, (uint32_t)-1), mkC(32, 1)));
    }
    ret = ev(r);
    return false;
}
EXT(x_strlen)
{
    uint64_t p = addrOf(a[0], "strlen"), n = 0;
    for (;; ++n) { Val v = loadC(p + n, 1); if (v.e ? branch(mkBin(Eq, v.e, mkC(8, 0))) : v.c == 0) break; }
    ret = cv(n);
    return false;
}
EXT(x_memchr)
{
    uint64_t p = addrOf(a[0], "memchr"), n = a[2].e ? concretize(a[2].e, "memchr length", 64) : a[2].c;
    E* c = mkExtract(X(a[1], 32), 0, 8);
    for (uint64_t i = 0; i < n; ++i) { Val v = loadC(p + i, 1); E* q = mkBin(Eq, X(v, 8), c); if (isC(q) ? q->v : branch(q)) { ret = cv(p + i); return false; } }
    ret = cv(0);
    return false;
}
EXT(x_hash)
{
    uint64_t n = a[1].e ? concretize(a[1].e, "hash length", 64) : a[1].c, p = addrOf(a[0], "hash");
    string s;
    for (uint64_t i = 0; i < n; ++i) { Val v = loadC(p + i, 1); s += (char)(v.e ? concretize(v.e, "a hashed byte") : v.c); }
    ret = cv(std::_Hash_bytes(s.data(), n, a[2].c));
    return false;
}
EXT(x_allocexc) { ret = cv(alloc(a[0].c, 2, "exception object", true)->base); return false; }
EXT(x_throw) { gExc.obj = a[0].c; gExc.ti = a[1].c; return true; }
EXT(x_rethrow) { if (gCaught.empty()) fatal("exception", "rethrow with no active exception"); gExc = gCaught.back(); return true; }
EXT(x_begincatch) { gCaught.push_back({ a[0].c, gExc.ti }); ret = a[0]; return false; }
EXT(x_endcatch) { if (!gCaught.empty()) gCaught.pop_back(); return false; }
EXT(x_getexc) { ret = a[0]; return false; }
EXT(x_guardacq) { Val v = loadC(a[0].c, 1); ret = cv(v.c ? 0 : 1); return false; }
EXT(x_guardrel) { storeC(a[0].c, 1, cv(1)); return false; }
EXT(x_terminate) { fatal("exception", "std::terminate (exception escaped a noexcept function" + (gExc.ti ? ": " + excName(gExc.ti) : string()) + ")"); }
EXT(x_abort) { fatal("abort", "program aborts"); }
EXT(x_purevirt) { fatal("memory", "pure virtual call"); }
template <char const* N> static bool x_throwstd(DI&, CallBase*, vector<Val>&, Val&) { throwStd(N); return true; }
static constexpr char tBadAlloc[] = "_ZTISt9bad_alloc", tBANL[] = "_ZTISt20bad_array_new_length", tLogic[] = "_ZTISt11logic_error", tLen[] = "_ZTISt12length_error",
    tOOR[] = "_ZTISt12out_of_range", tOvf[] = "_ZTISt14overflow_error", tFn[] = "_ZTISt17bad_function_call", tInv[] = "_ZTISt16invalid_argument", tRt[] = "_ZTISt13runtime_error",
    tIos[] = "_ZTINSt8ios_base7failureB5cxx11E", tRange[] = "_ZTISt11range_error", tCast[] = "_ZTISt8bad_cast", tDom[] = "_ZTISt12domain_error";
EXT(x_stdctor) { storeC(addrOf(a[0], "exception"), 8, cv(gStdVtable)); return false; }
EXT(x_dyncast)
{
    uint64_t p = addrOf(a[0], "dynamic_cast");
    if (!p) { ret = cv(0); return false; }
    Val vt = loadC(p, 8);
    uint64_t v = vt.e ? concretize(vt.e, "a vtable pointer") : vt.c;
    Val ti = loadC(v - 8, 8), top = loadC(v - 16, 8);
    ret = cv(derives(ti.c, a[2].c) ? p + top.c : 0);
    return false;
}
EXT(x_pow) { ret = mathPow(X(a[0], 64), X(a[1], 64)); return false; }
EXT(x_exp2) { ret = mathPow(mkC(64, dbits(2.0)), X(a[0], 64)); return false; }
EXT(x_ldexp) { E* n = X(a[1], 32); ret = fscale(X(a[0], 64), (int32_t)concretize(n, "an exponent")); return false; }
EXT(x_scalbln) { E* n = X(a[1], 64); ret = fscale(X(a[0], 64), (int)(int64_t)concretize(n, "an exponent")); return false; }
template <int F> static bool x_fun(DI& d, CallBase*, vector<Val>& a, Val& ret) { ret = ev(mkFUn((Fn)F, X(a[0], d.w))); return false; }
EXT(x_fabs) { ret = ev(mkFAbs(X(a[0], d.w))); return false; }
EXT(x_fmod) { E *x = X(a[0], 64), *y = X(a[1], 64); ret = cv(dbits(fmod(bitsd(concretize(x, "fmod operand")), bitsd(concretize(y, "fmod operand"))))); return false; }
EXT(x_exp) { E* x = X(a[0], 64); ret = cv(dbits(exp(bitsd(concretize(x, "exp operand"))))); return false; }
template <int F> static bool x_lfun(DI& d, CallBase* cb, vector<Val>& a, Val& ret) { ret = ev(mkFToI(true, mkFUn((Fn)F, X(a[0], tyW(cb->getArgOperand(0)->getType()))), d.w)); return false; }
EXT(x_frexp)
{
    E* x = X(a[0], 64);
    uint64_t p = addrOf(a[1], "frexp");
    if (isC(x)) { int e; double r = frexp(bitsd(x->v), &e); storeC(p, 4, cv((uint32_t)e)); ret = cv(dbits(r)); return false; }
    if (x->op != FScaled) {
        // split on the exponent field (normal numbers), then it is a scaled integer
        E* ex = mkExtract(x, 52, 11);
        uint64_t k = concretize(ex, "a double's exponent");
        if (k == 0 || k == 2047) unsupported("frexp of a subnormal, zero, infinite or NaN symbolic double");
        x = mkFScaled(64, mkExtract(x, 63, 1), mkConcat(mkC(1, 1), mkExtract(x, 0, 52)), (int)k - 1075);
        if (!x) unsupported("frexp range");
    }
    if (isC(x)) { int e; double r = frexp(bitsd(x->v), &e); storeC(p, 4, cv((uint32_t)e)); ret = cv(dbits(r)); return false; }
    uint64_t L = concretize(X(bitlen(x->b), 64), "a mantissa length");
    storeC(p, 4, cv(L ? (uint32_t)(x->k + (int)L) : 0));
    ret = ev(L ? mkFScaled(64, x->a, x->b, -(int)L) : mkFScaled(64, x->a, mkC(1, 0), 0));
    return false;
}
EXT(x_ilogb)
{
    E* x = X(a[0], 64);
    if (isC(x)) { ret = cv((uint32_t)ilogb(bitsd(x->v))); return false; }
    if (x->op != FScaled) { uint64_t k = concretize(mkExtract(x, 52, 11), "a double's exponent"); if (k == 0 || k == 2047) unsupported("ilogb"); ret = cv((uint32_t)((int)k - 1023)); return false; }
    uint64_t L = concretize(X(bitlen(x->b), 64), "a mantissa length");
    ret = cv((uint32_t)(L ? x->k + (int)L - 1 : (int)0x80000000));
    return false;
}
EXT(x_logb) { Val r; x_ilogb(d, cb, a, r); ret = cv(dbits((int32_t)r.c)); return false; }
EXT(x_modf)
{
    E* x = X(a[0], 64); E* t = mkFUn(FnTrunc, x);
    store(a[1], 8, ev(t));
    ret = ev(mkFBin(::FSub, x, t));
    return false;
}
EXT(x_copysign) { E *p = X(a[0], 64), *q = X(a[1], 64); E* s = q->op == FScaled ? q->a : mkExtract(q, 63, 1); E* ab = mkFAbs(p); ret = ev(mkIte(s, mkFNeg(ab), ab)); return false; }
// harness interface
EXT(v_sym)
{
    string n = cstr(a[0].c); uint64_t p = addrOf(a[1], "sym"), len = a[2].c;
    Obj* o = access(p, len, true);
    int first = gNextVar; gNextVar += len;
    gModel.resize(std::max<size_t>(gModel.size(), gNextVar), 0);
    gSyms.push_back({ n, first, (int)len, false });
    SH->e[gEntry].symvars += len;
    for (uint64_t i = 0; i < len; ++i) storeC(p + i, 1, ev(mkVar(first + i)));
    newEpoch();
    return false;
}
EXT(v_assume) { E* c = X(a[0], 1); if (c->w > 1) c = mkNot(mkBin(Eq, c, mkC(c->w, 0))); assumeTrue(c); return false; }
EXT(v_check)
{
    E* c = a[0].e; string msg = cstr(a[1].c);
    SH->e[gEntry].checks++;
    if (!c) { SH->e[gEntry].checksTrivial++; if (!(a[0].c & 1)) { violation("check", msg); endPath(); } return false; }
    if (c->w > 1) c = mkNot(mkBin(Eq, c, mkC(c->w, 0)));
    SH->e[gEntry].checksSolver++;
    E* bad = mkNot(c);
    vector<uint8_t> m;
    if (mayBe(bad, m)) {
        vector<uint8_t> save = gModel;
        gModel = m; newEpoch();
        violation("check", msg);
        gModel = save; newEpoch();
        if (isTrue(bad)) endPath();
        assumeTrue(c);
    }
    return false;
}
// equality of two values: when term rewriting already made both sides the same
// term, the query is still given to the solver (on the unsimplified disequality)
EXT(v_checkeq)
{
    string msg = cstr(a[2].c);
    if (!a[0].e && !a[1].e) {
        SH->e[gEntry].checks++; SH->e[gEntry].checksTrivial++;
        if (a[0].c != a[1].c) { violation("check", msg); endPath(); }
        return false;
    }
    E *x = X(a[0], 64), *y = X(a[1], 64), *eq = mkBin(Eq, x, y);
    if (isTrue(eq)) {
        SH->e[gEntry].checks++; SH->e[gEntry].checksSolver++;
        if (solveNe(x, y) != UNSAT) incomplete("solver gave no answer on an equality the rewriter found trivial");
        return false;
    }
    vector<Val> b = { isC(eq) ? cv(eq->v) : ev(eq), a[2] };
    return v_check(d, cb, b, ret);
}
EXT(v_reach)
{
    string l = cstr(a[0].c);
    if (seenCount(std::to_string(gEntry) + "|reach|" + l) < 1)
        emit("{\"t\":\"reach\",\"entry\":\"" + jesc(gEntryNames[gEntry]) + "\",\"label\":\"" + jesc(l) + "\",\"model\":" + modelJson() + "}");
    return false;
}
EXT(v_conc) { ret = cv(a[0].e ? concretize(a[0].e, "a case-split variable") : a[0].c); return false; }
EXT(v_stop) { endPath(); }
EXT(v_print) { fprintf(stderr, "[print] %s %s\n", cstr(a[0].c).c_str(), a[1].e ? show(a[1].e, 8).c_str() : std::to_string((int64_t)a[1].c).c_str()); return false; }
EXT(v_issym) { ret = cv(a[0].e ? 1 : 0); return false; }

static ExtFn lookupExt(const string& n)
{
    static std::map<string, ExtFn> t = {
        { "_Znwm", x_new }, { "_Znam", x_new }, { "malloc", x_newnt }, { "calloc", x_calloc }, { "_ZnwmSt11align_val_t", x_new }, { "_ZnamSt11align_val_t", x_new },
        { "_ZnwmRKSt9nothrow_t", x_newnt }, { "_ZnamRKSt9nothrow_t", x_newnt },
        { "_ZdlPv", x_del }, { "_ZdaPv", x_del }, { "_ZdlPvm", x_del }, { "_ZdaPvm", x_del }, { "free", x_del }, { "_ZdlPvSt11align_val_t", x_del }, { "_ZdlPvmSt11align_val_t", x_del }, { "_ZdlPvRKSt9nothrow_t", x_del }, { "_ZdaPvRKSt9nothrow_t", x_del },
        { "memcpy", x_memcpy }, { "memmove", x_memcpy }, { "memset", x_memset }, { "memcmp", x_memcmp }, { "bcmp", x_memcmp }, { "strlen", x_strlen }, { "memchr", x_memchr },
        { "_ZSt11_Hash_bytesPKvmm", x_hash },
        { "__cxa_allocate_exception", x_allocexc }, { "__cxa_free_exception", x_nop }, { "__cxa_throw", x_throw }, { "__cxa_rethrow", x_rethrow },
        { "__cxa_begin_catch", x_begincatch }, { "__cxa_end_catch", x_endcatch }, { "__cxa_get_exception_ptr", x_getexc }, { "__cxa_atexit", x_zero },
        { "__cxa_guard_acquire", x_guardacq }, { "__cxa_guard_release", x_guardrel }, { "__cxa_guard_abort", x_nop }, { "_ZSt9terminatev", x_terminate }, { "abort", x_abort }, { "__assert_fail", x_abort },
        { "__cxa_pure_virtual", x_purevirt }, { "__dynamic_cast", x_dyncast }, { "__cxa_bad_cast", x_throwstd<tCast> }, { "__cxa_throw_bad_array_new_length", x_throwstd<tBANL> },
        { "_ZSt17__throw_bad_allocv", x_throwstd<tBadAlloc> }, { "_ZSt28__throw_bad_array_new_lengthv", x_throwstd<tBANL> }, { "_ZSt19__throw_logic_errorPKc", x_throwstd<tLogic> },
        { "_ZSt20__throw_length_errorPKc", x_throwstd<tLen> }, { "_ZSt20__throw_out_of_rangePKc", x_throwstd<tOOR> }, { "_ZSt24__throw_out_of_range_fmtPKcz", x_throwstd<tOOR> },
        { "_ZSt22__throw_overflow_errorPKc", x_throwstd<tOvf> }, { "_ZSt25__throw_bad_function_callv", x_throwstd<tFn> }, { "_ZSt24__throw_invalid_argumentPKc", x_throwstd<tInv> },
        { "_ZSt21__throw_runtime_errorPKc", x_throwstd<tRt> }, { "_ZSt19__throw_range_errorPKc", x_throwstd<tRange> }, { "_ZSt20__throw_domain_errorPKc", x_throwstd<tDom> }, { "_ZSt16__throw_bad_castv", x_throwstd<tCast> },
        { "_ZSt19__throw_ios_failurePKc", x_throwstd<tIos> }, { "__vf_throw_ios", x_throwstd<tIos> },
        { "_ZNSt9exceptionD2Ev", x_nop }, { "_ZNSt9exceptionD1Ev", x_nop }, { "_ZNSt9exceptionD0Ev", x_nop }, { "_ZNKSt9exception4whatEv", x_what },
        { "pow", x_pow }, { "exp2", x_exp2 }, { "ldexp", x_ldexp }, { "scalbn", x_ldexp }, { "scalbln", x_scalbln }, { "exp", x_exp },
        { "log", x_fun<FnLog> }, { "log2", x_fun<FnLog2> }, { "log10", x_fun<FnLog10> }, { "sqrt", x_fun<FnSqrt> }, { "cbrt", x_fun<FnCbrt> }, { "log1p", x_fun<FnLog1p> },
        { "logf", x_fun<FnLog> }, { "log2f", x_fun<FnLog2> }, { "floorf", x_fun<FnFloor> }, { "ceilf", x_fun<FnCeil> }, { "truncf", x_fun<FnTrunc> }, { "roundf", x_fun<FnRound> },
        { "floor", x_fun<FnFloor> }, { "ceil", x_fun<FnCeil> }, { "trunc", x_fun<FnTrunc> }, { "round", x_fun<FnRound> }, { "rint", x_fun<FnRint> }, { "nearbyint", x_fun<FnRint> },
        { "lround", x_lfun<FnRound> }, { "llround", x_lfun<FnRound> }, { "lrint", x_lfun<FnRint> }, { "llrint", x_lfun<FnRint> }, { "lroundf", x_lfun<FnRound> }, { "lrintf", x_lfun<FnRint> },
        { "fabs", x_fabs }, { "fabsf", x_fabs }, { "fmod", x_fmod }, { "frexp", x_frexp }, { "ilogb", x_ilogb }, { "logb", x_logb }, { "modf", x_modf }, { "copysign", x_copysign },
        { "__vf_sym", v_sym }, { "__vf_assume", v_assume }, { "__vf_check", v_check }, { "__vf_check_eq", v_checkeq }, { "__vf_reach", v_reach }, { "__vf_conc", v_conc }, { "__vf_stop", v_stop }, { "__vf_print", v_print }, { "__vf_issym", v_issym },
        { "__vf_zero", x_zero },
    };
    auto it = t.find(n);
    if (it != t.end()) return it->second;
    // constructors/destructors of standard exception classes: nothing observable
    static const char* pre[] = { "_ZNSt13runtime_error", "_ZNSt11logic_error", "_ZNSt12out_of_range", "_ZNSt16invalid_argument", "_ZNSt12length_error", "_ZNSt12domain_error", "_ZNSt11range_error", "_ZNSt14overflow_error", "_ZNSt15underflow_error", "_ZNSt12system_error", "_ZNSt8ios_base7failure", "_ZNSt8bad_cast", "_ZNSt9bad_alloc" };
    for (auto* p : pre) if (n.compare(0, strlen(p), p) == 0) return n.compare(strlen(p), 1, "C") == 0 ? x_stdctor : x_nop;
    if (n.find("4whatEv") != string::npos) return x_what;
    return nullptr;
}
// ---------------------------------------------------------------- main
static void setup()
{
    // functions
    uint64_t fa = 0x10000000;
    int idx = 0;
    for (auto& f : *M) { gAddr[&f] = fa; gFnAt[fa] = &f; fa += 16; if (!f.isDeclaration()) { gFnIdx[&f] = idx++; gFns.push_back(&f); } }
    Obj* w = alloc(16, 0, "what", false); memcpy(w->d, "std::exception", 15); gWhatStr = w->base;
    Obj* sv = alloc(64, 0, "std vtable", false); gStdVtable = sv->base;
    for (int i = 0; i < 8; ++i) { uint64_t t = gStdVtable + 8; memcpy(sv->d + 8 * i, &t, 8); }
    for (auto& g : M->globals()) {
        uint64_t n = DL->getTypeAllocSize(g.getValueType());
        if (g.isDeclaration() && n < 128) n = 128;
        Obj* o = alloc(n, 0, g.getName().str(), false);
        gAddr[&g] = o->base; gGvAt[o->base] = &g;
        if (g.isDeclaration()) {
            if (g.getName().starts_with("_ZTV")) for (uint64_t i = 0; i < n; i += 8) { uint64_t t = gStdVtable + 8; memcpy(o->d + i, &t, 8); }
            if (g.getName() == "__libc_single_threaded") o->d[0] = 1;
        }
    }
    for (auto& g : M->globals())
        if (g.hasInitializer()) {
            Obj* o = findObj(gAddr[&g]);
            if (!o) continue;
            initConst(o, 0, g.getInitializer());
            if (g.isConstant()) o->ro = true;
        }
}
static void runCtors()
{
    GlobalVariable* gv = M->getNamedGlobal("llvm.global_ctors");
    if (!gv || !gv->hasInitializer()) return;
    auto* ca = dyn_cast<ConstantArray>(gv->getInitializer());
    if (!ca) return;
    vector<std::pair<uint64_t, Function*>> v;
    for (auto& u : ca->operands()) {
        auto* cs = cast<ConstantStruct>(u.get());
        if (auto* f = dyn_cast<Function>(cs->getOperand(1))) v.push_back({ cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f });
    }
    std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& p : v) { vector<Val> a; Val r; if (execFn(p.second, a, r)) { fprintf(stderr, "exception in static initialiser\n"); _exit(3); } }
}
int main(int argc, char** argv)
{
    string bc, out; int jobs = 8; double budget = 0;
    for (int i = 1; i < argc; ++i) {
        string s = argv[i];
        auto nx = [&] { return string(argv[++i]); };
        if (s == "--out") out = nx();
        else if (s == "--entry") gEntryNames.push_back(nx());
        else if (s == "--jobs") jobs = atoi(nx().c_str());
        else if (s == "--time") budget = atof(nx().c_str());
        else if (s == "--rlimit") gRlimit = strtoull(nx().c_str(), 0, 10);
        else if (s == "--max-inst") gMaxInst = strtoull(nx().c_str(), 0, 10);
        else if (s == "--conc-limit") gConcLimit = strtoull(nx().c_str(), 0, 10);
        else if (s == "--debug") gDebug = true;
        else bc = s;
    }
    // deep native recursion
    rlimit rl; getrlimit(RLIMIT_STACK, &rl);
    if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ull << 30) && !getenv("VF_STACK")) {
        rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (4ull << 30) : rl.rlim_max;
        setrlimit(RLIMIT_STACK, &rl); setenv("VF_STACK", "1", 1); execv("/proc/self/exe", argv);
    }
    LLVMContext ctx; SMDiagnostic err;
    auto mod = parseIRFile(bc, err, ctx);
    if (!mod) { err.print("engine", errs()); return 3; }
    M = mod.get(); DL = &M->getDataLayout();
    if (gEntryNames.empty()) for (auto& f : *M) if (!f.isDeclaration() && f.getName().starts_with("h_")) gEntryNames.push_back(f.getName().str());
    if (gEntryNames.size() >= MAXE) return 3;
    SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sem_init(&SH->tokens, 1, jobs > 1 ? jobs - 1 : 0);
    gOutFd = out.empty() ? 1 : open(out.c_str(), O_WRONLY | O_CREAT | O_APPEND | O_TRUNC, 0644);
    z3init();
    gRangeHook = getRange;
    double t0 = now();
    if (budget) gDeadline = t0 + budget;
    setup();
    runCtors();
    if (gDebug) fprintf(stderr, "static init: %llu insts, %.2fs\n", (unsigned long long)gInsts, now() - t0);
    // one process per entry; the root only coordinates
    SH->live = 1;
    int rc = 0;
    for (size_t i = 0; i < gEntryNames.size(); ++i) {
        Function* f = M->getFunction(gEntryNames[i]);
        if (!f || f->isDeclaration()) { fprintf(stderr, "no entry %s\n", gEntryNames[i].c_str()); return 3; }
        gEntry = i;
        if (forkState()) {
            gInsts = 0;
            vector<Val> a; Val r;
            bool t = execFn(f, a, r);
            SH->e[gEntry].insts += gInsts;
            gCur = nullptr;
            if (t) violation("exception", "uncaught exception " + excName(gExc.ti));
            endPath();
        }
    }
    while (waitpid(-1, nullptr, 0) > 0) {}
    // SH->live==1 if every process ended in an orderly way
    if (SH->live != 1) { emit("{\"t\":\"crash\",\"n\":" + std::to_string((long)SH->live - 1) + "}"); rc = 0; }
    for (size_t i = 0; i < gEntryNames.size(); ++i) {
        EStat& s = SH->e[i];
        emit("{\"t\":\"stat\",\"entry\":\"" + gEntryNames[i] + "\",\"paths\":" + std::to_string(s.paths) + ",\"infeasible\":" + std::to_string(s.infeasible) + ",\"checks\":" + std::to_string(s.checks) + ",\"checks_solver\":" + std::to_string(s.checksSolver) + ",\"checks_concrete\":" + std::to_string(s.checksTrivial) + ",\"viol\":" + std::to_string(s.viol) + ",\"incomplete\":" + std::to_string(s.incomplete) + ",\"queries\":" + std::to_string(s.queries) + ",\"sat\":" + std::to_string(s.sat) + ",\"unsat\":" + std::to_string(s.unsat) + ",\"unknown\":" + std::to_string(s.unknown) + ",\"solver_s\":" + std::to_string(s.solverUs / 1e6) + ",\"insts\":" + std::to_string(s.insts) + ",\"forks\":" + std::to_string(s.forks) + ",\"symbytes\":" + std::to_string(s.symvars) + ",\"max_pc\":" + std::to_string(s.maxpc) + ",\"enumerated\":" + std::to_string(s.enumerated) + "}");
    }
    string fl = "{\"t\":\"fns\",\"list\":[";
    bool first = true; int nf = 0;
    for (size_t i = 0; i < gFns.size() && i < MAXF; ++i)
        if (SH->fn[i]) {
            ++nf;
            string n = demangle(gFns[i]->getName().str());
            if (n.compare(0, 9, "sedaman::") == 0 || n.find(" sedaman::") != string::npos) { fl += (first ? "\"" : ",\"") + jesc(n.substr(0, 160)) + "\""; first = false; }
        }
    emit(fl + "],\"total\":" + std::to_string(nf) + ",\"wall\":" + std::to_string(now() - t0) + "}");
    _exit(rc);
}
