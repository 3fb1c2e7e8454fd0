#include "expr.hpp"
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstring>
#include <set>
#include <unordered_set>
#include <llvm/ADT/Hashing.h>
#include <llvm/ADT/SmallString.h>

using std::max;
using std::min;
using std::vector;

std::vector<uint8_t> gModel;
std::function<bool(Expr*, APInt&, APInt&)> gRangeHook;
static uint32_t gEpoch = 1;
static uint32_t gNext = 1;

// ------------------------------------------------------------ hash consing
struct Key {
    size_t operator()(const Expr* e) const { return e->h; }
};
struct KeyEq {
    bool operator()(const Expr* x, const Expr* y) const
    {
        if (x->h != y->h || x->op != y->op || x->w != y->w || x->k != y->k || x->a != y->a || x->b != y->b || x->c != y->c)
            return false;
        if (x->op == Const)
            return x->w <= 64 ? x->v == y->v : *x->big == *y->big;
        return true;
    }
};
static std::unordered_set<Expr*, Key, KeyEq>& table()
{
    static std::unordered_set<Expr*, Key, KeyEq> t(1 << 16);
    return t;
}
static inline size_t mix(size_t h, size_t v) { return (h ^ v) * 0x9E3779B97F4A7C15ull + (h >> 29); }

static uint32_t bitsOf(uint64_t v) { return v ? 64 - __builtin_clzll(v) : 0; }

static void bounds(Expr* e)
{
    uint32_t w = e->w, ub = w, sb = w;
    Expr *a = e->a, *b = e->b, *c = e->c;
    switch (e->op) {
    case Const:
        if (w <= 64) {
            ub = bitsOf(e->v);
            APInt t(w, e->v);
            sb = t.getSignificantBits();
        } else {
            ub = e->big->getActiveBits();
            sb = e->big->getSignificantBits();
        }
        break;
    case Concat: ub = a->ub ? b->w + a->ub : b->ub; sb = b->w + a->sb; break;
    case ZExt: ub = a->ub; sb = a->ub + 1; break;
    case SExt: ub = a->ub < a->w ? a->ub : w; sb = a->sb; break;
    case Extract:
        ub = a->ub > (uint32_t)e->k ? a->ub - e->k : 0;
        sb = a->sb > (uint32_t)e->k ? max(1u, a->sb - e->k) : 1;
        if (e->k + w < a->sb) sb = w;
        break;
    case And: ub = min(a->ub, b->ub); sb = max(a->sb, b->sb); break;
    case Or: case Xor: ub = max(a->ub, b->ub); sb = max(a->sb, b->sb); break;
    case Add: ub = max(a->ub, b->ub) + 1; sb = max(a->sb, b->sb) + 1; break;
    case Mul: ub = a->ub + b->ub; sb = a->sb + b->sb; break;
    case UDiv: ub = a->ub; break;
    case URem: ub = min(a->ub, b->ub); break;
    case SDiv: sb = a->sb + 1; break;
    case LShr: ub = a->ub; break;
    case AShr: sb = a->sb; break;
    case Ite: ub = max(b->ub, c->ub); sb = max(b->sb, c->sb); break;
    default: break;
    }
    ub = min(ub, w);
    if (ub < w) sb = min(sb, ub + 1);
    sb = min(sb, w);
    if (sb == 0) sb = 1;
    e->ub = ub; e->sb = sb;
}

static Expr* intern(Expr& t)
{
    size_t h = mix(t.op * 131 + t.w, (size_t)(uint32_t)t.k);
    h = mix(h, (size_t)t.a); h = mix(h, (size_t)t.b); h = mix(h, (size_t)t.c);
    if (t.op == Const) h = mix(h, t.w <= 64 ? t.v : (size_t)hash_value(*t.big));
    t.h = h;
    auto& tb = table();
    auto it = tb.find(&t);
    if (it != tb.end()) return *it;
    static Expr* pool = nullptr; static size_t left = 0;
    if (!left) { left = 4096; pool = (Expr*)calloc(left, sizeof(Expr)); }
    Expr* e = new (pool++) Expr(t); --left;
    if (e->op == Const && e->w > 64) e->big = new APInt(*t.big);
    e->id = gNext++;
    bool fp = e->op >= FAdd && e->op != FOeq && e->op != FOlt && e->op != FOle && e->op != FUno;
    for (Expr* x : { e->a, e->b, e->c }) if (x && x->hasFP) fp = true;
    e->hasFP = fp;
    bounds(e);
    tb.insert(e);
    return e;
}

APInt constVal(const Expr* e) { return e->w <= 64 ? APInt(e->w, e->v) : *e->big; }
Expr* mkC(uint32_t w, uint64_t v)
{
    assert(w);
    Expr t{}; t.op = Const; t.w = w;
    if (w <= 64) { t.v = w == 64 ? v : v & ((1ull << w) - 1); return intern(t); }
    APInt b(w, v); t.big = &b; return intern(t);
}
Expr* mkC(const APInt& v)
{
    if (v.getBitWidth() <= 64) return mkC(v.getBitWidth(), v.getZExtValue());
    Expr t{}; t.op = Const; t.w = v.getBitWidth(); APInt b(v); t.big = &b; return intern(t);
}
Expr* mkVar(int id) { Expr t{}; t.op = Var; t.w = 8; t.k = id; return intern(t); }

static Expr* node(Op op, uint32_t w, Expr* a, Expr* b = nullptr, Expr* c = nullptr, int k = 0)
{
    Expr t{}; t.op = op; t.w = w; t.a = a; t.b = b; t.c = c; t.k = k;
    return intern(t);
}

// ------------------------------------------------------------ structure
Expr* mkNot(Expr* a) { return mkBin(Xor, a, mkC(APInt::getAllOnes(a->w))); }
Expr* mkNeg(Expr* a)
{
    if (isC(a)) return mkC(-constVal(a));
    // -x = x * -1
    if (a->op == Mul && isC(a->b)) return mkBin(Mul, a->a, mkC(-constVal(a->b)));
    return mkBin(Mul, a, mkC(APInt::getAllOnes(a->w)));
}

Expr* mkZExt(Expr* a, uint32_t w)
{
    if (w == a->w) return a;
    assert(w > a->w);
    if (isC(a)) return mkC(constVal(a).zext(w));
    if (a->op == ZExt) a = a->a;
    if (a->op == Concat && isC(a->a, 0)) return mkZExt(a->b, w);
    return node(ZExt, w, a);
}
Expr* mkSExt(Expr* a, uint32_t w)
{
    if (w == a->w) return a;
    assert(w > a->w);
    if (isC(a)) return mkC(constVal(a).sext(w));
    if (a->op == SExt) a = a->a;
    if (a->ub < a->w) return mkZExt(a, w);
    return node(SExt, w, a);
}
Expr* mkExtract(Expr* a, uint32_t off, uint32_t w)
{
    if (off == 0 && w == a->w) return a;
    assert(off + w <= a->w && w > 0);
    if (isC(a)) return mkC(constVal(a).extractBits(w, off));
    switch (a->op) {
    case Extract: return mkExtract(a->a, off + a->k, w);
    case Concat:
        if (off + w <= a->b->w) return mkExtract(a->b, off, w);
        if (off >= a->b->w) return mkExtract(a->a, off - a->b->w, w);
        return mkConcat(mkExtract(a->a, 0, off + w - a->b->w), mkExtract(a->b, off, a->b->w - off));
    case ZExt:
        if (off >= a->a->w) return mkC(w, 0);
        if (off + w <= a->a->w) return mkExtract(a->a, off, w);
        return mkZExt(mkExtract(a->a, off, a->a->w - off), w);
    case SExt:
        if (off + w <= a->a->w) return mkExtract(a->a, off, w);
        if (off >= a->a->w) {
            Expr* s = mkExtract(a->a, a->a->w - 1, 1);
            return w == 1 ? s : mkSExt(s, w);
        }
        return mkSExt(mkExtract(a->a, off, a->a->w - off), w);
    case Ite: {
        Expr *x = a->b, *y = a->c;
        if ((isC(x) || x->op == Ite || x->op == Concat || x->op == ZExt) && (isC(y) || y->op == Ite || y->op == Concat || y->op == ZExt) && !x->hasFP && !y->hasFP)
            return mkIte(a->a, mkExtract(x, off, w), mkExtract(y, off, w));
        break;
    }
    case And: case Or: case Xor:
        return mkBin(a->op, mkExtract(a->a, off, w), mkExtract(a->b, off, w));
    case Add: case Mul:
        if (off == 0) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
        break;
    default: break;
    }
    if (off >= a->ub) return mkC(w, 0);
    return node(Extract, w, a, nullptr, nullptr, off);
}
Expr* mkConcat(Expr* hi, Expr* lo)
{
    uint32_t w = hi->w + lo->w;
    if (isC(hi) && isC(lo)) return mkC(constVal(hi).zext(w).shl(lo->w) | constVal(lo).zext(w));
    if (isC(hi, 0)) return mkZExt(lo, w);
    if (hi->op == Extract && lo->op == Extract && hi->a == lo->a && hi->k == lo->k + (int)lo->w)
        return mkExtract(hi->a, lo->k, w);
    if (hi->op == Extract && hi->a == lo && hi->k == (int)lo->w) return mkExtract(lo, 0, w);
    // sign bits replicated above: Concat(SExt(msb(lo))..)
    if (hi->op == Ite && lo->op == Ite && hi->a == lo->a && isC(hi->b) && isC(hi->c) && isC(lo->b) && isC(lo->c))
        return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
    if (hi->op == ZExt) return mkZExt(mkConcat(hi->a, lo), w);
    // right-assoc: keep hi atomic
    if (hi->op == Concat) return mkConcat(hi->a, mkConcat(hi->b, lo));
    if (lo->op == Concat) {
        // try merging hi with lo's head
        Expr* h = lo->a;
        if (isC(hi) && isC(h)) return mkConcat(mkConcat(hi, h), lo->b);
        if (hi->op == Extract && h->op == Extract && hi->a == h->a && hi->k == h->k + (int)h->w)
            return mkConcat(mkExtract(hi->a, h->k, hi->w + h->w), lo->b);
    }
    if (lo->op == ZExt) return mkConcat(hi, node(Concat, lo->w, mkC(lo->w - lo->a->w, 0), lo->a));
    return node(Concat, w, hi, lo);
}
Expr* mkIte(Expr* c, Expr* a, Expr* b)
{
    if (isC(c)) return c->v ? a : b;
    if (a == b) return a;
    if (a->w == 1) {
        if (isTrue(a) && isFalse(b)) return c;
        if (isFalse(a) && isTrue(b)) return mkNot(c);
        if (isTrue(a)) return mkBin(Or, c, b);
        if (isFalse(a)) return mkBin(And, mkNot(c), b);
        if (isTrue(b)) return mkBin(Or, mkNot(c), a);
        if (isFalse(b)) return mkBin(And, c, a);
    }
    if (c->op == Xor && isC(c->b, 1)) return mkIte(c->a, b, a);
    if (a->op == Ite && a->a == c) a = a->b;
    if (b->op == Ite && b->a == c) b = b->c;
    if (a == b) return a;
    if (a->op == FScaled && b->op == FScaled && a->k == b->k && a->w == b->w) {
        uint32_t m = max(a->b->w, b->b->w);
        Expr* r = mkFScaled(a->w, mkIte(c, a->a, b->a), mkIte(c, mkZExt(a->b, m), mkZExt(b->b, m)), a->k);
        if (r) return r;
    }
    // sign bit set ? ones above : zeros above
    if (a->op == Concat && isC(a->a) && constVal(a->a).isAllOnes() && b->op == ZExt && b->a == a->b && c == mkExtract(b->a, b->a->w - 1, 1))
        return mkSExt(b->a, a->w);
    return node(Ite, a->w, c, a, b);
}

// segments (LSB first) of an expression: used to merge disjoint Or/Add/Xor
struct Seg { Expr* e; uint32_t w; };
static void segs(Expr* e, vector<Seg>& out)
{
    if (e->op == Concat) { segs(e->b, out); segs(e->a, out); return; }
    if (e->op == ZExt) { segs(e->a, out); out.push_back({ mkC(e->w - e->a->w, 0), e->w - e->a->w }); return; }
    if (isC(e)) {
        APInt v = constVal(e); uint32_t i = 0;
        while (i < e->w) {
            uint32_t j = i; bool z = !v[i];
            while (j < e->w && (!v[j]) == z) ++j;
            out.push_back({ mkC(v.extractBits(j - i, i)), j - i });
            i = j;
        }
        return;
    }
    out.push_back({ e, e->w });
}
static Expr* tryDisjoint(Expr* a, Expr* b)
{
    bool ca = a->op == Concat || a->op == ZExt || isC(a), cb = b->op == Concat || b->op == ZExt || isC(b);
    if (!ca || !cb) return nullptr;
    vector<Seg> x, y;
    segs(a, x); segs(b, y);
    size_t i = 0, j = 0; uint32_t xo = 0, yo = 0, pos = 0;
    Expr* r = nullptr;
    while (pos < a->w) {
        uint32_t n = min(x[i].w - xo, y[j].w - yo);
        Expr *xe = mkExtract(x[i].e, xo, n), *ye = mkExtract(y[j].e, yo, n);
        Expr* o;
        if (isC(xe, 0)) o = ye;
        else if (isC(ye, 0)) o = xe;
        else return nullptr;
        r = r ? mkConcat(o, r) : o;
        xo += n; yo += n; pos += n;
        if (xo == x[i].w) { ++i; xo = 0; }
        if (yo == y[j].w) { ++j; yo = 0; }
    }
    return r;
}

static bool asScaled(Expr* e, Expr*& s, Expr*& m, int& k);
static Expr* scaledSigned(Expr* s, Expr* m, uint32_t w)
{ // two's complement of (-1)^s*m in w bits
    Expr* z = mkZExt(m, w);
    return mkIte(s, mkNeg(z), z);
}
static Expr* alignTo(Expr* m, int sh, uint32_t w)
{
    Expr* z = sh ? mkConcat(m, mkC(sh, 0)) : m;
    return z->w < w ? mkZExt(z, w) : z;
}
// the same shifted left by sh; undoes the sign-magnitude form of a converted integer
static Expr* signedAligned(Expr* s, Expr* m, int sh, uint32_t w)
{
    if (m->op == Ite && m->a == s && m->b == mkNeg(m->c) && s == mkExtract(m->c, m->w - 1, 1)) {
        Expr* z = sh ? mkConcat(m->c, mkC(sh, 0)) : m->c;
        if (z->w < w) return mkSExt(z, w); // the magnitude may be 2^(n-1), so one more bit than n
    }
    return scaledSigned(s, alignTo(m, sh, w - 1), w);
}

static APInt foldBin(Op op, const APInt& x, const APInt& y)
{
    uint32_t w = x.getBitWidth();
    auto b1 = [](bool b) { return APInt(1, b); };
    switch (op) {
    case Add: return x + y;
    case Mul: return x * y;
    case UDiv: return y == 0 ? APInt::getAllOnes(w) : x.udiv(y);
    case URem: return y == 0 ? x : x.urem(y);
    case SDiv: return y == 0 ? (x.isNegative() ? APInt(w, 1) : APInt::getAllOnes(w)) : x.sdiv(y);
    case SRem: return y == 0 ? x : x.srem(y);
    case And: return x & y;
    case Or: return x | y;
    case Xor: return x ^ y;
    case Shl: return y.uge(w) ? APInt(w, 0) : x.shl(y);
    case LShr: return y.uge(w) ? APInt(w, 0) : x.lshr(y);
    case AShr: return y.uge(w) ? x.ashr(w - 1) : x.ashr(y);
    case Eq: return b1(x == y);
    case Ult: return b1(x.ult(y));
    case Ule: return b1(x.ule(y));
    case Slt: return b1(x.slt(y));
    case Sle: return b1(x.sle(y));
    default: assert(0); return x;
    }
}

Expr* mkBin(Op op, Expr* a, Expr* b)
{
    assert(a->w == b->w);
    uint32_t w = a->w;
    if (isC(a) && isC(b)) return mkC(foldBin(op, constVal(a), constVal(b)));
    bool comm = op == Add || op == Mul || op == And || op == Or || op == Xor || op == Eq;
    if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
    switch (op) {
    case Add:
        if (isC(b, 0)) return a;
        if (w == 1) return mkBin(Xor, a, b);
        if (isC(b) && a->op == Add && isC(a->b)) return mkBin(Add, a->a, mkC(constVal(a->b) + constVal(b)));
        if (a == b) return mkBin(Mul, a, mkC(w, 2));
        // x + (x * -1) = 0
        if (a->op == Mul && a->a == b && isC(a->b) && constVal(a->b).isAllOnes()) return mkC(w, 0);
        if (b->op == Mul && b->a == a && isC(b->b) && constVal(b->b).isAllOnes()) return mkC(w, 0);
        if (!isC(b)) if (Expr* d = tryDisjoint(a, b)) return d;
        // (x + c) + y -> (x+y)+c
        if (a->op == Add && isC(a->b)) return mkBin(Add, mkBin(Add, a->a, b), a->b);
        if (b->op == Add && isC(b->b)) return mkBin(Add, mkBin(Add, a, b->a), b->b);
        break;
    case Mul:
        if (isC(b, 0)) return b;
        if (isC(b, 1)) return a;
        if (w == 1) return mkBin(And, a, b);
        if (isC(b) && constVal(b).isPowerOf2()) {
            uint32_t n = constVal(b).logBase2();
            return mkConcat(mkExtract(a, 0, w - n), mkC(n, 0));
        }
        if (isC(b) && a->op == Mul && isC(a->b)) return mkBin(Mul, a->a, mkC(constVal(a->b) * constVal(b)));
        if (isC(b) && a->op == Add && isC(a->b) && constVal(b).isAllOnes()) return mkBin(Add, mkBin(Mul, a->a, b), mkC(constVal(a->b) * constVal(b)));
        if (isC(b) && a->op == Ite && isC(a->b) && isC(a->c)) return mkIte(a->a, mkBin(Mul, a->b, b), mkBin(Mul, a->c, b));
        break;
    case UDiv:
        if (isC(b, 1)) return a;
        if (isC(b) && constVal(b).isPowerOf2()) { uint32_t n = constVal(b).logBase2(); return mkZExt(mkExtract(a, n, w - n), w); }
        break;
    case URem:
        if (isC(b) && constVal(b).isPowerOf2()) return mkBin(And, a, mkC(constVal(b) - 1));
        if (isC(b) && a->ub < w && constVal(b).ugt(APInt::getLowBitsSet(w, a->ub))) return a;
        break;
    case SDiv:
        if (isC(b, 1)) return a;
        if (a->ub < w && isC(b) && !constVal(b).isNegative()) return mkBin(UDiv, a, b);
        break;
    case SRem:
        if (a->ub < w && isC(b) && !constVal(b).isNegative()) return mkBin(URem, a, b);
        break;
    case And:
        if (isC(b, 0)) return b;
        if (isC(b) && constVal(b).isAllOnes()) return a;
        if (a == b) return a;
        if (w == 1) {
            if (a->op == Xor && isC(a->b, 1) && a->a == b) return mkC(1, 0);
            if (b->op == Xor && isC(b->b, 1) && b->a == a) return mkC(1, 0);
        }
        if (isC(b)) {
            unsigned idx, len;
            if (constVal(b).isShiftedMask(idx, len)) {
                Expr* e = mkExtract(a, idx, len);
                if (idx) e = mkConcat(e, mkC(idx, 0));
                return mkZExt(e, w);
            }
            if (a->op == Concat || a->op == ZExt) {
                uint32_t lw = a->op == Concat ? a->b->w : a->a->w;
                Expr* hi = mkBin(And, mkExtract(a, lw, w - lw), mkC(constVal(b).extractBits(w - lw, lw)));
                Expr* lo = mkBin(And, mkExtract(a, 0, lw), mkC(constVal(b).extractBits(lw, 0)));
                return mkConcat(hi, lo);
            }
            if (a->op == And && isC(a->b)) return mkBin(And, a->a, mkC(constVal(a->b) & constVal(b)));
            if (a->op == Ite && isC(a->b) && isC(a->c)) return mkIte(a->a, mkBin(And, a->b, b), mkBin(And, a->c, b));
        }
        break;
    case Or:
        if (isC(b, 0)) return a;
        if (isC(b) && constVal(b).isAllOnes()) return b;
        if (a == b) return a;
        if (w == 1) {
            if (a->op == Xor && isC(a->b, 1) && a->a == b) return mkC(1, 1);
            if (b->op == Xor && isC(b->b, 1) && b->a == a) return mkC(1, 1);
        }
        if (Expr* d = tryDisjoint(a, b)) return d;
        if (isC(b)) { // bits set by the constant are known
            vector<Seg> y; segs(b, y);
            if (y.size() <= 4) {
                Expr* r = nullptr; uint32_t pos = 0;
                for (auto& s : y) {
                    Expr* o = isC(s.e, 0) ? mkExtract(a, pos, s.w) : s.e;
                    r = r ? mkConcat(o, r) : o; pos += s.w;
                }
                return r;
            }
        }
        break;
    case Xor:
        if (isC(b, 0)) return a;
        if (a == b) return mkC(w, 0);
        if (isC(b) && a->op == Xor && isC(a->b)) return mkBin(Xor, a->a, mkC(constVal(a->b) ^ constVal(b)));
        if (w == 1 && isC(b, 1)) {
            if (a->op == Ult) return mkBin(Ule, a->b, a->a);
            if (a->op == Ule) return mkBin(Ult, a->b, a->a);
            if (a->op == Slt) return mkBin(Sle, a->b, a->a);
            if (a->op == Sle) return mkBin(Slt, a->b, a->a);
        }
        if (!isC(b)) if (Expr* d = tryDisjoint(a, b)) return d;
        if (isC(b) && a->op == Ite && isC(a->b) && isC(a->c)) return mkIte(a->a, mkBin(Xor, a->b, b), mkBin(Xor, a->c, b));
        break;
    case Shl:
        if (isC(b)) {
            APInt s = constVal(b);
            if (s.uge(w)) return mkC(w, 0);
            uint32_t n = s.getZExtValue();
            if (!n) return a;
            return mkConcat(mkExtract(a, 0, w - n), mkC(n, 0));
        }
        break;
    case LShr:
        if (isC(b)) {
            APInt s = constVal(b);
            if (s.uge(w)) return mkC(w, 0);
            uint32_t n = s.getZExtValue();
            if (!n) return a;
            return mkZExt(mkExtract(a, n, w - n), w);
        }
        break;
    case AShr:
        if (isC(b)) {
            APInt s = constVal(b);
            uint32_t n = s.uge(w) ? w - 1 : s.getZExtValue();
            if (!n) return a;
            return mkSExt(mkExtract(a, n, w - n), w);
        }
        break;
    case Eq: {
        if (a == b) return mkC(1, 1);
        if (w == 1) return isC(b) ? (b->v ? a : mkNot(a)) : mkNot(mkBin(Xor, a, b));
        if (a->op == FScaled || b->op == FScaled) {
            Expr *s1, *m1, *s2, *m2; int k1, k2;
            if (asScaled(a, s1, m1, k1) && asScaled(b, s2, m2, k2)) {
                int k = min(k1, k2);
                int d1 = k1 - k, d2 = k2 - k;
                if (d1 + (int)m1->w <= 160 && d2 + (int)m2->w <= 160) {
                    uint32_t W = max(d1 + m1->w, d2 + m2->w);
                    return mkBin(And, mkBin(Eq, s1, s2), mkBin(Eq, alignTo(m1, d1, W), alignTo(m2, d2, W)));
                }
            }
            break;
        }
        if (isC(b)) {
            APInt v = constVal(b);
            if (v.getActiveBits() > a->ub) return mkC(1, 0);
            if (a->op == ZExt) {
                if (v.getActiveBits() > a->a->w) return mkC(1, 0);
                return mkBin(Eq, a->a, mkC(v.trunc(a->a->w)));
            }
            if (a->op == SExt) {
                if (v.getSignificantBits() > a->a->w) return mkC(1, 0);
                return mkBin(Eq, a->a, mkC(v.trunc(a->a->w)));
            }
            if (a->op == Concat)
                return mkBin(And, mkBin(Eq, a->b, mkC(v.trunc(a->b->w))), mkBin(Eq, a->a, mkC(v.extractBits(a->a->w, a->b->w))));
            if (a->op == Add && isC(a->b)) return mkBin(Eq, a->a, mkC(v - constVal(a->b)));
            if (a->op == Xor && isC(a->b)) return mkBin(Eq, a->a, mkC(v ^ constVal(a->b)));
            if (a->op == Ite && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkBin(Eq, a->b, b), mkBin(Eq, a->c, b));
        } else {
            if (a->op == ZExt && b->op == ZExt) {
                uint32_t m = max(a->a->w, b->a->w);
                return mkBin(Eq, mkZExt(a->a, m), mkZExt(b->a, m));
            }
            if (a->op == SExt && b->op == SExt && a->a->w == b->a->w) return mkBin(Eq, a->a, b->a);
            if (a->op == Concat && b->op == Concat && a->b->w == b->b->w)
                return mkBin(And, mkBin(Eq, a->b, b->b), mkBin(Eq, a->a, b->a));
        }
        break;
    }
    case Ult:
        if (a == b) return mkC(1, 0);
        if (isC(b, 0)) return mkC(1, 0);
        if (isC(b, 1)) return mkBin(Eq, a, mkC(w, 0));
        if (isC(b) && constVal(b).ugt(APInt::getLowBitsSet(w, a->ub))) return mkC(1, 1);
        if (isC(a) && constVal(a).uge(APInt::getLowBitsSet(w, b->ub))) return mkC(1, 0);
        if (isC(a, 0)) return mkNot(mkBin(Eq, b, mkC(w, 0)));
        goto shrink;
    case Ule:
        if (a == b) return mkC(1, 1);
        if (isC(a, 0)) return mkC(1, 1);
        if (isC(b, 0)) return mkBin(Eq, a, b);
        if (isC(b) && constVal(b).uge(APInt::getLowBitsSet(w, a->ub))) return mkC(1, 1);
        if (isC(a) && constVal(a).ugt(APInt::getLowBitsSet(w, b->ub))) return mkC(1, 0);
    shrink: {
        uint32_t m = max(1u, max(a->ub, b->ub));
        if (m < w) return mkBin(op, mkExtract(a, 0, m), mkExtract(b, 0, m));
        break;
    }
    case Slt:
    case Sle: {
        if (a == b) return mkC(1, op == Sle);
        uint32_t m = max(a->sb, b->sb);
        if (m < w) return mkBin(op, mkExtract(a, 0, m), mkExtract(b, 0, m));
        if (a->ub < w && b->ub < w) return mkBin(op == Slt ? Ult : Ule, a, b);
        if (op == Slt && isC(b, 0)) return mkExtract(a, w - 1, 1);
        if (op == Sle && isC(a, 0)) return mkNot(mkExtract(b, w - 1, 1));
        if (op == Slt && isC(a) && constVal(a).isAllOnes()) return mkNot(mkExtract(b, w - 1, 1));
        break;
    }
    default: break;
    }
    bool cmp = op == Eq || op == Ult || op == Ule || op == Slt || op == Sle;
    if (comm && !isC(b) && a->id > b->id) std::swap(a, b);
    return node(op, cmp ? 1 : w, a, b);
}

// ------------------------------------------------------------ floating point
static double toD(uint32_t w, uint64_t v)
{
    if (w == 32) { float f; uint32_t u = v; memcpy(&f, &u, 4); return f; }
    double d; memcpy(&d, &v, 8); return d;
}
static uint64_t fromD(uint32_t w, double d)
{
    if (w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return u; }
    uint64_t v; memcpy(&v, &d, 8); return v;
}
static bool fitsScaled(uint32_t w, uint32_t ub, int k)
{
    return w == 64 ? ub <= 53 && k >= -1022 && k + (int)ub <= 1023 : ub <= 24 && k >= -126 && k + (int)ub <= 127;
}
Expr* mkFScaled(uint32_t w, Expr* s, Expr* m, int k)
{
    if (isC(m) && m->w > 64) m = mkExtract(m, 0, max(1u, m->ub));
    // drop trailing zero bits
    for (;;) {
        if (m->op == ZExt) { m = m->a; continue; }
        if (m->op == Concat) {
            Expr* t = m; // right-assoc list: find last
            uint32_t n = 0;
            vector<Expr*> parts;
            while (t->op == Concat) { parts.push_back(t->a); t = t->b; }
            if (isC(t, 0)) {
                n = t->w;
                Expr* r = nullptr;
                for (int i = (int)parts.size() - 1; i >= 0; --i) r = r ? mkConcat(parts[i], r) : parts[i];
                m = r; k += n; continue;
            }
        }
        break;
    }
    if (m->ub < m->w && m->ub > 0) m = mkExtract(m, 0, m->ub);
    if (isC(m)) {
        if (isC(m, 0)) k = 0;
        else { APInt v = constVal(m); unsigned tz = v.countr_zero(); if (tz) { m = mkC(v.lshr(tz).trunc(v.getBitWidth() - tz)); k += tz; } }
    }
    if (!fitsScaled(w, m->ub, k)) return nullptr;
    if (isC(s) && isC(m)) {
        double d = ldexp((double)m->v, k);
        return mkC(w, fromD(w, s->v ? -d : d));
    }
    return node(FScaled, w, s, m, nullptr, k);
}
static bool asScaled(Expr* e, Expr*& s, Expr*& m, int& k)
{
    if (e->op == FScaled) { s = e->a; m = e->b; k = e->k; return true; }
    if (isC(e) && (e->w == 64 || e->w == 32)) {
        double d = toD(e->w, e->v);
        if (!std::isfinite(d)) return false;
        s = mkC(1, std::signbit(d));
        d = std::fabs(d);
        if (d == 0) { m = mkC(1, 0); k = 0; return true; }
        int ex; double f = frexp(d, &ex);
        uint64_t mant = (uint64_t)ldexp(f, 53); k = ex - 53;
        int tz = __builtin_ctzll(mant); mant >>= tz; k += tz;
        m = mkC(bitsOf(mant), mant);
        return true;
    }
    if (e->op == Ite && (e->w == 64 || e->w == 32)) {
        Expr *s1, *m1, *s2, *m2; int k1, k2;
        if (!asScaled(e->b, s1, m1, k1) || !asScaled(e->c, s2, m2, k2)) return false;
        if (isC(m1, 0)) k1 = k2;
        if (isC(m2, 0)) k2 = k1;
        k = min(k1, k2);
        if (k1 - k + (int)m1->w > 53 || k2 - k + (int)m2->w > 53) return false;
        uint32_t W = max(k1 - k + m1->w, k2 - k + m2->w);
        s = mkIte(e->a, s1, s2);
        m = mkIte(e->a, alignTo(m1, k1 - k, W), alignTo(m2, k2 - k, W));
        return fitsScaled(e->w, m->ub, k);
    }
    return false;
}
bool fpExact(Expr* e) { Expr *s, *m; int k; return asScaled(e, s, m, k); }

static uint64_t nativeF(Op op, uint32_t w, uint64_t a, uint64_t b)
{
    if (w == 32) {
        float x, y, r = 0; uint32_t u = a, v = b;
        memcpy(&x, &u, 4); memcpy(&y, &v, 4);
        switch (op) {
        case FAdd: r = x + y; break; case FSub: r = x - y; break;
        case FMul: r = x * y; break; case FDiv: r = x / y; break;
        case FRem: r = fmodf(x, y); break; default: break;
        }
        memcpy(&u, &r, 4); return u;
    }
    double x = toD(64, a), y = toD(64, b), r = 0;
    switch (op) {
    case FAdd: r = x + y; break; case FSub: r = x - y; break;
    case FMul: r = x * y; break; case FDiv: r = x / y; break;
    case FRem: r = fmod(x, y); break; default: break;
    }
    return fromD(64, r);
}
Expr* mkFNeg(Expr* a)
{
    if (a->op == FScaled) return mkFScaled(a->w, mkNot(a->a), a->b, a->k);
    return mkConcat(mkNot(mkExtract(a, a->w - 1, 1)), mkExtract(a, 0, a->w - 1));
}
Expr* mkFAbs(Expr* a)
{
    if (a->op == FScaled) return mkFScaled(a->w, mkC(1, 0), a->b, a->k);
    return mkConcat(mkC(1, 0), mkExtract(a, 0, a->w - 1));
}
Expr* mkFBin(Op op, Expr* a, Expr* b)
{
    uint32_t w = a->w;
    if (isC(a) && isC(b)) return mkC(w, nativeF(op, w, a->v, b->v));
    double one = 1.0;
    if (op == FMul && isC(a)) std::swap(a, b);
    if ((op == FMul || op == FDiv) && isC(b)) {
        double d = toD(w, b->v);
        if (d == one) return a;
        if (d == -one) return mkFNeg(a);
        // dividing by a power of two is multiplying by its inverse
        int e;
        if (op == FDiv && std::isfinite(d) && d != 0 && fabs(frexp(d, &e)) == 0.5 && e > (w == 64 ? -1000 : -120) && e < (w == 64 ? 1000 : 120)) {
            op = FMul;
            b = mkC(w, fromD(w, 1.0 / d));
        }
    }
    Expr *s1, *m1, *s2, *m2; int k1, k2;
    if (asScaled(a, s1, m1, k1) && asScaled(b, s2, m2, k2)) {
        if (op == FMul) {
            if (m1->ub + m2->ub <= 53) {
                uint32_t W = max(1u, m1->ub + m2->ub);
                auto fit = [&](Expr* m) { return m->w > W ? mkExtract(m, 0, W) : mkZExt(m, W); };
                if (Expr* r = mkFScaled(w, mkBin(Xor, s1, s2), mkBin(Mul, fit(m1), fit(m2)), k1 + k2)) return r;
            }
            if (isC(m2, 1)) if (Expr* r = mkFScaled(w, mkBin(Xor, s1, s2), m1, k1 + k2)) return r;
            if (isC(m1, 1)) if (Expr* r = mkFScaled(w, mkBin(Xor, s1, s2), m2, k1 + k2)) return r;
        } else if (op == FDiv) {
            if (isC(m2, 1)) if (Expr* r = mkFScaled(w, mkBin(Xor, s1, s2), m1, k1 - k2)) return r;
        } else if (op == FAdd || op == FSub) {
            if (op == FSub) s2 = mkNot(s2);
            if (isC(m1, 0)) k1 = k2;
            if (isC(m2, 0)) k2 = k1;
            int k = min(k1, k2);
            int W = max((int)m1->w + k1 - k, (int)m2->w + k2 - k) + 1;
            if (W <= (w == 64 ? 53 : 24)) {
                Expr* x = signedAligned(s1, m1, k1 - k, W + 1);
                Expr* y = signedAligned(s2, m2, k2 - k, W + 1);
                Expr* z = mkBin(Add, x, y);
                Expr* neg = mkExtract(z, W, 1);
                Expr* mag = mkExtract(mkIte(neg, mkNeg(z), z), 0, W);
                // a zero sum is -0 only when both operands are -0
                Expr* zs = mkBin(And, mkBin(And, s1, s2), mkBin(Eq, z, mkC(W + 1, 0)));
                if (Expr* r = mkFScaled(w, mkBin(Or, neg, zs), mag, k)) return r;
            }
        }
    }
    if (op == FAdd && isC(a)) std::swap(a, b);
    return node(op, w, a, b);
}
Expr* mkFCmp(Op op, Expr* a, Expr* b)
{
    uint32_t w = a->w;
    auto d = [&](Expr* e) { return toD(w, e->v); };
    if (isC(a) && isC(b)) {
        double x = d(a), y = d(b);
        bool r = op == FOeq ? x == y : op == FOlt ? x < y : op == FOle ? x <= y : (std::isnan(x) || std::isnan(y));
        return mkC(1, r);
    }
    if (isC(a) && std::isnan(d(a))) return mkC(1, op == FUno);
    if (isC(b) && std::isnan(d(b))) return mkC(1, op == FUno);
    Expr *s1, *m1, *s2, *m2; int k1, k2;
    bool x1 = asScaled(a, s1, m1, k1), x2 = asScaled(b, s2, m2, k2);
    if (x1 && x2) {
        if (op == FUno) return mkC(1, 0);
        if (isC(m1, 0)) k1 = k2;
        if (isC(m2, 0)) k2 = k1;
        int k = min(k1, k2);
        if ((int)m1->w + k1 - k <= 250 && (int)m2->w + k2 - k <= 250) {
            uint32_t W = max(m1->w + k1 - k, m2->w + k2 - k);
            Expr* x = signedAligned(s1, m1, k1 - k, W + 1);
            Expr* y = signedAligned(s2, m2, k2 - k, W + 1);
            return mkBin(op == FOeq ? Eq : op == FOlt ? Slt : Sle, x, y);
        }
    }
    if ((x1 && isC(b)) || (x2 && isC(a))) {
        // scaled (finite) vs infinity
        Expr* c = isC(b) ? b : a;
        double v = d(c);
        if (std::isinf(v)) {
            if (op == FUno || op == FOeq) return mkC(1, 0);
            bool lt = isC(b) ? v > 0 : v < 0;
            return mkC(1, lt);
        }
    }
    if (op == FOeq && a == b) return mkNot(mkFCmp(FUno, a, a));
    if (op == FOlt && a == b) return mkC(1, 0);
    if (a->op == FPExt && b->op == FPExt) return mkFCmp(op, a->a, b->a);
    if (a->op == FPExt && isC(b) && (double)(float)d(b) == d(b)) return mkFCmp(op, a->a, mkC(32, fromD(32, d(b))));
    if (b->op == FPExt && isC(a) && (double)(float)d(a) == d(a)) return mkFCmp(op, mkC(32, fromD(32, d(a))), b->a);
    return node(op, 1, a, b);
}
Expr* mkIToF(bool sgn, Expr* a, uint32_t fw)
{
    if (isC(a)) {
        APInt v = constVal(a);
        if (a->w <= 64) {
            if (fw == 32) { float f = sgn ? (float)v.getSExtValue() : (float)v.getZExtValue(); uint32_t u; memcpy(&u, &f, 4); return mkC(32, u); }
            double x = sgn ? (double)v.getSExtValue() : (double)v.getZExtValue();
            return mkC(64, fromD(64, x));
        }
        return mkC(fw, fromD(fw, v.roundToDouble(sgn)));
    }
    uint32_t lim = fw == 64 ? 53 : 24;
    if (!sgn || a->ub < a->w) {
        if (a->ub <= lim) return mkFScaled(fw, mkC(1, 0), mkExtract(a, 0, max(1u, a->ub)), 0);
    } else if (a->sb <= lim) {
        Expr* x = mkExtract(a, 0, a->sb);
        Expr* s = mkExtract(x, a->sb - 1, 1);
        return mkFScaled(fw, s, mkIte(s, mkNeg(x), x), 0);
    }
    return node(sgn && a->ub == a->w ? SIToF : UIToF, fw, a);
}
static uint64_t nativeCvt(double x, uint32_t bits)
{ // cvttsd2si
    if (bits == 32) {
        if (!(x > -2147483649.0 && x < 2147483648.0)) return 0x80000000u;
        return (uint32_t)(int32_t)x;
    }
    if (!(x >= -9223372036854775808.0 && x < 9223372036854775808.0)) return 0x8000000000000000ull;
    return (uint64_t)(int64_t)x;
}
static uint64_t nativeFToI(bool sgn, double x, uint32_t iw)
{
    uint64_t r;
    if (sgn) r = nativeCvt(x, iw <= 32 ? 32 : 64);
    else if (iw <= 16) r = nativeCvt(x, 32);
    else if (iw <= 32) r = nativeCvt(x, 64);
    else {
        uint64_t f = nativeCvt(x, 64), s = nativeCvt(x - 9223372036854775808.0, 64);
        r = f | (s & (uint64_t)((int64_t)f >> 63));
    }
    return iw == 64 ? r : r & ((1ull << iw) - 1);
}
double nativeFn(int f, double x)
{
    switch (f) {
    case FnLog: return log(x); case FnLog2: return log2(x); case FnLog10: return log10(x);
    case FnSqrt: return sqrt(x); case FnExp: return exp(x); case FnExp2: return exp2(x);
    case FnFloor: return floor(x); case FnCeil: return ceil(x); case FnTrunc: return trunc(x);
    case FnRound: return round(x); case FnRint: case FnRoundEven: return rint(x);
    case FnLog1p: return log1p(x); case FnCbrt: return cbrt(x);
    }
    return NAN;
}
// ---- monotone chains -------------------------------------------------------
struct Chain {
    vector<Expr*> steps; // outermost first
    Expr* param = nullptr; int kind = 0; // 0: mag*2^k*(sign) ; 1: double bits (>=0); 2: uint; 3: float bits
    int k = 0; bool neg = false; uint32_t bw = 64;
    bool dec = false;
};
static bool chainOf(Expr* e, Chain& c)
{
    for (;;) {
        switch (e->op) {
        case FAdd:
            if (!isC(e->b) || !std::isfinite(toD(e->w, e->b->v))) return false;
            c.steps.push_back(e); e = e->a; continue;
        case FSub:
            if (isC(e->b)) { c.steps.push_back(e); e = e->a; continue; }
            if (isC(e->a)) { c.steps.push_back(e); c.dec = !c.dec; e = e->b; continue; }
            return false;
        case FMul:
        case FDiv: {
            if (!isC(e->b)) return false;
            double d = toD(e->w, e->b->v);
            if (!std::isfinite(d) || d == 0) return false;
            if (d < 0) c.dec = !c.dec;
            c.steps.push_back(e); e = e->a; continue;
        }
        case FUn: c.steps.push_back(e); e = e->a; continue;
        case FPExt: case FPTrunc: c.steps.push_back(e); e = e->a; continue;
        case FScaled:
            if (!isC(e->a)) return false;
            c.param = e->b; c.k = e->k; c.neg = e->a->v; if (c.neg) c.dec = !c.dec; c.kind = 0;
            return true;
        case UIToF: c.param = e->a; c.kind = 2; c.bw = e->w; return e->a->w <= 64;
        default:
            if (e->w == 64 && e->ub < 64) { c.param = e; c.kind = 1; return true; }
            if (e->w == 32 && e->ub < 32) { c.param = e; c.kind = 3; return true; }
            return false;
        }
    }
}
static double chainEval(const Chain& c, uint64_t p)
{
    double x;
    switch (c.kind) {
    case 0: x = ldexp((double)p, c.k); if (c.neg) x = -x; break;
    case 1: x = toD(64, p); break;
    case 3: x = toD(32, p); break;
    default: x = c.bw == 32 ? (double)(float)p : (double)p;
    }
    for (int i = (int)c.steps.size() - 1; i >= 0; --i) {
        Expr* s = c.steps[i];
        uint32_t w = s->w;
        switch (s->op) {
        case FUn: x = nativeFn(s->k, x); if (w == 32) x = (float)x; break;
        case FPExt: break;
        case FPTrunc: x = (float)x; break;
        case FSub:
            if (isC(s->a) && !isC(s->b)) { x = toD(w, nativeF(FSub, w, s->a->v, fromD(w, x))); break; }
            [[fallthrough]];
        default: x = toD(w, nativeF(s->op, w, fromD(w, x), s->b->v));
        }
    }
    return x;
}
static Expr* monotoneToI(bool sgn, Expr* a, uint32_t iw)
{
    Chain c;
    if (!gRangeHook || !chainOf(a, c) || c.param->w > 64) return nullptr;
    if (c.steps.empty()) return nullptr;
    APInt lo, hi;
    if (!gRangeHook(c.param, lo, hi)) return nullptr;
    uint64_t l = lo.getZExtValue(), h = hi.getZExtValue();
    if (c.kind == 1 && h > 0x7ff0000000000000ull) return nullptr;
    if (c.kind == 3 && h > 0x7f800000ull) return nullptr;
    auto g = [&](uint64_t p) { double d = chainEval(c, p); return std::isfinite(d) ? trunc(d) : d; };
    // NaN anywhere at the end points: give up
    if (std::isnan(g(l)) || std::isnan(g(h))) return nullptr;
    vector<std::pair<uint64_t, double>> pieces; // (last p, value)
    uint64_t cur = l;
    while (true) {
        double v = g(cur);
        uint64_t x = cur, y = h; // last p in [x,y] with g(p)==v
        if (g(y) == v) { pieces.push_back({ y, v }); break; }
        while (y - x > 1) {
            uint64_t m = x + (y - x) / 2;
            if (g(m) == v) x = m; else y = m;
        }
        pieces.push_back({ x, v });
        cur = x + 1;
        if (pieces.size() > 600) return nullptr;
    }
    Expr* r = mkC(iw, nativeFToI(sgn, pieces.back().second, iw));
    for (int i = (int)pieces.size() - 2; i >= 0; --i)
        r = mkIte(mkBin(Ule, c.param, mkC(c.param->w, pieces[i].first)), mkC(iw, nativeFToI(sgn, pieces[i].second, iw)), r);
    return r;
}
Expr* mkFToI(bool sgn, Expr* a, uint32_t iw)
{
    if (isC(a)) return mkC(iw, nativeFToI(sgn, toD(a->w, a->v), iw));
    Expr *s, *m; int k;
    if (asScaled(a, s, m, k)) {
        Expr* T;
        if (k >= 0) T = alignTo(m, k, m->w + k);
        else if ((uint32_t)-k >= m->w) return mkC(iw, 0);
        else T = mkExtract(m, -k, m->w + k);
        if (T->ub < T->w) T = mkExtract(T, 0, max(1u, T->ub));
        if (T->w <= 1100) {
            uint32_t cw = sgn ? (iw <= 32 ? 32 : 64) : iw <= 16 ? 32 : 64;
            bool u64 = !sgn && iw > 32;
            if (T->w <= cw - 1) return mkExtract(scaledSigned(s, T, cw), 0, iw);
            if (u64 && T->w <= 64 && isC(s, 0)) return mkZExt(T, 64);
            uint32_t W = max(T->w, cw) + 1;
            Expr* TT = mkZExt(T, W);
            Expr* norm = mkExtract(scaledSigned(s, TT, W), 0, cw);
            Expr* lim = mkC(APInt(W, 1).shl(u64 ? 64 : cw - 1));
            Expr* over = mkBin(Ule, lim, TT);
            if (u64) over = mkBin(Or, over, mkBin(And, s, mkBin(Ule, mkC(APInt(W, 1).shl(63)), TT)));
            Expr* res = mkIte(over, mkC(APInt(cw, 1).shl(cw - 1)), norm);
            return mkExtract(res, 0, iw);
        }
    }
    if (Expr* r = monotoneToI(sgn, a, iw)) return r;
    return node(sgn ? FToSI : FToUI, iw, a);
}
Expr* mkFPExt(Expr* a)
{
    assert(a->w == 32);
    if (isC(a)) return mkC(64, fromD(64, toD(32, a->v)));
    if (a->op == FScaled) return mkFScaled(64, a->a, a->b, a->k);
    if (a->op == FPTrunc) { Expr *s, *m; int k; (void)s; (void)m; (void)k; }
    return node(FPExt, 64, a);
}
Expr* mkFPTrunc(Expr* a)
{
    assert(a->w == 64);
    if (isC(a)) return mkC(32, fromD(32, toD(64, a->v)));
    if (a->op == FScaled) if (Expr* r = mkFScaled(32, a->a, a->b, a->k)) return r;
    if (a->op == FPExt) {
        Expr* x = a->a;
        // only a signalling NaN changes (it becomes quiet)
        Expr* nan = mkBin(Ult, mkC(31, 0x7f800000), mkExtract(x, 0, 31));
        return mkIte(nan, mkBin(Or, x, mkC(32, 0x400000)), x);
    }
    return node(FPTrunc, 32, a);
}
Expr* mkFUn(Fn f, Expr* a)
{
    if (isC(a)) return mkC(a->w, fromD(a->w, nativeFn(f, toD(a->w, a->v))));
    Expr *s, *m; int k;
    if (f >= FnFloor && f <= FnRint || f == FnRoundEven)
        if (asScaled(a, s, m, k)) {
            if (k >= 0) return a;
            uint32_t n = -k;
            Expr* T = n >= m->w ? mkC(1, 0) : mkExtract(m, n, m->w - n);
            Expr* half = n - 1 < m->w ? mkExtract(m, n - 1, 1) : mkC(1, 0);
            Expr* rest = n > 1 ? mkNot(mkBin(Eq, mkExtract(m, 0, min(n - 1, m->w)), mkC(min(n - 1, m->w), 0))) : mkC(1, 0);
            Expr* frac = mkBin(Or, half, rest);
            Expr* inc;
            switch (f) {
            case FnFloor: inc = mkBin(And, s, frac); break;
            case FnCeil: inc = mkBin(And, mkNot(s), frac); break;
            case FnTrunc: inc = mkC(1, 0); break;
            case FnRound: inc = half; break;
            default: inc = mkBin(And, half, mkBin(Or, rest, mkExtract(T, 0, 1)));
            }
            uint32_t W = T->w + 1;
            if (Expr* r = mkFScaled(a->w, s, mkBin(Add, mkZExt(T, W), mkZExt(inc, W)), 0)) return r;
        }
    return node(FUn, a->w, a, nullptr, nullptr, f);
}

// BV definition of FScaled / comparisons (used for lowering)
static Expr* encodeScaled(Expr* e)
{
    uint32_t p = e->w == 64 ? 53 : 24, eb = e->w == 64 ? 11 : 8; int bias = e->w == 64 ? 1023 : 127;
    Expr* m = mkZExt(e->b, p);
    Expr* ex = mkC(eb + 2, (uint64_t)(int64_t)(bias + e->k + (int)p - 1));
    Expr* zero = mkBin(Eq, e->b, mkC(e->b->w, 0));
    for (uint32_t s = p == 53 ? 32 : 16; s; s >>= 1) {
        Expr* z = mkBin(Eq, mkExtract(m, p - s, s), mkC(s, 0));
        m = mkIte(z, mkConcat(mkExtract(m, 0, p - s), mkC(s, 0)), m);
        ex = mkIte(z, mkBin(Add, ex, mkC(eb + 2, (uint64_t)-(int64_t)s)), ex);
    }
    Expr* body = mkConcat(mkExtract(ex, 0, eb), mkExtract(m, 0, p - 1));
    return mkConcat(e->a, mkIte(zero, mkC(e->w - 1, 0), body));
}
static Expr* encodeCmp(Expr* e)
{
    Expr *a = e->a, *b = e->b;
    uint32_t w = a->w;
    if (a->op == FScaled) a = encodeScaled(a);
    if (b->op == FScaled) b = encodeScaled(b);
    uint64_t inf = w == 64 ? 0x7ff0000000000000ull : 0x7f800000ull;
    Expr *ma = mkExtract(a, 0, w - 1), *mb = mkExtract(b, 0, w - 1);
    Expr *sa = mkExtract(a, w - 1, 1), *sb = mkExtract(b, w - 1, 1);
    Expr* nan = mkBin(Or, mkBin(Ult, mkC(w - 1, inf), ma), mkBin(Ult, mkC(w - 1, inf), mb));
    if (e->op == FUno) return nan;
    Expr* bothz = mkBin(And, mkBin(Eq, ma, mkC(w - 1, 0)), mkBin(Eq, mb, mkC(w - 1, 0)));
    Expr* eq = mkBin(Or, bothz, mkBin(And, mkBin(Eq, sa, sb), mkBin(Eq, ma, mb)));
    Expr* lt = mkBin(And, mkNot(bothz), mkIte(sa, mkIte(sb, mkBin(Ult, mb, ma), mkC(1, 1)), mkIte(sb, mkC(1, 0), mkBin(Ult, ma, mb))));
    Expr* r = e->op == FOeq ? eq : e->op == FOlt ? lt : mkBin(Or, lt, eq);
    return mkBin(And, mkNot(nan), r);
}

// ------------------------------------------------------------ evaluation
void newEpoch() { ++gEpoch; }
static APInt evalRaw(Expr* e);
APInt evalBig(Expr* e)
{
    if (e->op == Const) return constVal(e);
    if (e->epoch == gEpoch) return e->w <= 64 ? APInt(e->w, e->ev) : *e->evbig;
    APInt r = evalRaw(e);
    e->epoch = gEpoch;
    if (e->w <= 64) e->ev = r.getZExtValue();
    else { if (!e->evbig) e->evbig = new APInt(r); else *e->evbig = r; }
    return r;
}
uint64_t evalU(Expr* e) { return evalBig(e).getZExtValue(); }
static APInt evalRaw(Expr* e)
{
    uint32_t w = e->w;
    auto D = [&](Expr* x) { return toD(x->w, evalU(x)); };
    switch (e->op) {
    case Var: return APInt(8, (size_t)e->k < gModel.size() ? gModel[e->k] : 0);
    case Concat: return evalBig(e->a).zext(w).shl(e->b->w) | evalBig(e->b).zext(w);
    case Extract: return evalBig(e->a).extractBits(w, e->k);
    case ZExt: return evalBig(e->a).zext(w);
    case SExt: return evalBig(e->a).sext(w);
    case Ite: return evalBig(e->a) == 1 ? evalBig(e->b) : evalBig(e->c);
    case FScaled: {
        double d = ldexp((double)evalU(e->b), e->k);
        return APInt(w, fromD(w, evalU(e->a) ? -d : d));
    }
    case FAdd: case FSub: case FMul: case FDiv: case FRem: return APInt(w, nativeF(e->op, w, evalU(e->a), evalU(e->b)));
    case FOeq: return APInt(1, D(e->a) == D(e->b));
    case FOlt: return APInt(1, D(e->a) < D(e->b));
    case FOle: return APInt(1, D(e->a) <= D(e->b));
    case FUno: return APInt(1, std::isnan(D(e->a)) || std::isnan(D(e->b)));
    case SIToF: case UIToF: return constVal(mkIToF(e->op == SIToF, mkC(evalBig(e->a)), w));
    case FToSI: case FToUI: return APInt(w, nativeFToI(e->op == FToSI, D(e->a), w));
    case FPExt: case FPTrunc: return APInt(w, fromD(w, D(e->a)));
    case FUn: return APInt(w, fromD(w, nativeFn(e->k, D(e->a))));
    default: return foldBin(e->op, evalBig(e->a), evalBig(e->b));
    }
}
const vector<int>& varsOf(Expr* e)
{
    static const vector<int> none;
    if (e->vars) return *e->vars;
    if (e->op == Const) { e->vars = &none; return none; }
    if (e->op == Var) { e->vars = new vector<int> { e->k }; return *e->vars; }
    const vector<int>* acc = nullptr;
    for (Expr* x : { e->a, e->b, e->c })
        if (x) {
            const vector<int>& v = varsOf(x);
            if (v.empty()) continue;
            if (!acc) { acc = &v; continue; }
            if (acc == &v || std::includes(acc->begin(), acc->end(), v.begin(), v.end())) continue;
            auto* n = new vector<int>;
            std::set_union(acc->begin(), acc->end(), v.begin(), v.end(), std::back_inserter(*n));
            acc = n;
        }
    e->vars = acc ? acc : &none;
    return *e->vars;
}

// ------------------------------------------------------------ printing
std::string show(Expr* e, int d)
{
    static const char* nm[] = { "c", "v", "concat", "ext", "zx", "sx", "add", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "ite", "fsc", "fadd", "fsub", "fmul", "fdiv", "frem", "foeq", "folt", "fole", "funo", "sitof", "uitof", "ftosi", "ftoui", "fpext", "fptrunc", "fun" };
    if (e->op == Const) { llvm::SmallString<40> s; constVal(e).toStringUnsigned(s, 16); return "0x" + std::string(s.str()) + ":" + std::to_string(e->w); }
    if (e->op == Var) return "b" + std::to_string(e->k);
    if (d == 0) return "...";
    std::string r = std::string("(") + nm[e->op];
    if (e->op == Extract || e->op == FScaled || e->op == FUn) r += "[" + std::to_string(e->k) + "]";
    r += ":" + std::to_string(e->w);
    for (Expr* x : { e->a, e->b, e->c }) if (x) r += " " + show(x, d - 1);
    return r + ")";
}

// ------------------------------------------------------------ Z3 lowering
Z3_context gZ3;
static Z3_sort sF64, sF32; static Z3_ast sRNE, sRTZ;
static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
void z3init()
{
    Z3_config cfg = Z3_mk_config();
    gZ3 = Z3_mk_context(cfg); // non-refcounted asts live as long as the context
    Z3_set_error_handler(gZ3, zerr);
    sF64 = Z3_mk_fpa_sort_double(gZ3); sF32 = Z3_mk_fpa_sort_single(gZ3);
    sRNE = Z3_mk_fpa_rne(gZ3); sRTZ = Z3_mk_fpa_rtz(gZ3);
}
static Z3_ast z3num(const APInt& v)
{
    llvm::SmallString<80> s; v.toStringUnsigned(s, 10);
    return Z3_mk_numeral(gZ3, s.c_str(), Z3_mk_bv_sort(gZ3, v.getBitWidth()));
}
static Z3_ast z3fp(Expr* e)
{
    if (e->zf) return e->zf;
    Z3_ast r;
    Z3_sort s = e->w == 64 ? sF64 : sF32;
    switch (e->op) {
    case FAdd: r = Z3_mk_fpa_add(gZ3, sRNE, z3fp(e->a), z3fp(e->b)); break;
    case FSub: r = Z3_mk_fpa_sub(gZ3, sRNE, z3fp(e->a), z3fp(e->b)); break;
    case FMul: r = Z3_mk_fpa_mul(gZ3, sRNE, z3fp(e->a), z3fp(e->b)); break;
    case FDiv: r = Z3_mk_fpa_div(gZ3, sRNE, z3fp(e->a), z3fp(e->b)); break;
    case SIToF: r = Z3_mk_fpa_to_fp_signed(gZ3, sRNE, z3bv(e->a), s); break;
    case UIToF: r = Z3_mk_fpa_to_fp_unsigned(gZ3, sRNE, z3bv(e->a), s); break;
    case FPExt: case FPTrunc: r = Z3_mk_fpa_to_fp_float(gZ3, sRNE, z3fp(e->a), s); break;
    case FUn:
        switch (e->k) {
        case FnSqrt: r = Z3_mk_fpa_sqrt(gZ3, sRNE, z3fp(e->a)); break;
        case FnFloor: r = Z3_mk_fpa_round_to_integral(gZ3, Z3_mk_fpa_rtn(gZ3), z3fp(e->a)); break;
        case FnCeil: r = Z3_mk_fpa_round_to_integral(gZ3, Z3_mk_fpa_rtp(gZ3), z3fp(e->a)); break;
        case FnTrunc: r = Z3_mk_fpa_round_to_integral(gZ3, sRTZ, z3fp(e->a)); break;
        case FnRound: r = Z3_mk_fpa_round_to_integral(gZ3, Z3_mk_fpa_rna(gZ3), z3fp(e->a)); break;
        case FnRint: case FnRoundEven: r = Z3_mk_fpa_round_to_integral(gZ3, sRNE, z3fp(e->a)); break;
        default: { // uninterpreted libm function
            Z3_sort d[1] = { s };
            static std::map<std::pair<int, int>, Z3_func_decl> ds;
            auto& fd = ds[{ e->k, (int)e->w }];
            if (!fd) fd = Z3_mk_func_decl(gZ3, Z3_mk_string_symbol(gZ3, ("libm" + std::to_string(e->k) + "_" + std::to_string(e->w)).c_str()), 1, d, s);
            Z3_ast arg = z3fp(e->a);
            r = Z3_mk_app(gZ3, fd, 1, &arg);
        }
        }
        break;
    default: r = Z3_mk_fpa_to_fp_bv(gZ3, z3bv(e), s);
    }
    e->zf = r;
    return r;
}
Z3_ast z3bool(Expr* e)
{
    assert(e->w == 1);
    if (e->zb) return e->zb;
    Z3_ast r;
    switch (e->op) {
    case Const: r = e->v ? Z3_mk_true(gZ3) : Z3_mk_false(gZ3); break;
    case And: { Z3_ast x[2] = { z3bool(e->a), z3bool(e->b) }; r = Z3_mk_and(gZ3, 2, x); break; }
    case Or: { Z3_ast x[2] = { z3bool(e->a), z3bool(e->b) }; r = Z3_mk_or(gZ3, 2, x); break; }
    case Xor:
        if (isC(e->b, 1)) r = Z3_mk_not(gZ3, z3bool(e->a));
        else r = Z3_mk_xor(gZ3, z3bool(e->a), z3bool(e->b));
        break;
    case Eq: r = Z3_mk_eq(gZ3, z3bv(e->a), z3bv(e->b)); break;
    case Ult: r = Z3_mk_bvult(gZ3, z3bv(e->a), z3bv(e->b)); break;
    case Ule: r = Z3_mk_bvule(gZ3, z3bv(e->a), z3bv(e->b)); break;
    case Slt: r = Z3_mk_bvslt(gZ3, z3bv(e->a), z3bv(e->b)); break;
    case Sle: r = Z3_mk_bvsle(gZ3, z3bv(e->a), z3bv(e->b)); break;
    case Ite: r = Z3_mk_ite(gZ3, z3bool(e->a), z3bool(e->b), z3bool(e->c)); break;
    case FOeq: case FOlt: case FOle: case FUno: r = z3bool(encodeCmp(e)); break;
    default: r = Z3_mk_eq(gZ3, z3bv(e), z3num(APInt(1, 1)));
    }
    e->zb = r;
    return r;
}
Z3_ast z3bv(Expr* e)
{
    if (e->z) return e->z;
    Z3_ast r;
    auto B = [&](Expr* x) { return z3bv(x); };
    switch (e->op) {
    case Const: r = z3num(constVal(e)); break;
    case Var: r = Z3_mk_const(gZ3, Z3_mk_int_symbol(gZ3, e->k), Z3_mk_bv_sort(gZ3, 8)); break;
    case Concat: r = Z3_mk_concat(gZ3, B(e->a), B(e->b)); break;
    case Extract: r = Z3_mk_extract(gZ3, e->k + e->w - 1, e->k, B(e->a)); break;
    case ZExt: r = Z3_mk_zero_ext(gZ3, e->w - e->a->w, B(e->a)); break;
    case SExt: r = Z3_mk_sign_ext(gZ3, e->w - e->a->w, B(e->a)); break;
    case Add: r = Z3_mk_bvadd(gZ3, B(e->a), B(e->b)); break;
    case Mul:
        if (isC(e->b) && constVal(e->b).isAllOnes()) r = Z3_mk_bvneg(gZ3, B(e->a));
        else r = Z3_mk_bvmul(gZ3, B(e->a), B(e->b));
        break;
    case UDiv: r = Z3_mk_bvudiv(gZ3, B(e->a), B(e->b)); break;
    case SDiv: r = Z3_mk_bvsdiv(gZ3, B(e->a), B(e->b)); break;
    case URem: r = Z3_mk_bvurem(gZ3, B(e->a), B(e->b)); break;
    case SRem: r = Z3_mk_bvsrem(gZ3, B(e->a), B(e->b)); break;
    case And:
        if (e->w == 1) goto boolish;
        r = Z3_mk_bvand(gZ3, B(e->a), B(e->b)); break;
    case Or:
        if (e->w == 1) goto boolish;
        r = Z3_mk_bvor(gZ3, B(e->a), B(e->b)); break;
    case Xor:
        if (e->w == 1) goto boolish;
        r = Z3_mk_bvxor(gZ3, B(e->a), B(e->b)); break;
    case Shl: r = Z3_mk_bvshl(gZ3, B(e->a), B(e->b)); break;
    case LShr: r = Z3_mk_bvlshr(gZ3, B(e->a), B(e->b)); break;
    case AShr: r = Z3_mk_bvashr(gZ3, B(e->a), B(e->b)); break;
    case Ite: r = Z3_mk_ite(gZ3, z3bool(e->a), B(e->b), B(e->c)); break;
    case FScaled: r = z3bv(encodeScaled(e)); break;
    case FAdd: case FSub: case FMul: case FDiv: case SIToF: case UIToF: case FPExt: case FPTrunc: case FUn:
        r = Z3_mk_fpa_to_ieee_bv(gZ3, z3fp(e)); break;
    case FToSI: case FToUI: {
        uint32_t cw = e->op == FToSI ? (e->w <= 32 ? 32 : 64) : e->w <= 16 ? 32 : 64;
        Z3_ast x = z3fp(e->a);
        bool u64 = e->op == FToUI && e->w > 32;
        auto num = [&](double d) { return Z3_mk_fpa_to_fp_bv(gZ3, z3num(APInt(e->a->w, fromD(e->a->w, d))), e->a->w == 64 ? sF64 : sF32); };
        Z3_ast in[2] = { Z3_mk_fpa_gt(gZ3, x, num(cw == 32 ? -2147483649.0 : -9223372036854775808.0)), Z3_mk_fpa_lt(gZ3, x, num(cw == 32 ? 2147483648.0 : 9223372036854775808.0)) };
        Z3_ast v = Z3_mk_ite(gZ3, Z3_mk_and(gZ3, 2, in), Z3_mk_fpa_to_sbv(gZ3, sRTZ, x, cw), z3num(APInt(cw, 1).shl(cw - 1)));
        if (u64) {
            Z3_ast in2[2] = { Z3_mk_fpa_geq(gZ3, x, num(9223372036854775808.0)), Z3_mk_fpa_lt(gZ3, x, num(18446744073709551616.0)) };
            v = Z3_mk_ite(gZ3, Z3_mk_and(gZ3, 2, in2), Z3_mk_fpa_to_ubv(gZ3, sRTZ, x, 64), v);
        }
        r = e->w < cw ? Z3_mk_extract(gZ3, e->w - 1, 0, v) : v;
        break;
    }
    boolish:
    default: // boolean-valued
        r = Z3_mk_ite(gZ3, z3bool(e), z3num(APInt(1, 1)), z3num(APInt(1, 0)));
    }
    e->z = r;
    return r;
}
