#include "solver.hpp"
#include <algorithm>
#include <chrono>
#include <cstring>
#include <set>
using std::vector;
Shared* SH; int gEntry = 0; uint64_t gRlimit = 0; PC gPC;

static std::map<vector<uint32_t>, std::pair<Res, std::map<int, uint8_t>>> cache;

static void splitAnd(Expr* c, vector<Expr*>& out)
{
    if (c->op == And && c->w == 1) { splitAnd(c->a, out); splitAnd(c->b, out); return; }
    out.push_back(c);
}
void addPC(Expr* c)
{
    vector<Expr*> v; splitAnd(c, v);
    for (Expr* x : v) {
        if (isC(x) || gPC.known.count(x)) continue;
        gPC.cs.push_back(x);
        gPC.known[x] = true;
        gPC.known[mkNot(x)] = false;
    }
    if (SH && gPC.cs.size() > SH->e[gEntry].maxpc) SH->e[gEntry].maxpc = gPC.cs.size();
}
Res solve(Expr* extra, vector<uint8_t>* model)
{
    EStat& S = SH->e[gEntry];
    if (isFalse(extra)) return UNSAT;
    // slice
    vector<Expr*> use; splitAnd(extra, use);
    for (auto* u : use) { auto it = gPC.known.find(u); if (it != gPC.known.end() && !it->second) return UNSAT; }
    std::set<int> vs;
    for (auto* u : use) { auto& v = varsOf(u); vs.insert(v.begin(), v.end()); }
    vector<bool> in(gPC.cs.size());
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < gPC.cs.size(); ++i)
            if (!in[i]) {
                auto& v = varsOf(gPC.cs[i]);
                bool hit = false;
                for (int x : v) if (vs.count(x)) { hit = true; break; }
                if (hit) { in[i] = true; ch = true; vs.insert(v.begin(), v.end()); use.push_back(gPC.cs[i]); }
            }
    }
    vector<uint32_t> key;
    for (auto* u : use) key.push_back(u->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = cache.find(key);
    if (it != cache.end()) {
        if (it->second.first == SAT && model) {
            *model = gModel;
            for (auto& p : it->second.second) { if ((size_t)p.first >= model->size()) model->resize(p.first + 1); (*model)[p.first] = p.second; }
        }
        return it->second.first;
    }
    auto t0 = std::chrono::steady_clock::now();
    bool fp = false;
    for (auto* u : use) fp |= u->hasFP;
    Z3_tactic t = Z3_mk_tactic(gZ3, fp ? "qffpbv" : "qfbv");
    Z3_tactic_inc_ref(gZ3, t);
    Z3_solver s = Z3_mk_solver_from_tactic(gZ3, t);
    Z3_solver_inc_ref(gZ3, s);
    if (gRlimit) {
        Z3_params p = Z3_mk_params(gZ3); Z3_params_inc_ref(gZ3, p);
        Z3_params_set_uint(gZ3, p, Z3_mk_string_symbol(gZ3, "rlimit"), (unsigned)gRlimit);
        Z3_solver_set_params(gZ3, s, p); Z3_params_dec_ref(gZ3, p);
    }
    for (auto* u : use) Z3_solver_assert(gZ3, s, z3bool(u));
    Z3_lbool r = Z3_solver_check(gZ3, s);
    Res res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNK;
    std::map<int, uint8_t> asg;
    if (res == SAT) {
        Z3_model m = Z3_solver_get_model(gZ3, s); Z3_model_inc_ref(gZ3, m);
        for (int x : vs) {
            Z3_ast v; uint64_t n = 0;
            if (Z3_model_eval(gZ3, m, z3bv(mkVar(x)), true, &v)) Z3_get_numeral_uint64(gZ3, v, &n);
            asg[x] = n;
        }
        Z3_model_dec_ref(gZ3, m);
        vector<uint8_t> nm = gModel;
        for (auto& p : asg) { if ((size_t)p.first >= nm.size()) nm.resize(p.first + 1); nm[p.first] = p.second; }
        // the solver's verdict is cross-checked by concrete evaluation
        std::swap(nm, gModel); newEpoch();
        bool ok = true;
        for (auto* u : use) if (evalU(u) != 1) ok = false;
        std::swap(nm, gModel); newEpoch();
        if (!ok) {
            res = UNK; // uninterpreted function or NaN payload: not a usable model
        } else if (model) *model = nm;
    }
    Z3_solver_dec_ref(gZ3, s); Z3_tactic_dec_ref(gZ3, t);
    uint64_t us = std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - t0).count();
    S.queries++; S.solverUs += us;
    if (res == SAT) S.sat++; else if (res == UNSAT) S.unsat++; else S.unknown++;
    static bool qlog = getenv("VF_QLOG");
    if (qlog || us > 5000000) {
        fprintf(stderr, "[slow query %.3fs entry %d res %d goal %s]\n", us / 1e6, gEntry, res, show(extra, 5).substr(0, 300).c_str());
    }
    cache[key] = { res, asg };
    return res;
}
bool getRange(Expr* e, APInt& lo, APInt& hi)
{
    uint32_t w = e->w;
    if (isC(e)) { lo = hi = constVal(e); return true; }
    newEpoch();
    APInt cur = evalBig(e);
    vector<uint8_t> save = gModel, m;
    auto probe = [&](Expr* c, APInt& val) -> int {
        Res r = solve(c, &m);
        if (r == SAT) { std::swap(gModel, m); newEpoch(); val = evalBig(e); gModel = save; newEpoch(); return 1; }
        return r == UNSAT ? 0 : -1;
    };
    // bounds stated directly by path constraints on e
    APInt top = APInt::getLowBitsSet(w, e->ub), bot(w, 0);
    auto up = [&](APInt v) { if (v.ult(top)) top = v; };
    auto dn = [&](APInt v) { if (v.ugt(bot)) bot = v; };
    for (Expr* c : gPC.cs) {
        bool neg = false;
        if (c->op == Xor && c->w == 1 && isC(c->b) && c->b->v == 1) { neg = true; c = c->a; }
        if (c->op != Ult && c->op != Ule) continue;
        bool strict = c->op == Ult;
        if (c->a == e && isC(c->b)) {
            APInt k = constVal(c->b);
            if (!neg) { if (!strict) up(k); else if (k != 0) up(k - 1); }
            else { if (strict) dn(k); else if (!k.isMaxValue()) dn(k + 1); }
        } else if (c->b == e && isC(c->a)) {
            APInt k = constVal(c->a);
            if (!neg) { if (!strict) dn(k); else if (!k.isMaxValue()) dn(k + 1); }
            else { if (strict) up(k); else if (k != 0) up(k - 1); }
        } else if (!neg && c->a->op == Add && c->a->a == e && isC(c->a->b) && isC(c->b)) {
            APInt l = -constVal(c->a->b), r = constVal(c->b);
            if (strict) { if (r == 0) continue; r = r - 1; }
            bool ov; APInt h = l.uadd_ov(r, ov);
            if (!ov) { dn(l); up(h); }
        }
    }
    // max
    APInt best = cur, v;
    bool firstTry = true;
    while (best.ult(top)) {
        APInt mid = best + (top - best).lshr(1) + ((top - best) == 1 ? 1 : 0);
        if (top - best == 1 || firstTry) mid = top;
        firstTry = false;
        int r = probe(mkBin(Ule, mkC(mid), e), v);
        if (r < 0) return false;
        if (r) best = v; else top = mid - 1;
    }
    hi = best;
    best = cur; firstTry = true;
    while (bot.ult(best)) {
        APInt mid = bot + (best - bot).lshr(1);
        if (firstTry) mid = bot;
        firstTry = false;
        int r = probe(mkBin(Ule, e, mkC(mid)), v);
        if (r < 0) return false;
        if (r) best = v; else bot = mid + 1;
    }
    lo = best;
    return true;
}
Res solveNe(Expr* x, Expr* y)
{ // satisfiability of x != y, asserted as it stands
    EStat& S = SH->e[gEntry];
    auto t0 = std::chrono::steady_clock::now();
    Z3_solver s = Z3_mk_simple_solver(gZ3);
    Z3_solver_inc_ref(gZ3, s);
    Z3_solver_assert(gZ3, s, Z3_mk_not(gZ3, Z3_mk_eq(gZ3, z3bv(x), z3bv(y))));
    Z3_lbool r = Z3_solver_check(gZ3, s);
    Z3_solver_dec_ref(gZ3, s);
    S.queries++;
    S.solverUs += std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - t0).count();
    if (r == Z3_L_FALSE) { S.unsat++; return UNSAT; }
    S.unknown++;
    return UNK;
}
