#pragma once
#include "expr.hpp"
#include <atomic>
#include <semaphore.h>
enum { MAXE = 512, MAXF = 60000, MAXL = 4096 };
struct EStat {
    std::atomic<uint64_t> paths, infeasible, checks, checksSolver, checksTrivial, viol, errs, incomplete, queries, sat, unsat, unknown, solverUs, insts, forks, symvars, maxpc, enumerated;
};
struct Shared {
    sem_t tokens;
    std::atomic<uint64_t> live;
    EStat e[MAXE];
    uint8_t fn[MAXF];
    std::atomic<uint32_t> lblHash[MAXL]; // dedup of (entry,label,kind)
    std::atomic<uint32_t> lblCount[MAXL];
};
extern Shared* SH;
extern int gEntry;
extern uint64_t gRlimit;
struct PC {
    std::vector<Expr*> cs;
    std::unordered_map<Expr*, bool> known;
};
extern PC gPC;
enum Res { SAT, UNSAT, UNK };
// is pc /\ extra satisfiable?  On SAT, fills model (a full assignment of all variables).
Res solve(Expr* extra, std::vector<uint8_t>* model);
Res solveNe(Expr* x, Expr* y);
void addPC(Expr* c); // model must already satisfy it
bool getRange(Expr* e, APInt& lo, APInt& hi);
