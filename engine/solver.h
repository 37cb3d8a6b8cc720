// symx: constraint solving on top of Z3.
#pragma once
#include "expr.h"
#include <z3.h>
#include <map>
#include <memory>

enum class Res { Sat, Unsat, Unknown };

struct SolverStats
{
    u64 queries = 0;      // questions asked by the executor
    u64 z3_queries = 0;   // questions answered by Z3
    u64 cache_hits = 0;
    u64 fd_decided = 0;   // decided by the single-byte domain tables
    u64 model_hits = 0;   // satisfiable because the current model already satisfies it
    u64 unknown = 0;
    u64 z3_assert = 0;    // Z3 verdicts on property assertions
    double z3_time = 0;
};

class Solver
{
  public:
    Solver(unsigned timeout_ms);
    // is conj(cs) && cond satisfiable? on Sat the symbols of the query get values in `out`
    Res check(const std::vector<E> &slice, std::vector<std::pair<uint32_t, uint8_t>> &out);
    SolverStats st;
    unsigned timeout;

  private:
    Z3_context ctx;
    Z3_solver fast, slow;
    Z3_ast bv(E e);
    Z3_ast boolean(E e);
    std::unordered_map<uint32_t, Z3_ast> syms;
    struct Entry
    {
        std::vector<uint32_t> key;
        Res r;
        std::vector<std::pair<uint32_t, uint8_t>> model;
    };
    std::unordered_map<u64, std::vector<Entry>> cache;
    Res run(Z3_solver s, const std::vector<E> &slice, const std::vector<uint32_t> &symids,
            std::vector<std::pair<uint32_t, uint8_t>> &out);
};
