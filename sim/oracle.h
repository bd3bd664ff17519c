#pragma once
#include "model.h"
#include <cstdint>
namespace sim {
struct Graph {
    const View* v = nullptr;
    std::vector<std::vector<uint32_t>> st;
    std::vector<std::vector<std::pair<int, int>>> succ;   // (transition, state)
    bool complete = false;
    uint64_t edges = 0;
};
// Explores the full reachable graph breadth first; incomplete if it exceeds the limits.
Graph explore(const View& v, size_t max_states, uint64_t max_tokens = 1u << 30);
int64_t eval_expr(const EP& e, const View& v, const std::vector<uint32_t>& m);
bool eval_state(const FP& f, const Graph& g, int s);          // no temporal operators
std::vector<char> eval_ctl(const FP& f, const Graph& g);      // CTL (maximal-path semantics), all states
// LTL path formula, stutter-extended deadlocks: is there a path from state 0 satisfying f?
// returns -1 when too large
int exists_path(const FP& f, const Graph& g);
struct Answer { enum { Bool, Number, Unknown } kind = Unknown; bool b = false; int64_t n = 0; };
Answer reference(const FP& f, const Graph& g, bool ltl);
bool is_temporal(const FP& f);
// two-player game: can player 0 (controllable) force f (A F phi / A G phi) whatever player 1 does
// kbound > 0: markings with more tokens are lost. Winning states.
std::vector<char> solve_game(const FP& f, const Graph& g, int64_t kbound);
}
