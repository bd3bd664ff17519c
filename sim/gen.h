#pragma once
#include "model.h"
#include "oracle.h"
namespace sim {
struct NetOpts { size_t max_states = 400; bool inhib = true; bool weights = true; bool scale = true; int decor = 4; bool players = false; int max_places = 8, max_trans = 8; bool wide = false; };
// Random bounded net; v/g receive its view and complete state graph.
bool gen_net(Rng& r, const NetOpts& o, Net& n, View& v, Graph& g);
struct FormOpts { bool fire = true, deadlock = true, next = true, mult = true; int depth = 3; bool text_ok = false; bool arith = false; bool simple = false; };
FP gen_state(Rng& r, const Graph& g, int nP, int nT, const FormOpts& o, int depth);
FP gen_reach(Rng& r, const Graph& g, int nP, int nT, const FormOpts& o);
FP gen_ctl(Rng& r, const Graph& g, int nP, int nT, const FormOpts& o, int depth);
FP gen_ltl(Rng& r, const Graph& g, int nP, int nT, const FormOpts& o);   // A(path) or E(path)
bool gen_cnet(Rng& r, int feat, size_t max_states, size_t max_trans, CNet& n, View& v, Graph& g);
}
