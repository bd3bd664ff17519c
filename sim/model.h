// The harness's own representation of nets and queries, independent of the code under test.
#pragma once
#include <set>
#include "env.h"
#include <memory>
#include <string>
#include <vector>
#include <map>
namespace sim {

struct Arc { int p; int w; };
struct Trans { std::string name; int player = 0; std::vector<Arc> in, out, inh; };
struct Place { std::string name; uint32_t init = 0; };
struct Net {
    std::vector<Place> places; std::vector<Trans> trans;
    bool enabled(const std::vector<uint32_t>& m, int t) const;
    void fire(std::vector<uint32_t>& m, int t) const;
    int place_idx(const std::string& n) const { for (size_t i = 0; i < places.size(); ++i) if (places[i].name == n) return (int)i; return -1; }
    int trans_idx(const std::string& n) const { for (size_t i = 0; i < trans.size(); ++i) if (trans[i].name == n) return (int)i; return -1; }
};

struct Expr; using EP = std::shared_ptr<Expr>;
struct Expr { enum Op { Const, Tok, Sum, Diff, Prod, Neg } op; int64_t c = 0; std::vector<int> ids; std::vector<EP> sub; };
struct Form; using FP = std::shared_ptr<Form>;
struct Form {
    enum Op { True, False, Deadlock, Fire, Eq, Ne, Lt, Le, Gt, Ge, And, Or, Not, Xor, Imp, Iff, A, E, X, F, G, U, Bounds, KSafe, QuasiLive, StableMark, Live, Control, InvTag, PosTag, ImpTag } op;
    std::vector<FP> sub; std::vector<int> ids; EP l, r; int64_t k = 0;
};
struct Query { std::string name; FP f; };

// coloured nets ------------------------------------------------------------------------------
struct Sort { std::string name; enum Kind { Dot, Enum, Range, Product } kind = Enum; std::vector<std::string> elems; int lo = 0, hi = 0; std::vector<int> parts; bool cyclic = true; int size = 0; };
struct CTerm; using CTP = std::shared_ptr<CTerm>;
struct CTerm { enum Op { Const, Var, Succ, Pred, Tuple, All, DotC } op; int sort = 0; int v = 0; std::vector<CTP> sub; };  // Const: v = colour index, Var: v = variable id
struct Ms; using MSP = std::shared_ptr<Ms>;
struct Ms { enum Op { Num, Add, Sub, Scale } op; int64_t n = 1; std::vector<CTP> terms; std::vector<MSP> sub; };  // Num: n'term (terms.size()>=1 -> n'(each))
struct Guard; using GDP = std::shared_ptr<Guard>;
struct Guard { enum Op { Eq, Ne, Lt, Le, Gt, Ge, And, Or, Not } op; CTP a, b; std::vector<GDP> sub; };
struct CPlace { std::string name; int sort; std::vector<std::pair<int, uint32_t>> init; bool init_all = false; uint32_t all_n = 1; };
struct CArc { int p; MSP ms; };
struct CTrans { std::string name; std::vector<CArc> in, out; std::vector<Arc> inh; GDP guard; int player = 0; };
struct CVar { std::string name; int sort; };
struct CNet { std::vector<Sort> sorts; std::vector<CVar> vars; std::vector<CPlace> places; std::vector<CTrans> trans; };

// rendering -----------------------------------------------------------------------------------
struct Names { std::vector<std::string> place, trans; };
Names names_of(const Net&); Names names_of(const CNet&);
std::string pnml(const Net&, int syn = 0);       // syn: 1 weights as parallel arcs, 2 arcs before nodes, 4 other spellings of the same thing
std::string pnml(const CNet&, int syn = 0);
std::string query_xml(const std::vector<Query>&, const Names&);
std::string query_text(const FP&, const Names&, int style);
std::string form_sexp(const FP&, const Names&);
FP parse_form(const std::string& s, const Names&);

// unfolded view used by the oracle
struct View {              // P/T net + grouping of its nodes into the nodes queries talk about
    Net net; std::vector<std::vector<int>> pgroup, tgroup;
    std::vector<std::string> tlabel;   // coloured transition name per unfolded transition
};
View view_of(const Net&);
std::set<int> trans_vars(const CNet&, size_t t);
std::string marking_xml(const CNet&, const View&, const std::vector<uint32_t>& m, int style);   // style: 1 one line per tag, 2 indented, 4 tokens repeated one by one
bool unfold_ref(const CNet&, View&, size_t max_trans, std::vector<std::vector<int>>* bindings = nullptr, std::vector<int>* torigin = nullptr);

FP mk(Form::Op op, std::vector<FP> sub = {});
EP econst(int64_t c);
void collect_ids(const FP&, std::vector<char>& places, std::vector<char>& trans);
}
