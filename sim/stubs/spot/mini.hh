/* Stand-in for the part of spot 2.11 and buddy/bddx that verifypn uses
 * (neither is available offline).  Same interface, plain inside:
 *   - formulae are hash-consed trees with spot's trivial identities,
 *   - bdds are a textbook unique-table ROBDD package (no garbage collection),
 *   - the translator is an on-the-fly tableau (transition-based generalised
 *     Buechi) followed by degeneralisation to state-based Buechi acceptance,
 *     merging of parallel edges and pruning of states with empty language.
 * It contains no code of spot. */
#ifndef SIM_MINI_SPOT_HH
#define SIM_MINI_SPOT_HH
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <deque>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <unordered_map>
#include <utility>
#include <vector>

#ifndef SIM_SPOT_MAX_STATES
#define SIM_SPOT_MAX_STATES 500
#endif
// The stand-in translator produces larger automata than spot; the simulation discards a run that needs a huge one.
extern "C" __attribute__((weak)) void sim_stub_limit();
inline void sim_spot_give_up() { if (sim_stub_limit) sim_stub_limit(); throw std::runtime_error("mini-spot: automaton too large"); }

// ------------------------------------------------------------------ buddy
namespace simbdd {
    struct node { int var; int low; int high; };
    struct manager {
        std::vector<node> nodes{{1 << 30, 0, 0}, {1 << 30, 1, 1}};
        std::map<std::tuple<int, int, int>, int> unique;
        int mk(int v, int l, int h) {
            if (l == h) return l;
            auto k = std::make_tuple(v, l, h);
            auto it = unique.find(k);
            if (it != unique.end()) return it->second;
            nodes.push_back({v, l, h});
            return unique[k] = (int) nodes.size() - 1;
        }
        int ite(int f, int g, int h) {
            std::map<std::tuple<int, int, int>, int> memo;
            return ite_(f, g, h, memo);
        }
        int ite_(int f, int g, int h, std::map<std::tuple<int, int, int>, int> &memo) {
            if (f == 1) return g;
            if (f == 0) return h;
            if (g == h) return g;
            auto k = std::make_tuple(f, g, h);
            auto it = memo.find(k);
            if (it != memo.end()) return it->second;
            int v = std::min(nodes[f].var, std::min(nodes[g].var, nodes[h].var));
            auto co = [&](int x, bool hi) { return nodes[x].var == v ? (hi ? nodes[x].high : nodes[x].low) : x; };
            int l = ite_(co(f, false), co(g, false), co(h, false), memo);
            int r = ite_(co(f, true), co(g, true), co(h, true), memo);
            int res = mk(v, l, r);
            memo[k] = res;
            return res;
        }
    };
    inline manager &mgr() { static manager m; return m; }
}

class bdd {
    int _id = 0;
public:
    bdd() = default;
    explicit bdd(int id) : _id(id) {}
    int id() const { return _id; }
    bool operator==(const bdd &o) const { return _id == o._id; }
    bool operator!=(const bdd &o) const { return _id != o._id; }
    bdd operator&(const bdd &o) const { return bdd(simbdd::mgr().ite(_id, o._id, 0)); }
    bdd operator|(const bdd &o) const { return bdd(simbdd::mgr().ite(_id, 1, o._id)); }
    bdd operator!() const { return bdd(simbdd::mgr().ite(_id, 0, 1)); }
    bdd operator-(const bdd &o) const { return *this & !o; }
    bdd &operator&=(const bdd &o) { return *this = *this & o; }
    bdd &operator|=(const bdd &o) { return *this = *this | o; }
};
inline bdd bdd_true() { return bdd(1); }
inline bdd bdd_false() { return bdd(0); }
static const bdd bddtrue(1);
static const bdd bddfalse(0);
inline bdd bdd_not(const bdd &b) { return !b; }
inline bdd bdd_and(const bdd &a, const bdd &b) { return a & b; }
inline bdd bdd_or(const bdd &a, const bdd &b) { return a | b; }
inline int bdd_var(const bdd &b) { return simbdd::mgr().nodes[b.id()].var; }
inline bdd bdd_low(const bdd &b) { return bdd(simbdd::mgr().nodes[b.id()].low); }
inline bdd bdd_high(const bdd &b) { return bdd(simbdd::mgr().nodes[b.id()].high); }
inline bdd bdd_ithvar(int v) { return bdd(simbdd::mgr().mk(v, 0, 1)); }
inline bdd bdd_nithvar(int v) { return bdd(simbdd::mgr().mk(v, 1, 0)); }

namespace spot {
    // -------------------------------------------------------------- formulae
    enum class op : uint8_t {
        ff, tt, eword, ap, Not, X, F, G, Closure, NegClosure, NegClosureMarked, Xor, Implies, Equiv, U, R, W, M,
        EConcat, EConcatMarked, UConcat, Or, OrRat, And, AndRat, AndNLM, Concat, Fusion, Star, FStar, first_match,
        strong_X
    };

    struct fnode {
        op kind;
        std::string name;
        std::vector<const fnode *> ch;
        size_t id;
    };

    class formula {
        const fnode *_n = nullptr;
        explicit formula(const fnode *n) : _n(n) {}

        struct table {
            std::map<std::tuple<op, std::string, std::vector<size_t>>, std::unique_ptr<fnode>> t;
            size_t next = 0;
        };
        static table &tab() { static table t; return t; }
        static formula make(op k, std::string name, std::vector<const fnode *> ch) {
            std::vector<size_t> ids;
            for (auto c: ch) ids.push_back(c->id);
            auto &t = tab();
            auto key = std::make_tuple(k, name, ids);
            auto it = t.t.find(key);
            if (it == t.t.end())
                it = t.t.emplace(key, std::unique_ptr<fnode>(new fnode{k, name, std::move(ch), t.next++})).first;
            return formula(it->second.get());
        }
        static formula nary(op k, std::vector<formula> v, op neutral, op absorbent) {
            std::vector<const fnode *> flat;
            std::function<void(const fnode *)> add = [&](const fnode *n) {
                if (n->kind == k) { for (auto c: n->ch) add(c); }
                else flat.push_back(n);
            };
            for (auto &f: v) add(f._n);
            std::sort(flat.begin(), flat.end(), [](auto a, auto b) { return a->id < b->id; });
            flat.erase(std::unique(flat.begin(), flat.end()), flat.end());
            for (auto n: flat) if (n->kind == absorbent) return formula(n);
            flat.erase(std::remove_if(flat.begin(), flat.end(), [&](auto n) { return n->kind == neutral; }), flat.end());
            // a and !a
            for (auto n: flat)
                if (n->kind == op::Not && std::find(flat.begin(), flat.end(), n->ch[0]) != flat.end())
                    return make(absorbent, "", {});
            if (flat.empty()) return make(neutral, "", {});
            if (flat.size() == 1) return formula(flat[0]);
            return make(k, "", flat);
        }

    public:
        formula() : formula(make(op::ff, "", {})._n) {}
        formula(std::nullptr_t) : formula() {}
        op kind() const { return _n->kind; }
        bool is(op k) const { return _n->kind == k; }
        size_t size() const { return _n->ch.size(); }
        size_t id() const { return _n->id; }
        formula operator[](size_t i) const { return formula(_n->ch[i]); }
        const std::string &ap_name() const { return _n->name; }
        bool operator==(const formula &o) const { return _n == o._n; }
        bool operator!=(const formula &o) const { return _n != o._n; }
        bool operator<(const formula &o) const { return _n->id < o._n->id; }

        class iter {
            const fnode *const *_p;
        public:
            using value_type = formula;
            using difference_type = ptrdiff_t;
            using pointer = const formula *;
            using reference = formula;
            using iterator_category = std::input_iterator_tag;
            explicit iter(const fnode *const *p) : _p(p) {}
            formula operator*() const { return formula(*_p); }
            iter &operator++() { ++_p; return *this; }
            iter operator++(int) { auto t = *this; ++_p; return t; }
            bool operator!=(const iter &o) const { return _p != o._p; }
            bool operator==(const iter &o) const { return _p == o._p; }
        };
        iter begin() const { return iter(_n->ch.data()); }
        iter end() const { return iter(_n->ch.data() + _n->ch.size()); }

        std::ostream &dump(std::ostream &os) const {
            static const char *const names[] = {"ff", "tt", "eword", "ap", "Not", "X", "F", "G", "Closure", "NegClosure",
                "NegClosureMarked", "Xor", "Implies", "Equiv", "U", "R", "W", "M", "EConcat", "EConcatMarked", "UConcat",
                "Or", "OrRat", "And", "AndRat", "AndNLM", "Concat", "Fusion", "Star", "FStar", "first_match", "strong_X"};
            os << names[(int) kind()];
            if (is(op::ap)) os << "(\"" << ap_name() << "\")";
            else if (size()) {
                os << '(';
                for (size_t i = 0; i < size(); ++i) { if (i) os << ", "; (*this)[i].dump(os); }
                os << ')';
            }
            return os;
        }

        static formula tt() { return make(op::tt, "", {}); }
        static formula ff() { return make(op::ff, "", {}); }
        static formula ap(const std::string &n) { return make(op::ap, n, {}); }
        static formula Not(const formula &f) {
            if (f.is(op::tt)) return ff();
            if (f.is(op::ff)) return tt();
            if (f.is(op::Not)) return f[0];
            return make(op::Not, "", {f._n});
        }
        static formula X(const formula &f) {
            if (f.is(op::tt) || f.is(op::ff)) return f;
            return make(op::X, "", {f._n});
        }
        static formula F(const formula &f) {
            if (f.is(op::tt) || f.is(op::ff) || f.is(op::F)) return f;
            return make(op::F, "", {f._n});
        }
        static formula G(const formula &f) {
            if (f.is(op::tt) || f.is(op::ff) || f.is(op::G)) return f;
            return make(op::G, "", {f._n});
        }
        static formula U(const formula &a, const formula &b) {
            if (b.is(op::tt) || b.is(op::ff) || a.is(op::ff) || a == b) return b;
            if (a.is(op::tt)) return F(b); // spot keeps "1 U b" until simplification; same language
            return make(op::U, "", {a._n, b._n});
        }
        static formula R(const formula &a, const formula &b) {
            if (b.is(op::tt) || b.is(op::ff) || a.is(op::tt) || a == b) return b;
            if (a.is(op::ff)) return G(b);
            return make(op::R, "", {a._n, b._n});
        }
        static formula W(const formula &a, const formula &b) {
            if (b.is(op::tt) || a.is(op::ff) || a == b) return b;
            if (a.is(op::tt)) return a;
            if (b.is(op::ff)) return G(a);
            return make(op::W, "", {a._n, b._n});
        }
        static formula M(const formula &a, const formula &b) {
            if (b.is(op::ff) || a.is(op::ff)) return ff();
            if (a.is(op::tt) || a == b) return b;
            if (b.is(op::tt)) return F(a);
            return make(op::M, "", {a._n, b._n});
        }
        static formula And(const std::vector<formula> &v) { return nary(op::And, v, op::tt, op::ff); }
        static formula Or(const std::vector<formula> &v) { return nary(op::Or, v, op::ff, op::tt); }
    };

    namespace mini {
        inline formula nnf(const formula &f, bool neg) {
            switch (f.kind()) {
                case op::tt: return neg ? formula::ff() : f;
                case op::ff: return neg ? formula::tt() : f;
                case op::ap: return neg ? formula::Not(f) : f;
                case op::Not: return nnf(f[0], !neg);
                case op::X: return formula::X(nnf(f[0], neg));
                case op::F: return neg ? formula::G(nnf(f[0], true)) : formula::F(nnf(f[0], false));
                case op::G: return neg ? formula::F(nnf(f[0], true)) : formula::G(nnf(f[0], false));
                case op::U: return neg ? formula::R(nnf(f[0], true), nnf(f[1], true)) : formula::U(nnf(f[0], false), nnf(f[1], false));
                case op::R: return neg ? formula::U(nnf(f[0], true), nnf(f[1], true)) : formula::R(nnf(f[0], false), nnf(f[1], false));
                case op::W: return neg ? formula::M(nnf(f[0], true), nnf(f[1], true)) : formula::W(nnf(f[0], false), nnf(f[1], false));
                case op::M: return neg ? formula::W(nnf(f[0], true), nnf(f[1], true)) : formula::M(nnf(f[0], false), nnf(f[1], false));
                case op::And:
                case op::Or: {
                    std::vector<formula> v;
                    for (auto c: f) v.push_back(nnf(c, neg));
                    return (f.kind() == op::And) != neg ? formula::And(v) : formula::Or(v);
                }
                default: throw std::runtime_error("mini-spot: operator not supported");
            }
        }
        // rewrite R, W, M (and only those), over a formula in any form
        inline formula unabbrev(const formula &f) {
            switch (f.kind()) {
                case op::tt: case op::ff: case op::ap: return f;
                case op::Not: return formula::Not(unabbrev(f[0]));
                case op::X: return formula::X(unabbrev(f[0]));
                case op::F: return formula::F(unabbrev(f[0]));
                case op::G: return formula::G(unabbrev(f[0]));
                case op::U: return formula::U(unabbrev(f[0]), unabbrev(f[1]));
                case op::R: {
                    auto a = unabbrev(f[0]), b = unabbrev(f[1]);
                    return formula::U(b, formula::Or({formula::And({a, b}), formula::G(b)}));
                }
                case op::W: {
                    auto a = unabbrev(f[0]), b = unabbrev(f[1]);
                    return formula::U(a, formula::Or({b, formula::G(a)}));
                }
                case op::M: {
                    auto a = unabbrev(f[0]), b = unabbrev(f[1]);
                    return formula::U(b, formula::And({a, b}));
                }
                case op::And:
                case op::Or: {
                    std::vector<formula> v;
                    for (auto c: f) v.push_back(unabbrev(c));
                    return f.kind() == op::And ? formula::And(v) : formula::Or(v);
                }
                default: throw std::runtime_error("mini-spot: operator not supported");
            }
        }
        inline formula simp(const formula &f) {
            switch (f.kind()) {
                case op::X: return formula::X(simp(f[0]));
                case op::F: {
                    auto a = simp(f[0]);
                    if (a.is(op::G) && a[0].is(op::F)) return a;            // FGF a = GF a
                    if (a.is(op::X)) return formula::X(formula::F(a[0]));   // FX a = XF a
                    if (a.is(op::U)) return formula::F(a[1]);               // F(a U b) = F b
                    return formula::F(a);
                }
                case op::G: {
                    auto a = simp(f[0]);
                    if (a.is(op::F) && a[0].is(op::G)) return a;            // GFG a = FG a
                    if (a.is(op::X)) return formula::X(formula::G(a[0]));
                    if (a.is(op::R)) return formula::G(a[1]);
                    return formula::G(a);
                }
                case op::U: return formula::U(simp(f[0]), simp(f[1]));
                case op::R: return formula::R(simp(f[0]), simp(f[1]));
                case op::W: return formula::W(simp(f[0]), simp(f[1]));
                case op::M: return formula::M(simp(f[0]), simp(f[1]));
                case op::And:
                case op::Or: {
                    std::vector<formula> v, g;
                    // G a & G b = G(a & b);  F a | F b = F(a | b)
                    op k = f.kind() == op::And ? op::G : op::F;
                    for (auto c: f) {
                        auto s = simp(c);
                        if (s.is(k)) g.push_back(s[0]); else v.push_back(s);
                    }
                    if (!g.empty())
                        v.push_back(k == op::G ? formula::G(formula::And(g)) : formula::F(formula::Or(g)));
                    return f.kind() == op::And ? formula::And(v) : formula::Or(v);
                }
                default: return f;
            }
        }
    }

    struct tl_simplifier_options { tl_simplifier_options(int = 0) {} };
    class tl_simplifier {
    public:
        tl_simplifier() = default;
        tl_simplifier(const tl_simplifier_options &) {}
        formula simplify(const formula &f) const { return mini::simp(mini::nnf(f, false)); }
    };
    inline formula unabbreviate(const formula &f, const char *) { return mini::unabbrev(f); }

    // -------------------------------------------------------------- automata
    class bdd_dict {
        std::map<std::string, int> _vars;
        std::vector<std::string> _names;
    public:
        int var(const std::string &n) {
            auto it = _vars.find(n);
            if (it != _vars.end()) return it->second;
            int v = (int) _names.size();
            _names.push_back(n);
            return _vars[n] = v;
        }
        const std::string &name(int v) const { return _names.at(v); }
    };
    using bdd_dict_ptr = std::shared_ptr<bdd_dict>;

    namespace mini {
        // irredundant sum of products (Minato, Morreale)
        inline bdd isop(const bdd &l, const bdd &u, const bdd_dict &d, std::vector<formula> &out, std::vector<formula> &cube) {
            if (l == bddfalse) return bddfalse;
            if (u == bddtrue) {
                out.push_back(formula::And(cube));
                return bddtrue;
            }
            int v = std::min(bdd_var(l), bdd_var(u));
            auto co = [&](const bdd &b, bool hi) { return b.id() > 1 && bdd_var(b) == v ? (hi ? bdd_high(b) : bdd_low(b)) : b; };
            bdd l0 = co(l, false), l1 = co(l, true), u0 = co(u, false), u1 = co(u, true);
            auto a = formula::ap(d.name(v));
            cube.push_back(formula::Not(a));
            bdd f0 = isop(l0 & !u1, u0, d, out, cube);
            cube.back() = a;
            bdd f1 = isop(l1 & !u0, u1, d, out, cube);
            cube.pop_back();
            bdd ld = (l0 & !f0) | (l1 & !f1);
            bdd fd = isop(ld, u0 & u1, d, out, cube);
            bdd x = bdd_ithvar(v);
            return (f0 & !x) | (f1 & x) | fd;
        }
    }
    inline formula bdd_to_formula(const bdd &b, const bdd_dict_ptr &d) {
        std::vector<formula> out, cube;
        mini::isop(b, b, *d, out, cube);
        return formula::Or(out);
    }

    class state {
    public:
        unsigned num;
        explicit state(unsigned n) : num(n) {}
        virtual ~state() = default;
        void destroy() const { delete this; }
    };

    class twa_succ_iterator {
    public:
        virtual ~twa_succ_iterator() = default;
        virtual bool first() = 0;
        virtual bool next() = 0;
        virtual bool done() const = 0;
        virtual const state *dst() const = 0;
        virtual bdd cond() const = 0;
    };

    class twa {
    public:
        virtual ~twa() = default;
    };

    class twa_graph : public twa {
    public:
        struct edge { unsigned src, dst; bdd cond; };
        std::vector<std::vector<edge>> edges;
        std::vector<bool> accepting;
        unsigned init = 0;
        bdd_dict_ptr dict;

        unsigned num_states() const { return (unsigned) edges.size(); }
        bool state_is_accepting(unsigned s) const { return accepting[s]; }
        bool state_is_accepting(const state *s) const { return accepting[s->num]; }
        unsigned get_init_state_number() const { return init; }
        const state *state_from_number(unsigned n) const { return new state(n); }
        unsigned state_number(const state *s) const { return s->num; }
        const bdd_dict_ptr &get_dict() const { return dict; }
        int register_ap(const std::string &n) { return dict->var(n); }
        const std::vector<edge> &out(unsigned s) const { return edges[s]; }

        class iter : public twa_succ_iterator {
            const std::vector<edge> &_e;
            size_t _i = 0;
        public:
            explicit iter(const std::vector<edge> &e) : _e(e) {}
            bool first() override { _i = 0; return !done(); }
            bool next() override { ++_i; return !done(); }
            bool done() const override { return _i >= _e.size(); }
            const state *dst() const override { return new state(_e[_i].dst); }
            bdd cond() const override { return _e[_i].cond; }
        };
        twa_succ_iterator *succ_iter(const state *s) const { return new iter(edges[s->num]); }
        void release_iter(twa_succ_iterator *i) const { delete i; }
    };
    using twa_ptr = std::shared_ptr<twa>;
    using const_twa_ptr = std::shared_ptr<const twa>;
    using twa_graph_ptr = std::shared_ptr<twa_graph>;
    using const_twa_graph_ptr = std::shared_ptr<const twa_graph>;

    struct postprocessor {
        enum output_type { TGBA, BA, Monitor };
        enum optimization_level { Low, Medium, High };
    };

    class translator : public postprocessor {
        optimization_level _level = High;

        struct branch {
            std::set<formula> lits, next, post; // post: postponed eventualities
            bool operator<(const branch &o) const {
                return std::tie(lits, next, post) < std::tie(o.lits, o.next, o.post);
            }
        };

        static bool add_lit(branch &b, const formula &l) {
            if (b.lits.count(formula::Not(l))) return false;
            b.lits.insert(l);
            return true;
        }

        static void expand(std::vector<formula> todo, std::set<formula> done, branch b, std::set<branch> &out) {
            while (!todo.empty()) {
                formula f = todo.back();
                todo.pop_back();
                if (!done.insert(f).second) continue;
                auto split = [&](std::vector<formula> now1, std::set<formula> next1, bool post, std::vector<formula> now2) {
                    // first alternative: now1 + next1 (postponing f if post), second: now2
                    {
                        auto t = todo; auto bb = b;
                        t.insert(t.end(), now1.begin(), now1.end());
                        bb.next.insert(next1.begin(), next1.end());
                        if (post) bb.post.insert(f);
                        expand(t, done, bb, out);
                    }
                    auto t = todo;
                    t.insert(t.end(), now2.begin(), now2.end());
                    expand(t, done, b, out);
                };
                switch (f.kind()) {
                    case op::tt: continue;
                    case op::ff: return;
                    case op::ap:
                    case op::Not:
                        if (!add_lit(b, f)) return;
                        continue;
                    case op::And:
                        for (auto c: f) todo.push_back(c);
                        continue;
                    case op::Or:
                        for (auto c: f) {
                            auto t = todo;
                            t.push_back(c);
                            expand(t, done, b, out);
                        }
                        return;
                    case op::X: b.next.insert(f[0]); continue;
                    case op::G: todo.push_back(f[0]); b.next.insert(f); continue;
                    case op::F: split({}, {f}, true, {f[0]}); return;
                    case op::U: split({f[0]}, {f}, true, {f[1]}); return;
                    case op::M: split({f[1]}, {f}, true, {f[0], f[1]}); return;
                    case op::R: split({f[1]}, {f}, false, {f[0], f[1]}); return;
                    case op::W: split({f[0]}, {f}, false, {f[1]}); return;
                    default: throw std::runtime_error("mini-spot: operator not supported");
                }
            }
            out.insert(b);
        }

        // a branch that asks for more than another one adds nothing to the language
        static void drop_dominated(std::set<branch> &br) {
            auto sub = [](const std::set<formula> &a, const std::set<formula> &b) { return std::includes(b.begin(), b.end(), a.begin(), a.end()); };
            for (auto it = br.begin(); it != br.end();) {
                bool dom = false;
                for (auto &o: br)
                    if (&o != &*it && sub(o.lits, it->lits) && sub(o.next, it->next) && sub(o.post, it->post)) { dom = true; break; }
                if (dom) it = br.erase(it); else ++it;
            }
        }

        static void eventualities(const formula &f, std::set<formula> &s) {
            if (f.is(op::F) || f.is(op::U) || f.is(op::M)) s.insert(f);
            for (auto c: f) eventualities(c, s);
        }

    public:
        void set_type(output_type) {}
        void set_level(optimization_level l) { _level = l; }

        twa_graph_ptr run(const formula &orig) {
            auto dict = std::make_shared<bdd_dict>();
            formula f = mini::nnf(orig, false);
            if (_level != Low) f = mini::simp(f);
            std::set<formula> ev_set;
            eventualities(f, ev_set);
            std::vector<formula> ev(ev_set.begin(), ev_set.end());
            size_t k = ev.size();
            // ---- transition-based generalised automaton over sets of obligations
            std::map<std::set<formula>, unsigned> num;
            std::vector<std::set<formula>> states;
            struct tedge { unsigned dst; bdd cond; std::vector<bool> acc; };
            std::vector<std::vector<tedge>> tg;
            auto get = [&](const std::set<formula> &s) {
                auto r = num.emplace(s, (unsigned) states.size());
                if (r.second) { states.push_back(s); tg.emplace_back(); }
                return r.first->second;
            };
            get({f});
            for (unsigned i = 0; i < states.size(); ++i) {
                if (states.size() > SIM_SPOT_MAX_STATES) sim_spot_give_up();
                std::set<branch> br;
                std::vector<formula> todo(states[i].begin(), states[i].end());
                expand(todo, {}, {}, br);
                drop_dominated(br);
                std::map<std::pair<unsigned, std::vector<bool>>, bdd> merged;
                for (auto &b: br) {
                    bdd c = bddtrue;
                    for (auto &l: b.lits)
                        c &= l.is(op::Not) ? !bdd_ithvar(dict->var(l[0].ap_name())) : bdd_ithvar(dict->var(l.ap_name()));
                    if (c == bddfalse) continue;
                    std::vector<bool> acc(k);
                    for (size_t e = 0; e < k; ++e) acc[e] = !b.post.count(ev[e]);
                    auto d = get(b.next);
                    auto key = std::make_pair(d, acc);
                    auto it = merged.find(key);
                    if (it == merged.end()) merged.emplace(key, c); else it->second |= c;
                }
                for (auto &m: merged) tg[i].push_back({m.first.first, m.second, m.first.second});
            }
            // ---- degeneralise: (state, level); level k is accepting and continues from 0
            auto g = std::make_shared<twa_graph>();
            g->dict = dict;
            std::map<std::pair<unsigned, size_t>, unsigned> dn;
            std::vector<std::pair<unsigned, size_t>> ds;
            auto dget = [&](unsigned s, size_t l) {
                auto r = dn.emplace(std::make_pair(s, l), (unsigned) ds.size());
                if (r.second) ds.push_back({s, l});
                return r.first->second;
            };
            dget(0, k == 0 ? 0 : 0);
            std::vector<std::map<unsigned, bdd>> es;
            for (unsigned i = 0; i < ds.size(); ++i) {
                if (ds.size() > SIM_SPOT_MAX_STATES) sim_spot_give_up();
                auto [s, l] = ds[i];
                es.emplace_back();
                size_t base = l == k ? 0 : l;
                for (auto &e: tg[s]) {
                    size_t nl = base;
                    while (nl < k && e.acc[nl]) ++nl;
                    unsigned d = dget(e.dst, nl);
                    auto it = es[i].find(d);
                    if (it == es[i].end()) es[i].emplace(d, e.cond); else it->second |= e.cond;
                }
            }
            std::vector<bool> acc(ds.size());
            for (unsigned i = 0; i < ds.size(); ++i) acc[i] = ds[i].second == k;
            // ---- merge states with the same acceptance and the same edges, to a fixed point
            std::vector<unsigned> rep(ds.size());
            for (unsigned i = 0; i < rep.size(); ++i) rep[i] = i;
            auto empty = prune(es, acc);
            for (bool changed = true; changed;) {
                changed = false;
                std::map<std::pair<bool, std::map<unsigned, int>>, unsigned> seen;
                std::vector<unsigned> nrep(rep);
                for (unsigned i = 0; i < es.size(); ++i) {
                    if (rep[i] != i || empty[i]) continue;
                    std::map<unsigned, bdd> sig;
                    for (auto &e: es[i]) {
                        if (empty[e.first]) continue;
                        unsigned t = rep[e.first];
                        unsigned key = t == i ? (unsigned) -1 : t; // self loops compare equal
                        auto it = sig.find(key);
                        if (it == sig.end()) sig.emplace(key, e.second); else it->second |= e.second;
                    }
                    std::map<unsigned, int> isig;
                    for (auto &x: sig) isig[x.first] = x.second.id();
                    auto r = seen.emplace(std::make_pair((bool) acc[i], isig), i);
                    if (!r.second) { nrep[i] = r.first->second; changed = true; }
                }
                for (unsigned i = 0; i < rep.size(); ++i) rep[i] = nrep[rep[i]];
            }
            // ---- emit what is reachable
            std::vector<int> idx(es.size(), -1);
            std::vector<unsigned> order;
            auto visit = [&](unsigned s) { if (idx[s] < 0) { idx[s] = (int) order.size(); order.push_back(s); } return (unsigned) idx[s]; };
            visit(rep[0]);
            for (unsigned i = 0; i < order.size(); ++i) {
                unsigned s = order[i];
                g->edges.emplace_back();
                g->accepting.push_back(acc[s]);
                std::map<unsigned, bdd> m;
                for (auto &e: es[s]) {
                    if (empty[e.first]) continue;
                    unsigned t = rep[e.first];
                    auto it = m.find(t);
                    if (it == m.end()) m.emplace(t, e.second); else it->second |= e.second;
                }
                for (auto &x: m) { unsigned d = visit(x.first); g->edges[i].push_back({i, d, x.second}); }
            }
            if (empty[rep[0]]) g->accepting[0] = false;
            return g;
        }

        // states from which no accepting cycle can be reached
        static std::vector<bool> prune(const std::vector<std::map<unsigned, bdd>> &es, const std::vector<bool> &acc) {
            size_t n = es.size();
            // forward reachability closure is fine at this size
            std::vector<std::vector<unsigned>> rev(n);
            for (unsigned i = 0; i < n; ++i) for (auto &e: es[i]) rev[e.first].push_back(i);
            auto backward = [&](std::vector<unsigned> work, std::vector<bool> seen) {
                for (auto w: work) seen[w] = true;
                while (!work.empty()) {
                    auto w = work.back(); work.pop_back();
                    for (auto p: rev[w]) if (!seen[p]) { seen[p] = true; work.push_back(p); }
                }
                return seen;
            };
            std::vector<bool> live(n, false);
            for (unsigned a = 0; a < n; ++a) {
                if (!acc[a] || live[a]) continue;
                // can a reach itself?
                std::vector<unsigned> w; std::vector<bool> seen(n, false);
                for (auto &e: es[a]) if (!seen[e.first]) { seen[e.first] = true; w.push_back(e.first); }
                while (!w.empty()) { auto x = w.back(); w.pop_back(); for (auto &e: es[x]) if (!seen[e.first]) { seen[e.first] = true; w.push_back(e.first); } }
                if (seen[a]) live = backward({a}, live);
            }
            std::vector<bool> empty(n);
            for (size_t i = 0; i < n; ++i) empty[i] = !live[i];
            return empty;
        }
    };

    struct twa_run {
        struct step { const state *s; bdd label; };
        using steps = std::list<step>;
    };

    class bfs_steps {
    public:
        explicit bfs_steps(const const_twa_graph_ptr &a) : a_(a), _g(a) {}
        virtual ~bfs_steps() = default;
        const state *search(const state *start, twa_run::steps &l) {
            std::map<unsigned, std::pair<unsigned, bdd>> father;
            std::deque<unsigned> todo{start->num};
            std::set<unsigned> seen{start->num};
            while (!todo.empty()) {
                unsigned s = todo.front();
                todo.pop_front();
                for (auto &e: _g->out(s)) {
                    state *raw = new state(e.dst);
                    const state *d = filter(raw);
                    if (!d) continue;
                    twa_run::step st{new state(s), e.cond};
                    if (match(st, d)) {
                        twa_run::steps path{st};
                        while (s != start->num) {
                            auto f = father[s];
                            path.push_front({new state(f.first), f.second});
                            s = f.first;
                        }
                        l.insert(l.end(), path.begin(), path.end());
                        return d;
                    }
                    if (seen.insert(e.dst).second) { father[e.dst] = {s, e.cond}; todo.push_back(e.dst); }
                }
            }
            return nullptr;
        }
        virtual const state *filter(const state *s) = 0;
        virtual bool match(twa_run::step &step, const state *dest) = 0;
    protected:
        const_twa_ptr a_;
    private:
        const_twa_graph_ptr _g;
    };

    inline void print_plain(std::ostream &os, const const_twa_graph_ptr &g, const char *kind) {
        os << kind << " states=" << g->num_states() << " init=" << g->get_init_state_number() << "\n";
        for (unsigned s = 0; s < g->num_states(); ++s) {
            os << "state " << s << (g->state_is_accepting(s) ? " acc" : "") << "\n";
            for (auto &e: g->out(s)) { os << "  -> " << e.dst << " "; bdd_to_formula(e.cond, g->get_dict()).dump(os) << "\n"; }
        }
    }
    inline std::ostream &print_dot(std::ostream &os, const const_twa_graph_ptr &g, const char * = nullptr) { print_plain(os, g, "dot"); return os; }
    inline std::ostream &print_hoa(std::ostream &os, const const_twa_graph_ptr &g, const char * = nullptr) { print_plain(os, g, "hoa"); return os; }
    inline std::ostream &print_never_claim(std::ostream &os, const const_twa_graph_ptr &g, const char * = nullptr) { print_plain(os, g, "never"); return os; }
}
#endif
