// Small reference semantics: explicit state graph, CTL by fixpoints, LTL by closure tableau.
#include "oracle.h"
#include <algorithm>
#include <functional>
#include <map>
#include <set>
#include <unordered_map>
#include <stdexcept>
namespace sim {
namespace { struct VH { size_t operator()(const std::vector<uint32_t>& v) const { return (size_t)hash_bytes(v.data(), v.size() * 4); } }; }
Graph explore(const View& v, size_t max_states, uint64_t max_tokens) {
    Graph g; g.v = &v;
    std::unordered_map<std::vector<uint32_t>, int, VH> idx;
    std::vector<uint32_t> m; for (auto& p : v.net.places) m.push_back(p.init);
    idx[m] = 0; g.st.push_back(m); g.succ.emplace_back();
    for (size_t i = 0; i < g.st.size(); ++i) {
        for (size_t t = 0; t < v.net.trans.size(); ++t) {
            if (!v.net.enabled(g.st[i], (int)t)) continue;
            auto n = g.st[i]; v.net.fire(n, (int)t);
            for (auto x : n) if (x > max_tokens) return g;
            auto it = idx.find(n); int k;
            if (it == idx.end()) {
                k = (int)g.st.size(); if (g.st.size() >= max_states) return g;
                idx[n] = k; g.st.push_back(n); g.succ.emplace_back();
            } else k = it->second;
            g.succ[i].emplace_back((int)t, k); ++g.edges;
            if (g.edges > max_states * 20) return g;
        }
    }
    g.complete = true; return g;
}
int64_t eval_expr(const EP& e, const View& v, const std::vector<uint32_t>& m) {
    switch (e->op) {
        case Expr::Const: return e->c;
        case Expr::Tok: { int64_t s = 0; for (int i : e->ids) for (int p : v.pgroup[i]) s += m[p]; return s; }
        case Expr::Sum: { int64_t s = 0; for (auto& x : e->sub) s += eval_expr(x, v, m); return s; }
        case Expr::Diff: { int64_t s = eval_expr(e->sub[0], v, m); for (size_t i = 1; i < e->sub.size(); ++i) s -= eval_expr(e->sub[i], v, m); return s; }
        case Expr::Prod: { int64_t s = 1; for (auto& x : e->sub) s *= eval_expr(x, v, m); return s; }
        case Expr::Neg: return -eval_expr(e->sub[0], v, m);
    }
    return 0;
}
bool is_temporal(const FP& f) {
    if (f->op == Form::A || f->op == Form::E || f->op == Form::X || f->op == Form::F || f->op == Form::G || f->op == Form::U || f->op == Form::InvTag || f->op == Form::PosTag || f->op == Form::ImpTag) return true;
    for (auto& s : f->sub) if (is_temporal(s)) return true;
    return false;
}
bool eval_state(const FP& f, const Graph& g, int s) {
    const View& v = *g.v; const auto& m = g.st[s];
    auto L = [&] { return eval_expr(f->l, v, m); }; auto R = [&] { return eval_expr(f->r, v, m); };
    switch (f->op) {
        case Form::True: return true; case Form::False: return false;
        case Form::Deadlock: return g.succ[s].empty();
        case Form::Fire: for (int i : f->ids) for (int t : v.tgroup[i]) if (v.net.enabled(m, t)) return true; return false;
        case Form::Eq: return L() == R(); case Form::Ne: return L() != R(); case Form::Lt: return L() < R();
        case Form::Le: return L() <= R(); case Form::Gt: return L() > R(); case Form::Ge: return L() >= R();
        case Form::And: for (auto& x : f->sub) if (!eval_state(x, g, s)) return false; return true;
        case Form::Or: for (auto& x : f->sub) if (eval_state(x, g, s)) return true; return false;
        case Form::Not: return !eval_state(f->sub[0], g, s);
        case Form::Xor: return eval_state(f->sub[0], g, s) != eval_state(f->sub[1], g, s);
        case Form::Imp: return !eval_state(f->sub[0], g, s) || eval_state(f->sub[1], g, s);
        case Form::Iff: return eval_state(f->sub[0], g, s) == eval_state(f->sub[1], g, s);
        default: throw std::runtime_error("eval_state: temporal");
    }
}
std::vector<char> eval_ctl(const FP& f, const Graph& g) {
    size_t n = g.st.size(); std::vector<char> r(n);
    auto eu = [&](const std::vector<char>& a, const std::vector<char>& b) {   // E a U b (least fixpoint)
        std::vector<char> x = b; bool ch = true;
        while (ch) { ch = false; for (size_t k = n; k-- > 0;) if (!x[k] && a[k]) for (auto& e : g.succ[k]) if (x[e.second]) { x[k] = 1; ch = true; break; } }
        return x;
    };
    auto au = [&](const std::vector<char>& a, const std::vector<char>& b) {   // A a U b: b, or a and not deadlock and all successors
        std::vector<char> x = b; bool ch = true;
        while (ch) { ch = false; for (size_t k = n; k-- > 0;) if (!x[k] && a[k] && !g.succ[k].empty()) { bool all = true; for (auto& e : g.succ[k]) if (!x[e.second]) { all = false; break; } if (all) { x[k] = 1; ch = true; } } }
        return x;
    };
    auto neg = [&](std::vector<char> a) { for (auto& c : a) c = !c; return a; };
    if (!is_temporal(f)) { for (size_t i = 0; i < n; ++i) r[i] = eval_state(f, g, (int)i); return r; }
    switch (f->op) {
        case Form::Not: return neg(eval_ctl(f->sub[0], g));
        case Form::And: r.assign(n, 1); for (auto& s : f->sub) { auto x = eval_ctl(s, g); for (size_t i = 0; i < n; ++i) r[i] &= x[i]; } return r;
        case Form::Or: r.assign(n, 0); for (auto& s : f->sub) { auto x = eval_ctl(s, g); for (size_t i = 0; i < n; ++i) r[i] |= x[i]; } return r;
        case Form::Xor: case Form::Iff: case Form::Imp: { auto a = eval_ctl(f->sub[0], g), b = eval_ctl(f->sub[1], g); for (size_t i = 0; i < n; ++i) r[i] = f->op == Form::Xor ? a[i] != b[i] : f->op == Form::Iff ? a[i] == b[i] : (!a[i] || b[i]); return r; }
        case Form::InvTag: { auto x = eval_ctl(f->sub[0], g); return neg(eu(std::vector<char>(n, 1), neg(x))); }
        case Form::PosTag: return eu(std::vector<char>(n, 1), eval_ctl(f->sub[0], g));
        case Form::ImpTag: return neg(eu(std::vector<char>(n, 1), eval_ctl(f->sub[0], g)));
        case Form::A: case Form::E: {
            bool A = f->op == Form::A; const FP& p = f->sub[0]; std::vector<char> T(n, 1);
            switch (p->op) {
                case Form::X: { auto x = eval_ctl(p->sub[0], g); for (size_t i = 0; i < n; ++i) { bool v = A; for (auto& e : g.succ[i]) { if (A && !x[e.second]) v = false; if (!A && x[e.second]) v = true; } r[i] = v; } return r; }
                case Form::F: { auto x = eval_ctl(p->sub[0], g); return A ? au(T, x) : eu(T, x); }
                case Form::G: { auto x = neg(eval_ctl(p->sub[0], g)); return neg(A ? eu(T, x) : au(T, x)); }
                case Form::U: { auto a = eval_ctl(p->sub[0], g), b = eval_ctl(p->sub[1], g); return A ? au(a, b) : eu(a, b); }
                default: throw std::runtime_error("not CTL");
            }
        }
        default: throw std::runtime_error("not CTL");
    }
}
int exists_path(const FP& f, const Graph& g) {
    // elementary formulae: one bit per X g and per U/F/G node (its "next" obligation)
    std::vector<const Form*> el; std::map<const Form*, int> bit;
    std::function<void(const FP&)> col = [&](const FP& x) {
        if (x->op == Form::X || x->op == Form::F || x->op == Form::G || x->op == Form::U) if (!bit.count(x.get())) { bit[x.get()] = (int)el.size(); el.push_back(x.get()); }
        for (auto& s : x->sub) col(s);
    };
    col(f);
    if (el.size() > 9) return -1;
    size_t n = g.st.size(), NA = (size_t)1 << el.size();
    if (n * NA > 400000) return -1;
    // per state, per atom: truth of every elementary node and of f
    std::map<const Form*, std::vector<char>> prop;     // atomic truth cache
    std::function<bool(const Form*, int, size_t)> ev = [&](const Form* x, int s, size_t a) -> bool {
        switch (x->op) {
            case Form::And: for (auto& c : x->sub) if (!ev(c.get(), s, a)) return false; return true;
            case Form::Or: for (auto& c : x->sub) if (ev(c.get(), s, a)) return true; return false;
            case Form::Not: return !ev(x->sub[0].get(), s, a);
            case Form::Xor: return ev(x->sub[0].get(), s, a) != ev(x->sub[1].get(), s, a);
            case Form::Imp: return !ev(x->sub[0].get(), s, a) || ev(x->sub[1].get(), s, a);
            case Form::Iff: return ev(x->sub[0].get(), s, a) == ev(x->sub[1].get(), s, a);
            case Form::X: return (a >> bit[x]) & 1;
            case Form::F: return ev(x->sub[0].get(), s, a) || ((a >> bit[x]) & 1);
            case Form::G: return ev(x->sub[0].get(), s, a) && ((a >> bit[x]) & 1);
            case Form::U: return ev(x->sub[1].get(), s, a) || (ev(x->sub[0].get(), s, a) && ((a >> bit[x]) & 1));
            default: {
                auto& c = prop[x];
                if (c.empty()) { c.resize(n); FP h(const_cast<Form*>(x), [](Form*) {}); for (size_t i = 0; i < n; ++i) c[i] = eval_state(h, g, (int)i); }
                return c[s];
            }
        }
    };
    size_t N = n * NA;
    // for node (s,a): value of "obligation vector" o(s,a): bit i = truth of the formula obliged next by el[i]
    std::vector<uint32_t> obl(N); std::vector<uint32_t> fair(N);
    for (size_t s = 0; s < n; ++s) for (size_t a = 0; a < NA; ++a) {
        uint32_t o = 0, fr = 0;
        for (size_t i = 0; i < el.size(); ++i) {
            const Form* x = el[i]; bool holds = ev(x, (int)s, a);
            bool t = x->op == Form::X ? ev(x->sub[0].get(), (int)s, a) : holds;
            if (t) o |= 1u << i;
            bool ok = true;                       // fairness: F/U must be fulfilled, not-G must be violated infinitely often unless G holds
            if (x->op == Form::F) ok = !holds || ev(x->sub[0].get(), (int)s, a);
            if (x->op == Form::U) ok = !holds || ev(x->sub[1].get(), (int)s, a);
            if (x->op == Form::G) ok = holds || !ev(x->sub[0].get(), (int)s, a);
            if (ok) fr |= 1u << i;
        }
        obl[s * NA + a] = o; fair[s * NA + a] = fr;
    }
    uint32_t all = (uint32_t)(NA - 1);
    // edge (s,a)->(s',a') iff a == obl(s',a'). group successors by obligation
    std::vector<std::vector<std::vector<uint32_t>>> by(n);   // by[s'][a] = list of a' with obl == a
    for (size_t s = 0; s < n; ++s) { by[s].resize(NA); for (size_t a = 0; a < NA; ++a) by[s][obl[s * NA + a]].push_back((uint32_t)a); }
    // iterative Tarjan from initial nodes
    std::vector<int> num(N, 0), low(N, 0); std::vector<char> on(N, 0); std::vector<uint32_t> stk; int cnt = 0;
    struct Fr { uint32_t v; size_t e, k; };
    auto nsucc = [&](uint32_t s) { return g.succ[s].empty() ? (size_t)1 : g.succ[s].size(); };
    auto tgt = [&](uint32_t s, size_t e) { return g.succ[s].empty() ? (int)s : g.succ[s][e].second; };
    for (size_t a0 = 0; a0 < NA; ++a0) {
        if (!ev(f.get(), 0, a0)) continue;
        uint32_t root = (uint32_t)a0; if (num[root]) continue;
        std::vector<Fr> fs; fs.push_back({root, 0, 0}); num[root] = low[root] = ++cnt; stk.push_back(root); on[root] = 1;
        while (!fs.empty()) {
            Fr& t = fs.back(); uint32_t s = t.v / NA, a = t.v % NA;
            if (t.e >= nsucc(s)) {
                uint32_t v = t.v; fs.pop_back();
                if (!fs.empty()) low[fs.back().v] = std::min(low[fs.back().v], low[v]);
                if (low[v] == num[v]) {
                    std::vector<uint32_t> comp; uint32_t w;
                    do { w = stk.back(); stk.pop_back(); on[w] = 0; comp.push_back(w); } while (w != v);
                    uint32_t fr = 0; for (auto c : comp) fr |= fair[c];
                    bool nontriv = comp.size() > 1;
                    if (!nontriv) { uint32_t cs = v / NA, ca = v % NA; for (size_t e = 0; e < nsucc(cs); ++e) if (tgt(cs, e) == (int)cs && obl[v] == ca) nontriv = true; }
                    if (nontriv && (fr & all) == all) return 1;
                }
                continue;
            }
            int s2 = tgt(s, t.e); auto& lst = by[s2][a];
            if (t.k >= lst.size()) { ++t.e; t.k = 0; continue; }
            uint32_t w = (uint32_t)(s2 * NA + lst[t.k++]);
            if (!num[w]) { num[w] = low[w] = ++cnt; stk.push_back(w); on[w] = 1; fs.push_back({w, 0, 0}); }
            else if (on[w]) low[t.v] = std::min(low[t.v], num[w]);
        }
    }
    return 0;
}
// Every state: the environment may fire any of its enabled transitions; a controller that has an enabled transition has to commit to one of them.
std::vector<char> solve_game(const FP& f, const Graph& g, int64_t kbound) {
    const FP& a = f->sub[0]; bool safety = a->sub[0]->op == Form::G; FP phi = a->sub[0]->sub[0]; size_t n = g.st.size();
    std::vector<char> goal(n), over(n), win(n, safety);
    for (size_t s = 0; s < n; ++s) { goal[s] = eval_state(phi, g, (int)s); if (kbound > 0) { int64_t sum = 0; for (auto x : g.st[s]) sum += x; over[s] = sum > kbound; } }
    for (bool ch = true; ch;) {
        ch = false;
        for (size_t s = 0; s < n; ++s) {
            bool ctrl = false, good = false, bad = false;
            for (auto& e : g.succ[s]) if (g.v->net.trans[e.first].player) bad |= !win[e.second]; else { ctrl = true; good |= win[e.second]; }
            bool step = !bad && (!ctrl || good), w = !over[s] && (safety ? goal[s] && step : goal[s] || (step && !g.succ[s].empty()));
            if (w != (bool)win[s]) { win[s] = w; ch = true; }
        }
    }
    return win;
}
Answer reference(const FP& f, const Graph& g, bool ltl) {
    Answer r; const View& v = *g.v;
    if (f->op == Form::Bounds) {
        int64_t mx = 0; for (auto& m : g.st) { int64_t s = 0; for (int i : f->ids) for (int p : v.pgroup[i]) s += m[p]; mx = std::max(mx, s); }
        r.kind = Answer::Number; r.n = mx; return r;
    }
    r.kind = Answer::Bool;
    if (f->op == Form::KSafe) { r.b = true; for (auto& m : g.st) for (size_t i = 0; i < v.pgroup.size(); ++i) { int64_t s = 0; for (int p : v.pgroup[i]) s += m[p]; if (s > f->k) r.b = false; } return r; }
    if (f->op == Form::QuasiLive || f->op == Form::Live) {
        r.b = true;
        for (size_t i = 0; i < v.tgroup.size() && r.b; ++i) {
            auto fire = std::make_shared<Form>(); fire->op = Form::Fire; fire->ids = {(int)i};
            FP q = mk(Form::E, {mk(Form::F, {fire})}); if (f->op == Form::Live) q = mk(Form::A, {mk(Form::G, {q})});
            if (!eval_ctl(q, g)[0]) r.b = false;
        }
        return r;
    }
    if (f->op == Form::StableMark) {
        r.b = false;
        for (size_t i = 0; i < v.pgroup.size() && !r.b; ++i) {
            int64_t s0 = 0; for (int p : v.pgroup[i]) s0 += g.st[0][p]; bool same = true;
            for (auto& m : g.st) { int64_t s = 0; for (int p : v.pgroup[i]) s += m[p]; if (s != s0) { same = false; break; } }
            if (same) r.b = true;
        }
        return r;
    }
    if (f->op == Form::Control) { r.b = solve_game(f, g, 0)[0]; return r; }
    if (ltl) {
        FP p = f; bool neg = false, uni = true;
        while (p->op == Form::Not) { p = p->sub[0]; neg = !neg; }
        if (p->op == Form::E) { uni = false; p = p->sub[0]; } else if (p->op == Form::A) p = p->sub[0];
        else if (neg) { p = mk(Form::Not, {p}); neg = false; }
        int x = exists_path(uni ? mk(Form::Not, {p}) : p, g);
        if (x < 0) { r.kind = Answer::Unknown; return r; }
        r.b = uni ? !x : x; if (neg) r.b = !r.b; return r;
    }
    r.b = eval_ctl(f, g)[0]; return r;
}
}
