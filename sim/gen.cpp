#include "gen.h"
#include <algorithm>
#include <set>
namespace sim {
static void add_arc(std::vector<Arc>& v, int p, int w) { for (auto& a : v) if (a.p == p) { a.w += w; return; } v.push_back({p, w}); }
static int rw(Rng& r, bool weights) { if (!weights || r.pct(75)) return 1; return r.pct(70) ? 2 : 3; }
static Net base_random(Rng& r, const NetOpts& o) {
    Net n; int nP = r.range(1, o.max_places), nT = r.range(1, o.max_trans);
    for (int i = 0; i < nP; ++i) { Place p; p.init = r.pct(45) ? (uint32_t)r.range(1, r.pct(80) ? 2 : 5) : 0; n.places.push_back(p); }
    bool conserving = r.pct(60);
    for (int i = 0; i < nT; ++i) {
        Trans t; int a = r.pct(8) ? 0 : r.range(1, r.pct(70) ? 2 : 3); int tot = 0;
        for (int k = 0; k < a; ++k) { int w = rw(r, o.weights); add_arc(t.in, (int)r.below(nP), w); tot += w; }
        int b = r.pct(10) ? 0 : r.range(1, r.pct(70) ? 2 : 3); if (conserving && b > tot) b = tot;
        for (int k = 0; k < b; ++k) { int w = conserving ? 1 : rw(r, o.weights); add_arc(t.out, (int)r.below(nP), w); }
        n.trans.push_back(t);
    }
    return n;
}
static Net base_processes(Rng& r, const NetOpts& o) {
    Net n; int k = r.range(1, 3); std::vector<std::vector<int>> comp;
    for (int c = 0; c < k; ++c) {
        int len = r.range(2, 4); std::vector<int> ps;
        for (int i = 0; i < len; ++i) { Place p; p.init = i == 0 ? (uint32_t)(r.pct(80) ? 1 : 2) : 0; ps.push_back((int)n.places.size()); n.places.push_back(p); }
        comp.push_back(ps);
        for (int i = 0; i < len; ++i) { if (i == len - 1 && r.pct(30)) break; Trans t; t.in.push_back({ps[i], 1}); t.out.push_back({ps[(i + 1) % len], 1}); n.trans.push_back(t); }
        if (r.pct(40)) { Trans t; t.in.push_back({ps[r.below(len)], 1}); int q = ps[r.below(len)]; t.out.push_back({q, 1}); n.trans.push_back(t); }
    }
    int res = r.range(0, 2);
    for (int i = 0; i < res; ++i) {
        int p = (int)n.places.size(); Place pl; pl.init = (uint32_t)r.range(1, 2); n.places.push_back(pl);
        int a = (int)r.below(n.trans.size()), b = (int)r.below(n.trans.size());
        int w = (o.weights && r.pct(15)) ? 2 : 1;
        add_arc(n.trans[a].in, p, w); if (r.pct(90)) add_arc(n.trans[b].out, p, w);
    }
    if (k > 1 && r.pct(40)) {   // synchronise two transitions of different components
        int a = (int)r.below(n.trans.size()), b = (int)r.below(n.trans.size());
        if (a != b) { for (auto& x : n.trans[b].in) add_arc(n.trans[a].in, x.p, x.w); for (auto& x : n.trans[b].out) add_arc(n.trans[a].out, x.p, x.w); n.trans.erase(n.trans.begin() + b); }
    }
    return n;
}
static Net base_workflow(Rng& r, const NetOpts& o) {
    Net n; int layers = r.range(2, 4); std::vector<int> prev;
    int f = r.range(1, 2); for (int i = 0; i < f; ++i) { Place p; p.init = (uint32_t)r.range(1, 2); prev.push_back((int)n.places.size()); n.places.push_back(p); }
    for (int l = 1; l < layers; ++l) {
        std::vector<int> cur; int w = r.range(1, 3);
        for (int i = 0; i < w; ++i) { cur.push_back((int)n.places.size()); n.places.push_back({}); }
        int nt = r.range(1, 3);
        for (int i = 0; i < nt; ++i) {
            Trans t; int a = r.range(1, 2), b = r.range(0, 2);
            for (int k = 0; k < a; ++k) add_arc(t.in, prev[r.below(prev.size())], rw(r, o.weights));
            for (int k = 0; k < b; ++k) add_arc(t.out, cur[r.below(cur.size())], rw(r, o.weights));
            n.trans.push_back(t);
        }
        if (r.pct(50)) prev.insert(prev.end(), cur.begin(), cur.end()); else prev = cur;
    }
    return n;
}
static Net base_token_ring(Rng& r, const NetOpts&) {      // many places, small state space: wide marking vectors
    Net n; int len = r.pct(92) ? r.range(8, 70) : r.range(250, 300);
    for (int i = 0; i < len; ++i) n.places.push_back({});
    n.places[r.below(len)].init = 1; if (r.pct(30)) n.places[r.below(len)].init += 1;
    for (int i = 0; i < len; ++i) { if (r.pct(5)) continue; Trans t; t.in.push_back({i, 1}); t.out.push_back({(i + 1) % len, 1}); n.trans.push_back(t); }
    if (n.trans.empty()) { Trans t; t.in.push_back({0, 1}); t.out.push_back({1, 1}); n.trans.push_back(t); }
    for (int i = 0; i < len; ++i) if (r.pct(10)) n.places[i].init += (uint32_t)r.range(0, 1);
    return n;
}
static void decorate(Rng& r, const NetOpts& o, Net& n) {
    int nP = (int)n.places.size(), nT = (int)n.trans.size(); if (!nP || !nT) return;
    int t = (int)r.below(nT), p = (int)r.below(nP);
    switch (r.below(14)) {
        case 0: { Trans b; b.out = n.trans[t].out; n.trans[t].out.clear(); int w = rw(r, o.weights); n.trans[t].out.push_back({nP, w}); b.in.push_back({nP, r.pct(80) ? w : 1}); n.places.push_back({}); n.trans.push_back(b); break; }
        case 1: { Trans b; b.in = n.trans[t].in; n.trans[t].in.clear(); n.trans[t].in.push_back({nP, 1}); b.out.push_back({nP, 1}); n.places.push_back({}); n.trans.push_back(b); break; }
        case 2: { int q = nP; n.places.push_back(n.places[p]); int k = r.pct(70) ? 1 : 2; n.places[q].init *= (uint32_t)k; if (r.pct(30)) n.places[q].init += 1;
                  for (auto& x : n.trans) { int wi = 0, wo = 0; for (auto& a : x.in) if (a.p == p) wi += a.w; for (auto& a : x.out) if (a.p == p) wo += a.w; if (wi) x.in.push_back({q, wi * k}); if (wo) x.out.push_back({q, wo * k}); } break; }
        case 3: { Trans b = n.trans[t]; if (r.pct(40) && b.out.size()) b.out.pop_back(); if (r.pct(30)) for (auto& a : b.in) a.w *= 2; if (r.pct(30)) for (auto& a : b.out) a.w *= 2; n.trans.push_back(b); break; }
        case 4: add_arc(n.trans[t].in, p, 1); add_arc(n.trans[t].out, p, 1); break;
        case 5: case 6: if (o.inhib) { bool has = false; for (auto& a : n.trans[t].inh) if (a.p == p) has = true; if (!has) n.trans[t].inh.push_back({p, r.pct(70) ? 1 : r.range(2, 3)}); } break;
        case 7: { Place c; c.init = (uint32_t)r.range(1, 3); n.places.push_back(c); int w = r.range(1, 2); add_arc(n.trans[t].in, nP, w); add_arc(n.trans[t].out, nP, w); break; }
        case 8: { Trans s; add_arc(s.in, p, 1); add_arc(s.out, p, 1); n.trans.push_back(s); break; }
        case 9: if (o.scale) { static const int edge[] = {15, 16, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537}; int k = r.pct(50) ? r.range(2, 4) : r.pct(50) ? edge[r.below(12)] : r.pct(60) ? r.range(100, 300) : r.range(60000, 70000); int64_t mx = n.places[p].init; for (auto& x : n.trans) for (auto* v : {&x.in, &x.out, &x.inh}) for (auto& a : *v) if (a.p == p) mx = std::max<int64_t>(mx, a.w);
                  if (mx > 100) k = 2; if (mx > 50000000) break;
                  n.places[p].init *= (uint32_t)k; for (auto& x : n.trans) { for (auto& a : x.in) if (a.p == p) a.w *= k; for (auto& a : x.out) if (a.p == p) a.w *= k; for (auto& a : x.inh) if (a.p == p) a.w = (a.w - 1) * k + 1; } } break;
        case 10: { Trans d; add_arc(d.in, p, r.range(3, 9)); add_arc(d.out, (int)r.below(nP), r.range(1, 2)); n.trans.push_back(d); break; }
        case 11: { Trans s; add_arc(s.in, p, 1); n.trans.push_back(s); break; }                     // consumer
        case 12: { n.places.push_back({}); add_arc(n.trans[t].out, nP, 1); break; }                  // accumulator
        case 13: n.places[p].init += 1; break;
    }
}
static void clamp_inh(Net& n) {   // the tool rejects an inhibitor arc next to an ordinary arc between the same two nodes
    for (auto& t : n.trans) { std::vector<Arc> k; for (auto& a : t.inh) { bool both = false; for (auto& b : t.in) if (b.p == a.p) both = true; if (!both) k.push_back({a.p, a.w < 1 ? 1 : a.w}); } t.inh = k; }
}
static void rename(Rng& r, Net& n) {
    std::set<std::string> used; const char* pre[] = {"p", "P", "pl_", "q", "p1_", "s"};
    int style = (int)r.below(3); size_t k = 0;
    auto fresh = [&](const char* const* pr, int np) {
        std::string s;
        do { s = style == 0 ? pr[0] + std::to_string(k++) : std::string(pr[r.below(np)]) + std::to_string(r.below(style == 1 ? 30 + 2 * used.size() : 300 + 2 * used.size())); } while (used.count(s));
        used.insert(s); return s;
    };
    for (auto& p : n.places) p.name = fresh(pre, 6);
    const char* tre[] = {"t", "T", "tr_", "u", "t1_", "a"}; k = 0;
    for (auto& t : n.trans) t.name = fresh(tre, 6);
}
bool gen_net(Rng& r, const NetOpts& o, Net& n, View& v, Graph& g) {
    for (int tries = 0; tries < 60; ++tries) {
        int s = (int)r.below(100);
        Net b = s < 45 ? base_random(r, o) : s < 75 ? base_processes(r, o) : s < 93 ? base_workflow(r, o) : base_token_ring(r, o);
        bool ok = false;
        for (int k = 0; k < 4; ++k) {
            View w = view_of(b); Graph h = explore(w, o.max_states); if (h.complete) { ok = true; break; }
            // shrink: drop a random producing transition
            if (b.trans.size() <= 1) break;
            b.trans.erase(b.trans.begin() + (long)r.below(b.trans.size()));
        }
        if (!ok) continue;
        int d = r.range(0, o.decor);
        for (int k = 0; k < d; ++k) { Net c = b; decorate(r, o, c); clamp_inh(c); View w = view_of(c); Graph h = explore(w, o.max_states); if (h.complete) b = c; }
        // shuffle node order
        if (r.pct(50)) {
            std::vector<int> perm(b.places.size()); for (size_t i = 0; i < perm.size(); ++i) perm[i] = (int)i;
            for (size_t i = perm.size(); i > 1; --i) std::swap(perm[i - 1], perm[r.below(i)]);
            Net c; c.places.resize(b.places.size()); for (size_t i = 0; i < perm.size(); ++i) c.places[perm[i]] = b.places[i];
            c.trans = b.trans; for (auto& t : c.trans) for (auto* l : {&t.in, &t.out, &t.inh}) for (auto& a : *l) a.p = perm[a.p];
            for (size_t i = c.trans.size(); i > 1; --i) std::swap(c.trans[i - 1], c.trans[r.below(i)]);
            b = c;
        }
        rename(r, b);
        if (o.players) { static const int share[] = {15, 30, 45, 60, 80}; int env = share[r.below(5)]; for (auto& t : b.trans) t.player = r.pct(env) ? 1 : 0; }
        if (o.wide) {      // many more places, most of them empty: other widths of the state encoding
            int k = r.pct(50) ? r.range(10, 70) : r.pct(75) ? r.range(236, 300) : r.range(500, 700), full = r.pct(70) ? 5 : 60, big = r.pct(70) ? 1 : r.pct(60) ? 300 : 70000;
            for (int i = 0; i < k; ++i) { Place p; p.name = "zpad" + std::to_string(i); p.init = r.pct(full) ? (r.pct(90) ? 1 : r.range(1, big)) : 0; b.places.push_back(p); }
        }
        v = view_of(b); n = b; g = explore(v, o.max_states); g.v = &v;
        if (!g.complete) continue;
        if (g.st.size() < 2 && r.pct(85)) continue;
        return true;
    }
    return false;
}

static EP gen_expr(Rng& r, int nP, const FormOpts& o, int depth) {
    auto e = std::make_shared<Expr>();
    int k = (int)r.below(100);
    if (depth <= 0 || o.simple || k < 65) {
        if (r.pct(88)) { e->op = Expr::Tok; int c = r.pct(75) ? 1 : r.range(2, 3); if (o.simple) c = 1; for (int i = 0; i < c; ++i) { int p = (int)r.below(nP); if (std::find(e->ids.begin(), e->ids.end(), p) == e->ids.end()) e->ids.push_back(p); } }
        else { e->op = Expr::Const; e->c = r.range(0, 3); }
        return e;
    }
    if (r.pct(7)) { e->op = Expr::Neg; e->sub.push_back(gen_expr(r, nP, o, depth - 1)); return e; }
    if (k < 82) e->op = Expr::Sum; else if (k < 92) e->op = Expr::Diff; else if (o.mult) e->op = Expr::Prod; else e->op = Expr::Sum;
    if (e->op == Expr::Prod && r.pct(70)) { e->sub.push_back(econst(r.pct(15) ? r.range(-3, -1) : r.range(0, 4))); e->sub.push_back(gen_expr(r, nP, o, depth - 1)); if (r.pct(50)) std::swap(e->sub[0], e->sub[1]); }
    else { e->sub.push_back(gen_expr(r, nP, o, depth - 1)); e->sub.push_back(gen_expr(r, nP, o, depth - 1)); if (r.pct(15)) e->sub.push_back(gen_expr(r, nP, o, depth - 1)); }
    return e;
}
// the tool computes with 32-bit integers: keep every intermediate value well inside
static bool small(const EP& e, const Graph& g) {
    const int64_t lim = 1000000000; if (e->op == Expr::Const) return e->c < lim && e->c > -lim;
    for (auto& s : e->sub) if (!small(s, g)) return false;
    for (auto& m : g.st) { int64_t x = eval_expr(e, *g.v, m); if (x > lim || x < -lim) return false; } return true;
}
static FP gen_atom(Rng& r, const Graph& g, int nP, int nT, const FormOpts& o) {
    int k = (int)r.below(100);
    if (o.fire && k < 28) { auto f = mk(Form::Fire); int c = r.pct(70) ? 1 : 2; for (int i = 0; i < c; ++i) { int t = (int)r.below(nT); if (std::find(f->ids.begin(), f->ids.end(), t) == f->ids.end()) f->ids.push_back(t); } return f; }
    if (o.deadlock && k < 33) return mk(Form::Deadlock);
    if (k < 36 && !o.simple) return mk(r.pct(50) ? Form::True : Form::False);
    auto f = mk((Form::Op)((int)Form::Eq + (int)r.below(6)));
    f->l = gen_expr(r, nP, o, r.pct(o.arith ? 25 : 65) ? 0 : 2);
    if (r.pct(75)) {
        const auto& m = g.st[r.below(g.st.size())];
        int64_t c = eval_expr(f->l, *g.v, m); c += r.pct(60) ? 0 : r.range(-1, 1); if (o.text_ok && c < 0) c = 0;
        f->r = econst(c);
    } else f->r = gen_expr(r, nP, o, r.pct(o.arith ? 40 : 75) ? 0 : 1);
    if (r.pct(30)) std::swap(f->l, f->r);
    if (!small(f->l, g) || !small(f->r, g)) return gen_atom(r, g, nP, nT, o);
    return f;
}
FP gen_state(Rng& r, const Graph& g, int nP, int nT, const FormOpts& o, int depth) {
    if (depth <= 0 || r.pct(35)) return gen_atom(r, g, nP, nT, o);
    int k = (int)r.below(100);
    auto sub = [&] { return gen_state(r, g, nP, nT, o, depth - 1); };
    if (k < 42 || (o.text_ok && k >= 90)) { int c = r.pct(75) ? 2 : 3; std::vector<FP> s; for (int i = 0; i < c; ++i) s.push_back(sub()); return mk(k < 22 ? Form::And : Form::Or, s); }
    if (k < 60) return mk(Form::Not, {sub()});
    if (k < 90) { std::vector<FP> s{sub(), sub()}; return mk(r.pct(50) ? Form::And : Form::Or, s); }
    return mk(k < 93 ? Form::Xor : k < 97 ? Form::Imp : Form::Iff, {sub(), sub()});
}
FP gen_reach(Rng& r, const Graph& g, int nP, int nT, const FormOpts& o) {
    int k = (int)r.below(100);
    FP b;
    if (o.deadlock && k < 10) b = mk(Form::Deadlock);
    else if (o.fire && k >= 92) { b = mk(Form::Fire); b->ids = {(int)r.below(nT)}; if (r.pct(50)) b = mk(Form::Not, {b}); }     // one transition only: most of the net has nothing to do with the query
    else if (k < 45) {   // aim at one particular reachable (or nearly reachable) marking
        const auto& m = g.st[r.below(g.st.size())]; std::vector<FP> s; int c = r.range(1, 4); bool off = r.pct(40);
        for (int i = 0; i < c; ++i) { auto a = mk(r.pct(50) ? Form::Eq : r.pct(50) ? Form::Ge : Form::Le); a->l = gen_expr(r, nP, o, r.pct(80) ? 0 : 1); int64_t v = eval_expr(a->l, *g.v, m); if (!small(a->l, g)) continue; if (off && i == 0) { v += r.pct(50) ? 1 : -1; if (o.text_ok && v < 0) v = 0; } a->r = econst(v); s.push_back(a); }
        b = s.empty() ? mk(Form::True) : s.size() == 1 ? s[0] : mk(Form::And, s);
    } else b = gen_state(r, g, nP, nT, o, o.depth);
    FP q;
    switch (r.below(6)) {
        case 0: case 1: case 2: q = mk(Form::E, {mk(Form::F, {b})}); break;
        case 3: q = mk(Form::A, {mk(Form::G, {r.pct(50) ? mk(Form::Not, {b}) : b})}); break;
        case 4: q = mk(Form::Not, {mk(Form::E, {mk(Form::F, {b})})}); break;
        default: q = mk(Form::Not, {mk(Form::A, {mk(Form::G, {b})})}); break;
    }
    return q;
}
FP gen_ctl(Rng& r, const Graph& g, int nP, int nT, const FormOpts& o, int depth) {
    if (depth <= 0) return gen_state(r, g, nP, nT, o, 1);
    if (depth > 1 && r.pct(14)) {      // quantifiers directly below quantifiers, where the rewriting of formulae is busiest
        auto st = [&] { return gen_state(r, g, nP, nT, o, r.pct(70) ? 0 : 1); };
        auto un = [&](FP x) { return mk(r.pct(50) ? Form::A : Form::E, {mk(r.pct(60) ? Form::F : Form::G, {x})}); };
        auto low = [&]() -> FP { int j = (int)r.below(100); return j < 45 ? mk(Form::E, {mk(Form::F, {st()})}) : j < 75 ? un(st()) : j < 85 ? mk(r.pct(50) ? Form::A : Form::E, {mk(Form::U, {st(), st()})}) : st(); };
        std::vector<FP> l; int c = r.range(1, 3); for (int i = 0; i < c; ++i) l.push_back(r.pct(65) ? low() : st());
        FP in = c == 1 ? l[0] : mk(r.pct(65) ? Form::Or : Form::And, l); if (r.pct(20)) in = mk(Form::Not, {in});
        FP left = r.pct(25) && o.deadlock ? mk(Form::Not, {mk(Form::Deadlock)}) : r.pct(70) ? st() : low();
        FP f = r.pct(50) ? mk(r.pct(50) ? Form::A : Form::E, {mk(Form::U, {left, in})}) : un(in); return r.pct(25) ? mk(Form::Not, {f}) : f;
    }
    int k = (int)r.below(100);
    auto sub = [&] { return r.pct(45) ? gen_state(r, g, nP, nT, o, 1) : gen_ctl(r, g, nP, nT, o, depth - 1); };
    if (k < 12) return mk(Form::Not, {gen_ctl(r, g, nP, nT, o, depth - 1)});
    if (k < 26) return mk(r.pct(50) ? Form::And : Form::Or, {gen_ctl(r, g, nP, nT, o, depth - 1), sub()});
    if (!o.text_ok && k < 29) return mk(r.pct(50) ? Form::Imp : r.pct(50) ? Form::Xor : Form::Iff, {gen_ctl(r, g, nP, nT, o, depth - 1), sub()});
    FP p; int j = (int)r.below(o.next ? 5 : 4);
    if (j == 0) p = mk(Form::F, {sub()}); else if (j == 1) p = mk(Form::G, {sub()}); else if (j == 4) p = mk(Form::X, {sub()}); else p = mk(Form::U, {sub(), sub()});
    return mk(r.pct(50) ? Form::A : Form::E, {p});
}
static FP gen_path(Rng& r, const Graph& g, int nP, int nT, const FormOpts& o, int depth) {
    if (depth <= 0) return gen_state(r, g, nP, nT, o, r.pct(70) ? 0 : 1);
    int k = (int)r.below(100);
    auto sub = [&] { return gen_path(r, g, nP, nT, o, r.pct(35) ? 0 : depth - 1); };
    if (k < 10) return mk(Form::Not, {gen_path(r, g, nP, nT, o, depth - 1)});
    if (k < 28) return mk(r.pct(50) ? Form::And : Form::Or, {gen_path(r, g, nP, nT, o, depth - 1), sub()});
    if (k < 48) return mk(Form::F, {sub()});
    if (k < 68) return mk(Form::G, {sub()});
    if (k < 78 && o.next) return mk(Form::X, {sub()});
    return mk(Form::U, {sub(), sub()});
}
static int ntemp(const FP& f) { int n = f->op == Form::X || f->op == Form::F || f->op == Form::G || f->op == Form::U; for (auto& s : f->sub) n += ntemp(s); return n; }
FP gen_ltl(Rng& r, const Graph& g, int nP, int nT, const FormOpts& o) {
    FP p; do { p = gen_path(r, g, nP, nT, o, r.range(1, 3)); } while (ntemp(p) > 5 || ntemp(p) == 0);
    return mk(r.pct(65) ? Form::A : Form::E, {p});
}
}
