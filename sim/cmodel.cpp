// Coloured nets: rendering as PNML, our own unfolding (the reference semantics), random generation.
#include "model.h"
#include "gen.h"
#include <algorithm>
#include <functional>
#include <set>
#include <sstream>
namespace sim {
// ------------------------------------------------------------------------------------------- rendering
static void x_term(std::ostream& o, const CNet& n, const CTP& t) {
    const Sort& s = n.sorts[t->sort];
    switch (t->op) {
        case CTerm::DotC: o << "<dotconstant/>"; break;
        case CTerm::Const:
            if (s.kind == Sort::Dot) o << "<dotconstant/>";
            else if (s.kind == Sort::Range) o << "<finiteintrangeconstant value=\"" << s.lo + t->v << "\"><finiteintrange start=\"" << s.lo << "\" end=\"" << s.hi << "\"/></finiteintrangeconstant>";
            else o << "<useroperator declaration=\"" << s.elems[t->v] << "\"/>";
            break;
        case CTerm::Var: o << "<variable refvariable=\"" << n.vars[t->v].name << "\"/>"; break;
        case CTerm::Succ: o << "<successor><subterm>"; x_term(o, n, t->sub[0]); o << "</subterm></successor>"; break;
        case CTerm::Pred: o << "<predecessor><subterm>"; x_term(o, n, t->sub[0]); o << "</subterm></predecessor>"; break;
        case CTerm::Tuple: o << "<tuple>"; for (auto& x : t->sub) { o << "<subterm>"; x_term(o, n, x); o << "</subterm>"; } o << "</tuple>"; break;
        case CTerm::All: o << "<all><usersort declaration=\"" << s.name << "\"/></all>"; break;
    }
}
static bool plain(const CTP& t) { for (auto& s : t->sub) if (s->op == CTerm::Tuple || !plain(s)) return false; return true; }
static void x_ms(std::ostream& o, const CNet& n, const MSP& m, int syn = 0) {
    auto num = [&](int64_t k) { o << "<subterm><numberconstant value=\"" << k << "\"><positive/></numberconstant></subterm>"; };
    switch (m->op) {
        case Ms::Num:
            if ((syn & 4) && m->n > 1) { auto one = std::make_shared<Ms>(*m); one->n = 1; o << "<scalarproduct>"; num(m->n); o << "<subterm>"; x_ms(o, n, one, syn); o << "</subterm></scalarproduct>"; break; }
            if ((syn & 8) && m->n == 1 && m->terms.size() == 1 && m->terms[0]->op == CTerm::Tuple && plain(m->terms[0])) { x_term(o, n, m->terms[0]); break; }
            if ((syn & 16) && m->n == 1 && m->terms.size() == 1) { o << "<numberof><subterm>"; x_term(o, n, m->terms[0]); o << "</subterm></numberof>"; break; }
            o << "<numberof>"; num(m->n); for (auto& t : m->terms) { o << "<subterm>"; x_term(o, n, t); o << "</subterm>"; } o << "</numberof>"; break;
        case Ms::Add: case Ms::Sub: o << (m->op == Ms::Add ? "<add>" : "<subtract>"); for (auto& s : m->sub) { o << "<subterm>"; x_ms(o, n, s, syn); o << "</subterm>"; } o << (m->op == Ms::Add ? "</add>" : "</subtract>"); break;
        case Ms::Scale: o << "<scalarproduct>"; num(m->n); o << "<subterm>"; x_ms(o, n, m->sub[0], syn); o << "</subterm></scalarproduct>"; break;
    }
}
static void x_guard(std::ostream& o, const CNet& n, const GDP& g) {
    static const char* nm[] = {"equality", "inequality", "lessthan", "lessthanorequal", "greaterthan", "greaterthanorequal", "and", "or", "not"};
    o << "<" << nm[g->op] << ">";
    if (g->a) { o << "<subterm>"; x_term(o, n, g->a); o << "</subterm><subterm>"; x_term(o, n, g->b); o << "</subterm>"; }
    for (auto& s : g->sub) { o << "<subterm>"; x_guard(o, n, s); o << "</subterm>"; }
    o << "</" << nm[g->op] << ">";
}
static CTP color_const(const CNet& n, int sort, int v) {
    auto t = std::make_shared<CTerm>(); const Sort& s = n.sorts[sort];
    if (s.kind == Sort::Product) {
        t->op = CTerm::Tuple; t->sort = sort; std::vector<CTP> r;
        for (size_t i = s.parts.size(); i-- > 0;) { int k = n.sorts[s.parts[i]].size; r.push_back(color_const(n, s.parts[i], v % k)); v /= k; }
        t->sub.assign(r.rbegin(), r.rend()); return t;
    }
    t->op = s.kind == Sort::Dot ? CTerm::DotC : CTerm::Const; t->sort = sort; t->v = v; return t;
}
std::string marking_xml(const CNet& n, const View& w, const std::vector<uint32_t>& m, int style) {
    std::ostringstream o; o << "<marking>";
    for (size_t p = 0; p < n.places.size(); ++p) {
        std::vector<MSP> parts;
        for (size_t c = 0; c < w.pgroup[p].size(); ++c) if (uint32_t k = m[w.pgroup[p][c]]) { bool one = (style & 4) && k < 4; for (uint32_t i = 0; i < (one ? k : 1); ++i) { auto x = std::make_shared<Ms>(); x->op = Ms::Num; x->n = one ? 1 : k; x->terms = {color_const(n, n.places[p].sort, (int)c)}; parts.push_back(x); } }
        if (parts.empty()) continue;
        o << "<place id=\"" << n.places[p].name << "\">"; if (parts.size() == 1) x_ms(o, n, parts[0]); else { auto a = std::make_shared<Ms>(); a->op = Ms::Add; a->sub = parts; x_ms(o, n, a); } o << "</place>";
    }
    o << "</marking>"; std::string t = o.str(), u; if (!(style & 3)) return t;
    for (size_t i = 0; i < t.size(); ++i) { u += t[i]; if (t[i] == '>' && i + 1 < t.size()) { u += "\n"; if (style & 2) u += "  "; } }
    return u;
}
std::string pnml(const CNet& n, int syn) {
    const bool split = syn & 1;
    std::ostringstream o;
    o << "<?xml version=\"1.0\"?>\n<pnml xmlns=\"http://www.pnml.org/version-2009/grammar/pnml\"><net id=\"n\" type=\"http://www.pnml.org/version-2009/grammar/symmetricnet\">\n<declaration><structure><declarations>\n";
    std::vector<const Sort*> order; for (auto& s : n.sorts) order.push_back(&s);
    if (syn & 2) std::stable_sort(order.begin(), order.end(), [](const Sort* a, const Sort* b) { return (a->kind == Sort::Product) > (b->kind == Sort::Product); });
    for (auto* sp : order) {
        const Sort& s = *sp; o << "<namedsort id=\"" << s.name << "\" name=\"" << s.name << "\">";
        if (s.kind == Sort::Dot) o << "<dot/>";
        else if (s.kind == Sort::Range) o << "<finiteintrange start=\"" << s.lo << "\" end=\"" << s.hi << "\"/>";
        else if (s.kind == Sort::Product) { o << "<productsort>"; for (int p : s.parts) o << "<usersort declaration=\"" << n.sorts[p].name << "\"/>"; o << "</productsort>"; }
        else { o << "<cyclicenumeration>"; for (auto& e : s.elems) o << "<feconstant id=\"" << e << "\" name=\"" << e << "\"/>"; o << "</cyclicenumeration>"; }
        o << "</namedsort>\n";
    }
    for (auto& v : n.vars) o << "<variabledecl id=\"" << v.name << "\" name=\"" << v.name << "\"><usersort declaration=\"" << n.sorts[v.sort].name << "\"/></variabledecl>\n";
    o << "</declarations></structure></declaration>\n<page id=\"pg\">\n";
    for (auto& p : n.places) {
        o << "<place id=\"" << p.name << "\"><name><text>" << p.name << "</text></name><type><structure><usersort declaration=\"" << n.sorts[p.sort].name << "\"/></structure></type>";
        std::vector<MSP> parts;
        if (p.init_all) { auto t = std::make_shared<CTerm>(); t->op = CTerm::All; t->sort = p.sort; auto m = std::make_shared<Ms>(); m->op = Ms::Num; m->n = p.all_n; m->terms = {t}; parts.push_back(m); }
        else for (auto& i : p.init) if (i.second) { auto m = std::make_shared<Ms>(); m->op = Ms::Num; m->n = i.second; m->terms = {color_const(n, p.sort, i.first)}; parts.push_back(m); }
        if (!parts.empty()) { o << "<hlinitialMarking><structure>"; if (parts.size() == 1) x_ms(o, n, parts[0]); else { auto a = std::make_shared<Ms>(); a->op = Ms::Add; a->sub = parts; x_ms(o, n, a); } o << "</structure></hlinitialMarking>"; }
        o << "</place>\n";
    }
    int k = 0;
    for (auto& t : n.trans) {
        o << "<transition id=\"" << t.name << "\"><name><text>" << t.name << "</text></name>"; if (t.player) o << "<player><value>1</value></player>";
        if (t.guard) { o << "<condition><structure>"; x_guard(o, n, t.guard); o << "</structure></condition>"; }
        o << "</transition>\n";
    }
    for (auto& t : n.trans) {
        auto parts = [&](const CArc& a) { std::vector<MSP> l; if (split && a.ms->op == Ms::Add) l = a.ms->sub; else if (split && a.ms->op == Ms::Num && a.ms->n > 1) { auto x = std::make_shared<Ms>(*a.ms), y = std::make_shared<Ms>(*a.ms); x->n = 1; y->n = a.ms->n - 1; l = {x, y}; } else l = {a.ms}; return l; };
        for (auto& a : t.in) for (auto& m : parts(a)) { o << "<arc id=\"a" << k++ << "\" source=\"" << n.places[a.p].name << "\" target=\"" << t.name << "\"><hlinscription><structure>"; x_ms(o, n, m, syn); o << "</structure></hlinscription></arc>\n"; }
        for (auto& a : t.out) for (auto& m : parts(a)) { o << "<arc id=\"a" << k++ << "\" source=\"" << t.name << "\" target=\"" << n.places[a.p].name << "\"><hlinscription><structure>"; x_ms(o, n, m, syn); o << "</structure></hlinscription></arc>\n"; }
        for (auto& a : t.inh) for (int d = split ? 1 : 0; d >= 0; --d) o << "<arc id=\"a" << k++ << "\" source=\"" << n.places[a.p].name << "\" target=\"" << t.name << "\" type=\"inhibitor\"><inscription><text>" << a.w + d << "</text></inscription></arc>\n";
    }
    o << "</page></net></pnml>\n"; return o.str();
}
// ------------------------------------------------------------------------------------------- reference unfolding
using Bind = std::vector<int>;
static void eval_term(const CNet& n, const CTP& t, const Bind& b, std::vector<int>& out) {     // the colours a term denotes (several for `all`)
    const Sort& s = n.sorts[t->sort]; out.clear();
    switch (t->op) {
        case CTerm::DotC: out = {0}; return;
        case CTerm::Const: out = {t->v}; return;
        case CTerm::Var: out = {b[t->v]}; return;
        case CTerm::Succ: eval_term(n, t->sub[0], b, out); for (int& x : out) x = (x + 1) % s.size; return;
        case CTerm::Pred: eval_term(n, t->sub[0], b, out); for (int& x : out) x = (x + s.size - 1) % s.size; return;
        case CTerm::All: for (int i = 0; i < s.size; ++i) out.push_back(i); return;
        case CTerm::Tuple: { out = {0}; for (size_t i = 0; i < t->sub.size(); ++i) { std::vector<int> y, z; eval_term(n, t->sub[i], b, y); for (int a : out) for (int c : y) z.push_back(a * n.sorts[s.parts[i]].size + c); out = z; } return; }
    }
}
static void eval_ms(const CNet& n, const MSP& m, const Bind& b, std::vector<int64_t>& acc, int64_t f) {
    switch (m->op) {
        case Ms::Num: { std::vector<int> c; for (auto& t : m->terms) { eval_term(n, t, b, c); for (int x : c) acc[x] += f * m->n; } return; }
        case Ms::Add: for (auto& s : m->sub) eval_ms(n, s, b, acc, f); return;
        case Ms::Sub: eval_ms(n, m->sub[0], b, acc, f); for (size_t i = 1; i < m->sub.size(); ++i) eval_ms(n, m->sub[i], b, acc, -f); return;
        case Ms::Scale: eval_ms(n, m->sub[0], b, acc, f * m->n); return;
    }
}
static bool eval_guard(const CNet& n, const GDP& g, const Bind& b) {
    auto val = [&](const CTP& t) { std::vector<int> v; eval_term(n, t, b, v); return v[0]; };
    switch (g->op) {
        case Guard::Eq: return val(g->a) == val(g->b); case Guard::Ne: return val(g->a) != val(g->b); case Guard::Lt: return val(g->a) < val(g->b);
        case Guard::Le: return val(g->a) <= val(g->b); case Guard::Gt: return val(g->a) > val(g->b); case Guard::Ge: return val(g->a) >= val(g->b);
        case Guard::And: for (auto& s : g->sub) if (!eval_guard(n, s, b)) return false; return true;
        case Guard::Or: for (auto& s : g->sub) if (eval_guard(n, s, b)) return true; return false;
        case Guard::Not: return !eval_guard(n, g->sub[0], b);
    }
    return false;
}
static void vars_t(const CTP& t, std::set<int>& v) { if (t->op == CTerm::Var) v.insert(t->v); for (auto& s : t->sub) vars_t(s, v); }
static void vars_m(const MSP& m, std::set<int>& v) { for (auto& t : m->terms) vars_t(t, v); for (auto& s : m->sub) vars_m(s, v); }
static void vars_g(const GDP& g, std::set<int>& v) { if (g->a) { vars_t(g->a, v); vars_t(g->b, v); } for (auto& s : g->sub) vars_g(s, v); }
std::set<int> trans_vars(const CNet& n, size_t ti) { auto& t = n.trans[ti]; std::set<int> vs; for (auto& a : t.in) vars_m(a.ms, vs); for (auto& a : t.out) vars_m(a.ms, vs); if (t.guard) vars_g(t.guard, vs); return vs; }
bool unfold_ref(const CNet& n, View& w, size_t max_trans, std::vector<std::vector<int>>* bindings, std::vector<int>* torigin) {
    w = View(); std::vector<int> base, sum(n.places.size(), -1);
    for (auto& p : n.places) {
        base.push_back((int)w.net.places.size()); std::vector<int> g; std::vector<uint32_t> m(n.sorts[p.sort].size, p.init_all ? p.all_n : 0);
        if (!p.init_all) for (auto& i : p.init) m[i.first] += i.second;
        for (int c = 0; c < n.sorts[p.sort].size; ++c) { Place q; q.name = p.name + "__" + std::to_string(c); q.init = m[c]; g.push_back((int)w.net.places.size()); w.net.places.push_back(q); }
        w.pgroup.push_back(g);
    }
    for (auto& t : n.trans) for (auto& a : t.inh) if (sum[a.p] < 0) {
        sum[a.p] = (int)w.net.places.size(); Place q; q.name = n.places[a.p].name + "__sum"; for (int x : w.pgroup[a.p]) q.init += w.net.places[x].init; w.net.places.push_back(q);
    }
    for (size_t ti = 0; ti < n.trans.size(); ++ti) {
        auto& t = n.trans[ti]; std::set<int> vs; for (auto& a : t.in) vars_m(a.ms, vs); for (auto& a : t.out) vars_m(a.ms, vs); if (t.guard) vars_g(t.guard, vs);
        std::vector<int> vl(vs.begin(), vs.end()); Bind b(n.vars.size(), 0); w.tgroup.emplace_back();
        double nb = 1; for (int x : vl) nb *= n.sorts[n.vars[x].sort].size; if (nb > 20000) return false;      // too many bindings for the step budget: outside what is generated
        for (;;) {
            if (!t.guard || eval_guard(n, t.guard, b)) {
                Trans u; u.name = t.name; u.player = t.player;
                for (int dir = 0; dir < 2; ++dir) for (auto& a : dir ? t.out : t.in) {
                    std::vector<int64_t> acc(n.sorts[n.places[a.p].sort].size, 0); eval_ms(n, a.ms, b, acc, 1); int64_t tot = 0;
                    for (size_t c = 0; c < acc.size(); ++c) { if (acc[c] < 0) return false; if (acc[c]) (dir ? u.out : u.in).push_back({base[a.p] + (int)c, (int)acc[c]}); tot += acc[c]; }
                    if (tot == 0) return false;          // an arc that moves nothing under some binding: outside what is generated
                    if (sum[a.p] >= 0) (dir ? u.out : u.in).push_back({sum[a.p], (int)tot});
                }
                for (auto& a : t.inh) u.inh.push_back({sum[a.p], a.w});
                if (w.net.trans.size() >= max_trans) return false;
                w.tgroup.back().push_back((int)w.net.trans.size()); w.net.trans.push_back(u); w.tlabel.push_back(t.name);
                if (bindings) bindings->push_back(b);
                if (torigin) torigin->push_back((int)ti);
            }
            size_t k = 0; for (; k < vl.size(); ++k) { if (++b[vl[k]] < n.sorts[n.vars[vl[k]].sort].size) break; b[vl[k]] = 0; }
            if (k == vl.size()) break;
        }
    }
    return true;
}
// ------------------------------------------------------------------------------------------- generation
// feature bits: 1 sums and differences on input arcs, 2 on output arcs, 4 variables that no input arc binds, 8 inhibitors, 16 all-terms,
// 1024 many bindings per transition, 32 guards, 128 product-sorted variables, 256 producer/consumer chains, 512 partitioned products, 2048 one variable twice in a tuple, 64 no constants on arcs and no variable twice in a tuple (the fragment in which colour partitioning is exact)
struct CGen {
    Rng& r; CNet n; std::vector<int> base; int feat; CGen(Rng& x, int f) : r(x), feat(f) {}
    CTP simple(int sort, const std::vector<int>& vs, bool consts, bool all, std::set<int>* used = nullptr) {
        auto t = std::make_shared<CTerm>(); t->sort = sort; const Sort& s = n.sorts[sort];
        if (s.kind == Sort::Dot) { t->op = CTerm::DotC; return t; }
        std::vector<int> mine; for (int v : vs) if (n.vars[v].sort == sort) mine.push_back(v);
        if ((feat & 16) && all && r.pct(12)) { t->op = CTerm::All; return t; }
        if (mine.empty() && (feat & 64)) for (size_t v = 0; v < n.vars.size(); ++v) if (n.vars[v].sort == sort) mine.push_back((int)v);
        if (!mine.empty() && used) { std::vector<int> m2; for (int v : mine) if (!used->count(v)) m2.push_back(v); if (!m2.empty()) mine = m2; }
        if (mine.empty() || (!(feat & 64) && consts && r.pct(15))) { t->op = CTerm::Const; t->v = (int)r.below(s.size); return r.pct(20) ? shift(t, sort) : t; }
        t->op = CTerm::Var; t->v = mine[r.below(mine.size())]; if (used) used->insert(t->v);
        return r.pct(25) ? shift(t, sort) : t;
    }
    // one step mostly; sometimes a mixed chain, sometimes a run in one direction that goes round the sort more than once
    CTP shift(CTP t, int sort) {
        int k = 1, dir = r.pct(60) ? CTerm::Succ : CTerm::Pred; bool mixed = false;
        if (r.pct(18)) { mixed = r.pct(50); k = mixed ? r.range(2, 3) : r.range(2, 6); }
        for (int i = 0; i < k; ++i) { auto u = std::make_shared<CTerm>(); u->op = (decltype(u->op))(mixed ? (r.pct(60) ? CTerm::Succ : CTerm::Pred) : dir); u->sort = sort; u->sub = {t}; t = u; }
        return t;
    }
    CTP term(int sort, const std::vector<int>& vs, bool all) {
        if (n.sorts[sort].kind != Sort::Product) return simple(sort, vs, true, all);
        auto t = std::make_shared<CTerm>(); t->sort = sort; if ((feat & 16) && all && r.pct(8)) { t->op = CTerm::All; return t; }
        if (feat & 128) { std::vector<int> mine; for (int v : vs) if (n.vars[v].sort == sort) mine.push_back(v); if (!mine.empty() && r.pct(45)) { t->op = CTerm::Var; t->v = mine[r.below(mine.size())]; return t; } }
        t->op = CTerm::Tuple; std::set<int> used; for (int p : n.sorts[sort].parts) t->sub.push_back(simple(p, vs, true, all && r.pct(50), feat & 64 ? &used : nullptr)); return t;
    }
    static MSP num(int64_t k, CTP t) { auto m = std::make_shared<Ms>(); m->op = Ms::Num; m->n = k; m->terms = {t}; return m; }
    MSP ms(int sort, const std::vector<int>& vs, bool input) {
        int k = (int)r.below(100); if (input && !(feat & 1)) k = k < 90 ? 0 : 85; if (!input && !(feat & 2)) k = k < 90 ? 0 : 85; int64_t w = r.pct(80) ? 1 : r.range(2, 3);
        if (k < 68) return num(w, term(sort, vs, true));
        if (k < 81) { auto m = std::make_shared<Ms>(); m->op = Ms::Add; int c = r.range(2, 3); for (int i = 0; i < c; ++i) m->sub.push_back(num(r.pct(85) ? 1 : 2, term(sort, vs, true))); return m; }
        if (k < 87) { auto m = std::make_shared<Ms>(); m->op = Ms::Scale; m->n = r.range(2, 3); m->sub = {num(1, term(sort, vs, true))}; return m; }
        auto mk = [](Ms::Op o, std::vector<MSP> l, int64_t f = 1) { auto m = std::make_shared<Ms>(); m->op = o; m->n = f; m->sub = std::move(l); return m; };
        // differences that no binding makes negative or empty
        if (n.sorts[sort].size >= 2 && r.pct(60)) {
            auto a = std::make_shared<CTerm>(); a->op = CTerm::All; a->sort = sort; int64_t q = r.pct(75) ? 1 : r.range(2, 3);
            if (q > 1 && r.pct(40)) return mk(Ms::Sub, {num(q, a), mk(Ms::Add, {num(r.range(1, (int)q - 1), term(sort, vs, false)), num(1, term(sort, vs, true))})});
            MSP m = mk(Ms::Sub, {num(q, a), num(r.range(1, (int)q), term(sort, vs, true))});
            if (r.pct(12)) return mk(Ms::Scale, {m}, 2); if (r.pct(12)) return mk(Ms::Add, {m, num(1, term(sort, vs, true))}); return m;
        }
        if (r.pct(85)) {
            CTP x = term(sort, vs, true), y = term(sort, vs, true); int64_t w2 = r.range(1, 4), u = r.range(0, 2), d = r.range(1, (int)w2); if (!u && d == w2) u = 1;
            MSP l = !u ? num(w2, x) : r.pct(50) ? mk(Ms::Add, {num(w2, x), num(u, y)}) : mk(Ms::Add, {num(u, y), num(w2, x)});
            MSP rr = d > 1 && r.pct(40) ? mk(Ms::Scale, {num(1, x)}, d) : d > 1 && r.pct(40) ? mk(Ms::Add, {num(1, x), num(d - 1, x)}) : num(d, x);
            return mk(Ms::Sub, {l, rr});
        }
        return num(1, term(sort, vs, false));
    }
    GDP guard(const std::vector<int>& vs, int depth) {
        auto g = std::make_shared<Guard>();
        if (depth > 0 && r.pct(depth > 1 ? 80 : 40)) {
            int k = (int)r.below(100); g->op = k < 40 ? Guard::And : k < 75 ? Guard::Or : Guard::Not; int c = g->op == Guard::Not ? 1 : r.pct(70) ? 2 : 3;
            for (int i = 0; i < c; ++i) g->sub.push_back(guard(vs, depth - 1)); return g;
        }
        if ((feat & 128) && n.sorts.back().kind == Sort::Product && r.pct(25)) { g->op = r.pct(50) ? Guard::Eq : Guard::Ne; g->a = term((int)n.sorts.size() - 1, vs, false); g->b = term((int)n.sorts.size() - 1, vs, false); return g; }
        int v = vs[r.below(vs.size())], s = n.vars[v].sort; g->op = (Guard::Op)r.below(6);
        auto t = std::make_shared<CTerm>(); t->op = CTerm::Var; t->sort = s; t->v = v; bool pr = n.sorts[s].kind == Sort::Product; if (pr) g->op = r.pct(50) ? Guard::Eq : Guard::Ne; if (!pr && r.pct(15)) t = shift(t, s);
        g->a = t; g->b = pr ? term(s, vs, false) : simple(s, vs, true, false); if (r.pct(30)) std::swap(g->a, g->b);
        return g;
    }
    void sorts() {
        Sort d; d.name = "dot"; d.kind = Sort::Dot; d.size = 1; n.sorts.push_back(d);
        int k = r.range(1, 3); int lo = r.range(0, 3);
        for (int i = 0; i < k; ++i) {
            Sort s; s.name = "C" + std::to_string(i); s.size = feat & 2048 ? r.range(4, r.pct(70) ? 5 : 6) : feat & 1024 ? r.range(3, 7) : feat & 512 ? r.range(2, 5) : r.pct(90) ? r.range(1, 4) : r.range(5, 8);
            if (r.pct(30)) { s.kind = Sort::Range; s.lo = lo; s.hi = lo + s.size - 1; lo = s.hi + 1 + r.range(0, 2); }
            else { s.kind = Sort::Enum; for (int j = 0; j < s.size; ++j) s.elems.push_back("c" + std::to_string(i) + (r.pct(50) ? "_" : "x") + std::to_string(j)); }
            base.push_back((int)n.sorts.size()); n.sorts.push_back(s);
        }
        if (r.pct(feat & 2048 ? 100 : feat & (128 | 256 | 512) ? 90 : feat & 1024 ? 70 : 45)) {
            Sort s; s.name = "PR"; s.kind = Sort::Product; int c = r.pct(80) ? 2 : 3; s.size = 1;
            for (int i = 0; i < c; ++i) { int b = (feat & 2048) && i == 1 && r.pct(85) ? s.parts[0] : base[r.below(base.size())]; if (s.size * n.sorts[b].size > (feat & (1024 | 2048) ? 49 : feat & 512 ? 25 : 16)) break; s.parts.push_back(b); s.size *= n.sorts[b].size; }
            if (s.parts.size() >= 2) n.sorts.push_back(s);
        }
        if (feat & 64) for (int b : base) { n.vars.push_back({"w" + std::to_string(n.vars.size()), b}); n.vars.push_back({"w" + std::to_string(n.vars.size()), b}); n.vars.push_back({"w" + std::to_string(n.vars.size()), b}); }
        int v = feat & 1024 ? r.range(3, 5) : r.range(1, 4); for (int i = 0; i < v; ++i) n.vars.push_back({"v" + std::to_string(i), base[r.below(base.size())]});
        if ((feat & 128) && n.sorts.back().kind == Sort::Product) for (int i = r.range(1, 2); i > 0; --i) n.vars.push_back({"x" + std::to_string(i), (int)n.sorts.size() - 1});
    }
    void net() {
        int nP = r.range(1, 6), nT = r.range(1, 5);
        for (int i = 0; i < nP; ++i) {
            CPlace p; p.name = (r.pct(50) ? "p" : "q") + std::to_string(i); p.sort = r.pct(15) ? 0 : (feat & 1024) && r.pct(40) ? (int)n.sorts.size() - 1 : r.pct(30) ? (int)r.below(n.sorts.size()) : base[r.below(base.size())]; int sz = n.sorts[p.sort].size;
            if (r.pct(60)) { if (r.pct(20)) { p.init_all = true; p.all_n = r.pct(85) ? 1 : 2; } else { int c = r.range(1, 3); for (int j = 0; j < c; ++j) { int col = (int)r.below(sz); bool dup = false; for (auto& x : p.init) if (x.first == col) { ++x.second; dup = true; } if (!dup) p.init.emplace_back(col, r.pct(80) ? 1 : 2); } } }
            if (!p.init.empty() && r.pct(3)) { static const uint32_t big[] = {254, 255, 256, 300, 65535, 65536, 70000}; p.init[r.below(p.init.size())].second = big[r.below(7)]; }
            n.places.push_back(p);
        }
        bool flow = r.pct(60);       // outputs repeat the tokens of the inputs
        for (int i = 0; i < nT; ++i) {
            CTrans t; t.name = (r.pct(50) ? "t" : "u") + std::to_string(i); std::vector<int> vs; for (size_t v = 0; v < n.vars.size(); ++v) if ((feat & 64) || r.pct(feat & 1024 ? 85 : 60)) vs.push_back((int)v);
            int a = r.pct(6) ? 0 : r.range(feat & 1024 ? r.range(1, 2) : 1, r.pct(feat & 1024 ? 30 : 70) ? feat & 1024 ? 2 : 1 : 3), b = r.pct(8) ? 0 : r.range(1, r.pct(70) ? 1 : 3); std::set<int> up, uq;
            for (int k = 0; k < a; ++k) { int p = (int)r.below(nP); if (up.insert(p).second) t.in.push_back({p, ms(n.places[p].sort, vs, true)}); }
            if (!(feat & 4)) { std::set<int> bound; for (auto& x : t.in) vars_m(x.ms, bound); vs.assign(bound.begin(), bound.end()); }
            for (int k = 0; k < b; ++k) {
                int p = (int)r.below(nP); if (!uq.insert(p).second) continue;
                MSP m; if (flow && r.pct(60)) for (auto& x : t.in) if (n.places[x.p].sort == n.places[p].sort) m = x.ms;
                t.out.push_back({p, m ? m : ms(n.places[p].sort, vs, false)});
            }
            if ((feat & 8) && r.pct(28)) { int p = (int)r.below(nP); if (!up.count(p)) t.inh.push_back({p, r.pct(70) ? 1 : r.range(2, 3)}); }
            if ((feat & 32) && !vs.empty() && r.pct(45)) t.guard = guard(vs, r.range(0, 2));
            n.trans.push_back(t);
        }
        if ((feat & 8) && r.pct(20)) {      // a transition that takes nothing away and stops when another place fills
            CTrans t; t.name = "i" + std::to_string(n.trans.size()); int inh = (int)r.below(n.places.size()); for (int k = 0; k < 3 && !n.places[inh].init.empty(); ++k) inh = (int)r.below(n.places.size());
            CPlace p; p.name = "ip" + std::to_string(n.places.size()); p.sort = base[r.below(base.size())]; int col = (int)r.below(n.sorts[p.sort].size); p.init.emplace_back(col, r.range(1, 2)); int pi = (int)n.places.size(); n.places.push_back(p);
            auto x = std::make_shared<CTerm>(); x->op = CTerm::Const; x->sort = p.sort; x->v = col; if (r.pct(50)) { n.vars.push_back({"z" + std::to_string(n.vars.size()), p.sort}); x = var((int)n.vars.size() - 1); }
            t.in.push_back({pi, num(1, x)}); t.out.push_back({pi, num(1, x)}); t.inh.push_back({inh, r.pct(75) ? 1 : 2}); n.trans.push_back(t);
        }
        if (feat & 256) for (int k = r.range(1, 2); k > 0; --k) chain();
        if ((feat & 512) && n.sorts.back().kind == Sort::Product) split();
        if ((feat & 2048) && n.sorts.back().kind == Sort::Product) diag();
    }
    CTP var(int v) { auto t = std::make_shared<CTerm>(); t->op = CTerm::Var; t->sort = n.vars[v].sort; t->v = v; return t; }
    // tuples that use one variable twice, shifted: the colours a binding may take form several intervals that wrap round the sort
    void diag() {
        int s = (int)n.sorts.size() - 1; const std::vector<int> parts = n.sorts[s].parts;
        auto place = [&](int sort, int lo, int hi) { CPlace p; p.name = "gp" + std::to_string(n.places.size()); p.sort = sort; std::set<int> c; for (int k = r.range(lo, hi); k > 0; --k) c.insert((int)r.below(n.sorts[sort].size)); for (int x : c) p.init.emplace_back(x, r.pct(85) ? 1 : 2); n.places.push_back(p); return (int)n.places.size() - 1; };
        auto fresh = [&](int sort) { n.vars.push_back({"z" + std::to_string(n.vars.size()), sort}); return (int)n.vars.size() - 1; };
        int pm = place(s, 1, 5);
        for (int k = r.range(1, 3); k > 0; --k) {
            CTrans t; t.name = "k" + std::to_string(n.trans.size()); int x = fresh(parts[0]); std::vector<int> vs{x};
            auto tuple = [&] { auto tp = std::make_shared<CTerm>(); tp->op = CTerm::Tuple; tp->sort = s; for (int q : parts) { if (q == parts[0] && r.pct(80)) tp->sub.push_back(r.pct(55) ? shift(var(x), q) : var(x)); else { vs.push_back(fresh(q)); tp->sub.push_back(r.pct(30) ? shift(var(vs.back()), q) : var(vs.back())); } } return tp; };
            CTP a = tuple(); t.in.push_back({pm, num(1, a)}); if (r.pct(25)) t.in.push_back({place(parts[0], 1, 3), num(1, r.pct(50) ? shift(var(x), parts[0]) : var(x))});
            if (r.pct(50)) t.out.push_back({place(parts[0], 0, 0), num(1, r.pct(50) ? shift(var(x), parts[0]) : var(x))}); else if (r.pct(50)) t.out.push_back({place(s, 0, 0), num(1, r.pct(50) ? a : tuple())}); else { auto d = std::make_shared<CTerm>(); d->op = CTerm::DotC; d->sort = 0; t.out.push_back({place(0, 0, 0), num(1, d)}); }
            if ((feat & 32) && r.pct(30)) t.guard = guard(vs, r.range(0, 1));
            if (r.pct(70)) { Bind b; b.assign(n.vars.size(), 0); for (int v : vs) b[v] = (int)r.below(n.sorts[n.vars[v].sort].size); std::vector<int> cs; eval_term(n, a, b, cs); if (cs.size() == 1) { auto& in = n.places[pm].init; bool dup = false; for (auto& x2 : in) dup |= x2.first == cs[0]; if (!dup) in.emplace_back(cs[0], 1); } }
            n.trans.push_back(t);
        }
        if (r.pct(40)) { CTrans t; t.name = "h" + std::to_string(n.trans.size()); auto tp = std::make_shared<CTerm>(); tp->op = CTerm::Tuple; tp->sort = s; for (int q : parts) tp->sub.push_back(var(fresh(q))); t.in.push_back({place(s, 1, 3), num(1, tp)}); t.out.push_back({pm, num(1, tp)}); n.trans.push_back(t); }
    }
    // a place of product sort whose components are told apart in different ways: constants on some, equality with another place on others
    void split() {
        int s = (int)n.sorts.size() - 1; const std::vector<int> parts = n.sorts[s].parts; auto fresh = [&](int sort) { n.vars.push_back({"z" + std::to_string(n.vars.size()), sort}); return (int)n.vars.size() - 1; };
        auto place = [&](int sort, int pct) { CPlace p; p.name = "s" + std::to_string(n.places.size()); p.sort = sort; if (r.pct(pct)) { std::set<int> c; for (int k = r.range(1, 4); k > 0; --k) c.insert((int)r.below(n.sorts[sort].size)); for (int x : c) p.init.emplace_back(x, r.pct(85) ? 1 : 2); } n.places.push_back(p); return (int)n.places.size() - 1; };
        auto dot = [&] { auto t = std::make_shared<CTerm>(); t->op = CTerm::DotC; t->sort = 0; return num(1, t); };
        auto con = [&](int sort) { auto t = std::make_shared<CTerm>(); t->op = CTerm::Const; t->sort = sort; t->v = (int)r.below(n.sorts[sort].size); return t; };
        int pm = place(s, 100), up = r.pct(40) ? place(s, 70) : -1;
        if (up >= 0) { CTrans t; t.name = "f" + std::to_string(n.trans.size()); auto tp = std::make_shared<CTerm>(); tp->op = CTerm::Tuple; tp->sort = s; for (int q : parts) tp->sub.push_back(var(fresh(q))); t.in.push_back({up, num(1, tp)}); t.out.push_back({pm, num(r.pct(80) ? 1 : 2, tp)}); n.trans.push_back(t); }
        for (int k = r.range(1, 3); k > 0; --k) {
            CTrans t; t.name = "c" + std::to_string(n.trans.size()); std::vector<int> vs; auto tp = std::make_shared<CTerm>(); tp->op = CTerm::Tuple; tp->sort = s; size_t fix = r.below(parts.size());
            for (size_t i = 0; i < parts.size(); ++i) if (i == fix || r.pct(15)) tp->sub.push_back(con(parts[i])); else { vs.push_back(fresh(parts[i])); tp->sub.push_back(var(vs.back())); }
            t.in.push_back({pm, num(1, tp)}); t.out.push_back({place(0, 5), dot()}); if ((feat & 32) && !vs.empty() && r.pct(30)) t.guard = guard(vs, r.range(0, 1)); n.trans.push_back(t);
        }
        for (int k = r.range(1, 2); k > 0; --k) {
            CTrans t; t.name = "d" + std::to_string(n.trans.size()); auto tp = std::make_shared<CTerm>(); tp->op = CTerm::Tuple; tp->sort = s; std::vector<int> vs; for (int q : parts) { vs.push_back(fresh(q)); tp->sub.push_back(var(vs.back())); }
            size_t j = r.below(parts.size()); int other = place(parts[j], 90), y = r.pct(30) ? vs[j] : fresh(parts[j]); t.in.push_back({pm, num(1, tp)}); t.in.push_back({other, num(1, var(y))}); t.out.push_back({place(0, 5), dot()});
            if (y != vs[j]) { t.guard = std::make_shared<Guard>(); t.guard->op = r.pct(75) ? Guard::Eq : Guard::Ne; t.guard->a = var(vs[j]); t.guard->b = var(y); }
            n.trans.push_back(t);
        }
    }
    // producers -> one place -> consumers, each with plain tuples of variables: the shape agglomeration and parallel-place rules look for
    void chain() {
        int s = r.pct(75) ? (int)n.sorts.size() - 1 : base[r.below(base.size())]; std::vector<int> parts = n.sorts[s].kind == Sort::Product ? n.sorts[s].parts : std::vector<int>{s};
        auto fresh = [&](int sort) { std::vector<int> c; for (size_t v = 0; v < n.vars.size(); ++v) if (n.vars[v].sort == sort) c.push_back((int)v); if (c.empty() || (c.size() < 4 && r.pct(50))) { n.vars.push_back({"y" + std::to_string(n.vars.size()), sort}); return (int)n.vars.size() - 1; } return c[r.below(c.size())]; };
        CPlace mid; mid.name = "m" + std::to_string(n.places.size()); mid.sort = s; if (r.pct(10)) mid.init.emplace_back((int)r.below(n.sorts[s].size), 1); int pm = (int)n.places.size(); n.places.push_back(mid);
        int twin = -1; if (r.pct(35)) { CPlace tw = mid; tw.name = "n" + std::to_string(pm); twin = (int)n.places.size(); n.places.push_back(tw); }
        int64_t wt = r.pct(75) ? 1 : 2, mult = r.pct(25) ? r.range(2, 3) : 1;      // mult: one producer firing feeds several consumer firings
        auto side = [&](bool prod) {
            CTrans t; t.name = (prod ? "a" : "b") + std::to_string(n.trans.size()); std::vector<int> vs; for (int q : parts) vs.push_back(fresh(q));
            CTP tp; if (parts.size() == 1) tp = var(vs[0]); else { tp = std::make_shared<CTerm>(); tp->op = CTerm::Tuple; tp->sort = s; for (int v : vs) tp->sub.push_back(var(v)); }
            MSP m = num(r.pct(mult > 1 ? 97 : 85) ? (prod ? wt * mult : wt) : r.range(1, 3), tp); (prod ? t.out : t.in).push_back({pm, m}); if (twin >= 0) (prod ? t.out : t.in).push_back({twin, r.pct(70) ? m : num(r.range(1, 3), tp)});
            std::set<int> used; int k = r.range(prod ? 1 : 0, 2);
            for (int i = 0; i < k; ++i) { int q = (int)r.below(n.places.size()); if (q == pm || q == twin || !used.insert(q).second) continue; (prod ? t.in : t.out).push_back({q, num(1, term(n.places[q].sort, vs, false))}); }
            if (r.pct(12)) { int q = (int)r.below(n.places.size()); if (q != pm && q != twin && !used.count(q)) (prod ? t.out : t.in).push_back({q, num(1, term(n.places[q].sort, vs, false))}); }
            if ((feat & 32) && r.pct(mult > 1 ? 50 : 25)) { std::vector<int> gv = vs; if ((feat & 4) && r.pct(25)) gv.push_back(fresh(base[r.below(base.size())])); t.guard = guard(gv, r.pct(30) ? r.range(2, 3) : r.range(0, 1)); }
            n.trans.push_back(t);
        };
        for (int i = r.pct(75) ? 1 : 2; i > 0; --i) side(true);
        for (int i = r.pct(70) ? 1 : 2; i > 0; --i) side(false);
    }
};
bool gen_cnet(Rng& r, int feat, size_t max_states, size_t max_trans, CNet& n, View& v, Graph& g) {
    for (int tries = 0; tries < 80; ++tries) {
        CGen c(r, feat); c.sorts(); c.net();
        for (int k = 0; k < 5; ++k) {
            View w; if (!unfold_ref(c.n, w, max_trans)) break;
            Graph h = explore(w, max_states);
            if (h.complete) { if (h.st.size() < 2 && r.pct(80)) break; n = c.n; v = w; g = explore(v, max_states); return true; }
            if (c.n.trans.size() <= 1) break;
            c.n.trans.erase(c.n.trans.begin() + (long)r.below(c.n.trans.size()));
        }
    }
    return false;
}
}
