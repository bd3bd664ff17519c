#include <algorithm>
#include "model.h"
#include <sstream>
#include <functional>
#include <cstdlib>
#include <stdexcept>
namespace sim {
bool Net::enabled(const std::vector<uint32_t>& m, int t) const {
    const Trans& T = trans[t];
    for (auto& a : T.in) if (m[a.p] < (uint32_t)a.w) return false;
    for (auto& a : T.inh) if (m[a.p] >= (uint32_t)a.w) return false;
    return true;
}
void Net::fire(std::vector<uint32_t>& m, int t) const {
    const Trans& T = trans[t];
    for (auto& a : T.in) m[a.p] -= (uint32_t)a.w;
    for (auto& a : T.out) m[a.p] += (uint32_t)a.w;
}
Names names_of(const Net& n) { Names r; for (auto& p : n.places) r.place.push_back(p.name); for (auto& t : n.trans) r.trans.push_back(t.name); return r; }
Names names_of(const CNet& n) { Names r; for (auto& p : n.places) r.place.push_back(p.name); for (auto& t : n.trans) r.trans.push_back(t.name); return r; }
FP mk(Form::Op op, std::vector<FP> sub) { auto f = std::make_shared<Form>(); f->op = op; f->sub = std::move(sub); return f; }
EP econst(int64_t c) { auto e = std::make_shared<Expr>(); e->op = Expr::Const; e->c = c; return e; }

std::string pnml(const Net& n, int syn) {
    std::ostringstream o, nodes, arcs;
    std::vector<const Place*> order; for (auto& p : n.places) order.push_back(&p);
    if (syn & 32) std::reverse(order.begin(), order.end());
    for (auto* pp : order) {
        const Place& p = *pp; nodes << "<place id=\"" << p.name << "\""; if ((syn & 12) == 8) nodes << " initialMarking=\"" << p.init << "\""; nodes << ">"; if (syn & 4) nodes << "<graphics><position x=\"12\" y=\"-3.5\"/></graphics>"; nodes << "<name><text>" << p.name << "</text></name>";
        if ((syn & 12) != 8 && (p.init || (syn & 4))) nodes << "<initialMarking>" << (syn & 4 ? "<value>" : "<text>") << p.init << (syn & 4 ? "</value>" : "</text>") << "</initialMarking>";
        nodes << "</place>\n";
    }
    for (auto& t : n.trans) {
        nodes << "<transition id=\"" << t.name << "\"";
        nodes << "><name><text>" << t.name << "</text></name>";
        if (t.player) nodes << "<player><value>" << t.player << "</value></player>";
        nodes << "</transition>\n";
    }
    int k = 0;
    auto arc1 = [&](const std::string& s, const std::string& d, int w, bool inh) {
        const char* el = inh && (syn & 4) ? "inhibitorArc" : "arc";
        arcs << "<" << el << " id=\"a" << k++ << "\" source=\"" << s << "\" target=\"" << d << "\"" << (inh && !(syn & 4) ? " type=\"inhibitor\"" : ""); if ((syn & 12) == 8) arcs << " weight=\"" << w << "\""; arcs << ">";
        if ((syn & 12) != 8 && (w != 1 || (syn & 4))) arcs << "<inscription>" << (syn & 4 ? "<value>" : "<text>") << w << (syn & 4 ? "</value>" : "</text>") << "</inscription>";
        arcs << "</" << el << ">\n";
    };
    auto arc = [&](const std::string& s, const std::string& d, int w, bool inh) {
        if ((syn & 1) && inh) arc1(s, d, w + 1, true);
        if ((syn & 1) && !inh && w > 1) { arc1(s, d, w - 1, false); w = 1; }
        arc1(s, d, w, inh);
    };
    for (auto& t : n.trans) {
        int ti = -1, to = -1;      // one transport arc: a token moved from a place to a place
        if ((syn & 16) && !(syn & 1)) for (size_t i = 0; i < t.in.size() && ti < 0; ++i) for (size_t j = 0; j < t.out.size() && ti < 0; ++j) if (t.in[i].w == t.out[j].w) { ti = (int)i; to = (int)j; }
        if (ti >= 0) arcs << "<transportArc id=\"a" << k++ << "\" source=\"" << n.places[t.in[ti].p].name << "\" transition=\"" << t.name << "\" target=\"" << n.places[t.out[to].p].name << "\"><inscription><value>" << t.in[ti].w << "</value></inscription></transportArc>\n";
        for (auto& a : t.in) if (&a != t.in.data() + ti || ti < 0) arc(n.places[a.p].name, t.name, a.w, false);
        for (auto& a : t.inh) arc(n.places[a.p].name, t.name, a.w, true);
        for (auto& a : t.out) if (&a != t.out.data() + to || to < 0) arc(t.name, n.places[a.p].name, a.w, false);
    }
    o << "<?xml version=\"1.0\"?>\n<pnml xmlns=\"http://www.pnml.org/version-2009/grammar/pnml\">\n<net id=\"n\" type=\"http://www.pnml.org/version-2009/grammar/ptnet\">\n<page id=\"page\">\n";
    if (syn & 2) o << arcs.str() << nodes.str(); else o << nodes.str() << arcs.str();
    o << "</page>\n<name><text>net</text></name></net>\n</pnml>\n";
    return o.str();
}

// ---------------------------------------------------------------- queries
static void ex_xml(std::ostream& o, const EP& e, const Names& N) {
    switch (e->op) {
        case Expr::Const: o << "<integer-constant>" << e->c << "</integer-constant>"; break;
        case Expr::Tok: o << "<tokens-count>"; for (int i : e->ids) o << "<place>" << N.place[i] << "</place>"; o << "</tokens-count>"; break;
        case Expr::Neg: o << "<integer-difference>"; ex_xml(o, e->sub[0], N); o << "</integer-difference>"; break;
        default: {
            const char* t = e->op == Expr::Sum ? "integer-sum" : e->op == Expr::Diff ? "integer-difference" : "integer-product";
            o << "<" << t << ">"; for (auto& s : e->sub) ex_xml(o, s, N); o << "</" << t << ">";
        }
    }
}
static void f_xml(std::ostream& o, const FP& f, const Names& N) {
    auto wrap = [&](const char* t) { o << "<" << t << ">"; for (auto& s : f->sub) f_xml(o, s, N); o << "</" << t << ">"; };
    auto cmp = [&](const char* t) { o << "<" << t << ">"; ex_xml(o, f->l, N); ex_xml(o, f->r, N); o << "</" << t << ">"; };
    switch (f->op) {
        case Form::True: o << "<true/>"; break;
        case Form::False: o << "<false/>"; break;
        case Form::Deadlock: o << "<deadlock/>"; break;
        case Form::Fire: o << "<is-fireable>"; for (int i : f->ids) o << "<transition>" << N.trans[i] << "</transition>"; o << "</is-fireable>"; break;
        case Form::Eq: cmp("integer-eq"); break; case Form::Ne: cmp("integer-ne"); break;
        case Form::Lt: cmp("integer-lt"); break; case Form::Le: cmp("integer-le"); break;
        case Form::Gt: cmp("integer-gt"); break; case Form::Ge: cmp("integer-ge"); break;
        case Form::And: wrap("conjunction"); break; case Form::Or: wrap("disjunction"); break; case Form::Not: wrap("negation"); break;
        case Form::Xor: wrap("exclusive-disjunction"); break; case Form::Imp: wrap("implication"); break; case Form::Iff: wrap("equivalence"); break;
        case Form::A: wrap("all-paths"); break; case Form::E: wrap("exists-path"); break;
        case Form::X: wrap("next"); break; case Form::F: wrap("finally"); break; case Form::G: wrap("globally"); break;
        case Form::U: o << "<until><before>"; f_xml(o, f->sub[0], N); o << "</before><reach>"; f_xml(o, f->sub[1], N); o << "</reach></until>"; break;
        case Form::Bounds: o << "<place-bound>"; for (int i : f->ids) o << "<place>" << N.place[i] << "</place>"; o << "</place-bound>"; break;
        case Form::KSafe: o << "<k-safe><integer-constant>" << f->k << "</integer-constant></k-safe>"; break;
        case Form::QuasiLive: o << "<quasi-liveness/>"; break; case Form::StableMark: o << "<stable-marking/>"; break; case Form::Live: o << "<liveness/>"; break;
        case Form::Control: wrap("control"); break;
        case Form::InvTag: wrap("invariant"); break; case Form::PosTag: wrap("possibility"); break; case Form::ImpTag: wrap("impossibility"); break;
    }
}
std::string query_xml(const std::vector<Query>& qs, const Names& N) {
    std::ostringstream o;
    o << "<?xml version=\"1.0\"?>\n<property-set xmlns=\"http://mcc.lip6.fr/\">\n";
    for (auto& q : qs) { o << "<property><id>" << q.name << "</id><description>d</description><formula>"; f_xml(o, q.f, N); o << "</formula></property>\n"; }
    o << "</property-set>\n";
    return o.str();
}
static std::string qn(const std::string& s, bool quote) { return quote ? "\"" + s + "\"" : s; }
static void ex_min(std::ostream& o, const EP& e, const Names& N, bool q) {       // as few parentheses as the grammar allows
    auto prim = [](const EP& x) { return x->op == Expr::Const ? x->c >= 0 : x->op == Expr::Tok; };
    auto par = [&](const EP& x, bool p) { if (p) o << "("; ex_min(o, x, N, q); if (p) o << ")"; };
    switch (e->op) {
        case Expr::Const: o << e->c; break;
        case Expr::Tok: { if (e->ids.size() == 1) o << qn(N.place[e->ids[0]], q); else { o << "tokens-count("; bool f = true; for (int i : e->ids) { if (!f) o << ","; f = false; o << qn(N.place[i], q); } o << ")"; } break; }
        case Expr::Neg: o << "-"; par(e->sub[0], !prim(e->sub[0])); break;
        case Expr::Prod: for (size_t i = 0; i < e->sub.size(); ++i) { if (i) o << "*"; par(e->sub[i], !prim(e->sub[i])); } break;
        default: for (size_t i = 0; i < e->sub.size(); ++i) { if (i) o << (e->op == Expr::Sum ? " + " : " - "); par(e->sub[i], i && (e->sub[i]->op == Expr::Sum || e->sub[i]->op == Expr::Diff)); }
    }
}
static void f_min(std::ostream& o, const FP& f, const Names& N, bool q) {
    auto cmp = [&](const char* t) { ex_min(o, f->l, N, q); o << " " << t << " "; ex_min(o, f->r, N, q); };
    auto un = [&](const char* t) { o << t << " ("; f_min(o, f->sub[0], N, q); o << ")"; };
    auto nary = [&](const char* t) { for (size_t i = 0; i < f->sub.size(); ++i) { if (i) o << " " << t << " "; bool p = f->sub[i]->op == Form::And || f->sub[i]->op == Form::Or; if (p) o << "("; f_min(o, f->sub[i], N, q); if (p) o << ")"; } };
    switch (f->op) {
        case Form::True: o << "true"; break; case Form::False: o << "false"; break; case Form::Deadlock: o << "deadlock"; break;
        case Form::Fire: if (f->ids.size() == 1) { o << qn(N.trans[f->ids[0]], q) << "?"; break; } o << "is-fireable("; for (size_t i = 0; i < f->ids.size(); ++i) { if (i) o << ","; o << qn(N.trans[f->ids[i]], q); } o << ")"; break;
        case Form::Eq: cmp("=="); break; case Form::Ne: cmp("!="); break; case Form::Lt: cmp("<"); break; case Form::Le: cmp("<="); break; case Form::Gt: cmp(">"); break; case Form::Ge: cmp(">="); break;
        case Form::And: nary("and"); break; case Form::Or: nary("or"); break; case Form::Not: un("!"); break;
        case Form::A: case Form::E: {
            const FP& p = f->sub[0]; const char* qq = f->op == Form::A ? "A" : "E";
            if (p->op == Form::F || p->op == Form::G || p->op == Form::X) { o << qq << (p->op == Form::F ? "F" : p->op == Form::G ? "G" : "X") << " ("; f_min(o, p->sub[0], N, q); o << ")"; }
            else { o << qq << " ("; f_min(o, p, N, q); o << ")"; }
            break; }
        case Form::X: un("X"); break; case Form::F: un("F"); break; case Form::G: un("G"); break;
        case Form::Control: o << "control: "; f_min(o, f->sub[0], N, q); break;
        case Form::U: o << "("; f_min(o, f->sub[0], N, q); o << ") U ("; f_min(o, f->sub[1], N, q); o << ")"; break;
        default: throw std::runtime_error("no text form");
    }
}
static void ex_txt(std::ostream& o, const EP& e, const Names& N, bool q) {
    switch (e->op) {
        case Expr::Const: if (e->c < 0) o << "(-" << -e->c << ")"; else o << e->c; break;
        case Expr::Tok: { if (e->ids.size() == 1) o << qn(N.place[e->ids[0]], q); else { o << "tokens-count("; bool f = true; for (int i : e->ids) { if (!f) o << ", "; f = false; o << qn(N.place[i], q); } o << ")"; } break; }
        case Expr::Neg: o << "(-"; ex_txt(o, e->sub[0], N, q); o << ")"; break;
        default: { const char* t = e->op == Expr::Sum ? " + " : e->op == Expr::Diff ? " - " : " * "; o << "("; for (size_t i = 0; i < e->sub.size(); ++i) { if (i) o << t; ex_txt(o, e->sub[i], N, q); } o << ")"; }
    }
}
static void f_txt(std::ostream& o, const FP& f, const Names& N, bool q) {
    auto cmp = [&](const char* t) { o << "("; ex_txt(o, f->l, N, q); o << " " << t << " "; ex_txt(o, f->r, N, q); o << ")"; };
    auto un = [&](const char* t) { o << t << " ("; f_txt(o, f->sub[0], N, q); o << ")"; };
    auto nary = [&](const char* t) { o << "("; for (size_t i = 0; i < f->sub.size(); ++i) { if (i) o << " " << t << " "; o << "("; f_txt(o, f->sub[i], N, q); o << ")"; } o << ")"; };
    switch (f->op) {
        case Form::True: o << "true"; break; case Form::False: o << "false"; break; case Form::Deadlock: o << "deadlock"; break;
        case Form::Fire: o << "is-fireable("; for (size_t i = 0; i < f->ids.size(); ++i) { if (i) o << ","; o << qn(N.trans[f->ids[i]], q); } o << ")"; break;
        case Form::Eq: cmp("="); break; case Form::Ne: cmp("!="); break; case Form::Lt: cmp("<"); break; case Form::Le: cmp("<="); break; case Form::Gt: cmp(">"); break; case Form::Ge: cmp(">="); break;
        case Form::And: nary("and"); break; case Form::Or: nary("or"); break; case Form::Not: un("not"); break;
        case Form::A: case Form::E: {
            const FP& p = f->sub[0]; const char* qq = f->op == Form::A ? "A" : "E";
            if (p->op == Form::F || p->op == Form::G || p->op == Form::X) { o << qq << (p->op == Form::F ? "F" : p->op == Form::G ? "G" : "X") << " ("; f_txt(o, p->sub[0], N, q); o << ")"; }
            else { o << qq << " ("; f_txt(o, p, N, q); o << ")"; }
            break; }
        case Form::X: un("X"); break; case Form::F: un("F"); break; case Form::G: un("G"); break;
        case Form::Control: o << "control: "; f_txt(o, f->sub[0], N, q); break;
        case Form::U: o << "("; f_txt(o, f->sub[0], N, q); o << ") U ("; f_txt(o, f->sub[1], N, q); o << ")"; break;
        default: throw std::runtime_error("no text form");
    }
}
std::string query_text(const FP& f, const Names& N, int style) { std::ostringstream o; if (style > 2) f_min(o, f, N, style > 3); else f_txt(o, f, N, style == 2); return o.str(); }

static const char* const fop[] = {"true", "false", "deadlock", "fire", "eq", "ne", "lt", "le", "gt", "ge", "and", "or", "not", "xor", "imp", "iff", "A", "E", "X", "F", "G", "U", "bounds", "ksafe", "quasilive", "stable", "live", "control", "invtag", "postag", "imptag"};
static const char* const eop[] = {"const", "tok", "sum", "diff", "prod", "neg"};
static void ex_s(std::ostream& o, const EP& e, const Names& N) {
    o << "(" << eop[e->op]; if (e->op == Expr::Const) o << " " << e->c;
    for (int i : e->ids) o << " " << N.place[i];
    for (auto& s : e->sub) { o << " "; ex_s(o, s, N); }
    o << ")";
}
static void f_s(std::ostream& o, const FP& f, const Names& N) {
    o << "(" << fop[f->op];
    if (f->op == Form::KSafe) o << " " << f->k;
    for (int i : f->ids) o << " " << (f->op == Form::Fire ? N.trans[i] : N.place[i]);
    if (f->l) { o << " "; ex_s(o, f->l, N); o << " "; ex_s(o, f->r, N); }
    for (auto& s : f->sub) { o << " "; f_s(o, s, N); }
    o << ")";
}
std::string form_sexp(const FP& f, const Names& N) { std::ostringstream o; f_s(o, f, N); return o.str(); }
FP parse_form(const std::string& s, const Names& N) {
    size_t i = 0;
    auto ws = [&] { while (i < s.size() && s[i] == ' ') ++i; };
    auto tok = [&] { ws(); std::string t; while (i < s.size() && s[i] != ' ' && s[i] != '(' && s[i] != ')') t += s[i++]; return t; };
    auto find = [&](const std::vector<std::string>& v, const std::string& n) { for (size_t k = 0; k < v.size(); ++k) if (v[k] == n) return (int)k; throw std::runtime_error("unknown name " + n); };
    std::function<EP()> pe = [&]() -> EP {
        ws(); if (s[i] != '(') throw std::runtime_error("expr"); ++i;
        auto t = tok(); auto e = std::make_shared<Expr>(); bool ok = false;
        for (int k = 0; k < 6; ++k) if (t == eop[k]) { e->op = (Expr::Op)k; ok = true; }
        if (!ok) throw std::runtime_error("eop");
        if (e->op == Expr::Const) e->c = atoll(tok().c_str());
        while (true) { ws(); if (s[i] == ')') { ++i; break; } if (s[i] == '(') e->sub.push_back(pe()); else e->ids.push_back(find(N.place, tok())); }
        return e;
    };
    std::function<FP()> pf = [&]() -> FP {
        ws(); if (s[i] != '(') throw std::runtime_error("form"); ++i;
        auto t = tok(); auto f = std::make_shared<Form>(); bool ok = false;
        for (size_t k = 0; k < sizeof fop / sizeof fop[0]; ++k) if (t == fop[k]) { f->op = (Form::Op)k; ok = true; }
        if (!ok) throw std::runtime_error("fop " + t);
        if (f->op == Form::KSafe) f->k = atoll(tok().c_str());
        if (f->op >= Form::Eq && f->op <= Form::Ge) { f->l = pe(); f->r = pe(); ws(); ++i; return f; }
        while (true) { ws(); if (s[i] == ')') { ++i; break; } if (s[i] == '(') f->sub.push_back(pf()); else f->ids.push_back(find(f->op == Form::Fire ? N.trans : N.place, tok())); }
        return f;
    };
    return pf();
}
static void ex_ids(const EP& e, std::vector<char>& P) { for (int i : e->ids) P[i] = 1; for (auto& s : e->sub) ex_ids(s, P); }
void collect_ids(const FP& f, std::vector<char>& P, std::vector<char>& T) {
    for (int i : f->ids) (f->op == Form::Fire ? T : P)[i] = 1;
    if (f->l) { ex_ids(f->l, P); ex_ids(f->r, P); }
    for (auto& s : f->sub) collect_ids(s, P, T);
}
View view_of(const Net& n) {
    View v; v.net = n;
    for (size_t i = 0; i < n.places.size(); ++i) v.pgroup.push_back({(int)i});
    for (size_t i = 0; i < n.trans.size(); ++i) { v.tgroup.push_back({(int)i}); v.tlabel.push_back(n.trans[i].name); }
    return v;
}
}
