#include "case.h"
#include <fstream>
#include <sstream>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <time.h>
#include <stdexcept>
namespace sim {
int cpu_limit = 20;
bool write_file(const std::string& p, const std::string& d) {
    int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd < 0) return false;
    size_t o = 0; while (o < d.size()) { ssize_t w = write(fd, d.data() + o, d.size() - o); if (w <= 0) { close(fd); return false; } o += (size_t)w; }
    close(fd); return true;
}
bool read_file(const std::string& p, std::string& d) {
    int fd = open(p.c_str(), O_RDONLY); if (fd < 0) return false; d.clear(); char b[65536]; ssize_t n;
    while ((n = read(fd, b, sizeof b)) > 0) d.append(b, (size_t)n); close(fd); return true;
}
std::string trim(const std::string& s) { size_t a = s.find_first_not_of(" \t\r\n"), b = s.find_last_not_of(" \t\r\n"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
std::vector<Formula> parse_formulas(const std::string& out) {
    std::vector<Formula> r; std::istringstream i(out); std::string l;
    while (std::getline(i, l)) {
        size_t k = l.find("FORMULA "); if (k == std::string::npos) continue;
        std::istringstream w(l.substr(k + 8)); Formula f; w >> f.name >> f.value; std::getline(w, f.tech); r.push_back(f);
    }
    return r;
}
// ------------------------------------------------------------------------------------------- serialisation
static void ser_term(std::ostream& o, const CTP& t) {
    o << "(" << (int)t->op << " " << t->sort << " " << t->v; for (auto& s : t->sub) { o << " "; ser_term(o, s); } o << ")";
}
static void ser_ms(std::ostream& o, const MSP& m) {
    o << "[" << (int)m->op << " " << m->n; for (auto& t : m->terms) { o << " "; ser_term(o, t); } for (auto& s : m->sub) { o << " "; ser_ms(o, s); } o << "]";
}
static void ser_guard(std::ostream& o, const GDP& g) {
    o << "{" << (int)g->op; if (g->a) { o << " "; ser_term(o, g->a); o << " "; ser_term(o, g->b); } for (auto& s : g->sub) { o << " "; ser_guard(o, s); } o << "}";
}
struct P { const std::string& s; size_t i = 0; void ws() { while (i < s.size() && s[i] == ' ') ++i; } long num() { ws(); char* e; long v = strtol(s.c_str() + i, &e, 10); if (e == s.c_str() + i) throw std::runtime_error("num"); i = (size_t)(e - s.c_str()); return v; } bool at(char c) { ws(); return i < s.size() && s[i] == c; } void eat(char c) { if (!at(c)) throw std::runtime_error("expected"); ++i; } };
static CTP de_term(P& p) { p.eat('('); auto t = std::make_shared<CTerm>(); t->op = (CTerm::Op)p.num(); t->sort = (int)p.num(); t->v = (int)p.num(); while (p.at('(')) t->sub.push_back(de_term(p)); p.eat(')'); return t; }
static MSP de_ms(P& p) { p.eat('['); auto m = std::make_shared<Ms>(); m->op = (Ms::Op)p.num(); m->n = p.num(); while (p.at('(')) m->terms.push_back(de_term(p)); while (p.at('[')) m->sub.push_back(de_ms(p)); p.eat(']'); return m; }
static GDP de_guard(P& p) { p.eat('{'); auto g = std::make_shared<Guard>(); g->op = (Guard::Op)p.num(); if (p.at('(')) { g->a = de_term(p); g->b = de_term(p); } while (p.at('{')) g->sub.push_back(de_guard(p)); p.eat('}'); return g; }

std::string serialise(const Case& c) {
    std::ostringstream o;
    o << "case " << c.prop << " " << c.scen << "\n";
    for (auto& kv : c.kv) o << "kv " << kv.first << " " << kv.second << "\n";
    if (!c.colored) {
        for (auto& p : c.net.places) o << "place " << p.name << " " << p.init << "\n";
        for (auto& t : c.net.trans) {
            o << "trans " << t.name << " " << t.player;
            for (auto& a : t.in) o << " in " << a.p << " " << a.w; for (auto& a : t.out) o << " out " << a.p << " " << a.w; for (auto& a : t.inh) o << " inh " << a.p << " " << a.w;
            o << "\n";
        }
    } else {
        o << "colored\n";
        for (auto& s : c.cnet.sorts) { o << "sort " << s.name << " " << (int)s.kind << " " << s.lo << " " << s.hi << " " << s.size << " " << s.elems.size(); for (auto& e : s.elems) o << " " << e; o << " " << s.parts.size(); for (int p : s.parts) o << " " << p; o << "\n"; }
        for (auto& v : c.cnet.vars) o << "var " << v.name << " " << v.sort << "\n";
        for (auto& p : c.cnet.places) { o << "cplace " << p.name << " " << p.sort << " " << p.init_all << " " << p.all_n; for (auto& i : p.init) o << " " << i.first << " " << i.second; o << "\n"; }
        for (auto& t : c.cnet.trans) {
            o << "ctrans " << t.name << " " << t.player << "\n";
            if (t.guard) { o << "guard "; ser_guard(o, t.guard); o << "\n"; }
            for (auto& a : t.in) { o << "cin " << a.p << " "; ser_ms(o, a.ms); o << "\n"; }
            for (auto& a : t.out) { o << "cout " << a.p << " "; ser_ms(o, a.ms); o << "\n"; }
            for (auto& a : t.inh) o << "cinh " << a.p << " " << a.w << "\n";
        }
    }
    auto N = c.names();
    for (auto& q : c.queries) o << "query " << q.name << " " << form_sexp(q.f, N) << "\n";
    for (auto& p : c.procs) {
        o << "proc\n";
        for (auto& g : p.opts) { o << "opt"; for (auto& a : g) o << " " << a; o << "\n"; }
        o << p.env.serialise();
    }
    o << "end\n";
    return o.str();
}
bool parse_case(const std::string& text, Case& c) {
    std::istringstream in(text); std::string l; c = Case(); bool started = false;
    try {
        while (std::getline(in, l)) {
            std::istringstream i(l); std::string w; i >> w;
            if (w.empty() || w[0] == '#') continue;
            if (w == "case") { i >> c.prop >> c.scen; started = true; }
            else if (!started) continue;
            else if (w == "end") return true;
            else if (w == "kv") { std::string k, v; i >> k; std::getline(i, v); c.kv[k] = trim(v); }
            else if (w == "place") { Place p; i >> p.name >> p.init; c.net.places.push_back(p); }
            else if (w == "trans") { Trans t; i >> t.name >> t.player; std::string k; int p, x; while (i >> k >> p >> x) (k == "in" ? t.in : k == "out" ? t.out : t.inh).push_back({p, x}); c.net.trans.push_back(t); }
            else if (w == "colored") c.colored = true;
            else if (w == "sort") { Sort s; int k; size_t n; i >> s.name >> k >> s.lo >> s.hi >> s.size >> n; s.kind = (Sort::Kind)k; s.elems.resize(n); for (auto& e : s.elems) i >> e; i >> n; s.parts.resize(n); for (auto& p : s.parts) i >> p; c.cnet.sorts.push_back(s); }
            else if (w == "var") { CVar v; i >> v.name >> v.sort; c.cnet.vars.push_back(v); }
            else if (w == "cplace") { CPlace p; i >> p.name >> p.sort >> p.init_all >> p.all_n; int a; uint32_t b; while (i >> a >> b) p.init.emplace_back(a, b); c.cnet.places.push_back(p); }
            else if (w == "ctrans") { CTrans t; i >> t.name >> t.player; c.cnet.trans.push_back(t); }
            else if (w == "guard") { std::string r; std::getline(i, r); P p{r}; c.cnet.trans.back().guard = de_guard(p); }
            else if (w == "cin" || w == "cout") { int pl; i >> pl; std::string r; std::getline(i, r); P p{r}; CArc a{pl, de_ms(p)}; (w == "cin" ? c.cnet.trans.back().in : c.cnet.trans.back().out).push_back(a); }
            else if (w == "cinh") { Arc a; i >> a.p >> a.w; c.cnet.trans.back().inh.push_back(a); }
            else if (w == "query") { Query q; i >> q.name; std::string r; std::getline(i, r); q.f = parse_form(r, c.names()); c.queries.push_back(q); }
            else if (w == "proc") { c.procs.emplace_back(); c.procs.back().env.replay = true; }
            else if (w == "opt") { std::vector<std::string> g; std::string a; while (i >> a) g.push_back(a); c.procs.back().opts.push_back(g); }
            else if (w == "env" || w == "decision") { if (!c.procs.back().env.parse_line(l)) return false; }
            else return false;
        }
    } catch (std::exception&) { return false; }
    return false;
}
// ------------------------------------------------------------------------------------------- minimisation
static double nowd() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
static FP remap(const FP& f, const std::vector<int>& pm, const std::vector<int>& tm);
static EP remap_e(const EP& e, const std::vector<int>& pm) { auto r = std::make_shared<Expr>(*e); for (auto& i : r->ids) i = pm[i]; for (auto& s : r->sub) s = remap_e(s, pm); return r; }
static FP remap(const FP& f, const std::vector<int>& pm, const std::vector<int>& tm) {
    auto r = std::make_shared<Form>(*f); for (auto& i : r->ids) i = f->op == Form::Fire ? tm[i] : pm[i];
    if (r->l) { r->l = remap_e(r->l, pm); r->r = remap_e(r->r, pm); } for (auto& s : r->sub) s = remap(s, pm, tm); return r;
}
static void variants(const FP& f, std::vector<FP>& out) {       // smaller formulae with the same sort of root
    auto rep = [&](size_t i, const FP& x) { auto r = std::make_shared<Form>(*f); r->sub[i] = x; out.push_back(r); };
    if ((f->op == Form::And || f->op == Form::Or) && f->sub.size() > 1) for (size_t i = 0; i < f->sub.size(); ++i) { auto r = std::make_shared<Form>(*f); r->sub.erase(r->sub.begin() + (long)i); out.push_back(r->sub.size() == 1 ? r->sub[0] : r); }
    if (f->op == Form::Not && f->sub[0]->op == Form::Not) out.push_back(f->sub[0]->sub[0]);
    if (f->op == Form::And || f->op == Form::Or || f->op == Form::Not || f->op == Form::Xor || f->op == Form::Imp || f->op == Form::Iff || f->op == Form::X || f->op == Form::F || f->op == Form::G || f->op == Form::U) for (auto& s : f->sub) out.push_back(s);
    if ((f->op == Form::A || f->op == Form::E) && f->sub[0]->sub.size()) for (auto& s : f->sub[0]->sub) if (s->op == Form::A || s->op == Form::E) out.push_back(s);
    if (f->ids.size() > 1) for (size_t i = 0; i < f->ids.size(); ++i) { auto r = std::make_shared<Form>(*f); r->ids.erase(r->ids.begin() + (long)i); out.push_back(r); }
    if (!is_temporal(f) && f->op > Form::False && f->op < Form::A) { out.push_back(mk(Form::True)); out.push_back(mk(Form::False)); }
    auto path = [](const FP& x) { return x->op == Form::X || x->op == Form::F || x->op == Form::G || x->op == Form::U; };
    bool quant = f->op == Form::A || f->op == Form::E;
    for (size_t i = 0; i < f->sub.size(); ++i) { std::vector<FP> v; variants(f->sub[i], v); for (auto& x : v) if (!quant || !path(f->sub[i]) || path(x)) rep(i, x); }
}
static bool drop_place(Case& c, int p) {
    std::vector<char> P(c.names().place.size()), T(c.names().trans.size()); for (auto& q : c.queries) collect_ids(q.f, P, T);
    if (P[p] || P.size() <= 1) return false;
    std::vector<int> pm(P.size()), tm(T.size()); for (size_t i = 0, k = 0; i < pm.size(); ++i) pm[i] = (int)i == p ? -1 : (int)k++; for (size_t i = 0; i < tm.size(); ++i) tm[i] = (int)i;
    for (auto& q : c.queries) q.f = remap(q.f, pm, tm);
    if (!c.colored) { c.net.places.erase(c.net.places.begin() + p); for (auto& t : c.net.trans) for (auto* l : {&t.in, &t.out, &t.inh}) { std::vector<Arc> n; for (auto& a : *l) if (a.p != p) n.push_back({pm[a.p], a.w}); *l = n; } }
    else { c.cnet.places.erase(c.cnet.places.begin() + p); for (auto& t : c.cnet.trans) { for (auto* l : {&t.in, &t.out}) { std::vector<CArc> n; for (auto& a : *l) if (a.p != p) n.push_back({pm[a.p], a.ms}); *l = n; } std::vector<Arc> n; for (auto& a : t.inh) if (a.p != p) n.push_back({pm[a.p], a.w}); t.inh = n; } }
    return true;
}
static bool drop_trans(Case& c, int t) {
    std::vector<char> P(c.names().place.size()), T(c.names().trans.size()); for (auto& q : c.queries) collect_ids(q.f, P, T);
    if (T[t] || T.size() <= 1) return false;
    std::vector<int> pm(P.size()), tm(T.size()); for (size_t i = 0; i < pm.size(); ++i) pm[i] = (int)i; for (size_t i = 0, k = 0; i < tm.size(); ++i) tm[i] = (int)i == t ? -1 : (int)k++;
    for (auto& q : c.queries) q.f = remap(q.f, pm, tm);
    if (!c.colored) c.net.trans.erase(c.net.trans.begin() + t); else c.cnet.trans.erase(c.cnet.trans.begin() + t);
    return true;
}
Case minimise(const Case& c0, const std::string& dir, const Verdict& v0, int max_tries, double max_s) {
    Case best = c0; int tries = 0; double t0 = nowd();
    auto attempt = [&](Case& x) {
        if (tries >= max_tries || nowd() - t0 > max_s) return false;
        ++tries; Verdict v = judge(x, dir, false);
        if (v.st == Verdict::Viol && v.cls == v0.cls) { best = x; return true; }
        return false;
    };
    bool ch = true;
    while (ch && tries < max_tries && nowd() - t0 < max_s) {
        ch = false;
        for (size_t p = 0; p < best.procs.size(); ++p) {     // environment decisions first: fewest faults
            if (best.procs[p].env.decisions.size() > 1) { Case x = best; x.procs[p].env.decisions.clear(); if (attempt(x)) ch = true; }
            for (size_t step = best.procs[p].env.decisions.size() / 2; step >= 1; step /= 2)
                for (size_t i = 0; i < best.procs[p].env.decisions.size();) { Case x = best; auto& d = x.procs[p].env.decisions; d.erase(d.begin() + (long)i, d.begin() + (long)std::min(i + step, d.size())); if (attempt(x)) ch = true; else i += step; if (tries >= max_tries) break; }
            if (best.procs[p].env.decisions.size() == 1) { Case x = best; x.procs[p].env.decisions.clear(); if (attempt(x)) ch = true; }
            if (best.procs[p].env.layout_seed) { Case x = best; x.procs[p].env.layout_seed = 0; if (attempt(x)) ch = true; }
            for (size_t i = 0; i < best.procs[p].opts.size();) { Case x = best; if (x.procs[p].opts[i][0][0] == '!') { ++i; continue; } x.procs[p].opts.erase(x.procs[p].opts.begin() + (long)i); if (attempt(x)) ch = true; else ++i; }
        }
        for (size_t i = 0; best.queries.size() > 1 && i < best.queries.size();) { Case x = best; x.queries.erase(x.queries.begin() + (long)i); if (attempt(x)) ch = true; else ++i; }
        for (size_t q = 0; q < best.queries.size(); ++q) { bool again = true; while (again) { again = false; std::vector<FP> vs; variants(best.queries[q].f, vs); for (auto& f : vs) { Case x = best; x.queries[q].f = f; if (attempt(x)) { ch = again = true; break; } } if (tries >= max_tries) break; } }
        for (int t = (int)best.names().trans.size() - 1; t >= 0; --t) { Case x = best; if (drop_trans(x, t) && attempt(x)) ch = true; }
        for (int p = (int)best.names().place.size() - 1; p >= 0; --p) { Case x = best; if (drop_place(x, p) && attempt(x)) ch = true; }
        if (!best.colored) {
            for (size_t t = 0; t < best.net.trans.size(); ++t) for (int k = 0; k < 3; ++k) {
                auto sel = [&](Case& c) -> std::vector<Arc>& { auto& T = c.net.trans[t]; return k == 0 ? T.in : k == 1 ? T.out : T.inh; };
                for (size_t i = 0; i < sel(best).size();) { Case x = best; sel(x).erase(sel(x).begin() + (long)i); if (attempt(x)) { ch = true; continue; } if (sel(best)[i].w > 1) { x = best; sel(x)[i].w = 1; if (attempt(x)) ch = true; } ++i; }
            }
            for (size_t p = 0; p < best.net.places.size(); ++p) if (best.net.places[p].init) { Case x = best; x.net.places[p].init = 0; if (attempt(x)) { ch = true; continue; } if (best.net.places[p].init > 1) { x = best; x.net.places[p].init = 1; if (attempt(x)) ch = true; } }
        } else {
            for (size_t t = 0; t < best.cnet.trans.size(); ++t) {
                if (best.cnet.trans[t].guard) { Case x = best; x.cnet.trans[t].guard = nullptr; if (attempt(x)) ch = true; }
                for (int k = 0; k < 2; ++k) { auto sel = [&](Case& c) -> std::vector<CArc>& { return k ? c.cnet.trans[t].out : c.cnet.trans[t].in; };
                    for (size_t i = 0; i < sel(best).size();) { Case x = best; sel(x).erase(sel(x).begin() + (long)i); if (attempt(x)) { ch = true; continue; } auto& m = sel(best)[i].ms; bool done = false; for (auto& s : m->sub) { x = best; sel(x)[i].ms = s; if (attempt(x)) { ch = done = true; break; } } if (!done) ++i; } }
                for (size_t i = 0; i < best.cnet.trans[t].inh.size();) { Case x = best; x.cnet.trans[t].inh.erase(x.cnet.trans[t].inh.begin() + (long)i); if (attempt(x)) ch = true; else ++i; }
            }
            for (size_t p = 0; p < best.cnet.places.size(); ++p) { for (size_t i = 0; i < best.cnet.places[p].init.size();) { Case x = best; x.cnet.places[p].init.erase(x.cnet.places[p].init.begin() + (long)i); if (attempt(x)) ch = true; else ++i; } }
        }
    }
    return best;
}
}
