// What is generated and judged for each property.
#include "case.h"
#include "props.h"
#include <algorithm>
#include <cstring>
#include <set>
#include <sstream>
#include <functional>
#include <cerrno>
#include <unistd.h>
namespace sim {
using SV = std::vector<std::string>;
static std::string S(int64_t x) { return std::to_string(x); }
// ------------------------------------------------------------------------------------------- environments
EnvCfg gen_env(Rng& r, int flags) {
    EnvCfg e; e.seed = r.next(); e.rand_seed = r.next(); e.layout_seed = r.pct(85) ? (r.next() | 1) : 0;
    static const int64_t starts[] = {1700000000, 86400, 2147483647, 2147483640, 3502444800, 1234567};
    e.clock_start = r.pct(60) ? starts[0] + (int64_t)r.below(100000000) : starts[r.below(6)];
    static const int64_t steps[] = {50, 1000, 1000000, 300000000, 2500000000ll, 40000000000ll};
    e.clock_step = (flags & ENV_CLOCK) ? steps[r.pct(45) ? 1 : r.below(6)] : 1000;
    if ((flags & ENV_CLOCK) && r.pct(45)) {
        static const uint32_t ppm[] = {3000, 20000, 100000, 400000};
        e.clock_jump_ppm = ppm[r.below(4)]; static const int64_t mx[] = {1ll << 28, 1ll << 33, 1ll << 37, 1ll << 42}; e.clock_jump_max = mx[r.below(4)];
        e.clock_back = r.pct(40);
    }
    if ((flags & ENV_LP) && r.pct(50)) { static const uint32_t ppm[] = {30000, 200000, 600000, 1000000}; e.lp_ppm = ppm[r.below(4)]; }
    return e;
}
// ------------------------------------------------------------------------------------------- options
static void add(Proc& p, SV g) { p.opts.push_back(std::move(g)); }
static void opt_timeouts(Rng& r, Proc& p, bool ltl) {
    static const int ts[] = {0, 0, 1, 1, 5, 30, 1000};
    if (r.pct(70)) add(p, {"-q", S(ts[r.below(7)])});
    if (r.pct(40)) add(p, {"-l", S(ts[r.below(7)])});
    if (r.pct(30)) add(p, {"-d", S(ts[r.below(7)])});
    if (!ltl && r.pct(15)) add(p, {"--init-potency-timeout", S(ts[r.below(7)])});
}
static void opt_reduction(Rng& r, Proc& p, int pct_rules) {
    int k = (int)r.below(100);
    if (k < pct_rules) {
        std::string l; int n = r.range(1, r.pct(60) ? 3 : 8); for (int i = 0; i < n; ++i) { if (i) l += ","; int x = r.range(0, 17); l += S(x >= 10 ? x + 1 : x); }   // 10 (rule K) is documented as unproved
        add(p, {"-r", "3", l});
    } else if (k < pct_rules + 50) add(p, {"-r", S((int)r.below(3))});
}
static bool walk_ends(const Case& c, const Graph& g) {      // a random walk only ever stops when it has found everything
    for (auto& q : c.queries) {
        FP f = q.f; bool neg = false; while (f->op == Form::Not) { neg = !neg; f = f->sub[0]; }
        if (f->op != Form::E && f->op != Form::A) return false;
        bool want = (f->op == Form::E) != neg; Answer a = reference(q.f, g, false);
        if (a.kind != Answer::Bool || a.b != want) return false;
    }
    return true;
}
static void opt_search(Rng& r, Proc& p, bool walk) {
    static const char* s[] = {"BestFS", "BFS", "DFS", "RDFS", "RPFS"};
    if (walk) { SV g{"-s", "RandomWalk"}; if (r.pct(70)) { g.push_back(S(r.range(1, 40))); if (r.pct(70)) g.push_back(S(r.range(0, 20))); } add(p, g); return; }
    if (r.pct(85)) add(p, {"-s", s[r.below(5)]});
    if (r.pct(30)) add(p, {"--seed-offset", S((int64_t)r.below(100000))});
}
static void opt_misc(Rng& r, Proc& p) {
    if (r.pct(35)) add(p, {"-p"});
    if (r.pct(15)) add(p, {"-n"}); else if (r.pct(10)) add(p, {"-n", "1"});
}
static bool has_opt(const Case& c, const char* o, size_t i = 0) { for (auto& g : c.procs[i].opts) { std::string f = g[0][0] == '!' ? g[0].substr(1) : g[0]; if (f == o) return true; } return false; }
static std::string opt_val(const Case& c, const char* o, size_t i = 0, size_t k = 1) { for (auto& g : c.procs[i].opts) { std::string f = g[0][0] == '!' ? g[0].substr(1) : g[0]; if (f == o && g.size() > k) return g[k]; } return ""; }
static SV argv_of(const Proc& p, SV a) { for (auto& g : p.opts) for (auto& x : g) a.push_back(x[0] == '!' ? x.substr(1) : x); return a; }

static void gen_queries(Rng& r, Case& c, const Graph& g, int n, const std::function<FP()>& f) {
    (void)g; std::set<std::string> used;
    for (int i = 0; i < n; ++i) { Query q; q.f = f(); q.name = "Q" + S(i) + (r.pct(30) ? "-x" : ""); c.queries.push_back(q); }
}
static int np(const Net& n) { int k = 0; for (auto& p : n.places) if (p.name.compare(0, 4, "zpad")) ++k; return k; }      // the places queries talk about
static int nq(Rng& r) { return r.pct(45) ? 1 : r.pct(60) ? r.range(2, 3) : r.range(4, 8); }
static FP gen_special(Rng& r) {
    switch (r.below(5)) { case 0: { auto f = mk(Form::KSafe); f->k = r.range(0, 4); return f; } case 1: return mk(Form::QuasiLive); case 2: return mk(Form::StableMark); case 3: return mk(Form::Live); default: { return mk(Form::E, {mk(Form::F, {mk(Form::Deadlock)})}); } }
}
static FP gen_bounds(Rng& r, int nP) { auto f = mk(Form::Bounds); int n = r.pct(60) ? 1 : r.range(2, 4); for (int i = 0; i < n; ++i) { int p = (int)r.below(nP); if (std::find(f->ids.begin(), f->ids.end(), p) == f->ids.end()) f->ids.push_back(p); } return f; }

// the same formula in other words: invariant/possibility/impossibility for AG/EF/AG not, comparisons with both sides negated
static FP respell(Rng& r, const FP& f) {
    auto g = std::make_shared<Form>(*f);
    for (auto& s : g->sub) s = respell(r, s);
    if (g->l && r.pct(30) && (g->op == Form::Eq || g->op == Form::Ne || g->op == Form::Lt || g->op == Form::Le || g->op == Form::Gt || g->op == Form::Ge)) {
        auto neg = [](const EP& e) { auto n = std::make_shared<Expr>(); n->op = Expr::Neg; n->sub = {e}; return n; };
        EP a = neg(g->r), b = neg(g->l); g->l = a; g->r = b;
    }
    if ((f->op == Form::A || f->op == Form::E) && g->sub[0]->op == (f->op == Form::A ? Form::G : Form::F) && r.pct(50)) {
        FP b = g->sub[0]->sub[0];
        if (f->op == Form::E) return mk(Form::PosTag, {b});
        return b->op == Form::Not ? mk(Form::ImpTag, {b->sub[0]}) : mk(Form::InvTag, {b});
    }
    return g;
}
// a query about one transition only, preferably an inhibited one
static FP gen_focus(Rng& r, const CNet& n) {
    std::vector<int> c; for (size_t i = 0; i < n.trans.size(); ++i) if (!n.trans[i].inh.empty()) c.push_back((int)i);
    FP b = mk(Form::Fire); b->ids = {c.empty() || r.pct(20) ? (int)r.below(n.trans.size()) : c[r.below(c.size())]}; if (r.pct(60)) b = mk(Form::Not, {b});
    return r.pct(60) ? mk(Form::E, {mk(Form::F, {b})}) : mk(Form::A, {mk(Form::G, {b})});
}
static bool gen_case0(const std::string& prop, uint64_t seed, Case& c);
bool gen_case(const std::string& prop, uint64_t seed, Case& c) {
    if (!gen_case0(prop, seed, c)) return false;
    Rng r(mix(seed, 0x5e11)); if (r.pct(15)) c.kv["syn"] = S(c.colored ? r.range(1, 31) : r.range(1, 63));       // other spellings of the same model file
    if (r.pct(12) && !c.has("text") && (prop == "V01" || prop == "V02" || prop == "V04" || prop == "V05" || prop == "V11" || prop == "V13")) {
        bool ltl = false; for (auto& q : c.procs) for (auto& o : q.opts) for (auto& a : o) if (a == "-ltl" || a == "!-ltl") ltl = true;
        if (!ltl) for (auto& q : c.queries) q.f = respell(r, q.f);
    }
    return true;
}
static bool gen_case0(const std::string& prop, uint64_t seed, Case& c) {
    Rng r(mix(seed, hash_bytes(prop.data(), prop.size())));
    if (prop == "V15") {      // simplification by several threads, every interleaving at the granularity of memory accesses
        static const char* base[] = {"V04", "V04", "V04", "V01", "V02", "V03", "V08", "V07"};
        const char* b = base[r.below(8)]; bool ok = false;
        for (int i = 0; i < 12 && !ok; ++i) ok = gen_case0(b, mix(seed, 0x0f15 + i), c) && c.scen == "verify" && c.procs.size() == 1 && c.queries.size() > 1 && opt_val(c, "-q") != "0";
        if (!ok) return false;
        c.prop = prop; Proc& p = c.procs[0]; p.env.seed = mix(p.env.seed, seed); add(p, {"!-z", S(r.range(2, 5))});
        static const uint32_t ppm[] = {3, 30, 300, 3000, 30000}; p.env.sched_ppm = ppm[r.below(5)];
        return true;
    }
    if (prop == "V16") {      // memory runs out at a drawn allocation, once or for good, in a run of any engine
        static const char* base[] = {"V01", "V02", "V03", "V04", "V04", "V04", "V04", "V04", "V05", "V07", "V08", "V08", "V09", "V12"};
        if (!gen_case0(base[r.below(14)], mix(seed, 0x0f17), c) || c.scen != "verify" || c.procs.size() != 1) return false;
        c.prop = prop; c.kv["oom"] = "1"; EnvCfg& e = c.procs[0].env;
        e.seed = mix(e.seed, seed); return true;
    }
    c = Case(); c.prop = prop; c.scen = "verify";
    c.procs.emplace_back(); Proc& p = c.procs[0];
    View v; Graph g; NetOpts no; FormOpts fo; if (prop == "V01" || prop == "V02" || prop == "V03" || prop == "V06" || prop == "V07" || prop == "V12") no.wide = r.pct(prop == "V07" ? 12 : 5);
    if (prop == "V01" || prop == "V05") {
        p.env = gen_env(r, ENV_CLOCK | ENV_LP);
        no.max_states = r.pct(80) ? 150 : 1200; if (!gen_net(r, no, c.net, v, g)) return false;
        int nP = no.wide && r.pct(85) ? np(c.net) : (int)c.net.places.size(), nT = (int)c.net.trans.size();
        bool text = r.pct(8); fo.text_ok = text; if (text) c.kv["text"] = S(r.range(1, 4));
        gen_queries(r, c, g, text ? 1 : nq(r), [&] { return !text && r.pct(4) ? gen_special(r) : gen_reach(r, g, nP, nT, fo); });
        opt_search(r, p, r.pct(18) && walk_ends(c, g)); opt_misc(r, p);
        if (prop == "V05") { opt_reduction(r, p, 45); if (r.pct(75)) add(p, {"-q", "0"}); if (r.pct(40)) add(p, {"-d", S(r.range(0, 2))}); }
        else { if (r.pct(55)) add(p, {"-q", "0"}); else opt_timeouts(r, p, false); if (r.pct(55)) add(p, {"-r", "0"}); else opt_reduction(r, p, 10); }
        if (r.pct(8)) add(p, {"--noreach"});
        return true;
    }
    if (prop == "V02") {
        p.env = gen_env(r, ENV_CLOCK | ENV_LP);
        no.max_states = r.pct(80) ? 100 : 500; if (!gen_net(r, no, c.net, v, g)) return false;
        int nP = no.wide && r.pct(85) ? np(c.net) : (int)c.net.places.size(), nT = (int)c.net.trans.size();
        bool text = r.pct(6); fo.text_ok = text; if (text) c.kv["text"] = S(r.range(1, 4));
        gen_queries(r, c, g, text ? 1 : nq(r), [&] { return !text && r.pct(4) ? gen_special(r) : r.pct(8) ? gen_reach(r, g, nP, nT, fo) : gen_ctl(r, g, nP, nT, fo, r.range(1, 3)); });
        opt_search(r, p, false); opt_misc(r, p);
        if (r.pct(50)) add(p, {"-q", "0"}); else opt_timeouts(r, p, false);
        if (r.pct(50)) add(p, {"-r", "0"}); else opt_reduction(r, p, 20);
        if (r.pct(50)) add(p, {"-ctl", r.pct(50) ? "local" : "czero"});
        if (r.pct(25)) add(p, {"--noreach"});
        return true;
    }
    if (prop == "V03") {
        p.env = gen_env(r, ENV_CLOCK | ENV_LP); c.kv["logic"] = "ltl";
        no.max_states = r.pct(85) ? 60 : 300; if (!gen_net(r, no, c.net, v, g)) return false;
        int nP = no.wide && r.pct(85) ? np(c.net) : (int)c.net.places.size(), nT = (int)c.net.trans.size();
        gen_queries(r, c, g, r.pct(60) ? 1 : r.range(2, 5), [&] { return gen_ltl(r, g, nP, nT, fo); });
        add(p, {"!-ltl", r.pct(50) ? "tarjan" : "ndfs"});
        static const char* s[] = {"BestFS", "DFS", "RDFS", "RPFS"};
        if (r.pct(70)) add(p, {"-s", s[r.below(4)]});
        if (r.pct(30)) add(p, {"--seed-offset", S((int64_t)r.below(100000))});
        opt_misc(r, p);
        static const char* por[] = {"automaton", "liebke", "none"}; if (r.pct(75)) add(p, {"--ltl-por", por[r.below(3)]}); // (classic: known finding)
        static const char* he[] = {"aut", "dist", "fire-count"}; if (r.pct(50)) add(p, {"--ltl-heur", he[r.below(3)]});
        if (r.pct(25)) add(p, {"--noweak"}); if (r.pct(20)) add(p, {"--noreach"}); if (r.pct(25)) add(p, {"--compress-aps", r.pct(50) ? "0" : "1"});
        if (r.pct(20)) add(p, {"--spot-optimization", S(r.range(1, 3))});
        if (r.pct(50)) add(p, {"-q", "0"}); else opt_timeouts(r, p, true);
        if (r.pct(50)) add(p, {"-r", "0"}); else opt_reduction(r, p, 20);
        return true;
    }
    if (prop == "V04") {      // query simplification under time pressure and solver failures, every logic
        p.env = gen_env(r, ENV_CLOCK | ENV_LP); if (r.pct(50) && !p.env.lp_ppm) p.env.lp_ppm = r.pct(50) ? 100000 : 500000;
        no.max_states = r.pct(85) ? 100 : 500; if (!gen_net(r, no, c.net, v, g)) return false;
        int nP = no.wide && r.pct(85) ? np(c.net) : (int)c.net.places.size(), nT = (int)c.net.trans.size();
        int lg = (int)r.below(100); fo.arith = r.pct(60); fo.depth = r.range(2, 4);
        if (lg < 30) { c.kv["logic"] = "ltl"; gen_queries(r, c, g, r.pct(60) ? 1 : r.range(2, 4), [&] { return gen_ltl(r, g, nP, nT, fo); }); add(p, {"!-ltl", r.pct(50) ? "tarjan" : "ndfs"}); if (r.pct(60)) add(p, {"--ltl-por", "none"}); }
        else gen_queries(r, c, g, nq(r), [&] { return lg < 65 || r.pct(25) ? gen_reach(r, g, nP, nT, fo) : gen_ctl(r, g, nP, nT, fo, r.range(1, 3)); });
        static const int ts[] = {1, 1, 2, 5, 30, 1000};
        if (r.pct(70)) add(p, {"-q", S(ts[r.below(6)])}); if (r.pct(60)) add(p, {"-l", S(ts[r.below(6)])});
        if (r.pct(75)) add(p, {"-r", "0"}); else opt_reduction(r, p, 5);
        if (lg >= 30 && r.pct(40)) opt_search(r, p, false); opt_misc(r, p);
        if (lg >= 30 && !has_opt(c, "-s") && r.pct(15)) { add(p, {"-s", "RPFS"}); add(p, {"--init-potency-timeout", S(ts[r.below(6)])}); }
        return true;
    }
    if (prop == "V06") {      // traces
        p.env = gen_env(r, ENV_CLOCK | ENV_LP); bool ltl = r.pct(45);
        no.max_states = r.pct(85) ? (ltl ? 60 : 150) : (ltl ? 200 : 800); if (!gen_net(r, no, c.net, v, g)) return false;
        int nP = no.wide && r.pct(85) ? np(c.net) : (int)c.net.places.size(), nT = (int)c.net.trans.size();
        add(p, {"!-t"});
        if (ltl) {
            c.kv["logic"] = "ltl"; gen_queries(r, c, g, r.pct(85) ? 1 : 2, [&] { return gen_ltl(r, g, nP, nT, fo); });
            add(p, {"!-ltl", r.pct(50) ? "tarjan" : "ndfs"});
            static const char* s[] = {"BestFS", "DFS", "RDFS", "RPFS"}; if (r.pct(60)) add(p, {"-s", s[r.below(4)]});
            static const char* por[] = {"automaton", "liebke", "none"}; if (r.pct(75)) add(p, {"--ltl-por", por[r.below(3)]});
            static const char* he[] = {"aut", "dist", "fire-count"}; if (r.pct(40)) add(p, {"--ltl-heur", he[r.below(3)]});
            if (r.pct(25)) add(p, {"--noweak"});
        } else {
            gen_queries(r, c, g, r.pct(75) ? 1 : r.range(2, 4), [&] { return gen_reach(r, g, nP, nT, fo); });
            opt_search(r, p, r.pct(15) && walk_ends(c, g));
        }
        if (r.pct(30)) add(p, {"--seed-offset", S((int64_t)r.below(100000))});
        opt_misc(r, p);
        if (r.pct(65)) add(p, {"-q", "0"}); else opt_timeouts(r, p, ltl);
        if (r.pct(45)) add(p, {"-r", "0"}); else opt_reduction(r, p, 30);
        if (r.pct(40)) { c.procs.emplace_back(); c.procs[1].env = gen_env(r, ENV_CLOCK); c.kv["replay"] = "1"; }
        return true;
    }
    if (prop == "V07") {      // bounds and state-space statistics
        p.env = gen_env(r, ENV_CLOCK | ENV_LP);
        no.max_states = r.pct(80) ? 150 : 1200; if (!gen_net(r, no, c.net, v, g)) return false;
        int nP = no.wide && r.pct(85) ? np(c.net) : (int)c.net.places.size(), nT = (int)c.net.trans.size();
        if (r.pct(30)) {
            c.scen = "statespace"; add(p, {"!-e"}); static const char* s[] = {"BestFS", "BFS", "DFS", "RDFS", "RPFS"}; if (r.pct(80)) add(p, {"-s", s[r.below(5)]});
            if (r.pct(30)) add(p, {"--seed-offset", S((int64_t)r.below(100000))}); if (r.pct(15)) add(p, {"-n"}); return true;
        }
        gen_queries(r, c, g, nq(r), [&] { int k = (int)r.below(100); return k < 70 ? gen_bounds(r, nP) : k < 80 ? gen_special(r) : gen_reach(r, g, nP, nT, fo); });
        opt_search(r, p, false); opt_misc(r, p);
        if (r.pct(45)) add(p, {"-q", "0"}); else opt_timeouts(r, p, false);
        if (r.pct(40)) add(p, {"-r", "0"}); else opt_reduction(r, p, 25);
        return true;
    }
    if (prop == "V08") {      // coloured nets: reduction, fixed point, partitioning, symmetry, unfolding, then any engine
        p.env = gen_env(r, ENV_CLOCK | ENV_LP); c.colored = true;
        int lg = (int)r.below(100); int feat = 0; for (int b : {1, 2, 4, 8, 16, 32}) if (r.pct(55)) feat |= b; if (r.pct(30)) feat |= 64; if (r.pct(20)) feat |= 128; if (r.pct(25)) feat |= 256; if (r.pct(15)) feat = 512 | (feat & 36); else if (r.pct(15)) feat = 2048 | (feat & 44);
        bool agg = r.pct(22); if (agg) { feat = 256; for (int b : {2, 4, 16, 32}) if (r.pct(45)) feat |= b; if (lg < 45) lg = 45 + lg; }      // chains whose middle no query mentions: what agglomeration needs
        if (!gen_cnet(r, feat, r.pct(85) ? 80 : 400, 400, c.cnet, v, g)) return false;
        int nP = (int)c.cnet.places.size(), nT = (int)c.cnet.trans.size(); if (agg) { int k = 0; while (k < nP && (c.cnet.places[k].name[0] == 'p' || c.cnet.places[k].name[0] == 'q')) ++k; if (k) nP = k; fo.fire = r.pct(15); fo.deadlock = r.pct(30); }
        if (lg < 20) {
            c.kv["logic"] = "ltl"; gen_queries(r, c, g, r.pct(70) ? 1 : r.range(2, 3), [&] { return gen_ltl(r, g, nP, nT, fo); }); add(p, {"!-ltl", r.pct(50) ? "tarjan" : "ndfs"});
            if (r.pct(60)) { static const char* por[] = {"automaton", "liebke", "none"}; add(p, {"--ltl-por", por[r.below(3)]}); }
        } else {
            if (r.pct(8) && !c.cnet.trans.empty()) gen_queries(r, c, g, 1, [&] { return gen_focus(r, c.cnet); }); else
            gen_queries(r, c, g, nq(r), [&] { return lg < 40 || r.pct(10) ? gen_ctl(r, g, nP, nT, fo, r.range(1, 3)) : lg >= 85 && r.pct(70) ? gen_bounds(r, nP) : r.pct(5) ? gen_special(r) : r.pct(6) ? mk(Form::E, {mk(Form::F, {mk(Form::Deadlock)})}) : gen_reach(r, g, nP, nT, fo); });
            opt_search(r, p, false);
        }
        opt_misc(r, p);
        int k = (int)r.below(100); if (agg) k = k < 60 ? 99 : 60; if (k < 35) add(p, {"-R", "0"}); else if (k < 75) { std::string l; int m = r.range(1, 4); for (int i = 0; i < m; ++i) l += (i ? "," : "") + S(r.range(0, 6)); add(p, {"-R", "2", l}); }
        static const int ts[] = {0, 1, 1, 2, 5, 30}; if (r.pct(25)) add(p, {"-D", S(ts[r.below(6)])});
        if (r.pct(25)) add(p, {"--disable-cfp"}); if (r.pct(20)) add(p, {"--disable-partitioning"}); if (r.pct(25)) add(p, {"--disable-symmetry-vars"});
        if (r.pct(feat & 2048 ? 60 : 30)) { int mx = feat & 2048 ? 2 : 6; add(p, {"--max-intervals", S(r.range(1, mx)), S(r.range(1, 4))}); }
        if (r.pct(30)) add(p, {"--interval-timeout", S(ts[r.below(6)])}); if (r.pct(30)) add(p, {"--partition-timeout", S(ts[r.below(6)])});
        if (r.pct(60)) add(p, {"-q", "0"}); else opt_timeouts(r, p, lg < 20);
        if (r.pct(60)) add(p, {"-r", "0"}); else opt_reduction(r, p, 10);
        return true;
    }
    if (prop == "V10") {      // interactive sessions over stdin and stdout
        c.scen = "session"; p.env = gen_env(r, r.pct(30) ? ENV_CLOCK : 0); c.colored = true;
        int feat = 0; for (int b : {1, 2, 4, 8, 16, 32}) if (r.pct(55)) feat |= b; if (r.pct(10)) feat |= 64; if (r.pct(15)) feat |= 256;
        if (r.pct(25)) feat |= 1024; else if (r.pct(10)) feat |= 2048; if (!gen_cnet(r, feat, feat & 1024 ? 2500 : r.pct(85) ? 80 : 600, 400, c.cnet, v, g)) return false;
        c.kv["sess"] = S((int64_t)r.range(1, 1000000000)); c.kv["steps"] = S(r.pct(70) ? r.range(0, 6) : r.range(7, 25)); c.kv["start"] = S(r.pct(70) ? 0 : r.range(1, 2)); c.kv["end"] = S(r.pct(50) ? 0 : r.range(1, 12));
        add(p, {"!-C"}); add(p, {"!--interactive-mode"});
        return true;
    }
    if (prop == "V09") {      // explicit coloured engine
        p.env = gen_env(r, ENV_CLOCK | ENV_LP); c.colored = true;
        int feat = 0; for (int b : {1, 2, 4, 8, 16, 32}) if (r.pct(55)) feat |= b; if (r.pct(10)) feat |= 64; if (r.pct(4)) feat |= 128; if (r.pct(15)) feat |= 256;
        if (feat & 128) feat &= ~32;      // guards over product-sorted variables are refused by this engine
        if (r.pct(25)) feat |= 1024; else if (r.pct(10)) feat |= 2048; if (!gen_cnet(r, feat, feat & 1024 ? 2500 : r.pct(85) ? 80 : 600, 400, c.cnet, v, g)) return false;
        int nP = (int)c.names().place.size(), nT = (int)c.names().trans.size(); c.kv["explicit"] = "1"; fo.simple = r.pct(92); bool dl = false;
        gen_queries(r, c, g, 1, [&] { if (r.pct(6)) { dl = true; return mk(Form::E, {mk(Form::F, {mk(Form::Deadlock)})}); } return r.pct(8) && !c.cnet.trans.empty() ? gen_focus(r, c.cnet) : gen_reach(r, g, nP, nT, fo); });
        if (r.pct(90)) for (FP& f = c.queries[0].f; f->op == Form::Not;) f = f->sub[0];
        if (fo.simple && !dl && !(feat & 128) && c.queries[0].f->op != Form::Not) c.kv["simple"] = "1";          // the engine takes EF and AG only
        add(p, {"!-C"}); static const char* st[] = {"BFS", "DFS", "RDFS", "BestFS", "OverApprox"};
        if (r.pct(80)) { const char* x = st[r.below(r.pct(90) ? 4 : 5)]; add(p, {"-s", x}); if (!strcmp(x, "OverApprox")) c.kv["partial"] = "1"; }
        if (r.pct(40)) add(p, {"--colored-successor-generator", r.pct(50) ? "fixed" : "even"});
        if (r.pct(60)) add(p, {"-R", "0"}); else if (r.pct(60)) { std::string l; int m = r.range(1, 4); for (int i = 0; i < m; ++i) l += (i ? "," : "") + S(r.range(0, 6)); add(p, {"-R", "2", l}); }
        static const int ts[] = {0, 1, 1, 2, 5, 30}; if (r.pct(20)) add(p, {"-D", S(ts[r.below(6)])});
        if (r.pct(50)) add(p, {"-t"});
        if (r.pct(50)) add(p, {"-q", "0"}); else opt_timeouts(r, p, false);
        if (r.pct(30)) add(p, {"--seed-offset", S(r.range(0, 1000000))});
        return true;
    }
    if (prop == "V12") {      // synthesis
        p.env = gen_env(r, ENV_CLOCK | ENV_LP); no.max_states = r.pct(80) ? 120 : 700; no.players = true;
        c.colored = r.pct(12); if (c.colored) { int feat = 0; for (int b : {1, 2, 8, 16, 32}) if (r.pct(40)) feat |= b; if (!gen_cnet(r, feat, 100, 60, c.cnet, v, g)) return false; for (auto& t : c.cnet.trans) t.player = r.pct(40); if (!unfold_ref(c.cnet, v, 1000)) return false; g = explore(v, 100); if (!g.complete) return false; }
        else if (!gen_net(r, no, c.net, v, g)) return false;
        int nP = (int)c.names().place.size(), nT = (int)c.names().trans.size(); bool text = !c.colored && r.pct(8); fo.text_ok = text; if (text) c.kv["text"] = S(r.range(1, 4));
        gen_queries(r, c, g, text || r.pct(70) ? 1 : r.range(2, 4), [&] {
            if (!text && r.pct(8)) return gen_reach(r, g, nP, nT, fo);
            FP b, f; for (int k = 0; k < 6; ++k) { fo.depth = r.range(0, 2); b = mk(Form::Control, {mk(Form::A, {mk(r.pct(50) ? Form::G : Form::F, {gen_state(r, g, nP, nT, fo, fo.depth)})})}); FP q = b->sub[0]->sub[0]; if ((q->op == Form::G) == eval_state(q->sub[0], g, 0) || r.pct(10)) break; }
            return b; });
        if (r.pct(70)) { static const char* st[] = {"DFS", "BFS", "RDFS", "BestFS"}; add(p, {"-s", st[r.below(4)]}); }
        if (r.pct(40)) add(p, {"-p"});
        if (r.pct(70)) add(p, {"-q", "0"}); else opt_timeouts(r, p, false);
        add(p, {"!-r", "0"});      // structural reduction is refused for games
        if (r.pct(50)) { bool file = r.pct(40); add(p, {"!--strategy-output", file ? "strategy.json" : "-"}); if (file && r.pct(25)) { if (r.pct(60)) p.env.write_err_ppm = r.pct(50) ? 1000000 : 300000; else if (r.pct(60)) p.env.write_short_ppm = 500000; else p.env.open_ppm = 300000; } }
        if (r.pct(20)) add(p, {"--seed-offset", S(r.range(0, 1000000))});
        return true;
    }
    if (prop == "V13" || prop == "V17") {      // artefacts handed from one process to another / damaged and unreadable input
        bool wr = prop == "V13"; c.scen = wr ? "handoff" : "damaged"; p.env = gen_env(r, r.pct(50) ? ENV_CLOCK | ENV_LP : 0);
        c.colored = r.pct(35); int lg = (int)r.below(100);
        if (c.colored) { int feat = 0; for (int b : {1, 2, 4, 8, 16, 32}) if (r.pct(40)) feat |= b; if (r.pct(30)) feat |= 64; if (r.pct(15)) feat |= 128; if (r.pct(20)) feat |= 256; if (!gen_cnet(r, feat, 80, 120, c.cnet, v, g)) return false; }
        else { no.max_states = 120; if (!gen_net(r, no, c.net, v, g)) return false; }
        int nP = (int)c.names().place.size(), nT = (int)c.names().trans.size(); bool ltl = lg < 20, text = !wr && !c.colored && !ltl && r.pct(25); fo.text_ok = text; if (text) c.kv["text"] = S(r.range(1, 4));
        if (ltl) { c.kv["logic"] = "ltl"; gen_queries(r, c, g, r.pct(50) ? 1 : r.range(2, 4), [&] { return gen_ltl(r, g, nP, nT, fo); }); add(p, {"!-ltl", r.pct(50) ? "tarjan" : "ndfs"}); }
        else gen_queries(r, c, g, text ? 1 : nq(r), [&] { if (text) return r.pct(60) ? gen_reach(r, g, nP, nT, fo) : gen_ctl(r, g, nP, nT, fo, 2); return lg < 45 || r.pct(10) ? gen_ctl(r, g, nP, nT, fo, r.range(1, 3)) : lg >= 85 && r.pct(70) ? gen_bounds(r, nP) : !c.colored && r.pct(4) ? gen_special(r) : gen_reach(r, g, nP, nT, fo); });
        if (r.pct(60)) add(p, {"-q", "0"}); else opt_timeouts(r, p, ltl);
        if (c.colored && r.pct(50)) add(p, {"-R", "0"});
        if (!wr) {
            add(p, {"-r", S((int)r.below(3))}); int k = (int)r.below(100); if (text && k < 55) k = 60;
            if (k < 25) c.kv["cutm"] = S(r.range(1, 999)); else if (k < 40) c.kv["cutq"] = S(r.range(1, 999)); else if (k < 55) c.kv["bin"] = S(r.range(1, 999));
            else { static const uint32_t ppm[] = {0, 100000, 400000, 1000000}; p.env.read_short_ppm = ppm[r.below(4)]; if (r.pct(60)) p.env.read_err_ppm = ppm[1 + r.below(2)]; if (r.pct(15)) p.env.open_ppm = 300000; }
            if (text && r.pct(50)) {      // the device fails within the query, often where a complete formula ends
                p.env.read_short_ppm = p.env.read_err_ppm = p.env.open_ppm = 0; p.env.replay = true; int at = r.pct(80) ? 0 : r.range(1, 4), n = r.range(4, r.pct(60) ? 24 : 60);
                std::string q = query_text(c.queries[0].f, c.names(), c.num("text")); std::vector<int> ends; for (size_t i = 0; i + 1 < q.size(); ++i) if (q[i] == ')') ends.push_back((int)i + 1); if (!ends.empty() && r.pct(80)) n = ends[r.below(ends.size())];
                p.env.decisions.push_back({K_READ, (uint32_t)at, n}); p.env.decisions.push_back({K_READ, (uint32_t)at + 1, -EIO});
            }
            return true;
        }
        c.procs.emplace_back(); Proc& p0 = c.procs[0]; Proc& q = c.procs[1]; q.env = gen_env(r, r.pct(30) ? ENV_CLOCK | ENV_LP : 0);
        static const char* stages[] = {"reduced", "reduced", "unfolded", "unfolded", "simplified", "colreduced"}; std::string stage = c.colored ? stages[r.pct(30) ? 5 : r.below(4)] : stages[r.below(5)]; c.kv["stage"] = stage; bool bin = stage != "unfolded" && stage != "colreduced" && r.pct(35);
        if (stage == "reduced" || stage == "simplified") { add(p0, {"!--write-simplified", "Q"}); if (bin) add(p0, {"!--binary-query-io", "2"}); }
        if (stage == "reduced") add(p0, {"!--write-reduced", "N"});
        if (stage == "unfolded") { add(p0, {"!--write-unfolded-net", "N"}); add(p0, {"!--write-unfolded-queries", "Q"}); }
        if (stage == "colreduced") add(p0, {"!--write-col-reduced", "N"});
        if (r.pct(40)) add(p0, {"--keep-solved"}); if (r.pct(50)) add(p0, {"--noverify"}); if (stage == "reduced") opt_reduction(r, p0, 25); else add(p0, {"-r", "0"});
        if (ltl) add(q, {"!-ltl", r.pct(50) ? "tarjan" : "ndfs"}); if (bin) add(q, {"!--binary-query-io", "1"}); if (r.pct(60)) add(q, {"-q", "0"}); if (r.pct(70)) add(q, {"-r", "0"});
        if (r.pct(55)) {
            static const uint32_t ppm[] = {100000, 300000, 1000000}; int k = (int)r.below(100); EnvCfg& e = p0.env;
            if (k < 30) e.write_err_ppm = ppm[r.below(3)]; else if (k < 50) e.write_short_ppm = ppm[r.below(3)]; else if (k < 80) e.crash_at_write = (uint32_t)r.range(1, r.pct(70) ? 4 : 12); else if (k < 90) e.open_ppm = ppm[r.below(2)]; else { e.write_short_ppm = 500000; e.write_err_ppm = 100000; }
        }
        if (r.pct(20)) { q.env.read_short_ppm = 300000; if (r.pct(40)) q.env.read_err_ppm = 100000; }
        return true;
    }
    if (prop == "V11") {      // abstraction engines
        p.env = gen_env(r, ENV_CLOCK | ENV_LP);
        no.max_states = r.pct(80) ? 120 : 800; if (!gen_net(r, no, c.net, v, g)) return false;
        int nP = no.wide && r.pct(85) ? np(c.net) : (int)c.net.places.size(), nT = (int)c.net.trans.size(); int k = (int)r.below(100);
        gen_queries(r, c, g, nq(r), [&] { if (k >= 80 && r.pct(60)) return mk(Form::E, {mk(Form::F, {mk(Form::Deadlock)})}); return r.pct(4) ? gen_special(r) : gen_reach(r, g, nP, nT, fo); });
        if (k < 55) { add(p, {"!-tar"}); p.env.max_alloc = 150000; for (auto& t : c.net.trans) t.inh.clear(); g = explore(view_of(c.net), 3000); if (!g.complete) return false; }
        else if (k < 80) { add(p, {"!-s", "OverApprox"}); c.kv["partial"] = "1"; }
        else { add(p, {"!-a", S(r.range(1, 100))}); if (r.pct(60)) add(p, {"--siphon-depth", S(r.range(0, 5))}); opt_search(r, p, false); }
        opt_misc(r, p);
        if (r.pct(45) && k < 55) add(p, {"-q", "0"}); else opt_timeouts(r, p, false);
        if (r.pct(40)) add(p, {"-r", "0"}); else opt_reduction(r, p, 20);
        return true;
    }
    return false;
}
// ------------------------------------------------------------------------------------------- judging
static std::string first_line_with(const std::string& s, const char* k) { size_t p = s.find(k); if (p == std::string::npos) return ""; size_t a = s.rfind('\n', p); a = a == std::string::npos ? 0 : a + 1; size_t e = s.find('\n', p); return s.substr(a, e == std::string::npos ? e : e - a); }
static std::string crash_class(const ProcResult& r) {
    std::string a = first_line_with(r.err, "Assertion"); if (a.empty()) a = first_line_with(r.err, "what()"); if (a.empty()) a = first_line_with(r.err, "sim:");
    size_t p = a.find("/src/"); if (p != std::string::npos) a = a.substr(p + 1);
    p = a.find("/include/"); if (p != std::string::npos) a = a.substr(p + 1);
    return "crash:" + std::to_string(r.sig) + ":" + a.substr(0, 160);
}
static Verdict viol(Verdict v, std::string cls, std::string msg) { v.st = Verdict::Viol; v.cls = std::move(cls); v.msg = std::move(msg); return v; }
static void absorb(Verdict& v, const ProcResult& r) { v.runs.push_back(r); v.hash = mix(v.hash, r.evhash); }

static std::string show(const Answer& a) { return a.kind == Answer::Bool ? (a.b ? "TRUE" : "FALSE") : a.kind == Answer::Number ? S(a.n) : "?"; }


// ---- traces
struct TraceEl { enum { Fire, Loop, Dead } kind; std::string id; std::map<std::string, int> tokens; };
struct Trace { std::vector<TraceEl> el; std::string text; };
static std::string attr(const std::string& tag, const char* a) { size_t p = tag.find(std::string(" ") + a + "=\""); if (p == std::string::npos) return ""; p = tag.find('"', p) + 1; size_t e = tag.find('"', p); return e == std::string::npos ? "" : tag.substr(p, e - p); }
static std::vector<Trace> parse_traces(const std::string& err, bool& broken) {
    std::vector<Trace> r; size_t i = 0; broken = false;
    while ((i = err.find("<trace", i)) != std::string::npos) {
        size_t e = err.find("</trace>", i); if (e == std::string::npos) { broken = true; return r; }
        Trace t; t.text = err.substr(i, e + 8 - i); size_t k = err.find('>', i) + 1;
        while (k < e) {
            size_t o = err.find('<', k); if (o == std::string::npos || o >= e) break; size_t cl = err.find('>', o); if (cl == std::string::npos) { broken = true; return r; }
            std::string tag = err.substr(o, cl - o + 1); k = cl + 1;
            if (tag.compare(0, 11, "<transition") == 0) { TraceEl x{TraceEl::Fire, attr(tag, "id"), {}}; t.el.push_back(x); }
            else if (tag.compare(0, 6, "<token") == 0) { if (t.el.empty() || t.el.back().kind != TraceEl::Fire) broken = true; else t.el.back().tokens[attr(tag, "place")]++; }
            else if (tag.compare(0, 5, "<loop") == 0) t.el.push_back({TraceEl::Loop, "", {}});
            else if (tag.compare(0, 9, "<deadlock") == 0) t.el.push_back({TraceEl::Dead, "", {}});
            else if (tag[1] != '/') broken = true;
        }
        r.push_back(t); i = e;
    }
    return r;
}
static bool strip(const FP& q, FP& body, bool& exist) {   // (negated) quantifier -> E body / A body
    FP f = q; bool neg = false; while (f->op == Form::Not) { neg = !neg; f = f->sub[0]; }
    if (f->op != Form::E && f->op != Form::A) return false;
    exist = (f->op == Form::E) != neg; body = neg ? mk(Form::Not, {f->sub[0]}) : f->sub[0]; return true;
}
// Plays a trace on the given net; returns an error or the sequence of markings.
static std::string play(const Net& n, const Trace& t, std::vector<std::vector<uint32_t>>& ms, int& loop, bool& dead, bool full) {
    std::vector<uint32_t> m; for (auto& p : n.places) m.push_back(p.init);
    ms = {m}; loop = -1; dead = false;
    for (auto& e : t.el) {
        if (dead) return "the trace goes on after a deadlock";
        if (e.kind == TraceEl::Loop) { if (loop >= 0) return "two loop marks"; loop = (int)ms.size() - 1; continue; }
        if (e.kind == TraceEl::Dead) { for (size_t i = 0; i < n.trans.size(); ++i) if (n.enabled(m, (int)i)) return "deadlock claimed in a marking that enables " + n.trans[i].name; dead = true; continue; }
        int k = n.trans_idx(e.id); if (k < 0) return "unknown transition '" + e.id + "' in the trace";
        if (!n.enabled(m, k)) return "transition " + e.id + " (step " + S((int64_t)ms.size()) + ") is not enabled";
        if (!e.tokens.empty()) { std::map<std::string, int> w; for (auto& a : n.trans[k].in) w[n.places[a.p].name] += a.w; if (w != e.tokens) return "tokens listed for " + e.id + " are not the ones it consumes"; }
        n.fire(m, k); ms.push_back(m);
    }
    if (loop >= 0 && (size_t)loop + 1 == ms.size() && !dead) return "empty loop";
    if (loop >= 0 && full && ms.back() != ms[loop]) return "the loop does not return to its first marking";
    return "";
}
static std::string judge_trace(const Case& c, const Graph& g, const Trace& t, const FP& q, bool ltl) {
    const Net& n = c.net; FP body; bool ex; if (!strip(q, body, ex)) return "trace printed for a query without a path quantifier";
    bool reduced = opt_val(c, "-r") != "0";
    std::vector<std::vector<uint32_t>> ms; int loop; bool dead; std::string e = play(n, t, ms, loop, dead, ltl && !reduced); if (!e.empty()) return e;
    FP want = ex ? body : mk(Form::Not, {body});          // what the run must satisfy
    Graph h; h.v = g.v; h.complete = true;
    if (!ltl) {
        // finite witness: F b, or not G b, over the markings of the run
        FP f = want; bool neg = false; while (f->op == Form::Not) { neg = !neg; f = f->sub[0]; }
        if (f->op != Form::F && f->op != Form::G) return "";
        bool sat = f->op == Form::F ? !neg : neg; (void)sat; bool pol = f->op == Form::F;
        for (size_t i = 0; i < ms.size(); ++i) { h.st.push_back(ms[i]); h.succ.emplace_back(); for (size_t k = 0; k < n.trans.size(); ++k) if (n.enabled(ms[i], (int)k)) { h.succ.back().emplace_back((int)k, 0); break; } }
        bool last = eval_state(f->sub[0], h, (int)ms.size() - 1);
        if (last != pol) return std::string("the last marking of the trace does not ") + (pol ? "satisfy" : "violate") + " the predicate";
        return "";
    }
    // repeat the loop of a reduced net a few times: every repetition must be possible and look the same to the query
    std::vector<char> P(n.places.size()), T(n.trans.size()); collect_ids(q, P, T);
    if (loop >= 0 && !dead && reduced) {
        std::vector<std::string> body_ids; bool in = false; for (auto& x : t.el) { if (x.kind == TraceEl::Loop) in = true; else if (in && x.kind == TraceEl::Fire) body_ids.push_back(x.id); }
        auto m = ms.back(); for (size_t p = 0; p < P.size(); ++p) if (P[p] && m[p] != ms[loop][p]) return "the loop does not restore place " + n.places[p].name + " of the query";
        for (int rep = 0; rep < 3; ++rep) for (size_t i = 0; i < body_ids.size(); ++i) { int k = n.trans_idx(body_ids[i]); if (!n.enabled(m, k)) return "the loop cannot be repeated: " + body_ids[i] + " is not enabled"; n.fire(m, k); for (size_t p = 0; p < P.size(); ++p) if (P[p] && m[p] != ms[(size_t)loop + 1 + i][p]) return "a repetition of the loop differs on a place of the query"; }
    }
    size_t L = ms.size(); for (size_t i = 0; i < L; ++i) { h.st.push_back(ms[i]); h.succ.emplace_back(); if (i + 1 < L) h.succ[i].emplace_back(0, (int)i + 1); }
    if (dead) {}
    else if (loop >= 0) { h.st.pop_back(); h.succ.pop_back(); h.succ[L - 2].clear(); h.succ[L - 2].emplace_back(0, loop); }
    else {                       // no loop reported: some continuation of the run must do
        int at = -1; for (size_t i = 0; i < g.st.size(); ++i) if (g.st[i] == ms.back()) at = (int)i; if (at < 0) return "trace leaves the reachable markings";
        for (size_t i = 0; i < g.st.size(); ++i) { h.st.push_back(g.st[i]); h.succ.emplace_back(); for (auto& x : g.succ[i]) h.succ.back().emplace_back(x.first, x.second + (int)L); }
        h.succ[L - 1] = h.succ[L + (size_t)at];
    }
    int x = exists_path(want, h); if (x == 0) return "the run described by the trace does not " + std::string(ex ? "satisfy" : "violate") + " the query";
    return "";
}

static std::string colour_name(const CNet& n, int sort, int v) { const Sort& s = n.sorts[sort]; if (s.kind == Sort::Range) return S(s.lo + v); if (s.kind == Sort::Enum) return s.elems[v]; return "dot"; }
// Trace of the explicit coloured engine: bindings of every step are played on the unfolded reference net.
static std::string judge_ctrace(const Case& c, const Graph& g, const std::string& err, bool witness, Verdict& v) {
    size_t i = err.find("<trace"); if (i == std::string::npos) return ""; size_t e = err.find("</trace>", i); if (e == std::string::npos) return "malformed trace output";
    if (!witness) return "a trace was printed although the query has no witness";
    std::vector<std::vector<int>> bs; std::vector<int> org; View w; if (!unfold_ref(c.cnet, w, 100000, &bs, &org)) return "";
    std::vector<uint32_t> m; for (auto& p : w.net.places) m.push_back(p.init); std::string t = err.substr(i, e - i); size_t k = 0; int steps = 0;
    while ((k = t.find("<transition", k)) != std::string::npos) {
        size_t ke = t.find("</transition>", k); if (ke == std::string::npos) return "malformed trace output"; std::string x = t.substr(k, ke - k); k = ke; ++steps;
        std::string id = attr(x.substr(0, x.find('>')), "id"); std::map<std::string, std::string> bd; size_t q = 0;
        while ((q = x.find("<variable", q)) != std::string::npos) { std::string nm = attr(x.substr(q, x.find('>', q) - q), "id"); size_t a = x.find("<color>", q), b = x.find("</color>", q); if (a == std::string::npos || b == std::string::npos) return "malformed trace output"; bd[nm] = x.substr(a + 7, b - a - 7); q = b; }
        bool known = false, done = false;
        for (size_t u = 0; u < w.net.trans.size() && !done; ++u) if (w.tlabel[u] == id) {
            known = true; bool fit = true;
            for (auto& kv : bd) { int vi = -1; for (size_t z = 0; z < c.cnet.vars.size(); ++z) if (c.cnet.vars[z].name == kv.first) vi = (int)z; if (vi < 0) return "unknown variable " + kv.first + " in the trace"; if (colour_name(c.cnet, c.cnet.vars[vi].sort, bs[u][vi]) != kv.second) fit = false; }
            if (fit && w.net.enabled(m, (int)u)) { w.net.fire(m, (int)u); done = true; }
        }
        if (!known) return "unknown transition '" + id + "' in the trace";
        if (!done) return "step " + S(steps) + " of the trace is not enabled";
        size_t mk_ = t.find("<marking>", k), me = t.find("</marking>", k); if (mk_ == std::string::npos || me == std::string::npos) return "a step of the trace has no marking";
        std::string ms = t.substr(mk_, me - mk_);
        for (size_t p = 0; p < c.cnet.places.size(); ++p) { bool marked = false; for (int z : w.pgroup[p]) if (m[z]) marked = true; bool said = ms.find("<place id=\"" + c.cnet.places[p].name + "\"") != std::string::npos; if (marked != said) return "the marking printed after a step is not the marking reached"; }
    }
    v.probes.push_back(steps ? "coloured trace" : "empty coloured trace");
    FP b; bool ex; if (!strip(c.queries[0].f, b, ex)) return ""; FP f = ex ? b : mk(Form::Not, {b}); bool neg = false; while (f->op == Form::Not) { neg = !neg; f = f->sub[0]; } if (f->op != Form::F && f->op != Form::G) return "";
    int at = -1; for (size_t z = 0; z < g.st.size(); ++z) if (g.st[z] == m) at = (int)z; if (at < 0) return "trace leaves the reachable markings";
    if (eval_state(f->sub[0], g, at) != (f->op == Form::F)) return "the last marking of the trace does not demonstrate the verdict";
    return "";
}

// the printed strategy must be one: what it allows is enabled, is given wherever the controller has a move, and wins
static std::string judge_strategy(const Case& c, const Graph& g, const std::string& t, const FP& f, Verdict& v) {
    size_t a = t.find('{'), z = t.rfind('}'); if (a == std::string::npos || z == std::string::npos || z < a) return "no strategy was printed";
    const Net& n = g.v->net; std::map<std::vector<uint32_t>, std::set<int>> st; size_t i = a + 1;
    auto ws = [&] { while (i < z && (isspace((unsigned char)t[i]) || t[i] == ',')) ++i; };
    auto str = [&](std::string& o) { ws(); if (i >= z || t[i] != '"') return false; size_t e = t.find('"', i + 1); if (e == std::string::npos || e > z) return false; o = t.substr(i + 1, e - i - 1); i = e + 1; return true; };
    for (ws(); i < z; ws()) {
        std::string m; if (!str(m)) return "malformed strategy"; std::vector<uint32_t> k(n.places.size(), 0);
        for (size_t q = 0; q < m.size();) { size_t e = m.find(',', q); if (e == std::string::npos) e = m.size(); std::string x = m.substr(q, e - q); size_t col = x.rfind(':'); if (col == std::string::npos) return "malformed marking in the strategy"; int pi = n.place_idx(x.substr(0, col)); if (pi < 0) return "unknown place in the strategy"; k[pi] = (uint32_t)atoll(x.c_str() + col + 1); q = e + 1; }
        ws(); if (i >= z || t[i] != ':') return "malformed strategy"; ++i; ws(); if (i >= z || t[i] != '[') return "malformed strategy"; ++i; if (st.count(k)) return "a marking occurs twice in the strategy"; auto& l = st[k];
        for (;;) { ws(); if (i < z && t[i] == ']') { ++i; break; } std::string x; if (!str(x)) return "malformed strategy"; int ti = n.trans_idx(x); if (ti < 0) return "unknown transition in the strategy"; if (n.trans[ti].player) return "the strategy fires a transition of the environment"; if (!n.enabled(k, ti)) return "the strategy fires a transition that is not enabled"; l.insert(ti); }
    }
    Graph h = g; FP q = f->sub[0]->sub[0]; bool reach = q->op == Form::F;
    std::vector<char> seen(g.st.size(), 0); std::vector<int> todo{0}; seen[0] = 1;
    while (!todo.empty()) {
        int s = todo.back(); todo.pop_back(); if (reach && eval_state(q->sub[0], g, s)) continue;
        auto it = st.find(g.st[s]); std::vector<std::pair<int, int>> keep; bool ctrl = false, given = false;
        for (auto& e : g.succ[s]) { if (!n.trans[e.first].player) { ctrl = true; if (it == st.end() || !it->second.count(e.first)) continue; given = true; } keep.push_back(e); if (!seen[e.second]) { seen[e.second] = 1; todo.push_back(e.second); } }
        if (ctrl && !given) return "the strategy gives no move in a marking it leads to";
        h.succ[s] = keep;
    }
    auto win = solve_game(f, h, atoll(c.has("kbound") ? c.kv.at("kbound").c_str() : "0"));
    for (size_t s = 0; s < win.size(); ++s) if (seen[s] && !win[s]) return "following the strategy does not win";
    v.probes.push_back(st.empty() ? "empty strategy" : "strategy"); return "";
}
static Verdict judge_verify(Case& c, const std::string& dir, bool record) {
    Verdict v; auto N = c.names(); bool text = c.has("text");
    write_file(dir + "/model.pnml", c.colored ? pnml(c.cnet, c.num("syn")) : pnml(c.net, c.num("syn")));
    SV a{"model.pnml"};
    if (text) { write_file(dir + "/query.q", query_text(c.queries[0].f, N, c.num("text"))); a.push_back("query.q"); }
    else { write_file(dir + "/query.xml", query_xml(c.queries, N)); a.push_back("query.xml"); a.push_back("-x"); std::string l; for (size_t i = 0; i < c.queries.size(); ++i) l += (i ? "," : "") + S((int64_t)i + 1); a.push_back(l); }
    View vw; if (c.colored) { if (!unfold_ref(c.cnet, vw, 100000)) { v.st = Verdict::Skip; return v; } } else vw = view_of(c.net);
    Graph g = explore(vw, 20000); if (!g.complete) { v.st = Verdict::Skip; return v; }
    v.states = g.st.size();
    bool walk = opt_val(c, "-s") == "RandomWalk", tar = has_opt(c, "-tar");               // engines without a termination guarantee: interrupted by the user
    ProcResult r = run_process(argv_of(c.procs[0], a), dir, c.procs[0].env, nullptr, walk ? 1 : tar ? 3 : cpu_limit);
    if (r.timeout) r.evhash = 0;                                                           // where the user's interrupt lands is not simulated
    absorb(v, r); if (record) { c.procs[0].env.decisions = r.decisions; c.procs[0].env.replay = true; }
    if (r.stopped == 6) { v.st = Verdict::Skip; return v; }
    bool oom = r.fired[K_ALLOC] && (r.sig || r.exit_code || r.timeout);                    // memory ran out and the run failed: what was answered before must be right
    if (c.has("oom")) v.probes.push_back(!r.fired[K_ALLOC] ? "memory sufficed" : r.sig ? "ended by signal " + S(r.sig) : r.exit_code ? "ended with an error" : "carried on"); if (c.has("oom")) { auto m = first_line_with(r.out, "memory exceeded"); if (!m.empty()) v.probes.push_back(m); }
    bool ltl = c.has("logic") && c.kv["logic"] == "ltl";
    auto fs = parse_formulas(r.out);
    bool sio = has_opt(c, "--strategy-output") && (r.fired[K_OPEN] || r.fired[K_WRITE]) && r.exit_code && !r.sig;      // an I/O fault was reported: what was answered before must be right
    bool cut = r.stopped == 2 || (walk && (r.timeout || r.stopped == 1)) || (tar && (!r.clean() || r.exit_code)) || sio || oom;                  // the (random walk) run was interrupted by the user: verdicts so far must be right
    bool partial = cut || c.has("partial");                                                // not every query needs an answer
    if (!cut && (r.timeout || r.stopped == 1 || r.stopped == 3)) return viol(v, "hang", "no termination within the step budget on a net with " + S((int64_t)g.st.size()) + " reachable markings");
    if (tar) v.probes.push_back(cut ? "refinement without an answer" : "refinement answered");
    if (r.sig && !r.timeout && !tar && !oom) return viol(v, crash_class(r), "terminated by signal " + S(r.sig) + ": " + crash_class(r));
    if (c.has("explicit") && !oom) {
        bool nosup = r.exit_code == 255 && (r.err.find("Not supported ") != std::string::npos || r.err.find("Invalid expression type") != std::string::npos); if (nosup) { v.probes.push_back(first_line_with(r.err, "Not supported ")); partial = true; }
        bool unsup = r.exit_code == 3 && r.out.find("UNSUPPORTED") != std::string::npos; if (unsup) v.probes.push_back(first_line_with(r.out, "UNSUPPORTED")); if (unsup) partial = true;
        if ((nosup || unsup) && c.has("simple")) return viol(v, "refused", "a supported query was refused: " + first_line_with(r.out + r.err, "upported"));
        int want = fs.empty() ? (nosup ? 255 : unsup ? 3 : 2) : fs[0].value == "TRUE" ? 0 : 1; if (r.exit_code != want) return viol(v, "exit:" + S(r.exit_code) + ":" + (first_line_with(r.out, "ERROR") + first_line_with(r.err, "ERROR") + r.out.substr(0, 60)).substr(0, 100), "exit status " + S(r.exit_code) + " with " + S((int64_t)fs.size()) + " verdicts");
    } else if (!cut && r.exit_code != 0) return viol(v, "exit:" + S(r.exit_code) + ":" + first_line_with(r.err, "ERROR").substr(0, 100), "exit status " + S(r.exit_code) + " " + first_line_with(r.err, "ERROR"));
    std::vector<size_t> witnessed;
    for (size_t i = 0; i < c.queries.size(); ++i) {
        std::vector<Formula> mine; for (auto& f : fs) if (text || f.name == c.queries[i].name) mine.push_back(f);
        Answer ref = reference(c.queries[i].f, g, ltl); if (c.has("kbound") && c.queries[i].f->op == Form::Control) ref.b = solve_game(c.queries[i].f, g, c.num("kbound"))[0];
        if (ref.kind == Answer::Unknown) continue;
        for (auto& f : mine) {
            if (f.value != show(ref)) return viol(v, "wrong:" + f.value, "query " + c.queries[i].name + " answered " + f.value + " but the reference semantics gives " + show(ref));
            v.tech += f.tech;
            FP b; bool ex; if (ref.kind == Answer::Bool && strip(c.queries[i].f, b, ex) && ref.b == ex) witnessed.push_back(i);
        }
        if (!partial && mine.empty()) return viol(v, "missing", "query " + c.queries[i].name + " got no verdict");
        if (mine.size() > 1) return viol(v, "duplicate", "query " + c.queries[i].name + " was answered " + S((int64_t)mine.size()) + " times");
    }
    if (sio) v.probes.push_back("strategy I/O fault reported");
    if (has_opt(c, "--strategy-output") && !sio && !oom && !c.colored && c.queries.size() == 1 && c.queries[0].f->op == Form::Control && opt_val(c, "-r") == "0" && opt_val(c, "-q") == "0" && fs.size() == 1 && fs[0].value == "TRUE") {
        std::string t = r.out; if (opt_val(c, "--strategy-output") == "-") { size_t x = t.find("##BEGIN STRATEGY##"), y = t.find("##END STRATEGY##"); t = x == std::string::npos || y == std::string::npos ? "" : t.substr(x, y - x); } else { t.clear(); read_file(dir + "/" + opt_val(c, "--strategy-output"), t); }
        std::string e = judge_strategy(c, g, t, c.queries[0].f, v); if (!e.empty()) return viol(v, "strategy:" + e, e);
    }
    if (c.has("explicit") && !oom && has_opt(c, "-t") && (opt_val(c, "-R") == "0" || c.has("trace-any")) && r.err.size() < 3000000) { std::string e = judge_ctrace(c, g, r.err, !witnessed.empty() && !fs.empty(), v); if (!e.empty()) return viol(v, "trace:" + e.substr(0, 40), e); }
    if (has_opt(c, "-t") && !c.colored && !cut && r.err.size() < 3000000) {
        bool broken; auto ts = parse_traces(r.err, broken); if (broken) return viol(v, "trace-broken", "malformed trace output");
        for (auto& t : ts) {
            std::string e = "a trace was printed although no query has a witness"; bool ok = false; size_t who = 0;
            for (size_t i : witnessed) { e = judge_trace(c, g, t, c.queries[i].f, ltl); if (e.empty()) { ok = true; who = i; break; } }
            if (!ok) return viol(v, "trace", e);
            v.probes.push_back(t.el.empty() ? "empty trace" : "trace"); bool loop = false, fired = false;
            for (auto& x : t.el) { if (x.kind == TraceEl::Loop) { v.probes.push_back("trace with loop"); loop = true; } if (x.kind == TraceEl::Dead) v.probes.push_back("trace with deadlock"); if (x.kind == TraceEl::Fire) fired = true; }
            if (c.has("replay") && c.procs.size() > 1 && fired && (!ltl || (loop && opt_val(c, "-r") == "0"))) {       // hand the trace to a second process
                write_file(dir + "/t.xml", t.text);
                SV b{"model.pnml", "query.xml", "-x", S((int64_t)who + 1), "--trace-replay", "t.xml", "-q", "0", "-r", "0"}; if (ltl) { b.push_back("-ltl"); b.push_back("tarjan"); }
                ProcResult q = run_process(argv_of(c.procs[1], b), dir, c.procs[1].env, nullptr, cpu_limit); absorb(v, q); if (record) { c.procs[1].env.decisions = q.decisions; c.procs[1].env.replay = true; }
                if (q.sig || q.exit_code) return viol(v, "replay-crash", "replaying a valid trace failed: " + crash_class(q) + " " + first_line_with(q.err, "ERROR"));
                if (q.out.find("Playing back trace") != std::string::npos) { v.probes.push_back("trace replayed"); if (q.out.find("Replay complete. No errors") == std::string::npos) return viol(v, "replay-rejected", "a valid trace was rejected on replay: " + first_line_with(q.err, "ERROR")); }
                break;
            }
        }
        if (ts.size() > witnessed.size()) return viol(v, "trace-extra", "more traces than queries with a witness");
    }
    return v;
}
static Verdict judge_statespace(Case& c, const std::string& dir, bool record) {
    Verdict v; write_file(dir + "/model.pnml", pnml(c.net, c.num("syn")));
    View vw = view_of(c.net); Graph g = explore(vw, 20000); if (!g.complete) { v.st = Verdict::Skip; return v; } v.states = g.st.size();
    ProcResult r = run_process(argv_of(c.procs[0], {"model.pnml"}), dir, c.procs[0].env, nullptr, cpu_limit);
    absorb(v, r); if (record) { c.procs[0].env.decisions = r.decisions; c.procs[0].env.replay = true; }
    if (r.timeout || r.stopped) return viol(v, "hang", "no termination within the step budget");
    if (r.sig) return viol(v, crash_class(r), "terminated by signal " + S(r.sig));
    if (r.exit_code) return viol(v, "exit", "exit status " + S(r.exit_code) + " " + first_line_with(r.err, "ERROR"));
    uint64_t mt = 0, mp = 0; for (auto& m : g.st) { uint64_t s = 0; for (auto x : m) { s += x; mp = std::max<uint64_t>(mp, x); } mt = std::max(mt, s); }
    auto num = [&](const char* k) -> int64_t { size_t p = r.out.find(k); return p == std::string::npos ? -2 : atoll(r.out.c_str() + p + strlen(k)); };
    struct { const char* k; uint64_t want; } w[] = {{"STATE_SPACE STATES ", g.st.size()}, {"STATE_SPACE MAX_TOKEN_PER_MARKING ", mt}, {"STATE_SPACE MAX_TOKEN_IN_PLACE ", mp}};
    for (auto& x : w) { int64_t got = num(x.k); if (got != (int64_t)x.want) return viol(v, std::string("statespace:") + x.k, std::string(x.k) + "reported " + S(got) + ", reference " + S((int64_t)x.want)); }
    return v;
}
// ---- files handed from one process to the next, and damaged input
static std::string qlist(size_t n) { std::string l; for (size_t i = 0; i < n; ++i) l += (i ? "," : "") + S((int64_t)i + 1); return l; }
struct Checked { std::set<std::string> answered; std::string cls, msg; };
static void check_answers(const Case& c, const Graph& g, bool ltl, const ProcResult& r, const char* who, Checked& k) {
    for (auto& f : parse_formulas(r.out)) {
        const Query* q = nullptr; for (auto& x : c.queries) if (x.name == f.name || c.has("text")) q = &x;
        if (!q) { k.cls = "stranger"; k.msg = std::string(who) + " answers a query nobody asked: " + f.name; return; }
        Answer ref = reference(q->f, g, ltl); if (ref.kind == Answer::Unknown) { k.answered.insert(q->name); continue; }
        if (f.value == "CANNOT_COMPUTE") continue;
        if (f.value != show(ref)) { k.cls = std::string("wrong:") + who; k.msg = std::string(who) + " answers " + f.value + " to " + q->name + " but the reference semantics gives " + show(ref); return; }
        k.answered.insert(q->name);
    }
}
static bool exists(const std::string& p) { std::string t; return read_file(p, t); }
static Verdict judge_handoff(Case& c, const std::string& dir, bool record) {
    Verdict v; auto N = c.names(); bool ltl = c.has("logic"); std::string stage = c.kv["stage"];
    unlink((dir + "/N").c_str()); unlink((dir + "/Q").c_str());
    write_file(dir + "/model.pnml", c.colored ? pnml(c.cnet, c.num("syn")) : pnml(c.net, c.num("syn"))); write_file(dir + "/query.xml", query_xml(c.queries, N));
    View vw; if (c.colored) { if (!unfold_ref(c.cnet, vw, 100000)) { v.st = Verdict::Skip; return v; } } else vw = view_of(c.net);
    Graph g = explore(vw, 20000); if (!g.complete) { v.st = Verdict::Skip; return v; } v.states = g.st.size();
    ProcResult r = run_process(argv_of(c.procs[0], {"model.pnml", "query.xml", "-x", qlist(c.queries.size())}), dir, c.procs[0].env, nullptr, cpu_limit);
    absorb(v, r); if (record) { c.procs[0].env.decisions = r.decisions; c.procs[0].env.replay = true; }
    if (r.stopped == 6) { v.st = Verdict::Skip; return v; }
    if (r.timeout || r.stopped == 1 || r.stopped == 3) return viol(v, "hang", "the writing process does not terminate");
    if (r.sig) return viol(v, crash_class(r), "the writing process was terminated by signal " + S(r.sig) + ": " + crash_class(r));
    bool io = r.fired[K_OPEN] || r.fired[K_WRITE], crashed = r.stopped == 4, ok = !crashed && r.exit_code == 0;
    if (!ok && !crashed && !io) return viol(v, "exit:" + S(r.exit_code) + ":" + first_line_with(r.err, "ERROR").substr(0, 100), "exit status " + S(r.exit_code) + " of the writing process " + first_line_with(r.err, "ERROR"));
    v.probes.push_back(stage + (crashed ? " crashed" : ok ? io ? " survived I/O faults" : " written" : " reported a failed write"));
    Checked k; check_answers(c, g, ltl, r, "the writing process", k); if (!k.cls.empty()) return viol(v, k.cls, k.msg);
    bool newq = stage != "colreduced", newn = stage != "simplified"; std::string nf = newn ? "N" : "model.pnml", qf = newq ? "Q" : "query.xml", t;
    if (ok && ((newn && !exists(dir + "/N")) || (newq && !exists(dir + "/Q")))) return viol(v, "unwritten", "exit status 0 but a requested file was not written");
    if (!exists(dir + "/" + nf) || !exists(dir + "/" + qf)) return v;
    read_file(dir + "/" + qf, t); size_t n = 0; bool bin = has_opt(c, "--binary-query-io", 1);
    if (bin) { uint32_t x = 0; if (t.size() >= 4) memcpy(&x, t.data(), 4); n = x; } else for (size_t p = t.find("<property>"); p != std::string::npos; p = t.find("<property>", p + 1)) ++n;
    if (n > 100) n = 100; if (!n) { if (!ok) n = c.queries.size(); }
    std::set<std::string> before = k.answered;
    if (n) {
        ProcResult q = run_process(argv_of(c.procs[1], {nf, qf, "-x", qlist(n)}), dir, c.procs[1].env, nullptr, cpu_limit); absorb(v, q); if (record) { c.procs[1].env.decisions = q.decisions; c.procs[1].env.replay = true; }
        if (q.stopped == 6) { v.st = Verdict::Skip; return v; }
        if (q.timeout || q.stopped) return viol(v, "reader-hang", "the reading process does not terminate");
        if (q.sig) return viol(v, std::string(ok ? "reader-" : "torn-reader-") + crash_class(q), std::string(ok ? "" : "given a torn file, ") + "the reading process was terminated by signal " + S(q.sig) + ": " + crash_class(q));
        check_answers(c, g, ltl, q, ok ? "the reading process" : "a process reading torn files", k); if (!k.cls.empty()) return viol(v, k.cls, k.msg);
        bool rf = q.fired[K_READ] || q.fired[K_OPEN]; for (auto& d : q.decisions) if (d.kind == K_READ && (d.param > 0 || d.param == -EINTR)) rf = rf && true;
        bool hard = q.fired[K_OPEN] > 0; for (auto& d : q.decisions) if (d.kind == K_READ && d.param < 0 && d.param != -EINTR) hard = true; (void)rf;
        if (hard) return v;
        if (ok && q.exit_code) return viol(v, "reader-exit:" + S(q.exit_code) + ":" + first_line_with(q.err, "ERROR").substr(0, 80), "the written files are refused: " + first_line_with(q.err + q.out, "r"));
        if (!ok) v.probes.push_back(q.exit_code ? "torn file refused" : "torn file read");
    }
    if (ok) for (auto& x : c.queries) if (!k.answered.count(x.name) && reference(x.f, g, ltl).kind != Answer::Unknown) return viol(v, "lost", "query " + x.name + " is answered neither by the writing nor by the reading process");
    return v;
}
static Verdict judge_damaged(Case& c, const std::string& dir, bool record) {
    Verdict v; auto N = c.names(); bool ltl = c.has("logic"), text = c.has("text");
    std::string m = c.colored ? pnml(c.cnet, c.num("syn")) : pnml(c.net, c.num("syn")), q = text ? query_text(c.queries[0].f, N, c.num("text")) : query_xml(c.queries, N); bool torn = false;
    if (c.has("cutm")) { size_t e = m.rfind("</pnml>"); m.resize((e == std::string::npos ? m.size() - 1 : e + 6) * (size_t)c.num("cutm") / 1000); torn = true; }
    if (c.has("cutq")) { size_t e = q.rfind("</property-set>"); q.resize((e == std::string::npos ? q.size() - 1 : e + 14) * (size_t)c.num("cutq") / 1000); torn = true; }
    write_file(dir + "/model.pnml", m); write_file(dir + "/query.xml", q);
    View vw; if (c.colored) { if (!unfold_ref(c.cnet, vw, 100000)) { v.st = Verdict::Skip; return v; } } else vw = view_of(c.net);
    Graph g = explore(vw, 20000); if (!g.complete) { v.st = Verdict::Skip; return v; } v.states = g.st.size();
    SV a{"model.pnml", "query.xml"}; if (!text) { a.push_back("-x"); a.push_back(qlist(c.queries.size())); }
    if (c.has("bin")) {       // a binary query file, cut short
        EnvCfg plain; plain.max_alloc = c.procs[0].env.max_alloc; SV w{"model.pnml", "query.xml", "-x", qlist(c.queries.size()), "--write-simplified", "Q", "--binary-query-io", "2", "--keep-solved", "--noverify", "-q", "0", "-r", "0"}; if (ltl) { w.push_back("-ltl"); w.push_back("ndfs"); }
        unlink((dir + "/Q").c_str()); ProcResult r = run_process(w, dir, plain, nullptr, cpu_limit); absorb(v, r); if (r.stopped == 6 || !r.clean() || r.exit_code) { v.st = Verdict::Skip; return v; }
        std::string t; read_file(dir + "/Q", t); if (t.empty()) { v.st = Verdict::Skip; return v; } t.resize(t.size() * (size_t)c.num("bin") / 1000); write_file(dir + "/Q", t); torn = true; a[1] = "Q"; a.push_back("--binary-query-io"); a.push_back("1");
    }
    ProcResult r = run_process(argv_of(c.procs[0], a), dir, c.procs[0].env, nullptr, cpu_limit); absorb(v, r); if (record) { c.procs[0].env.decisions = r.decisions; c.procs[0].env.replay = true; }
    if (r.stopped == 6) { v.st = Verdict::Skip; return v; }
    if (r.timeout || r.stopped) return viol(v, "hang", "no termination on damaged input");
    bool hard = torn || r.fired[K_OPEN]; for (auto& d : r.decisions) if (d.kind == K_READ && d.param < 0 && d.param != -EINTR) hard = true;
    if (r.sig) return viol(v, crash_class(r), "terminated by signal " + S(r.sig) + ": " + crash_class(r));
    Checked k; check_answers(c, g, ltl, r, torn ? "a process reading a torn file" : "the process", k); if (!k.cls.empty()) return viol(v, k.cls, k.msg);
    if (!hard && r.exit_code) return viol(v, "exit:" + S(r.exit_code), "exit status " + S(r.exit_code) + " although every byte could be read");
    if (c.has("cutm") && !k.answered.empty()) return viol(v, "torn-answered", "a truncated model was answered");
    if (hard && !r.exit_code && k.answered.size() < c.queries.size()) return viol(v, "silent", "unreadable input, no answer, and exit status 0");
    if (!hard) for (auto& x : c.queries) if (!k.answered.count(x.name) && reference(x.f, g, ltl).kind != Answer::Unknown) return viol(v, "lost", "query " + x.name + " got no verdict although every byte could be read");
    v.probes.push_back(torn ? "torn input refused" : hard ? r.exit_code ? "read error refused" : "answered in spite of read error" : r.fired[K_READ] ? "answered over short reads" : "answered");
    return v;
}
// ---- interactive sessions: every reply is complete before the next request is read, lists exactly the enabled bindings, and shows the marking reached
static std::string atom_of(const CNet& n, int sort, int v) {
    const Sort& s = n.sorts[sort]; if (s.kind == Sort::Dot) return "dot"; if (s.kind == Sort::Range) return S(s.lo + v); if (s.kind == Sort::Enum) return s.elems[v];
    std::vector<std::string> r; for (size_t i = s.parts.size(); i-- > 0;) { int k = n.sorts[s.parts[i]].size; r.push_back(atom_of(n, s.parts[i], v % k)); v /= k; } std::string o; for (size_t i = r.size(); i-- > 0;) o += (o.empty() ? "" : ",") + r[i]; return o;
}
static bool read_marking(const CNet& n, const View& w, const std::string& t, std::vector<uint32_t>& m, std::string& e) {
    m.assign(w.net.places.size(), 0); size_t k = 0; std::set<std::string> seen;
    while ((k = t.find("<place", k)) != std::string::npos) {
        size_t ke = t.find("</place>", k); if (ke == std::string::npos) { e = "malformed marking"; return false; } std::string x = t.substr(k, ke - k), id = attr(x.substr(0, x.find('>')), "id"); k = ke;
        size_t p = 0; while (p < n.places.size() && n.places[p].name != id) ++p; if (p == n.places.size() || !seen.insert(id).second) { e = "unknown or repeated place " + id + " in the marking"; return false; }
        size_t q = 0;
        while ((q = x.find("<numberof>", q)) != std::string::npos) {
            size_t qe = x.find("</numberof>", q); if (qe == std::string::npos) { e = "malformed marking"; return false; } std::string y = x.substr(q, qe - q); q = qe; int64_t num = -1; std::string at;
            for (size_t i = y.find('<', 1); i != std::string::npos; i = y.find('<', i + 1)) {
                std::string tag = y.substr(i, y.find('>', i) - i + 1); auto is = [&](const char* s) { return tag.compare(1, strlen(s), s) == 0; };
                if (is("numberconstant")) num = atoll(attr(tag, "value").c_str()); else if (is("dotconstant")) at += at.empty() ? "dot" : ",dot"; else if (is("useroperator")) at += (at.empty() ? "" : ",") + attr(tag, "declaration"); else if (is("finiteintrangeconstant")) at += (at.empty() ? "" : ",") + attr(tag, "value");
            }
            int sort = n.places[p].sort, col = -1; for (int v = 0; v < n.sorts[sort].size; ++v) if (atom_of(n, sort, v) == at) col = v;
            if (col < 0 || num < 0) { e = "unknown colour '" + at + "' in place " + id; return false; }
            m[w.pgroup[p][col]] += (uint32_t)num;
        }
    }
    return true;
}
static Verdict judge_session(Case& c, const std::string& dir, bool record) {
    Verdict v; std::vector<std::vector<int>> bs; std::vector<int> org; View w; if (!unfold_ref(c.cnet, w, 100000, &bs, &org)) { v.st = Verdict::Skip; return v; }
    write_file(dir + "/model.pnml", pnml(c.cnet, (int)c.num("syn"))); write_file(dir + "/query.xml", "<property-set/>");
    std::vector<int> sum(c.cnet.places.size(), -1); for (size_t p = 0; p < c.cnet.places.size(); ++p) sum[p] = w.net.place_idx(c.cnet.places[p].name + "__sum");
    auto fix = [&](std::vector<uint32_t>& m) { for (size_t p = 0; p < sum.size(); ++p) if (sum[p] >= 0) { m[sum[p]] = 0; for (int x : w.pgroup[p]) m[sum[p]] += m[x]; } };
    std::vector<std::set<int>> tv(c.cnet.trans.size()); for (size_t t = 0; t < tv.size(); ++t) tv[t] = trans_vars(c.cnet, t);
    Rng r(mix((uint64_t)c.num("sess"), 4711)); std::vector<uint32_t> m; for (auto& p : w.net.places) m.push_back(p.init);
    auto any = [&] { std::vector<uint32_t> x(w.net.places.size(), 0); for (auto& g : w.pgroup) for (int z : g) if (r.pct(40)) x[z] = r.pct(85) ? (uint32_t)r.range(1, 3) : (uint32_t)r.range(4, 300); return x; };
    struct Want { bool fired; std::vector<uint32_t> m; }; std::vector<Want> want; Stdin in; in.enabled = true; const std::string END = "\n\n\n";
    auto style = [&] { return (int)(r.below(3) + (r.pct(30) ? 4 : 0)); };
    if (c.num("start") == 1) { m = any(); fix(m); } else if (c.num("start") == 2) for (int i = 0; i < 5; ++i) { std::vector<int> en; for (size_t u = 0; u < w.net.trans.size(); ++u) if (w.net.enabled(m, (int)u)) en.push_back((int)u); if (!en.empty()) w.net.fire(m, en[r.below(en.size())]); }
    in.messages.push_back(marking_xml(c.cnet, w, m, style()) + END); want.push_back({false, m});
    auto fire_xml = [&](int u) {
        std::string nl = r.pct(50) ? "\n" : "", o = "<transition id=\"" + w.tlabel[u] + "\">" + nl + "<binding>" + nl; std::vector<int> vs(tv[org[u]].begin(), tv[org[u]].end()); for (size_t i = vs.size(); i > 1; --i) std::swap(vs[i - 1], vs[r.below(i)]);
        for (int x : vs) o += "<variable id=\"" + c.cnet.vars[x].name + "\">" + nl + "<color>" + colour_name(c.cnet, c.cnet.vars[x].sort, bs[u][x]) + "</color>" + nl + "</variable>" + nl;
        return o + "</binding>" + nl + "</transition>";
    };
    for (int64_t i = 0; i < c.num("steps"); ++i) {
        std::vector<int> en; for (size_t u = 0; u < w.net.trans.size(); ++u) if (w.net.enabled(m, (int)u)) en.push_back((int)u);
        if (!en.empty() && r.pct(80)) { int u = en[r.below(en.size())]; in.messages.push_back(fire_xml(u) + END); w.net.fire(m, u); bool big = false; for (auto x : m) if (x > 1000000000u) big = true; if (big) { in.messages.pop_back(); break; } want.push_back({true, m}); }
        else { m = any(); fix(m); in.messages.push_back(marking_xml(c.cnet, w, m, style()) + END); want.push_back({false, m}); }
    }
    // the end of the session: EXIT, the client goes away (between requests or within one), or a request that cannot be served
    int end = (int)c.num("end"); bool bad = false; std::string cut = r.pct(50) ? marking_xml(c.cnet, w, m, style()) : std::string("<transition id=\"") + c.cnet.trans[0].name + "\"><binding></binding></transition>";
    if (end >= 11) { std::string f = in.messages[0]; in.messages.clear(); want.clear(); bad = true; if (end == 12) in.messages.push_back(f.substr(0, 1 + r.below(f.size() - END.size() - 1))); }
    else if (end == 0) in.messages.push_back("EXIT" + END); else if (end == 1) ; else if (end == 2) in.messages.push_back(cut.substr(0, 1 + r.below(cut.size() - 1)));
    else {
        std::string vb = "<variable id=\"nosuch\"><color>x</color></variable>", tn = c.cnet.trans[r.below(c.cnet.trans.size())].name, q; bad = true; int dis = -1;
        if (end == 9) { std::vector<int> di; for (size_t u = 0; u < w.net.trans.size(); ++u) if (!w.net.enabled(m, (int)u)) di.push_back((int)u); if (!di.empty()) dis = di[r.below(di.size())]; }
        if (end == 3) q = "<transition id=\"nosuch\"><binding></binding></transition>"; else if (end == 4) q = "<transition id=\"" + tn + "\"><binding>" + vb + "</binding></transition>"; else if (end == 5) q = "<transition id=\"" + tn + "\"/>"; else if (end == 6) q = "<marking><place id=\"nosuch\"><numberof><subterm><numberconstant value=\"1\"/></subterm><subterm><dotconstant/></subterm></numberof></place></marking>";
        else if (end == 7) q = "<transition id=\"" + tn + "\"><binding><variable id=\"" + c.cnet.vars[0].name + "\"/></binding></transition>"; else if (dis >= 0) q = fire_xml(dis); else if (end == 10 && !w.net.trans.empty() && !tv[org[0]].empty()) { q = fire_xml((int)r.below(w.net.trans.size())); size_t b = q.find("<variable"), e = q.find("</variable>"); if (b == std::string::npos) q = "<transition id=\"nosuch\"><binding></binding></transition>"; else q.erase(b, e + 11 - b); } else q = "<marking><place id=\"" + c.cnet.places[0].name + "\"/></marking>";
        in.messages.push_back(q + END); in.messages.push_back("EXIT" + END);
    }
    SV a{"model.pnml", "query.xml"}; ProcResult o = run_process(argv_of(c.procs[0], a), dir, c.procs[0].env, &in, cpu_limit); absorb(v, o); if (record) { c.procs[0].env.decisions = o.decisions; c.procs[0].env.replay = true; } v.states = want.size();
    if (o.stopped == 6) { v.st = Verdict::Skip; return v; }
    if (o.timeout || o.stopped) return viol(v, "hang", "the session does not end");
    if (o.sig) return viol(v, crash_class(o), "terminated by signal " + S(o.sig) + ": " + crash_class(o));
    size_t pos = 0; const std::string& t = o.out;
    for (size_t i = 0; i < want.size(); ++i) {
        std::string who = "reply " + S((int64_t)i); size_t mb = t.find("<marking>", pos), vb = t.find("<valid-bindings>", pos), ve = t.find("</valid-bindings>", pos);
        if (vb == std::string::npos || ve == std::string::npos) return viol(v, "lost:" + first_line_with(o.err, "ERROR").substr(0, 60), who + " is missing; " + first_line_with(o.err, "ERROR"));
        bool shown = mb != std::string::npos && mb < vb; if (shown != want[i].fired) return viol(v, "shape", who + (shown ? " shows a marking that was not asked for" : " does not show the marking reached"));
        if (shown) { size_t me = t.find("</marking>", mb); std::vector<uint32_t> got; std::string e; if (me == std::string::npos || me > vb) return viol(v, "malformed", who + " has a malformed marking"); if (!read_marking(c.cnet, w, t.substr(mb, me - mb), got, e)) return viol(v, "malformed", who + ": " + e); fix(got); if (got != want[i].m) return viol(v, "marking", who + " shows a marking that is not the one reached"); }
        std::multiset<std::string> got, exp; std::string x = t.substr(vb, ve - vb); size_t k = 0;
        while ((k = x.find("<transition", k)) != std::string::npos) {
            size_t ke = x.find("</transition>", k); if (ke == std::string::npos) return viol(v, "malformed", who + " is malformed"); std::string y = x.substr(k, ke - k), id = attr(y.substr(0, y.find('>')), "id"); k = ke; size_t b = 0;
            while ((b = y.find("<binding>", b)) != std::string::npos) {
                size_t be = y.find("</binding>", b); if (be == std::string::npos) return viol(v, "malformed", who + " is malformed"); std::string z = y.substr(b, be - b); b = be; std::set<std::string> vals; size_t q = 0;
                while ((q = z.find("<variable", q)) != std::string::npos) { std::string nm = attr(z.substr(q, z.find('>', q) - q), "id"); size_t ca = z.find("<color>", q), cb = z.find("</color>", q); if (ca == std::string::npos || cb == std::string::npos) return viol(v, "malformed", who + " is malformed"); if (!vals.insert(nm + "=" + z.substr(ca + 7, cb - ca - 7)).second) return viol(v, "malformed", who + " binds a variable twice"); q = cb; }
                std::string key = id + ":"; for (auto& s : vals) key += s + ";"; got.insert(key);
            }
        }
        for (size_t u = 0; u < w.net.trans.size(); ++u) if (w.net.enabled(want[i].m, (int)u)) { std::set<std::string> vals; for (int z : tv[org[u]]) vals.insert(c.cnet.vars[z].name + "=" + colour_name(c.cnet, c.cnet.vars[z].sort, bs[u][z])); std::string key = w.tlabel[u] + ":"; for (auto& s : vals) key += s + ";"; exp.insert(key); }
        if (got != exp) { std::string d; for (auto& s : got) if (!exp.count(s)) { d = "lists " + s + " which is not enabled"; break; } if (d.empty()) for (auto& s : exp) if (!got.count(s)) { d = "does not list " + s; break; } return viol(v, "bindings", who + " " + (d.empty() ? "lists a binding twice" : d)); }
        if (i + 1 < o.visible_at.size() && o.visible_at[i + 1] < ve + 17) return viol(v, "unflushed", "the next request is read before " + who + " can be seen");
        pos = ve + 17;
    }
    if (t.find("<valid-bindings>", pos) != std::string::npos || t.find("<marking>", pos) != std::string::npos) return viol(v, "extra", bad ? "a request that cannot be served was answered" : "a reply nobody asked for");
    if (end == 0 && o.exit_code) return viol(v, "exit:" + S(o.exit_code), "exit status " + S(o.exit_code) + " after EXIT " + first_line_with(o.err, "ERROR"));
    if (bad && !o.exit_code) return viol(v, "accepted", "a request that cannot be served is not reported");
    static const char* ends[] = {"exit", "client gone", "client gone within a request", "unknown transition", "unknown variable", "no binding", "unknown place", "variable without colour", "empty place", "disabled binding", "incomplete binding", "client gone before the session", "client gone within the first request"}; v.probes.push_back(std::string("session: ") + ends[end > 12 ? 0 : end]);
    return v;
}
// memory runs out: one run with enough memory shows how many allocations there are and where the linear-programming phase lies, then several with a failing one
static Verdict judge_oom(Case& c, const std::string& dir, bool record) {
    Case d = c; Verdict all = judge_verify(d, dir, false); if (all.st != Verdict::Ok) return all;
    const ProcResult dry = all.runs[0]; Rng r(mix(c.procs[0].env.seed, 0x00e)); all.probes.clear();
    for (int k = 0; k < 6; ++k) {
        Case e = c; EnvCfg& x = e.procs[0].env; uint64_t lo = 1, hi = dry.alloc_calls; if (k && dry.lp_last && r.pct(75)) { lo = dry.lp_first; hi = dry.lp_last + 30; x.alloc_new = r.pct(80); }
        x.alloc_fail_at = (uint32_t)(lo + r.below(hi - lo + 1)); x.alloc_persist = r.pct(35);
        Verdict v = judge_verify(e, dir, record); for (auto& q : v.runs) absorb(all, q); all.probes.insert(all.probes.end(), v.probes.begin(), v.probes.end()); all.tech += v.tech;
        if (v.st == Verdict::Viol) { all.st = v.st; all.cls = v.cls; all.msg = v.msg; if (record) c = e; return all; }
    }
    return all;
}
Verdict judge(Case& c, const std::string& dir, bool record) {
    if (c.scen == "session") return judge_session(c, dir, record);
    if (c.scen == "handoff") return judge_handoff(c, dir, record);
    if (c.scen == "damaged") return judge_damaged(c, dir, record);
    if (c.scen == "verify" && c.has("oom") && !c.procs[0].env.replay) return judge_oom(c, dir, record);
    if (c.scen == "verify") return judge_verify(c, dir, record);
    if (c.scen == "statespace") return judge_statespace(c, dir, record);
    Verdict v; v.st = Verdict::Skip; return v;
}
}
