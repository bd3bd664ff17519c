#include "case.h"
#include <cstdio>
#include <cstring>
#include <ctime>
#include <iostream>
#include <fstream>
#include <sstream>
#include <map>
#include <set>
#include <sys/stat.h>
#include <unistd.h>
using namespace sim;
static double nowd() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
static std::string jstr(const std::string& s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char)c; } return o + "\""; }
template<class M> static std::string jmap(const M& m) { std::string o = "{"; bool f = true; for (auto& k : m) { if (!f) o += ","; f = false; o += jstr(k.first) + ":" + std::to_string(k.second); } return o + "}"; }

// search PROP BASE FIRST STRIDE MAXCASES SECONDS DIR OUTPREFIX
static int search(char** a) {
    std::string prop = a[0]; uint64_t base = strtoull(a[1], 0, 10), first = strtoull(a[2], 0, 10), stride = strtoull(a[3], 0, 10), maxc = strtoull(a[4], 0, 10); double secs = atof(a[5]);
    std::string dir = a[6], pre = a[7]; mkdir(dir.c_str(), 0755);
    std::map<std::string, uint64_t> fired, seen, techs, opts, classes, probes; uint64_t n = 0, skipped = 0, discarded = 0, procs = 0, states = 0, faulty = 0, redo = 0, mism = 0, preempt = 0, yields = 0; double simtime = 0;
    std::set<uint64_t> hashes, inputs; double t0 = nowd(); std::vector<std::string> samples; std::string viol; uint64_t unconfirmed = 0, nontrivial_runs = 0;
    std::ofstream hs;
    for (uint64_t i = first; i < maxc && nowd() - t0 < secs; i += stride) {
        uint64_t seed = base * 100000000ull + i;
        Case c; if (!gen_case(prop, seed, c)) { ++discarded; continue; }
        Verdict v = judge(c, dir, true);
        if (v.st == Verdict::Skip) { ++skipped; continue; }
        ++n; states += v.states; bool anyf = false;
        for (auto& r : v.runs) { ++procs; for (int k = 0; k < K_NKINDS; ++k) { fired[kind_name[k]] += r.fired[k]; seen[kind_name[k]] += r.count[k]; if (r.fired[k]) anyf = true; } simtime += 1e-9 * (double)r.clock_ns; preempt += r.preemptions; yields += r.yields; }
        faulty += anyf; hashes.insert(v.hash); if (v.states > 1) ++nontrivial_runs;
        { Case d = c; for (auto& p : d.procs) p.env = EnvCfg(); std::string s = serialise(d); inputs.insert(hash_bytes(s.data(), s.size())); }
        { std::istringstream t(v.tech); std::string w; while (t >> w) ++techs[w]; }
        for (auto& p : v.probes) ++probes[p];
        for (auto& p : c.procs) for (auto& g : p.opts) { std::string o = g[0][0] == '!' ? g[0].substr(1) : g[0]; if (g.size() > 1 && (o == "-s" || o == "-r" || o == "-ltl" || o == "-ctl" || o == "--ltl-por")) o += " " + g[1]; ++opts[o]; }
        if (v.st == Verdict::Ok) {
            if (i % 23 == 7) { Case d; gen_case(prop, seed, d); Verdict w = judge(d, dir, false); ++redo; if (w.hash != v.hash || w.st != v.st) { ++mism; fprintf(stderr, "nondeterministic: seed %lu\n", seed); } }
            if (samples.size() < 2 && v.states > 2 && v.states < 40 && serialise(c).size() < 2500) samples.push_back(serialise(c));
            continue;
        }
        ++classes[v.cls];
        // gate: the same seed again, then the recorded decisions
        Case d; gen_case(prop, seed, d); Verdict w = judge(d, dir, false); Verdict x = judge(c, dir, false);
        if (w.st != Verdict::Viol || w.cls != v.cls || w.hash != v.hash || x.st != Verdict::Viol || x.cls != v.cls) { ++unconfirmed; fprintf(stderr, "unconfirmed: seed %lu %s\n", seed, v.cls.c_str()); continue; }
        Case m = minimise(c, dir, v, 600, v.cls == "hang" ? 60 : 40); Verdict y = judge(m, dir, true);
        for (auto& p : m.procs) p.env.replay = true;
        std::ofstream o(pre + ".case"); o << "# property " << prop << " seed " << seed << "\n# " << y.msg << "\n# hash " << std::hex << y.hash << std::dec << "\n" << serialise(m); o.close();
        viol = y.msg; ++faulty; break;
    }
    std::ofstream h(pre + ".hashes", std::ios::binary); for (uint64_t x : hashes) h.write((char*)&x, 8); h.close();
    std::ofstream hi(pre + ".inputs", std::ios::binary); for (uint64_t x : inputs) hi.write((char*)&x, 8); hi.close();
    std::ofstream o(pre + ".json");
    o << "{\"cases\":" << n << ",\"skipped\":" << skipped << ",\"discarded\":" << discarded << ",\"processes\":" << procs << ",\"states\":" << states << ",\"runs_with_faults\":" << faulty << ",\"nontrivial\":" << nontrivial_runs
      << ",\"redo\":" << redo << ",\"mismatch\":" << mism << ",\"unconfirmed\":" << unconfirmed << ",\"simulated_seconds\":" << simtime << ",\"preemptions\":" << preempt << ",\"yields\":" << yields << ",\"seconds\":" << nowd() - t0
      << ",\"fired\":" << jmap(fired) << ",\"events\":" << jmap(seen) << ",\"techniques\":" << jmap(techs) << ",\"options\":" << jmap(opts) << ",\"classes\":" << jmap(classes) << ",\"probes\":" << jmap(probes) << ",\"samples\":[";
    for (size_t k = 0; k < samples.size(); ++k) o << (k ? "," : "") << jstr(samples[k]);
    o << "],\"violation\":" << jstr(viol) << "}\n";
    return viol.empty() ? 0 : 1;
}
int main(int argc, char** argv) {
    if (argc > 2 && !strcmp(argv[1], "exec")) {
        std::vector<std::string> a(argv + 3, argv + argc);
        EnvCfg c; c.layout_seed = 5; 
        auto r = run_process(a, argv[2], c);
        std::cout << r.out; std::cerr << r.err;
        fprintf(stderr, "exit=%d sig=%d stopped=%u clock=%lu lp=%lu rand=%lu alloc=%lu read=%lu hash=%016lx\n", r.exit_code, r.sig, r.stopped, r.count[K_CLOCK], r.count[K_LP], r.rand_calls, r.alloc_calls, r.count[K_READ], r.evhash);
        return 0;
    }
    if (argc > 9 && !strcmp(argv[1], "search")) return search(argv + 2);
    if (argc > 5 && !strcmp(argv[1], "probe")) {      // probe PROP FIRST LAST DIR [min]
        std::string prop = argv[2], dir = argv[5]; mkdir(dir.c_str(), 0755); cpu_limit = 5;
        std::map<std::string, int> classes; uint64_t n = 0, skip = 0, bad = 0; double t0 = nowd();
        for (uint64_t s = strtoull(argv[3], 0, 10); s < strtoull(argv[4], 0, 10); ++s) {
            Case c; if (!gen_case(prop, s, c)) { ++skip; continue; }
            Verdict v = judge(c, dir, true); ++n; if (v.st == Verdict::Skip) ++skip;
            if (v.st == Verdict::Viol) {
                ++bad; if (classes[v.cls]++ < 3) { fprintf(stderr, "seed %lu: %s: %s\n", s, v.cls.c_str(), v.msg.c_str());
                    if (argc > 6) { Case m = minimise(c, dir, v, 400, 30); Verdict w = judge(m, dir, false); std::cout << "# seed " << s << " " << w.cls << " " << w.msg << "\n" << serialise(m) << std::flush; } }
            }
        }
        fprintf(stderr, "%s: %lu run, %lu skipped, %lu bad, %.1f/s\n", prop.c_str(), n, skip, bad, (double)n / (nowd() - t0));
        for (auto& k : classes) fprintf(stderr, "  %6d %s\n", k.second, k.first.c_str());
        return 0;
    }
    if (argc > 3 && !strcmp(argv[1], "show")) { Case c; if (!gen_case(argv[2], strtoull(argv[3], 0, 10), c)) return 1; std::cout << serialise(c); return 0; }
    if (argc > 3 && !strcmp(argv[1], "export")) {      // plain files of a case: model.pnml, query.xml, args, expect
        std::string t, d = argv[3]; Case c; if (!read_file(argv[2], t) || !parse_case(t, c)) return 2;
        mkdir(d.c_str(), 0755); write_file(d + "/model.pnml", c.colored ? pnml(c.cnet, c.num("syn")) : pnml(c.net, c.num("syn"))); write_file(d + "/query.xml", query_xml(c.queries, c.names()));
        std::string a = "model.pnml query.xml -x ", e; for (size_t i = 0; i < c.queries.size(); ++i) a += (i ? "," : "") + std::to_string(i + 1);
        for (auto& g : c.procs[0].opts) for (auto& x : g) a += " " + (x[0] == '!' ? x.substr(1) : x);
        View vw; if (c.colored) { if (!unfold_ref(c.cnet, vw, 100000)) return 3; } else vw = view_of(c.net);
        Graph g = explore(vw, 100000); for (auto& q : c.queries) { Answer r = reference(q.f, g, c.has("logic") && c.kv["logic"] == "ltl"); e += "FORMULA " + q.name + " " + (r.kind == Answer::Bool ? (r.b ? "TRUE" : "FALSE") : std::to_string(r.n)) + "\n"; }
        write_file(d + "/args", a + "\n"); write_file(d + "/expect", e); return 0;
    }
    if (argc > 3 && !strcmp(argv[1], "replay")) {      // exit 1: the violation happens; 0: it does not
        std::string t; Case c; if (!read_file(argv[2], t) || !parse_case(t, c)) { fprintf(stderr, "cannot parse\n"); return 2; }
        for (auto& p : c.procs) p.env.replay = true;
        mkdir(argv[3], 0755); Verdict v = judge(c, argv[3], false); if (argc > 4) for (auto& r : v.runs) std::cout << r.out << r.err;
        printf("%s %016lx %s | %s\n", v.st == Verdict::Ok ? "ok" : v.st == Verdict::Skip ? "skip" : "violation", v.hash, v.cls.c_str(), v.msg.c_str()); return v.st == Verdict::Viol;
    }
    return 2;
}
