#pragma once
#include "env.h"
#include "gen.h"
#include "model.h"
#include "oracle.h"
#include <map>
#include <string>
#include <vector>
namespace sim {
struct Proc { std::vector<std::vector<std::string>> opts; EnvCfg env; };
struct Case {
    std::string prop, scen;
    bool colored = false; Net net; CNet cnet;
    std::vector<Query> queries;
    std::vector<Proc> procs;
    std::map<std::string, std::string> kv;     // scenario parameters
    bool has(const std::string& k) const { return kv.count(k) > 0; }
    int num(const std::string& k) const { auto i = kv.find(k); return i == kv.end() ? 0 : atoi(i->second.c_str()); }
    Names names() const { return colored ? names_of(cnet) : names_of(net); }
};
struct Verdict {
    enum St { Ok, Viol, Skip } st = Ok;
    std::string cls, msg;
    uint64_t hash = 0;
    std::vector<ProcResult> runs;
    uint64_t states = 0; std::string tech;     // coverage information
    std::vector<std::string> probes;           // rare conditions this case reached
};
std::string serialise(const Case&);
bool parse_case(const std::string&, Case&);

bool gen_case(const std::string& prop, uint64_t seed, Case& c);       // false: discard this seed
Verdict judge(Case& c, const std::string& dir, bool record);          // record: copy decisions into c
Case minimise(const Case& c, const std::string& dir, const Verdict& v, int max_tries, double max_s);
extern int cpu_limit;
// parsed program output
struct Formula { std::string name, value, tech; };
std::vector<Formula> parse_formulas(const std::string& out);
bool write_file(const std::string& path, const std::string& data);
bool read_file(const std::string& path, std::string& data);
std::string trim(const std::string&);
}
