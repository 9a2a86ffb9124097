#include "exec.h"
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <fstream>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Instruction.h>
#include <llvm/Demangle/Demangle.h>
#include <nlohmann/json.hpp>
using json = nlohmann::json;
double now();

static json toJson(Exec& X) {
    Results& r = X.res; json j;
    j["paths"] = r.paths; j["assumed"] = r.assumed; j["forks"] = r.forks; j["steps"] = r.steps; j["branches"] = r.branches;
    j["asserts"] = r.asserts; j["asserts_by_simplification"] = r.assertsTrivial; j["assert_queries"] = r.assertQueries; j["throws"] = r.throws;
    j["max_path_steps"] = r.maxPathSteps; j["timed_out"] = r.timedOut;
    j["incomplete"] = r.incomplete; j["reach"] = r.reach;
    std::vector<std::string> fn(r.functions.begin(), r.functions.end()); j["functions"] = fn;
    json vs = json::array();
    for (auto& v : r.violations) { json o; o["kind"] = v.kind; o["msg"] = v.msg; o["where"] = v.where; o["replay"] = v.replay; o["trace"] = v.trace; json in = json::array(); for (auto& p : v.inputs) in.push_back({p.first, p.second}); o["inputs"] = in; vs.push_back(o); }
    j["violations"] = vs;
    json ss = json::array(); for (auto& s : r.samples) ss.push_back({{"replay", s.replay}, {"log", s.log}});
    j["samples"] = ss;
    auto& q = gSolver;
    j["solver"] = {{"queries", q.queries}, {"sat", q.sat}, {"unsat", q.unsat}, {"unknown", q.unknown}, {"cache_hits", q.cacheHits}, {"model_hits", q.modelHits}, {"domain_decided", q.domainDecided}, {"cross_checked", q.crossChecked}, {"mismatches", q.mismatches}, {"time_s", q.time}, {"max_query_s", q.maxTime}};
    return j;
}
static void mergeNum(json& a, const json& b) {
    for (auto& [k, v] : b.items()) {
        if (v.is_number_unsigned() || v.is_number_integer()) { if (k == "max_path_steps") a[k] = std::max(a.value(k, 0ull), v.get<unsigned long long>()); else a[k] = a.value(k, 0ull) + v.get<unsigned long long>(); }
        else if (v.is_number_float()) { if (k == "max_query_s") a[k] = std::max(a.value(k, 0.0), v.get<double>()); else a[k] = a.value(k, 0.0) + v.get<double>(); }
        else if (v.is_boolean()) a[k] = a.value(k, false) || v.get<bool>();
        else if (v.is_object()) { if (!a.contains(k)) a[k] = json::object(); mergeNum(a[k], v); }
        else if (v.is_array()) {
            if (!a.contains(k)) a[k] = json::array();
            if (k == "functions") { std::set<std::string> s; for (auto& x : a[k]) s.insert(x); for (auto& x : v) s.insert(x); a[k] = s; }
            else for (auto& x : v) a[k].push_back(x);
        }
    }
}
static void collectFns(Exec& X) {
    for (auto f : X.funcs) if (f->executed) { std::string d = llvm::demangle(f->name); X.res.functions.insert(d); }
    if (const char* dir = getenv("SYMX_COV")) {             // development: the source lines executed
        std::map<std::string, bool> lines;
        for (auto f : X.funcs) for (auto& in : f->code) if (in.ll) if (auto d = in.ll->getDebugLoc()) { bool& b = lines[d->getFilename().str() + ":" + std::to_string(d->getLine())]; b |= in.seen; }
        std::ofstream o(std::string(dir) + "/" + std::to_string(getpid()) + "." + std::to_string((long)(now() * 1e6) % 1000000)); for (auto& [l, b] : lines) if (l.find("simfil/") != std::string::npos || l.find("/repo/") != std::string::npos) o << l << " " << b << "\n";
    }
}

extern std::vector<std::string> gZero;
int main(int argc, char** argv) {
    Exec X; Options& o = X.opt;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--entry") o.entry = nx();
        else if (a == "--out") o.out = nx();
        else if (a == "--param") { std::string p = nx(); auto e = p.find('='); o.params[p.substr(0, e)] = std::stoll(p.substr(e + 1)); }
        else if (a == "--jobs") o.jobs = std::stoi(nx());
        else if (a == "--max-steps") o.maxSteps = std::stoull(nx());
        else if (a == "--time") o.timeLimit = std::stod(nx());
        else if (a == "--max-conc") o.maxConc = std::stoul(nx());
        else if (a == "--samples") o.samples = std::stoi(nx());
        else if (a == "--seed") o.seed = std::stoull(nx());
        else if (a == "--solver-timeout") gSolverTimeoutMs = std::stoul(nx());
        else if (a == "--table-limit") gTableLimit = std::stoul(nx());
        else if (a == "--max-violations") o.maxViolations = std::stoul(nx());
        else if (a == "--zero") gZero.push_back(nx());
        else if (a == "-v") o.verbose = true;
        else o.bitcode = a;
    }
    struct rlimit rl = {512u << 20, 512u << 20}; setrlimit(RLIMIT_STACK, &rl);
    double t0 = now();
    X.deadline = t0 + o.timeLimit; gDeadline = X.deadline;
    if (!X.load()) return 3;
    State* s = X.initialState();
    if (!s) return 3;
    X.res = Results();
    json total;
    if (o.jobs <= 1) {
        X.work.push_back(s);
        while (!X.work.empty() && !X.stop) { State* c = X.work.back(); X.work.pop_back(); X.run(c); }
        collectFns(X); total = toJson(X);
    } else {
        // work sharing: a worker with several open states forks and hands the older half to the child
        struct Shared { std::atomic<int> active, count, stop; };
        auto* sh = (Shared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        sh->active = 1; sh->count = 1; sh->stop = 0;
        prctl(PR_SET_CHILD_SUBREAPER, 1);
        std::string base = (o.out.empty() ? "/tmp/symx" : o.out) + "." + std::to_string(getpid()) + ".w";
        fflush(stdout); fflush(stderr);
        pid_t p = fork();
        if (p == 0) {
            int id = 0; double last = now() - 0.01;
            u64 seed0 = o.seed * 1000;
            X.opt.seed = seed0 + id;
            X.work.push_back(s);
            while (!X.work.empty() && !X.stop && !sh->stop.load()) {
                State* c = X.work.back(); X.work.pop_back(); X.run(c);
                if (X.work.size() >= 2 && now() - last > 0.03 && sh->active.load() < o.jobs) {
                    if (sh->active.fetch_add(1) >= o.jobs) { sh->active.fetch_sub(1); continue; }
                    int nid = sh->count.fetch_add(1); 
                    fflush(stderr);
                    pid_t q = fork();
                    last = now();
                    if (q < 0) { sh->active.fetch_sub(1); continue; }
                    if (q == 0) { id = nid; X.res = Results(); gSolver = SolverStats(); X.opt.seed = seed0 + id; }
                    // every other state, so that both get shallow and deep ones
                    std::vector<State*> mine; for (size_t i = 0; i < X.work.size(); i++) if ((i & 1) == (q == 0)) mine.push_back(X.work[i]); X.work.swap(mine);
                }
            }
            if (!X.res.violations.empty()) sh->stop = 1;
            collectFns(X);
            std::ofstream f(base + std::to_string(id)); f << toJson(X).dump(-1, ' ', false, json::error_handler_t::replace); f.close();
            sh->active.fetch_sub(1);
            _exit(0);
        }
        int st, died = 0; while (true) { pid_t q = waitpid(-1, &st, 0); if (q < 0) break; if (!WIFEXITED(st)) died++; }
        total = toJson(X);
        for (int w = 0; w < sh->count; w++) {
            std::string fn = base + std::to_string(w);
            std::ifstream f(fn); std::stringstream ss; ss << f.rdbuf(); f.close(); unlink(fn.c_str());
            json j = json::parse(ss.str(), nullptr, false);
            if (j.is_discarded()) { died++; continue; }
            mergeNum(total, j);
        }
        auto& sm = total["samples"]; size_t keep = (size_t)o.samples * o.jobs;
        if (sm.size() > keep) { json r = json::array(); for (size_t i = 0; i < keep; i++) r.push_back(sm[i * sm.size() / keep]); sm = r; }
        if (died) total["incomplete"]["worker died"] = died;
    }
    total["wall_s"] = now() - t0;
    total["exprs"] = exprCount();
    std::string out = total.dump(1, ' ', false, json::error_handler_t::replace);
    if (o.out.empty()) puts(out.c_str()); else { std::ofstream f(o.out); f << out << "\n"; }
    if (!total["violations"].empty()) return 1;
    return 0;
}
