#include <locale>
// Native side of the harness interface: replays inputs found by the solver against the real build.
//   prog replay FILE           exit 0: no violation, 10: property violated, 77: assumption not met, other: crash / sanitizer
//   prog batch FILE            FILE holds "=== <expected observations...>" separated replay records; prints OK/BAD per record
#include "sx.h"
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define SX_TSAN
#endif
#endif
#ifndef SX_TSAN
#include <sanitizer/asan_interface.h>
#else
#define __asan_poison_memory_region(p, n)
#define __asan_unpoison_memory_region(p, n)
#endif
#include <thread>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <csignal>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <unistd.h>
#include <vector>
#include <sys/wait.h>

struct Ent { char k; std::string name; std::string bytes; int w; uint64_t v; };
static std::vector<Ent> ents; static size_t pos; static std::map<std::string, int64_t> params;
static std::vector<uint64_t> obs; static std::string failMsg; static bool desync;

static std::string san(const char* n) { std::string r = n; for (auto& c : r) if (c == ' ') c = '_'; return r; }
extern "C" {
void sx_bytes(void* p, size_t n, const char* name) {
    memset(p, 0, n);
    if (pos < ents.size() && ents[pos].k == 'b' && ents[pos].name == san(name)) { memcpy(p, ents[pos].bytes.data(), std::min(n, ents[pos].bytes.size())); if (n != ents[pos].bytes.size()) desync = true; pos++; }
    else desync = true;
}
uint64_t sx_var(int w, const char* name) {
    if (pos < ents.size() && ents[pos].k == 'v' && ents[pos].name == san(name)) return ents[pos++].v;
    desync = true; return 0;
}
void sx_assume(bool c) { if (!c) _exit(77); }
void sx_assert_(bool c, const char* msg) { if (!c) { printf("PROPERTY VIOLATED: %s\n", msg); fflush(stdout); _exit(10); } }
void sx_observe(uint64_t v) { obs.push_back(v); }
void sx_reach(const char*) {}
int64_t sx_param(const char* n, int64_t d) { auto it = params.find(n); return it == params.end() ? d : it->second; }
uint64_t sx_concrete(uint64_t v) { return v; }
static std::map<char*, std::string> snap;
void sx_protect(void* p, size_t n, int mode) {
    char* c = (char*)p;
    if (auto it = snap.find(c); it != snap.end()) { if (memcmp(c, it->second.data(), n)) sx_assert_(false, "write to shared state without holding its lock exclusively"); snap.erase(it); }
    if (mode == 1) __asan_poison_memory_region(p, n); else __asan_unpoison_memory_region(p, n);
    if (mode == 2) snap[c] = std::string(c, n);
}
void sx_freeze(int) {}
void sx_threads(void (*f)(int)) {
    for (int c = 0; c < 256; c++) (void)std::use_facet<std::ctype<char>>(std::locale()).narrow((char)c, 0);      // libstdc++ fills this cache lazily
    std::atomic<int> ready{0}; auto run = [&](int t) { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < 2) std::this_thread::yield(); f(t); };
    std::thread a([&] { run(0); }), b([&] { run(1); }); a.join(); b.join();
}
int sx_native() { return 1; }
void sx_debug(uint64_t) {}
}
static bool parseLine(const std::string& l) {
    std::istringstream is(l); std::string k; is >> k;
    if (k == "p") { std::string n; int64_t v; is >> n >> v; params[n] = v; }
    else if (k == "b") { Ent e; e.k = 'b'; size_t n; std::string hx; is >> e.name >> n >> hx; if (hx != "-") for (size_t i = 0; i + 1 < hx.size(); i += 2) e.bytes.push_back((char)std::stoi(hx.substr(i, 2), nullptr, 16)); ents.push_back(e); }
    else if (k == "v") { Ent e; e.k = 'v'; std::string hx; is >> e.name >> e.w >> hx; e.v = std::stoull(hx, nullptr, 16); ents.push_back(e); }
    else return false;
    return true;
}
static void reset() { ents.clear(); params.clear(); pos = 0; obs.clear(); desync = false; }
int main(int argc, char** argv) {
    std::set_terminate([] { printf("terminate called\n"); fflush(stdout); _exit(12); });
    if (argc < 3) return 2;
    std::ifstream f(argv[2]); std::string l;
    if (std::string(argv[1]) == "replay") {
        while (std::getline(f, l)) parseLine(l);
        alarm(60);
        try { sx_main(); }
        catch (std::exception& e) { printf("uncaught exception: %s\n", e.what()); fflush(stdout); _exit(11); }
        catch (...) { printf("uncaught exception\n"); fflush(stdout); _exit(11); }
        if (desync) printf("note: input record and native run consumed different inputs\n");
        printf("observations:"); for (auto v : obs) printf(" %llx", (unsigned long long)v); printf("\n");
        printf("no violation\n");
        return 0;
    }
    // batch
    int ok = 0, bad = 0; std::vector<uint64_t> want; bool have = false;
    auto run = [&] {
        if (!have) return;
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
            alarm(60);
            try { sx_main(); } catch (...) { _exit(11); }
            if (desync) { printf("desync\n"); fflush(stdout); _exit(13); }
            if (obs != want) { printf("observations differ: native"); for (auto v : obs) printf(" %llx", (unsigned long long)v); printf("  symbolic"); for (auto v : want) printf(" %llx", (unsigned long long)v); printf("\n"); fflush(stdout); _exit(14); }
            _exit(0);
        }
        int st; waitpid(p, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) ok++; else { bad++; printf("BAD status=%d\n", WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st)); for (auto& e : ents) { printf("  %s ", e.name.c_str()); if (e.k == 'b') for (unsigned char c : e.bytes) printf("%02x", c); else printf("%llx", (unsigned long long)e.v); printf("\n"); } }
    };
    while (std::getline(f, l)) {
        if (l.rfind("===", 0) == 0) { run(); reset(); want.clear(); have = true; std::istringstream is(l.substr(3)); std::string h; while (is >> h) want.push_back(std::stoull(h, nullptr, 16)); }
        else parseLine(l);
    }
    run();
    printf("BATCH ok=%d bad=%d\n", ok, bad);
    return bad ? 1 : 0;
}
