// StringPool: two threads.  The operation of one thread is interrupted, wherever it holds no lock, by the operations of the
// other (at most two of them, so up to four context switches); shared state must only be touched under the lock.
#include "p.h"
#include <cerrno>
#include <memory>
#include <pthread.h>
struct Lock { void* m; int shared, excl; };
static Lock locks[8]; static int nlocks, held; static bool on;
static void (*other)();                                        // the other thread's next operation
struct Region { char* lock; char* p; size_t n; }; static Region regions[3]; static int nregions;
static void guard(void* m, int mode) { for (int i = 0; i < nregions; i++) if (regions[i].lock == (char*)m) sx_protect(regions[i].p, regions[i].n, mode); }
static Lock& lockOf(void* m) { for (int i = 0; i < nlocks; i++) if (locks[i].m == m) return locks[i]; sx_assert(nlocks < 8, "locks"); locks[nlocks] = {m, 0, 0}; return locks[nlocks++]; }
static int acquire(void* m, bool excl) {
    if (!on) return 0;
    if (!held && other) { auto f = other; other = nullptr; if (sx_choose(0, 1, "switch before locking")) { sx_reach("interrupted"); f(); } else other = f; }
    Lock& l = lockOf(m); sx_assert(!l.shared && !l.excl, "no lock is taken twice by a thread"); (excl ? l.excl : l.shared)++; held++; guard(m, excl ? 0 : 2); return 0;
}
static int release(void* m) {
    if (!on) return 0;
    Lock& l = lockOf(m); sx_assert(l.shared || l.excl, "only a lock which is held is released"); l.shared = l.excl = 0; held--; guard(m, 1);
    if (!held && other) { auto f = other; other = nullptr; if (sx_choose(0, 1, "switch after unlocking")) { sx_reach("interrupted"); f(); } else other = f; }
    return 0;
}
extern "C" {
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { return acquire(m, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { return acquire(m, true); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept { return acquire(m, false); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept { return acquire(m, true); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept { return release(m); }
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { return acquire(m, true); }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { return acquire(m, true); }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { return release(m); }
}
template <class P> void protect(P& p) {     // everything between the lock and the atomic counters
    if constexpr (requires { p.idForString_; p.byteSize_; p.stringStoreMutex_; }) {
        char *a = (char*)&p.idForString_, *b = (char*)&p.byteSize_; if (a < b && b - a < 400) { regions[nregions++] = {(char*)&p.stringStoreMutex_, a, (size_t)(b - a)}; sx_protect(a, b - a, 1); sx_reach("guarded"); }
    }
}
static void unprotect() { for (int i = 0; i < nregions; i++) sx_protect(regions[i].p, regions[i].n, 0); nregions = 0; }
enum { Emplace, Get, Resolve, Size, Highest, Equal, Copy, Write, OPS };
struct Op { int k; std::string s; };
static StringPool* pool;
static uint64_t perform(const Op& o, StringPool& p) {
    switch (o.k) {
    case Emplace: return p.emplace(o.s);
    case Get: return p.get(o.s);
    case Resolve: { auto x = p.resolve(129); return x ? 1 + x->size() : 0; }
    case Size: return p.size();
    case Highest: return p.highest();
    case Equal: { bool was = on; on = false; StringPool q; q.emplace("b"); on = was; return p == q; }
    case Copy: { std::unique_ptr<StringPool> q(new StringPool(p)); bool was = on; on = false; uint64_t r = q->size() * 1000 + q->highest(); for (StringId i = 0; i < 4; i++) sx_assert(q->resolve(i).has_value(), "copies are complete"); auto x = q->resolve(128); sx_assert(x && *x == "b", "copies hold all strings"); on = was; return r; }
    default: { SxStream s; p.write(s.out(), 128); return s.data.size(); }
    }
}
struct Out { uint64_t a = 0, b = 0, c = 0; size_t size = 0, bytes = 0; StringId high = 0; std::vector<std::string> names; bool operator==(const Out&) const = default; };
static void summary(StringPool& p, Out& o) { o.size = p.size(); o.bytes = p.bytes(); o.high = p.highest(); for (StringId i = 128; i <= o.high; i++) { auto x = p.resolve(i); sx_assert(x.has_value(), "every id resolves"); o.names.emplace_back(*x); sx_assert(p.get(*x) == i, "every string has one id"); } }
static Op A, B, C; static Out got; static bool bDone, cDone, useC;
static void runC() { cDone = true; got.c = perform(C, *pool); }
static void runB() { bDone = true; if (useC) other = runC; got.b = perform(B, *pool); }
static Out sequential(const char* order) { StringPool p; p.emplace("b"); Out o; for (; *order; order++) { if (*order == 'a') o.a = perform(A, p); else if (*order == 'b') o.b = perform(B, p); else if (useC) o.c = perform(C, p); } summary(p, o); return o; }
void sx_main() {
    static const char* const names[] = {"a", "A", "b", "dd"}; useC = sx_param("C", 0);
    auto op = [&](Op& o, const char* n) { o.k = (int)sx_choose(0, useC ? Resolve : OPS - 1, n); o.s = o.k < Resolve ? names[sx_choose(0, 3, "name")] : ""; };
    op(A, "first"); op(B, "second"); if (useC) op(C, "third");
    StringPool* p = new StringPool; p->emplace("b"); pool = p; on = true; protect(*p);
    other = runB; got.a = perform(A, *p); other = nullptr; if (!bDone) runB(); other = nullptr; if (useC && !cDone) runC();
    sx_assert(!held, "all locks are released"); on = false; unprotect(); summary(*p, got);
    bool ok = false; const char* const orders[] = {"abc", "bac", "acb", "bca", "cab", "cba"}; for (auto o : orders) ok = ok || sequential(o) == got;
    sx_assert(ok, "concurrent operations have the effect of some sequential order"); sx_reach(useC ? "three" : "two");
    sx_observe(got.a); sx_observe(got.b); sx_observe(got.c); sx_observe(got.size);
    delete p;
}
