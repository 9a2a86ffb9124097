// ArrayArena in thread safe mode: threads which use different arrays.  The operation of one thread is interrupted, wherever it
// holds no lock, by operations of the other; the bookkeeping common to all arrays must only be touched under the lock.
#define ARRAY_ARENA_THREAD_SAFE
#include "sx.h"
#include "simfil/model/arena.h"
#include <pthread.h>
#include <vector>
using namespace simfil;
using Arena = ArrayArena<int64_t, 4, 2>;
struct Lock { void* m; int shared, excl; };
static Lock locks[4]; static int nlocks, held; static bool on;
static void (*other)();
static char *lockAt, *from; static size_t bytes;
static void guard(void* m, int mode) { if (m == lockAt) sx_protect(from, bytes, mode); }
static Lock& lockOf(void* m) { for (int i = 0; i < nlocks; i++) if (locks[i].m == m) return locks[i]; sx_assert(nlocks < 4, "locks"); locks[nlocks] = {m, 0, 0}; return locks[nlocks++]; }
static void turn(const char* n) { if (held || !other) return; auto f = other; other = nullptr; if (sx_choose(0, 1, n)) { sx_reach("interrupted"); f(); } else other = f; }
static int acquire(void* m, bool excl) { if (!on) return 0; turn("switch before locking"); Lock& l = lockOf(m); sx_assert(!l.shared && !l.excl, "no lock is taken twice by a thread"); (excl ? l.excl : l.shared)++; held++; guard(m, excl ? 0 : 2); return 0; }
static int release(void* m) { if (!on) return 0; Lock& l = lockOf(m); sx_assert(l.shared || l.excl, "only a lock which is held is released"); l.shared = l.excl = 0; held--; guard(m, 1); turn("switch after unlocking"); return 0; }
extern "C" {
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { return acquire(m, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { return acquire(m, true); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept { return acquire(m, false); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept { return acquire(m, true); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept { return release(m); }
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { return acquire(m, true); }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { return acquire(m, true); }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { return release(m); }
}
template <class A> void protect(A& a) { if constexpr (requires { a.heads_; a.data_; a.lock_; }) { char *b = (char*)&a.heads_, *e = (char*)&a.lock_; if (b < e && e - b < 400) { from = b; bytes = e - b; lockAt = e; sx_protect(from, bytes, 1); sx_reach("guarded"); } } }
enum { New, Push, Emplace, At, Size, Iterate, IterateIndex, Iterators, Range, All, OPS };
static Arena* arena;
struct T { ArrayIndex a = 0; std::vector<int64_t> r; std::vector<int64_t*> p; int op[3] = {}; int64_t v[3] = {}; int n = 0; };
static void perform(T& t, int k) {
    Arena& x = *arena; size_t n = 0;
    switch (t.op[k]) {
    case New: { ArrayIndex i = x.new_array(1); sx_assert(i > 1 && x.size(i) == 0, "a new array"); t.a = i; t.r.clear(); t.p.clear(); int64_t& e = x.push_back(i, t.v[k]); t.r.push_back(t.v[k]); t.p.push_back(&e); break; }
    case Push: { int64_t& e = x.push_back(t.a, t.v[k]); t.r.push_back(t.v[k]); t.p.push_back(&e); break; }
    case Emplace: { int64_t& e = x.emplace_back(t.a, t.v[k]); t.r.push_back(t.v[k]); t.p.push_back(&e); break; }
    case At: for (size_t i = 0; i < t.r.size(); i++) sx_assert(x.at(t.a, i) == t.r[i], "at"); break;
    case Size: sx_assert(x.size(t.a) == t.r.size() && x.size() >= 2, "size"); break;
    case Iterate: x.iterate(t.a, [&](int64_t& e) { sx_assert(n < t.r.size() && e == t.r[n], "iterate"); n++; return true; }); sx_assert(n == t.r.size(), "iterate visits all"); break;
    case IterateIndex: x.iterate(t.a, [&](int64_t& e, size_t i) { sx_assert(n < t.r.size() && i == n && e == t.r[n], "iterate"); n++; }); sx_assert(n == t.r.size(), "iterate visits all"); break;
    case Iterators: for (auto i = x.begin(t.a), e = x.end(t.a); i != e; ++i, ++n) sx_assert(n < t.r.size() && *i == t.r[n], "iterator"); sx_assert(n == t.r.size(), "iterators visit all"); break;
    case All: { for (auto i = x.begin(), e = x.end(); i != e; ++i) n++; sx_assert(n >= 2 && n <= 6, "all arrays"); break; }
    default: { auto g = x.range(t.a); sx_assert(g.size() == t.r.size(), "range"); for (int64_t& e : g) { sx_assert(n < t.r.size() && e == t.r[n], "range order"); n++; } break; }
    }
}
static T A, B;
static bool done; static void runB() { done = true; for (int k = 0; k < B.n; k++) perform(B, k); }
static void final(T& t) { sx_assert(arena->size(t.a) == t.r.size(), "the array has its elements"); for (size_t i = 0; i < t.r.size(); i++) { sx_assert(arena->at(t.a, i) == t.r[i], "the element"); sx_assert(&arena->at(t.a, i) == t.p[i], "references stay"); } size_t n = 0; arena->iterate(t.a, [&](int64_t& e) { sx_assert(n < t.r.size() && e == t.r[n], "order"); n++; }); sx_assert(n == t.r.size(), "all"); }
void sx_main() {
    arena = new Arena; int max = (int)sx_param("N", 2);
    for (T* t : {&A, &B}) { int c = (int)sx_choose(0, 2, "capacity"), e = (int)sx_choose(0, 3, "elements"); t->a = arena->new_array(c); for (int i = 0; i < e; i++) { int64_t v = 100 * (t == &B) + i; t->p.push_back(&arena->push_back(t->a, v)); t->r.push_back(v); } }
    A.n = 1; A.op[0] = (int)sx_choose(0, OPS - 1, "first"); A.v[0] = sx_i64("value"); B.n = max; for (int k = 0; k < max; k++) { B.op[k] = (int)sx_choose(0, k ? Emplace : OPS - 1, "second"); B.v[k] = sx_i64("value"); }
    on = true; protect(*arena); other = runB; perform(A, 0); other = nullptr; if (!done) runB();
    sx_assert(!held, "all locks are released"); on = false; if (from) sx_protect(from, bytes, 0);
    final(A); final(B); sx_assert(A.a != B.a, "different arrays"); sx_reach("two"); for (auto v : A.r) sx_observe(v); for (auto v : B.r) sx_observe(v); sx_observe(arena->size());
}
