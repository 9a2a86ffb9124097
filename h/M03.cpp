// A model written and read again, moved to other names, and cleared.
#include "m.h"
static std::shared_ptr<ModelPool> m; static int kinds, depth;
struct T { int k = 0; MV v; std::vector<T> c; std::vector<std::string> n; };     // k: 0 scalar, 1 object, 2 array
static T tree(int d) {
    T t; t.k = d > 0 ? (int)sx_choose(0, 2, "kind") : 0;
    if (!t.k) { int k = kinds ? (int)sx_choose(0, MKCOUNT - 1, "scalar") : (int)sx_choose(0, 1, "scalar") * MStr; t.v = msym(k, "value", 1); if (!kinds && k == MInt) sx_assume(t.v.i > 100000); return t; }
    int n = (int)sx_choose(0, (uint64_t)sx_param("W", 2), "members"); static const char* const names[] = {"a", "B", "cc"};
    for (int i = 0; i < n; i++) { t.n.push_back(names[i]); t.c.push_back(tree(d - 1)); }
    return t;
}
static Ptr build(const T& t) {
    if (!t.k) return node(*m, t.v);
    if (t.k == 1) { auto o = m->newObject(1); for (size_t i = 0; i < t.c.size(); i++) { Ptr p = build(t.c[i]); o->addField(t.n[i], p); } return o; }
    auto a = m->newArray(0); for (auto& c : t.c) { Ptr p = build(c); a->append(p); } return a;
}
static void same(const ModelPool& q, const ModelNode& n, const T& t) {
    if (!t.k) { reads(n, t.v); return; }
    sx_assert(n.type() == (t.k == 1 ? VT::Object : VT::Array), "same type"); sx_assert(n.size() == t.c.size(), "same size");
    for (size_t i = 0; i < t.c.size(); i++) {
        auto p = n.at(i); sx_assert((bool)p, "same members"); same(q, *p, t.c[i]);
        if (t.k == 1) { auto nm = q.lookupStringId(n.keyAt(i)); sx_assert(nm && sameName(t.n[i], *nm), "same names"); auto g = n.get(n.keyAt(i)); sx_assert(g && g->addr().value_ == p->addr().value_, "found by name"); }
    }
}
void sx_main() {
    depth = (int)sx_param("D", 2); kinds = (int)sx_param("KINDS", 0); int roots = (int)sx_param("ROOTS", 1), part = (int)sx_param("PART", 0); m = std::make_shared<ModelPool>();
    if (sx_param("LARGE", 0)) {                  // many roots, members and texts, more text than 16 bits count
        int n = (int)sx_param("LARGE", 300); static const int P[] = {0, 255, 299}; int at = P[sx_choose(0, 2, "position")]; MV x = msym((int)sx_choose(0, MKCOUNT - 1, "kind"), "value", 2); T l, o; l.k = 2; o.k = 1;
        for (int i = 0; i < n; i++) { T y; y.v.k = i % 3 == 0 ? MStr : i % 3 == 1 ? MDouble : MInt; y.v.i = 100000 + i; y.v.d = i / 4.0; y.v.s = std::string(i == 3 ? 66000 : 230, (char)('a' + i % 26)) + std::to_string(i); if (i == at) y.v = x; l.c.push_back(y); o.c.push_back(y); o.n.push_back("f" + std::to_string(i)); }
        std::vector<T> t{l, o, l.c[at]}; for (auto& y : t) m->addRoot(build(y)); for (int i = 0; i < n; i++) { m->addRoot(build(l.c[i])); t.push_back(l.c[i]); }
        auto all = [&](const ModelPool& q) { sx_assert(q.numRoots() == t.size(), "same roots"); for (size_t i = 0; i < t.size(); i++) same(q, *q.root(i), t[i]); };
        SxStream s, k; m->write(s.out()); m->strings()->write(k.out()); auto p = std::make_shared<StringPool>(); p->read(k.in()); auto q = std::make_shared<ModelPool>(p); q->read(s.in()); sx_assert(s.pos == s.data.size(), "everything is read"); m.reset(); all(*q);
        auto z = std::make_shared<StringPool>(); for (int i = 0; i < n; i += 2) z->emplace("F" + std::to_string(n - i)); q->setStrings(z); all(*q); sx_reach("read"); sx_observe(s.data.size()); return;
    }
    std::vector<T> t; for (int i = 0; i < roots; i++) t.push_back(tree(depth));
    for (auto& x : t) m->addRoot(build(x));
    auto all = [&](const ModelPool& q) { sx_assert(q.numRoots() == t.size(), "same roots"); for (size_t i = 0; i < t.size(); i++) same(q, *q.root(i), t[i]); sx_assert(q.checkForErrors().empty(), "no errors"); };
    all(*m);
    if (part == 0) {                             // written and read
        SxStream s, n; m->write(s.out()); m->strings()->write(n.out()); all(*m);
        auto p = std::make_shared<StringPool>(); p->read(n.in()); auto q = std::make_shared<ModelPool>(p);
        if (sx_choose(0, 1, "used")) { auto o = q->newObject(1); o->addField("z", int64_t(-5000000)); o->addField("y", std::string_view("old")); o->addField("x", 1.5); auto a = q->newArray(1); a->append(o); q->addRoot(a); q->addRoot(o); sx_reach("used"); }
        q->read(s.in()); sx_assert(s.pos == s.data.size(), "everything is read"); sx_reach("read"); all(*q); m.reset(); all(*q);
        auto o = q->newObject(1); o->addField("k", int64_t(1) << 40); o->addField("l", std::string_view("new")); q->addRoot(o); t.push_back({}); t.back().k = 1; t.back().n = {"k", "l"}; t.back().c.resize(2); t.back().c[0].v.k = MInt; t.back().c[0].v.i = int64_t(1) << 40; t.back().c[1].v.k = MStr; t.back().c[1].v.s = "new";
        all(*q); sx_observe(s.data.size());
        SxStream cut; m = nullptr; size_t keep = sx_choose(0, s.data.size(), "cut"); bool thrown = false; cut.data = s.data.substr(0, keep); auto r = std::make_shared<ModelPool>(p);
        try { r->read(cut.in()); } catch (std::runtime_error&) { thrown = true; } sx_assert(thrown == (keep < s.data.size()), "a truncated model is an error"); if (thrown) sx_reach("truncated");
    } else if (part == 1) {                      // names are translated to another pool
        auto p = std::make_shared<StringPool>(); int pre = (int)sx_choose(0, 3, "existing names"); static const char* const names[] = {"CC", "other", "b"}; for (int i = 0; i < pre; i++) p->emplace(names[i]);
        auto old = m->strings(); std::vector<std::string> had; for (StringId i = 128; i <= old->highest(); i++) had.emplace_back(*old->resolve(i));
        m->setStrings(p); sx_assert(m->strings() == p, "the pool is used"); all(*m); sx_reach("renamed");
        sx_assert(old->size() == had.size() + 4, "the old pool is unchanged"); for (size_t i = 0; i < had.size(); i++) sx_assert(*old->resolve((StringId)(128 + i)) == had[i], "the old pool is unchanged");
        for (int i = 0; i < pre; i++) sx_assert(*p->resolve((StringId)(128 + i)) == names[i], "existing names stay");
        m->setStrings(old); all(*m); auto copy = std::make_shared<StringPool>(*old); m->setStrings(copy); all(*m); old.reset(); all(*m);
        bool thrown = false; try { m->setStrings(nullptr); } catch (std::runtime_error&) { thrown = true; } sx_assert(thrown, "no pool is an error"); all(*m); sx_observe(p->size());
    } else {                                     // cleared and used again
        m->clear(); sx_assert(m->numRoots() == 0 && m->checkForErrors().empty(), "cleared"); SxStream s; m->write(s.out()); SxStream e; ModelPoolPtr x = std::make_shared<ModelPool>(); x->write(e.out()); sx_assert(s.data == e.data, "a cleared model is empty"); sx_reach("cleared");
        for (auto& y : t) m->addRoot(build(y)); all(*m); sx_observe(m->numRoots());
    }
}
