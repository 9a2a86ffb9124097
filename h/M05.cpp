// checkForErrors reports exactly the models with dangling references, unknown names or cycles; a model without errors can be walked.
#include "m.h"
#include <set>
static std::shared_ptr<ModelPool> m;
struct Ref { int col; uint32_t idx; };                       // 0 object, 1 array, 2 int64, 3 double, 4 string, 5 small
static int count[5]; static std::vector<Ref> kids[2][3];
static Ptr other(ModelPool& p, int col, uint32_t idx) {      // the address of the idx-th value of a kind
    Ptr r; for (uint32_t i = 0; i <= idx; i++) { if (col == 0) r = p.newObject(1); else if (col == 1) r = p.newArray(1); else if (col == 2) r = p.newValue(int64_t(100000 + i)); else if (col == 3) r = p.newValue(0.5 + i); else if (col == 4) r = p.newValue(std::string_view("xy")); else r = p.newSmallValue(uint16_t(7)); } return r;
}
static bool dangling(const Ref& r) { return r.col < 5 && r.idx >= (uint32_t)count[r.col]; }
static bool cyclic(const Ref& r, std::vector<Ref> path) {
    if (r.col > 1 || dangling(r)) return false; for (auto& x : path) if (x.col == r.col && x.idx == r.idx) return true;
    path.push_back(r); for (auto& x : kids[r.col][r.idx]) if (cyclic(x, path)) return true; return false;
}
static size_t walk(const ModelNode& n) { size_t c = 1; (void)n.value(); n.iterate(ModelNode::IterLambda([&](const ModelNode& x) { c += walk(x); return true; })); for (uint32_t i = 0; i < n.size(); i++) { Ptr x = n.at(i); sx_assert((bool)x, "members exist"); c += x->size(); if (n.type() == VT::Object) sx_assert(m->lookupStringId(n.keyAt(i)).has_value(), "names are known"); } return c; }
static void judge(bool bad) {
    auto errors = m->checkForErrors(); sx_reach(bad ? "unsound" : "sound"); sx_assert(errors.empty() == !bad, "errors are reported exactly for unsound models");
    bool thrown = false; try { m->validate(); } catch (std::runtime_error&) { thrown = true; } sx_assert(thrown == bad, "validate throws exactly for unsound models");
    if (!bad) { size_t c = 0; for (size_t i = 0; i < m->numRoots(); i++) c += walk(*m->root(i)); sx_observe(c); } sx_observe(bad);
}
void sx_main() {
    m = std::make_shared<ModelPool>(); auto h = std::make_shared<ModelPool>(); int n = (int)sx_param("N", 2), cols = (int)sx_param("COLS", 6), objs = (int)sx_param("OBJS", 1), arrs = (int)sx_param("ARRS", 1);
    if (sx_param("NAMES", 0)) {                                 // a model with the names of another pool
        auto o = m->newObject(1); int f = (int)sx_choose(0, 2, "fields"); static const char* names[] = {"aa", "bb"}; for (int i = 0; i < f; i++) o->addField(names[i], int64_t(i)); m->addRoot(o); if (sx_choose(0, 1, "well known")) o->addField("", int64_t(3));
        SxStream s; m->write(s.out()); auto p = std::make_shared<StringPool>(); int known = (int)sx_choose(0, 2, "known"); for (int i = 0; i < known; i++) p->emplace(names[i]);
        m = std::make_shared<ModelPool>(p); SxStream t; t.data = s.data; m->read(t.in()); sx_reach("names"); judge(known < f); m.reset(); return;
    }
    count[0] = objs; count[1] = arrs; for (int c = 2; c < 5; c++) count[c] = 1;
    std::vector<model_ptr<Object>> o; std::vector<model_ptr<Array>> a; for (int i = 0; i < objs; i++) o.push_back(m->newObject(1)); for (int i = 0; i < arrs; i++) a.push_back(m->newArray(1)); (void)m->newValue(int64_t(100000)); (void)m->newValue(0.5); (void)m->newValue(std::string_view("xy"));
    bool bad = false; auto roots = std::vector<Ref>();
    for (int i = 0; i < n; i++) {
        int where = (int)sx_choose(0, objs + arrs, "where"); Ref r{(int)sx_choose(0, cols - 1, "kind"), 0}; r.idx = r.col == 5 ? 0 : (uint32_t)sx_choose(0, (uint64_t)count[r.col], "index");
        Ptr p = other(*std::make_shared<ModelPool>(), r.col, r.idx); bad |= dangling(r);
        if (where < objs) { o[where]->addField("f", p); kids[0][where].push_back(r); } else if (where < objs + arrs) { a[where - objs]->append(p); kids[1][where - objs].push_back(r); } else { m->addRoot(p); roots.push_back(r); }
    }
    for (int i = 0; i < objs; i++) if (cyclic({0, (uint32_t)i}, {})) { sx_reach("cycle"); bad = true; }
    for (int i = 0; i < arrs; i++) if (cyclic({1, (uint32_t)i}, {})) { sx_reach("cycle"); bad = true; }
    judge(bad); m.reset();
}
