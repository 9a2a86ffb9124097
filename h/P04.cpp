// StringPool: written, in one or several parts, and read again; ids do not run over.
#include "p.h"
void sx_main() {
    int n = (int)sx_param("N", 2), len = (int)sx_param("L", 1), part = (int)sx_param("PART", 0);
    StringPool p; Ref r;
    auto name = [&] { size_t l = sx_choose(0, len, "length"); return sx_string(l, "string"); };
    auto add = [&](StringPool& q, Ref& f, const std::string& s) { StringId id = q.emplace(s); int k = f.find(s); if (k < 0) { f.s.push_back(s); k = f.find(s); } sx_assert(id == k, "emplace"); };
    if (part == 0) {
        StringPool q; Ref none; SxStream s1, s2; int split = (int)sx_choose(0, n, "split");
        for (int i = 0; i < split; i++) add(p, r, name());
        p.write(s1.out()); q.read(s1.in()); agrees(q, r); sx_assert(q == p && s1.pos == s1.data.size(), "the pool is read back"); sx_reach("read");
        StringId from = sx_choose(0, 1, "whole") ? 0 : (StringId)(p.highest() + 1);
        for (int i = split; i < n; i++) add(p, r, name());
        p.write(s2.out(), from); q.read(s2.in()); agrees(q, r); sx_assert(q == p && s2.pos == s2.data.size(), "later strings are added"); if (from && r.s.size() > (size_t)split) sx_reach("increment");
        for (auto& x : r.s) sx_assert(q.get(x) == r.find(x), "strings are found after reading");
        std::string z = name(); add(p, r, z); Ref g = r; sx_assert(q.emplace(z) == r.find(z), "new strings get the same ids"); agrees(q, r);
        sx_observe_str(s1.data); sx_observe_str(s2.data);
    } else if (part == 1) {                     // close to the last id
        SxStream s; StringId last = (StringId)sx_choose(65530, 65534, "last"); unsigned char c[8] = {1, 0, (unsigned char)last, (unsigned char)(last >> 8), 2, 'z', 'z'};
        s.data.assign((char*)c, 7); p.read(s.in()); sx_assert(p.highest() == last && p.get("ZZ") == last, "read");
        std::vector<std::string> all{"zz"}; std::vector<StringId> ids{last}; bool failed = false;
        for (int i = 0; i < n; i++) {
            std::string x = sx_string(1, "string") + "1"; StringId known = p.get(x), id = 0; size_t sz = p.size(), by = p.bytes(); StringId hi = p.highest(); bool thrown = false;
            try { id = p.emplace(x); } catch (std::overflow_error&) { thrown = true; }
            if (thrown) { sx_reach("overflow"); failed = true; sx_assert(!known && p.size() == sz && p.highest() == hi && p.bytes() == by && !p.get(x), "a failed emplace changes nothing"); }
            else { sx_assert(known ? id == known : (!failed && id == hi + 1 && p.highest() == id), "ids increase"); if (!known) { all.push_back(x); ids.push_back(id); } }
            for (size_t k = 0; k < all.size(); k++) { auto y = p.resolve(ids[k]); sx_assert(y && sameText(all[k], *y) && p.get(all[k]) == ids[k], "strings stay"); }
            for (StringId k = 0; k < 4; k++) { auto y = p.resolve(k); sx_assert(y && sameText(kStatic[k], *y) && p.get(kStatic[k]) == k, "static strings stay"); }
            sx_observe(id);
        }
        SxStream o; p.write(o.out(), 65520); StringPool q; q.read(o.in()); sx_assert(q.highest() == p.highest(), "the pool can be written"); for (size_t k = 0; k < all.size(); k++) sx_assert(q.get(all[k]) == ids[k], "and read");
    } else if (part == 3) {                     // parts are read in any order, and repeatedly
        SxStream s[3]; StringPool q; int have = 0, cnt[3];
        for (int k = 0; k < 2; k++) { add(p, r, name()); p.write(s[k].out()); cnt[k] = (int)r.s.size(); }
        StringId tail = (StringId)sx_choose(128, 130, "from"); add(p, r, name()); p.write(s[2].out(), tail); cnt[2] = (int)r.s.size();
        bool got[3] = {}; int top = 127;
        for (int i = 0; i < n; i++) {
            int k = (int)sx_choose(0, 2, "part"); SxStream in; in.data = s[k].data; q.read(in.in()); sx_assert(in.pos == in.data.size(), "read");
            for (int j = k == 2 ? tail - 128 : 0; j < cnt[k]; j++) { got[j] = true; if (128 + j > top) top = 128 + j; }
            if (k < 2 && have == 2) sx_reach("older part later"); have = k; sx_assert(q.highest() == top, "the highest id");
        }
        auto same = [&](StringPool& x) { for (size_t j = 0; j < r.s.size(); j++) { auto y = x.resolve((StringId)(128 + j)); sx_assert(!!y == got[j] && (!y || sameText(r.s[j], *y)) && x.get(r.s[j]) == (got[j] ? 128 + j : 0), "exactly the strings read"); } };
        same(q); StringId id = q.emplace("zzz"); sx_assert(id == top + 1 && q.highest() == id && q.get("ZZZ") == id, "a new string gets a fresh id"); auto z = q.resolve(id); sx_assert(z && *z == "zzz", "and is resolved by it");
        for (size_t j = 0; j < r.s.size(); j++) if (got[j]) { auto y = q.resolve((StringId)(128 + j)); sx_assert(y && sameText(r.s[j], *y), "the strings read stay"); }
        sx_observe(id);
    } else {                                     // any bytes
        SxStream s; s.data = sx_string(n, "bytes"); bool ok = true; sx_assume(n < 1 || (unsigned char)s.data[0] <= 3); sx_assume(n < 2 || s.data[1] == 0); if (sx_param("SHORT", 0)) sx_assume((unsigned char)s.data[4] <= 3);
        add(p, r, "ab"); add(p, r, "c");
        try { p.read(s.in()); } catch (std::runtime_error& e) { ok = false; sx_assert(e.what()[0] != 0, "a message"); }
        sx_reach(ok ? "accepted" : "rejected"); sx_observe(ok); sx_observe(p.size());
        for (int i = 0; i < 2; i++) { auto x = p.resolve((StringId)(128 + i)); sx_assert(x && sameText(r.s[i], *x) && p.get(r.s[i]) == 128 + i, "existing strings stay"); }
    }
}
