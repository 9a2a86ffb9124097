// ArrayArena: written and read back, or read from arbitrary bytes.
#include "sx.h"
#include "simfil/model/bitsery-traits.h"
#include <vector>
using namespace simfil;
using Arena = ArrayArena<int64_t, 4, 2>;
static void large(size_t n) {             // sizes that need more than 16 bits
    Arena a; a.new_array(1); a.new_array(0); a.push_back(1, 9); int64_t v = sx_i64("value"); size_t at = n - sx_choose(1, 2, "before the end"); for (size_t i = 0; i < n; i++) a.push_back(0, i == at ? v : (int64_t)(i * 3));
    SxStream st; { bitsery::Serializer<bitsery::OutputStreamAdapter> s(st.out()); s.object(a); } Arena b; { bitsery::Deserializer<bitsery::InputStreamAdapter> s(st.in()); s.object(b); sx_assert(s.adapter().error() == bitsery::ReaderError::NoError, "reading succeeds"); }
    sx_reach("large"); sx_assert(b.size() == 2 && b.size(0) == n && b.size(1) == 1 && b.at(1, 0) == 9, "as many elements"); for (size_t i = 0; i < n; i++) sx_assert(b.at(0, i) == (i == at ? v : (int64_t)(i * 3)), "same elements in order"); sx_observe(v);
}
void sx_main() {
    if (sx_param("LARGE", 0)) return large((size_t)sx_param("LARGE", 0));
    int n = (int)sx_param("N", 6), arrays = (int)sx_param("K", 2);
    Arena a; std::vector<std::vector<int64_t>> ref(arrays);
    for (int k = 0; k < arrays; k++) a.new_array(sx_choose(0, 2, "capacity"));
    for (int s = 0; s < n; s++) { size_t i = sx_choose(0, arrays, "array"); if (i == (size_t)arrays) break; int64_t v = sx_i64("value"); a.push_back((ArrayIndex)i, v); ref[i].push_back(v); }
    SxStream st; { bitsery::Serializer<bitsery::OutputStreamAdapter> s(st.out()); s.object(a); }
    Arena b; if (sx_param("USED", 0)) { b.new_array(1); b.push_back(0, 5); }
    size_t base = 0;
    { bitsery::Deserializer<bitsery::InputStreamAdapter> s(st.in()); s.object(b); sx_assert(s.adapter().error() == bitsery::ReaderError::NoError, "reading succeeds"); }
    sx_assert(st.pos == st.data.size(), "everything is read"); sx_assert(b.size() == base + arrays, "the arrays are replaced"); sx_reach("read");
    if (sx_param("USED", 0)) sx_reach("replaced");
    for (int k = 0; k < arrays; k++) { sx_assert(b.size(base + k) == ref[k].size(), "as many elements"); for (size_t i = 0; i < ref[k].size(); i++) sx_assert(b.at(base + k, i) == ref[k][i], "same elements in order"); }
    int64_t more = sx_i64("more"); for (int k = 0; k < arrays; k++) { b.push_back(base + k, more); b.push_back(base + k, k); sx_assert(b.size(base + k) == ref[k].size() + 2 && b.at(base + k, ref[k].size()) == more && b.at(base + k, ref[k].size() + 1) == k, "arrays can be extended after reading"); }
    for (int k = 0; k < arrays; k++) for (size_t i = 0; i < ref[k].size(); i++) sx_assert(b.at(base + k, i) == ref[k][i] && a.at(k, i) == ref[k][i], "without changing others");
    for (auto& r : ref) for (auto x : r) sx_observe((uint64_t)x);
}
