// Building and searching the balanced trees of mdds::segment_tree and mdds::flat_segment_tree with integer keys.
#include <mdds/flat_segment_tree.hpp>
#include <mdds/segment_tree.hpp>

namespace drv {
using sg = mdds::segment_tree<long, long>;
using fs = mdds::flat_segment_tree<long, long>;

void g_build(sg& t) { t.build_tree(); }
sg::search_results g_search(const sg& t, long p) { return t.search(p); }
void g_insert(sg& t, long s, long e, long v) { t.insert(s, e, v); }
void g_erase(sg& t, const sg::search_results::const_iterator& p) { t.erase(p); }
size_t g_size(const sg& t) { return t.size(); }
bool g_empty(const sg& t) { return t.empty(); }
void g_clear(sg& t) { t.clear(); }
void g_swap(sg& a, sg& b) { a.swap(b); }
bool g_equal(const sg& a, const sg& b) { return a == b; }
size_t g_leaves(const sg& t) { return t.leaf_size(); }
bool g_res_empty(const sg::search_results& r) { return r.empty(); }
size_t g_res_size(const sg::search_results& r) { return r.size(); }
sg::search_results::const_iterator g_begin(const sg::search_results& r) { return r.begin(); }
sg::search_results::const_iterator g_end(const sg::search_results& r) { return r.end(); }
const auto* g_next(sg::search_results::const_iterator& i) { return ++i; }
const auto* g_prev(sg::search_results::const_iterator& i) { return --i; }

void f_build(fs& t) { t.build_tree(); }
fs::const_iterator f_search(const fs& t, long k) { return t.search_tree(k); }
std::pair<fs::const_iterator, bool> f_search2(const fs& t, long k, long& v, long* s, long* e) { return t.search_tree(k, v, s, e); }
size_t n_count(size_t n) { return mdds::st::detail::count_needed_nonleaf_nodes(n); }
} // namespace drv
