// Insertion, lookup and region search of mdds::point_quad_tree with integer coordinates.
#include <algorithm>
#include <vector>
#include <mdds/point_quad_tree.hpp>

namespace drv {
using qt = mdds::point_quad_tree<long, long>;

void q_insert(qt& t, long x, long y, long v) { t.insert(x, y, v); }
long q_find(const qt& t, long x, long y) { return t.find(x, y); }
void q_search(const qt& t, long x1, long y1, long x2, long y2, std::vector<long>& out) { t.search_region(x1, y1, x2, y2, out); }
qt::search_results q_search2(const qt& t, long x1, long y1, long x2, long y2) { return t.search_region(x1, y1, x2, y2); }
size_t q_size(const qt& t) { return t.size(); }
bool q_empty(const qt& t) { return t.empty(); }
void q_swap(qt& a, qt& b) { a.swap(b); }
void q_clear(qt& a) { a.clear(); }
void q_assign(qt& a, const qt& b) { a = b; }
bool q_equal(const qt& a, const qt& b) { return a == b; }
} // namespace drv
