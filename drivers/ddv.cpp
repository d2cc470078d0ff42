// Instantiates delayed_delete_vector for an opaque element type; the members of std::vector stay calls.
#include <mdds/multi_type_vector/types.hpp>
#include <utility>

namespace drv {

struct V
{
    V();
    V(const V&);
    V(V&&) noexcept;
    ~V();
    V& operator=(const V&);
    V& operator=(V&&) noexcept;
    bool operator==(const V&) const;
    char c;
};

using ddv = mdds::mtv::delayed_delete_vector<V>;
using VI = const V*;

const V* ddv_begin(ddv& d) { return &*d.begin(); }
const V* ddv_begin(const ddv& d) { return &*d.begin(); }
const V* ddv_end(ddv& d) { return &*d.end(); }
const V* ddv_end(const ddv& d) { return &*d.end(); }
const V* ddv_rbegin(ddv& d) { return &*d.rbegin().base(); }
const V* ddv_rbegin(const ddv& d) { return &*d.rbegin().base(); }
const V* ddv_rend(ddv& d) { return &*d.rend().base(); }
const V* ddv_rend(const ddv& d) { return &*d.rend().base(); }
const V* ddv_data(ddv& d) { return d.data(); }
const V* ddv_data(const ddv& d) { return d.data(); }
const V* ddv_index(ddv& d, size_t p) { return &d[p]; }
const V* ddv_index(const ddv& d, size_t p) { return &d[p]; }
const V* ddv_at(ddv& d, size_t p) { return &d.at(p); }
const V* ddv_at(const ddv& d, size_t p) { return &d.at(p); }
size_t ddv_size(const ddv& d) { return d.size(); }
void ddv_push_back(ddv& d, const V& v) { d.push_back(v); }
void ddv_push_back_move(ddv& d, V& v) { d.push_back(std::move(v)); }
void ddv_emplace_back(ddv& d, const V& v) { d.emplace_back(v); }
void ddv_swap(ddv& d, ddv& o) { d.swap(o); }
const V* ddv_insert(ddv& d, size_t p, const V& v) { return &*d.insert(d.begin() + p, v); }
const V* ddv_insert_move(ddv& d, size_t p, V& v) { return &*d.insert(ddv::const_iterator(d.begin() + p), std::move(v)); }
void ddv_insert_range(ddv& d, size_t p, const VI& i, const VI& e) { d.insert(d.begin() + p, i, e); }
void ddv_assign(ddv& d, const VI& i, const VI& e) { d.assign(i, e); }
void ddv_resize(ddv& d, size_t n) { d.resize(n); }
void ddv_reserve(ddv& d, size_t n) { d.reserve(n); }
void ddv_shrink_to_fit(ddv& d) { d.shrink_to_fit(); }
const V* ddv_erase(ddv& d, size_t p) { return &*d.erase(d.begin() + p); }
const V* ddv_erase_range(ddv& d, size_t p, size_t n) { return &*d.erase(d.begin() + p, d.begin() + p + n); }
bool ddv_equal(const ddv& a, const ddv& b) { return a == b; }
ddv* ddv_new() { return new ddv(); }
ddv* ddv_new_size(size_t n) { return new ddv(n); }
ddv* ddv_new_value(size_t n, const V& v) { return new ddv(n, v); }
ddv* ddv_new_range(const VI& i, const VI& e) { return new ddv(i, e); }
ddv* ddv_copy(const ddv& d) { return new ddv(d); }
ddv* ddv_move(ddv& d) { return new ddv(std::move(d)); }
void ddv_copy_assign(ddv& d, const ddv& o) { d = o; }
void ddv_move_assign(ddv& d, ddv& o) { d = std::move(o); }

} // namespace drv
