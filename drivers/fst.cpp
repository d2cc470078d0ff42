// Instantiates the whole public interface of mdds::flat_segment_tree with integer keys and an
// opaque value type, so that every copy, move and comparison of a value stays visible as a call.
#include <mdds/flat_segment_tree.hpp>

namespace drv {

struct V
{
    V();
    V(const V&);
    V(V&&) noexcept;
    ~V();
    V& operator=(const V&);
    V& operator=(V&&) noexcept;
    bool operator==(const V&) const;
    bool operator!=(const V&) const;
    long x;
};

using fst_t = mdds::flat_segment_tree<long, V>;
} // namespace drv

template class mdds::flat_segment_tree<long, drv::V>;

// iterator surface
namespace drv {
using it_t = fst_t::const_iterator;
using rit_t = fst_t::const_reverse_iterator;
using sit_t = fst_t::const_segment_iterator;
void drv_it_inc(it_t& it) { ++it; }
void drv_it_dec(it_t& it) { --it; }
bool drv_it_eq(const it_t& a, const it_t& b) { return a == b; }
void drv_it_assign(it_t& a, const it_t& b) { a = b; }
sit_t drv_it_to_segment(const it_t& it) { return it.to_segment(); }
long drv_it_key(it_t& it) { return (*it).first; }
void drv_it_val(it_t& it, V& v) { v = (*it).second; }
void drv_rit_inc(rit_t& it) { ++it; }
void drv_rit_dec(rit_t& it) { --it; }
long drv_rit_key(rit_t& it) { return (*it).first; }
void drv_rit_val(rit_t& it, V& v) { v = (*it).second; }
void drv_sit_inc(sit_t& it) { ++it; }
void drv_sit_dec(sit_t& it) { --it; }
void drv_sit_postinc(sit_t& it) { it++; }
void drv_sit_postdec(sit_t& it) { it--; }
bool drv_sit_eq(const sit_t& a, const sit_t& b) { return a == b; }
void drv_sit_assign(sit_t& a, const sit_t& b) { a = b; }
} // namespace drv
