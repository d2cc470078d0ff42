// Instantiates the whole public interface of mdds::multi_type_vector with an
// opaque element API: every element-block operation and every event handler is
// declared but not defined, so that each of them stays visible as a call.
//   -DDRV_LAYOUT=aos|soa   -DDRV_COW=0|1
#include <mdds/multi_type_vector.hpp>
#include <mdds/multi_type_vector/aos/main.hpp>
#include <mdds/multi_type_vector/soa/main.hpp>

namespace drv {

using mdds::mtv::base_element_block;
using mdds::mtv::element_t;

struct V
{
    V();
    V(const V&);
    ~V();
    V& operator=(const V&);
    int x;
};

element_t mdds_mtv_get_element_type(const V&);
void mdds_mtv_get_empty_value(V& val);
void mdds_mtv_set_value(base_element_block& block, size_t pos, const V& val);
void mdds_mtv_get_value(const base_element_block& block, size_t pos, V& val);
void mdds_mtv_set_values(base_element_block& block, size_t pos, const V&, const V* const& b, const V* const& e);
void mdds_mtv_append_value(base_element_block& block, const V& val);
template<typename... Args>
void mdds_mtv_emplace_back_value(base_element_block& block, const V&, Args&&... args);
void mdds_mtv_prepend_value(base_element_block& block, const V& val);
void mdds_mtv_prepend_values(base_element_block& block, const V&, const V* const& b, const V* const& e);
void mdds_mtv_append_values(base_element_block& block, const V&, const V* const& b, const V* const& e);
void mdds_mtv_assign_values(base_element_block& block, const V&, const V* const& b, const V* const& e);
void mdds_mtv_insert_values(base_element_block& block, size_t pos, const V&, const V* const& b, const V* const& e);
base_element_block* mdds_mtv_create_new_block(size_t init_size, const V& val);
base_element_block* mdds_mtv_create_new_block(const V&, const V* const& b, const V* const& e);

struct ev
{
    ev() noexcept;
    ev(const ev&);
    ev(ev&&) noexcept;
    ~ev();
    ev& operator=(const ev&);
    ev& operator=(ev&&) noexcept;
    void element_block_acquired(const base_element_block*);
    void element_block_released(const base_element_block*);
    int state;
};

struct bf
{
    static base_element_block* create_new_block(element_t type, std::size_t init_size);
    static base_element_block* copy_block(const base_element_block& block);
    static base_element_block* clone_block(const base_element_block& block);
    static bool is_copyable(const base_element_block& block);
    static void delete_block(const base_element_block* p);
    static void resize_block(base_element_block& block, std::size_t new_size);
    static void print_block(const base_element_block& block);
    static void erase(base_element_block& block, std::size_t pos);
    static void erase(base_element_block& block, std::size_t pos, std::size_t size);
    static void append_block(base_element_block& dest, const base_element_block& src);
    static void append_values_from_block(base_element_block& dest, const base_element_block& src, std::size_t begin_pos, std::size_t len);
    static void assign_values_from_block(base_element_block& dest, const base_element_block& src, std::size_t begin_pos, std::size_t len);
    static void prepend_values_from_block(base_element_block& dest, const base_element_block& src, std::size_t begin_pos, std::size_t len);
    static void swap_values(base_element_block& blk1, base_element_block& blk2, std::size_t pos1, std::size_t pos2, std::size_t len);
    static bool equal_block(const base_element_block& left, const base_element_block& right);
    static void overwrite_values(base_element_block& block, std::size_t pos, std::size_t len);
    static void shrink_to_fit(base_element_block& block);
    static std::size_t size(const base_element_block& block);
};

struct traits : mdds::mtv::default_traits
{
    using event_func = ev;
    using block_funcs = bf;
    static constexpr bool enable_cow = DRV_COW;
    static constexpr mdds::mtv::lu_factor_t loop_unrolling = mdds::mtv::lu_factor_t::none;
};

using mtv_t = mdds::mtv::DRV_LAYOUT::multi_type_vector<traits>;
using V2 = const V*;

} // namespace drv

template class mdds::mtv::DRV_LAYOUT::multi_type_vector<drv::traits>;

#define I template drv::mtv_t::iterator drv::mtv_t::
using drv::V;
using drv::V2;
using size_type = drv::mtv_t::size_type;
using iter = drv::mtv_t::iterator;

template drv::mtv_t::multi_type_vector(size_type, const V&);
template drv::mtv_t::multi_type_vector(size_type, const V2&, const V2&);
I set<V>(size_type, const V&);
I set<V>(const iter&, size_type, const V&);
I set<V2>(size_type, const V2&, const V2&);
I set<V2>(const iter&, size_type, const V2&, const V2&);
I push_back<const V&>(const V&);
I insert<V2>(size_type, const V2&, const V2&);
I insert<V2>(const iter&, size_type, const V2&, const V2&);
template void drv::mtv_t::get<V>(size_type, V&) const;
template V drv::mtv_t::get<V>(size_type) const;
template V drv::mtv_t::release<V>(size_type);
I release<V>(size_type, V&);
I release<V>(const iter&, size_type, V&);
I emplace_back<V, int>(int&&);

// iterator surface
namespace drv {
#define ITER(name, type) \
    void drv_##name##_inc(type& it) { ++it; } \
    void drv_##name##_dec(type& it) { --it; } \
    bool drv_##name##_eq(const type& a, const type& b) { return a == b; } \
    void drv_##name##_assign(type& a, const type& b) { a = b; } \
    void drv_##name##_swap(type& a, type& b) { a.swap(b); }
ITER(iterator, mtv_t::iterator)
ITER(const_iterator, mtv_t::const_iterator)
ITER(reverse_iterator, mtv_t::reverse_iterator)
ITER(const_reverse_iterator, mtv_t::const_reverse_iterator)
mtv_t::const_iterator drv_const_from_mutable(const mtv_t::iterator& it) { return it; }
} // namespace drv
