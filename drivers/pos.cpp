// Instantiates the block-position adjustment of both storage layouts for every
// loop-unrolling and SIMD factor; the element API is declared but not defined.
#include <mdds/multi_type_vector.hpp>
#include <mdds/multi_type_vector/aos/main.hpp>
#include <mdds/multi_type_vector/soa/main.hpp>

namespace drv {

using mdds::mtv::base_element_block;
using mdds::mtv::element_t;
using mdds::mtv::lu_factor_t;

struct bf
{
    static base_element_block* create_new_block(element_t type, std::size_t init_size);
    static base_element_block* copy_block(const base_element_block& block);
    static base_element_block* clone_block(const base_element_block& block);
    static bool is_copyable(const base_element_block& block);
    static void delete_block(const base_element_block* p);
    static void resize_block(base_element_block& block, std::size_t new_size);
    static void print_block(const base_element_block& block);
    static void erase(base_element_block& block, std::size_t pos);
    static void erase(base_element_block& block, std::size_t pos, std::size_t size);
    static void append_block(base_element_block& dest, const base_element_block& src);
    static void append_values_from_block(base_element_block& dest, const base_element_block& src, std::size_t begin_pos, std::size_t len);
    static void assign_values_from_block(base_element_block& dest, const base_element_block& src, std::size_t begin_pos, std::size_t len);
    static void prepend_values_from_block(base_element_block& dest, const base_element_block& src, std::size_t begin_pos, std::size_t len);
    static void swap_values(base_element_block& blk1, base_element_block& blk2, std::size_t pos1, std::size_t pos2, std::size_t len);
    static bool equal_block(const base_element_block& left, const base_element_block& right);
    static void overwrite_values(base_element_block& block, std::size_t pos, std::size_t len);
    static void shrink_to_fit(base_element_block& block);
    static std::size_t size(const base_element_block& block);
};

template<lu_factor_t F>
struct traits : mdds::mtv::default_traits
{
    using block_funcs = bf;
    static constexpr lu_factor_t loop_unrolling = F;
};

template<typename C>
void touch(C& c, std::size_t p, std::size_t n)
{
    c.insert_empty(p, n);
}

#define SOA(f) template void touch(mdds::mtv::soa::multi_type_vector<traits<lu_factor_t::f>>&, std::size_t, std::size_t)
#define AOS(f) template void touch(mdds::mtv::aos::multi_type_vector<traits<lu_factor_t::f>>&, std::size_t, std::size_t)

SOA(none);
SOA(lu4);
SOA(lu8);
SOA(lu16);
SOA(lu32);
SOA(sse2_x64);
SOA(sse2_x64_lu4);
SOA(sse2_x64_lu8);
SOA(sse2_x64_lu16);
SOA(avx2_x64);
SOA(avx2_x64_lu4);
SOA(avx2_x64_lu8);
AOS(none);
AOS(lu4);
AOS(lu8);
AOS(lu16);
AOS(lu32);

} // namespace drv
