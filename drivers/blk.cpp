// Instantiates the element-block functions, their dispatcher and delayed_delete_vector for opaque element
// types.  Element operations stay calls; the members of std::vector stay calls as well.
//   -DDRV_DELAYED=0|1   stored in std::vector | mdds::mtv::delayed_delete_vector
#include <mdds/multi_type_vector.hpp>
#include <mdds/multi_type_vector/soa/main.hpp>
#include <mdds/multi_type_vector/aos/main.hpp>
#if DRV_DELAYED
#define DRV_STORE mdds::mtv::delayed_delete_vector
#else
#define DRV_STORE std::vector
#endif

namespace drv {

using mdds::mtv::base_element_block;
using mdds::mtv::element_t;

struct V
{
    V();
    V(const V&);
    V(V&&) noexcept;
    ~V();
    V& operator=(const V&);
    V& operator=(V&&) noexcept;
    bool operator==(const V&) const;
    char c;
};

// element of a managed block
struct O
{
    O(const O&);
    ~O();
    O& operator=(const O&);
    bool operator==(const O&) const;
    char c;
};

// element of a managed block that cannot be copied
struct N
{
    N(const N&) = delete;
    ~N();
    N& operator=(const N&) = delete;
    bool operator==(const N&) const;
    char c;
};

const element_t id_v = mdds::mtv::element_type_user_start;
const element_t id_o = id_v + 1;
const element_t id_n = id_v + 2;
using blk_v = mdds::mtv::default_element_block<id_v, V, DRV_STORE>;
using blk_o = mdds::mtv::managed_element_block<id_o, O, DRV_STORE>;
using blk_n = mdds::mtv::noncopyable_managed_element_block<id_n, N, DRV_STORE>;

MDDS_MTV_DEFINE_ELEMENT_CALLBACKS(V, id_v, V(), blk_v)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(O, id_o, nullptr, blk_o)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(N, id_n, nullptr, blk_n)

using funcs = mdds::mtv::element_block_funcs<blk_v, blk_o, blk_n>;
} // namespace drv

namespace mdds { namespace mtv {
// how elements of N are cloned
template<>
struct clone_value<drv::N*>
{
    drv::N* operator()(const drv::N* p);
};
}} // namespace mdds::mtv

template struct mdds::mtv::element_block_funcs<drv::blk_v, drv::blk_o, drv::blk_n>;

namespace drv {
using VI = const V*;
using OI = O* const*;
using NI = N* const*;
#define CALLBACKS(T, A, I, TAG) \
    void blk_##TAG##_set_value(base_element_block& b, size_t p, const T& v) { mdds_mtv_set_value(b, p, A v); } \
    void blk_##TAG##_get_value(const base_element_block& b, size_t p, T& v) { mdds_mtv_get_value(b, p, v); } \
    void blk_##TAG##_append_value(base_element_block& b, const T& v) { mdds_mtv_append_value(b, A v); } \
    void blk_##TAG##_prepend_value(base_element_block& b, const T& v) { mdds_mtv_prepend_value(b, A v); } \
    void blk_##TAG##_set_values(base_element_block& b, size_t p, const T& v, const I& i, const I& e) { mdds_mtv_set_values(b, p, v, i, e); } \
    void blk_##TAG##_prepend_values(base_element_block& b, const T& v, const I& i, const I& e) { mdds_mtv_prepend_values(b, v, i, e); } \
    void blk_##TAG##_append_values(base_element_block& b, const T& v, const I& i, const I& e) { mdds_mtv_append_values(b, v, i, e); } \
    void blk_##TAG##_assign_values(base_element_block& b, const T& v, const I& i, const I& e) { mdds_mtv_assign_values(b, v, i, e); } \
    void blk_##TAG##_insert_values(base_element_block& b, size_t p, const T& v, const I& i, const I& e) { mdds_mtv_insert_values(b, p, v, i, e); } \
    base_element_block* blk_##TAG##_create_value(size_t n, const T& v) { return mdds_mtv_create_new_block(n, A v); } \
    base_element_block* blk_##TAG##_create_values(const T& v, const I& i, const I& e) { return mdds_mtv_create_new_block(v, i, e); }

using OP = O*;
using NP = N*;
CALLBACKS(V, , VI, V)
CALLBACKS(OP, , OI, O)
CALLBACKS(NP, , NI, N)

void blk_V_emplace_back_value(base_element_block& b, const V& v) { mdds_mtv_emplace_back_value(b, v, v); }

// direct access used by the containers' users and by multi_type_matrix
const V& blk_at(const base_element_block& b, size_t p) { return blk_v::at(b, p); }
} // namespace drv
