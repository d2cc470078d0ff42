// Instantiates the whole public interface of mdds::multi_type_matrix.  The members of the underlying
// store are kept as calls (they have properties of their own), so that what remains is how the matrix
// addresses the store.
#include <mdds/multi_type_matrix.hpp>

namespace drv {
using mtx = mdds::multi_type_matrix<mdds::mtm::std_string_traits>;
using node = mtx::element_block_node_type;
using spair = mtx::size_pair_type;

struct fn
{
    fn(const fn&);
    ~fn();
    void operator()(const node&);
    int x;
};
struct fn2
{
    fn2(const fn2&);
    ~fn2();
    void operator()(const node&, const node&);
    int x;
};
} // namespace drv

template class mdds::multi_type_matrix<mdds::mtm::std_string_traits>;

namespace drv {
void mtx_new_double(void* p, size_t r, size_t c, const double& v) { new (p) mtx(r, c, v); }
void mtx_new_string(void* p, size_t r, size_t c, const std::string& v) { new (p) mtx(r, c, v); }
void mtx_new_range(void* p, size_t r, size_t c, const double* const& b, const double* const& e) { new (p) mtx(r, c, b, e); }
double mtx_get_double(const mtx& m, size_t r, size_t c) { return m.get<double>(r, c); }
bool mtx_get_bool(const mtx& m, size_t r, size_t c) { return m.get<bool>(r, c); }
int mtx_get_int(const mtx& m, size_t r, size_t c) { return m.get<int>(r, c); }
void mtx_set_range(mtx& m, size_t r, size_t c, const double* const& b, const double* const& e) { m.set(r, c, b, e); }
mtx::position_type mtx_set_range_pos(mtx& m, const mtx::position_type& p, const double* const& b, const double* const& e) { return m.set(p, b, e); }
void mtx_set_column(mtx& m, size_t c, const double* const& b, const double* const& e) { m.set_column(c, b, e); }
void mtx_copy_range(mtx& m, size_t r, size_t c, const double* const& b, const double* const& e) { m.copy(r, c, b, e); }
void mtx_resize_value(mtx& m, size_t r, size_t c, const double& v) { m.resize(r, c, v); }
fn mtx_walk(const mtx& m, const fn& f) { return m.walk<fn>(f); }
fn mtx_walk_range(const mtx& m, const fn& f, const spair& a, const spair& b) { return m.walk<fn>(f, a, b); }
fn2 mtx_walk2(const mtx& m, const fn2& f, const mtx& r) { return m.walk<fn2>(f, r); }
fn2 mtx_walk2_range(const mtx& m, const fn2& f, const mtx& r, const spair& a, const spair& b) { return m.walk<fn2>(f, r, a, b); }
void mtx_move_assign(mtx& a, mtx& b) { a = std::move(b); }
void mtx_copy_assign(mtx& a, const mtx& b) { a = b; }
void mtx_move(void* p, mtx& b) { new (p) mtx(std::move(b)); }
bool mtx_eq(const mtx& a, const mtx& b) { return a == b; }
bool mtx_ne(const mtx& a, const mtx& b) { return !(a == b); }
} // namespace drv
