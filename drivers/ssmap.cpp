// Lookups of mdds::sorted_string_map in both directions, with both key finders.
#include <new>
#include <string_view>
#include <span>
#include <unordered_map>
#include <mdds/sorted_string_map.hpp>

namespace drv {
using map = mdds::sorted_string_map<long>;
using hmap = mdds::sorted_string_map<long, mdds::ssmap::hash_key_finder>;
using ent = map::entry_type;

const long& s_find(const map& m, std::string_view in) { return m.find(in); }
const long& s_find2(const map& m, const char* p, size_t n) { return m.find(p, n); }
std::string_view s_key(const map& m, const long& v) { return m.find_key(v); }
size_t s_size(const map& m) { return m.size(); }
void s_make(map* p, const ent* e, size_t n, long null) { new (p) map(std::span<const ent>(e, n), null); }
void s_hmake(hmap* p, const ent* e, size_t n, long null) { new (p) hmap(std::span<const ent>(e, n), null); }
std::string_view s_hkey(const hmap& m, const long& v) { return m.find_key(v); }
} // namespace drv
