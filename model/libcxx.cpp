// libstdc++'s out-of-line parts as seen by the symbolic executor (engine build only;
// the native replay of every reported or sampled path uses the real library).
#include <string>
#include <filesystem>
#include <system_error>
#include <unordered_map>
#include <functional>
#include <list>
#include <map>
#include <future>
extern "C" { void sx_violate(char const*, char const*); void sx_unmodelled(char const*); void sx_end_path(void); }
template class std::basic_string<char>;
template class std::basic_string<wchar_t>;
namespace std {
#define THROWS(sig, what) void sig { sx_violate("*:throw-" what, "an exception (" what ") escapes"); for (;;) {} }
THROWS(__throw_length_error(char const*), "length_error")
THROWS(__throw_logic_error(char const*), "logic_error")
THROWS(__throw_out_of_range(char const*), "out_of_range")
THROWS(__throw_out_of_range_fmt(char const*, ...), "out_of_range")
THROWS(__throw_invalid_argument(char const*), "invalid_argument")
THROWS(__throw_bad_alloc(), "bad_alloc")
THROWS(__throw_bad_array_new_length(), "bad_array_new_length")
THROWS(__throw_bad_function_call(), "bad_function_call")
THROWS(__throw_bad_optional_access(), "bad_optional_access")
THROWS(__throw_system_error(int), "system_error")
THROWS(__throw_future_error(int), "future_error")
THROWS(__throw_bad_cast(), "bad_cast")
THROWS(__throw_runtime_error(char const*), "runtime_error")
THROWS(__throw_bad_variant_access(unsigned), "bad_variant_access")
THROWS(__throw_ios_failure(char const*), "ios_failure")
void __glibcxx_assert_fail(char const*, int, char const*, char const*) noexcept { sx_violate("*:glibcxx-assert", "a libstdc++ assertion fails"); for (;;) {} }
// one bucket: hash tables behave as lists; every operation keeps its meaning
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t) const { return 1; }

pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t, size_t, size_t) const { return {false, 0}; }
// doubly linked lists
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept { sx_unmodelled("list swap"); }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; _List_node_base* t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
}
// an unbalanced search tree with std::map's interface
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { auto* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
_Rb_tree_node_base const* _Rb_tree_increment(_Rb_tree_node_base const* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { auto* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { auto* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
_Rb_tree_node_base const* _Rb_tree_decrement(_Rb_tree_node_base const* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(bool const left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() { x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black; if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base* r; // replacement
  if (z->_M_left && z->_M_right) { auto* y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y != z->_M_right) { y->_M_parent->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = y->_M_parent; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } y->_M_left = z->_M_left; z->_M_left->_M_parent = y; r = y; } else r = z->_M_left ? z->_M_left : z->_M_right;
  if (r) r->_M_parent = z->_M_parent; if (h._M_parent == z) h._M_parent = r; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = r; else z->_M_parent->_M_right = r;
  if (!h._M_parent) { h._M_left = h._M_right = &h; } else { auto* a = h._M_parent; while (a->_M_left) a = a->_M_left; h._M_left = a; a = h._M_parent; while (a->_M_right) a = a->_M_right; h._M_right = a; } return z; }
size_t _Hash_bytes(void const* p, size_t n, size_t seed) { return 0; }
size_t _Fnv_hash_bytes(void const* p, size_t n, size_t seed) { return 0; }
// error categories: compared by address only
struct sx_cat : error_category { char const* name() const noexcept override { return "c"; } string message(int) const override { return string(); } };
error_category::~error_category() {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, error_condition const& c) const noexcept { return false; }
bool error_category::equivalent(error_code const& c, int i) const noexcept { return false; }
#if _GLIBCXX_USE_CXX11_ABI
__cow_string error_category::_M_message(int) const { sx_unmodelled("error message"); for (;;) {} }
#endif
static sx_cat& sxcat(int i) { alignas(sx_cat) static char a[2][sizeof(sx_cat)]; static bool d[2]; if (!d[i]) { new (a[i]) sx_cat; d[i] = true; } return *(sx_cat*)a[i]; }
inline namespace _V2 { error_category const& system_category() noexcept { return sxcat(0); } error_category const& generic_category() noexcept { return sxcat(1); } }
string error_code_dummy;
namespace filesystem { inline namespace __cxx11 {
// The list of components is made when it is asked for and dropped when the text changes; until then the
// type is _Multi, with which the inline members ask the list.
struct path::_List::_Impl { int n; _Cmpt c[1]; };
static path::_List::_Impl* sxnotype(path::_List::_Impl* p) { return (path::_List::_Impl*)((uintptr_t)p & ~(uintptr_t)3); }
path::_Cmpt::_Cmpt(basic_string_view<value_type> s, _Type t, size_t pos) : _M_pos(pos) { _M_pathname = s; _M_cmpts.type(t); }
path::_List::_List() {}
path::_List::_List(_List const& o) {}
path::_List& path::_List::operator=(_List const& o) { if (this != &o) clear(); return *this; }
void path::_List::_Impl_deleter::operator()(_Impl* p) const noexcept { if ((uintptr_t)p & 3) return; for (int i = 0; i < p->n; i++) p->c[i].~_Cmpt(); ::operator delete(p); }
void path::_List::type(_Type t) noexcept { auto* p = _M_impl.release(); if (p && !((uintptr_t)p & 3)) _Impl_deleter()(p); _M_impl.reset((_Impl*)(uintptr_t)(unsigned char)t); }
void path::_List::clear() { type(_Type::_Multi); }
static path::_List::_Impl* sxlist(path::_List const* l) {
  if (l->_M_impl) return l->_M_impl.get(); path const& p = *(path const*)((char const*)l - offsetof(path, _M_cmpts)); std::string const& s = p._M_pathname; struct C { size_t b, e; } cs[64]; int n = 0; size_t i = 0;
  if (!s.empty() && s[0] == '/') { while (i < s.size() && s[i] == '/') i++; cs[n++] = C{0, i == s.size() ? i : 1}; }
  while (i < s.size()) { size_t b = i; while (i < s.size() && s[i] != '/') i++; if (n > 62) sx_unmodelled("a long path"); cs[n++] = C{b, i}; if (i < s.size()) { while (i < s.size() && s[i] == '/') i++; if (i == s.size()) cs[n++] = C{i, i}; } }
  auto* r = (path::_List::_Impl*)::operator new(sizeof(path::_List::_Impl) + n * sizeof(path::_Cmpt)); r->n = n; bool root = !s.empty() && s[0] == '/';
  for (int k = 0; k < n; k++) new (&r->c[k]) path::_Cmpt(basic_string_view<char>(s.data() + cs[k].b, cs[k].e - cs[k].b), root && !k ? path::_Type::_Root_dir : path::_Type::_Filename, cs[k].b);
  const_cast<path::_List*>(l)->_M_impl.reset(r); return r; }
path::_List::const_iterator path::_List::begin() const noexcept { return sxlist(this)->c; }
path::_List::const_iterator path::_List::end() const noexcept { auto* p = sxlist(this); return p->c + p->n; }
void path::_M_split_cmpts() { _M_cmpts.clear(); }
path& path::operator=(path const& p) { if (this != &p) { _M_pathname = p._M_pathname; _M_cmpts.clear(); } return *this; }
path& path::operator/=(path const& p) { if (&p == this) { std::string t = p._M_pathname; _M_append(t); } else _M_append(p._M_pathname); return *this; }
void path::_M_append(basic_string_view<char> p) { _M_cmpts.clear(); if (!p.empty() && p[0] == '/') { _M_pathname = p; return; } if (!_M_pathname.empty() && _M_pathname.back() != '/') _M_pathname += '/'; _M_pathname += p; }
path& path::operator+=(path const& p) { if (&p == this) { std::string t = p._M_pathname; _M_concat(t); } else _M_concat(p._M_pathname); return *this; }
void path::_M_concat(basic_string_view<char> p) { _M_cmpts.clear(); _M_pathname += p; }
bool path::has_relative_path() const noexcept { return _M_pathname.find_first_not_of('/') != string::npos; }
path path::relative_path() const { auto i = _M_pathname.find_first_not_of('/'); return i == string::npos ? path() : path(_M_pathname.substr(i)); }
path& path::replace_filename(path const& r) { remove_filename(); return operator/=(r); }
static bool sxdots(string_view s, size_t n) { if (s.size() != n) return false; for (size_t i = 0; i < n; i++) if (s[i] != '.') return false; return true; }
std::pair<std::string const*, size_t> path::_M_find_extension() const noexcept {
  std::string const* s = nullptr; if (_M_type() == _Type::_Filename) s = &_M_pathname; else if (_M_type() == _Type::_Multi && !_M_pathname.empty()) { auto* l = sxlist(&_M_cmpts); if (l->n && l->c[l->n - 1]._M_type() == _Type::_Filename) s = &l->c[l->n - 1]._M_pathname; }
  if (s) { if (size_t n = s->size()) { if (sxdots(*s, 1) || sxdots(*s, 2)) return {s, string::npos}; size_t e = s->rfind('.'); if (e == 0) e = string::npos; return {s, e}; } } return {}; }
path& path::replace_extension(path const& r) {
  auto ext = _M_find_extension(); if (ext.first && ext.second != string::npos) _M_pathname.resize(_M_pathname.size() - (ext.first->size() - ext.second));
  _M_cmpts.clear(); std::string t = r._M_pathname; if (!t.empty() && t[0] != '.') _M_pathname += '.'; return operator+=(path(t)); }
path path::lexically_normal() const {
  if (!has_relative_path()) return *this; bool root = has_root_directory(), dir = false; std::string out; if (root) out = "/"; size_t base = out.size(); size_t depth = 0; // depth: names which a ".." can remove
  auto* l = sxlist(&_M_cmpts); for (int k = root; k < l->n; k++) { std::string const& c = l->c[k]._M_pathname; dir = false;
    if (c.empty() || sxdots(c, 1)) { dir = true; continue; }
    if (sxdots(c, 2)) { if (depth) { depth--; auto i = out.rfind('/', out.size() - 1); out.resize(i == string::npos || i + 1 <= base ? base : i); dir = true; } else if (!root) { if (out.size() > base) out += '/'; out += ".."; } else dir = true; continue; }
    if (out.size() > base) out += '/'; out += c; depth++; }
  bool dd = !depth && out.size() >= base + 2 && sxdots(string_view(out).substr(out.size() - 2), 2) && (out.size() == base + 2 || out[out.size() - 3] == '/');
  if (dir && out.size() > base && !dd) out += '/'; if (out.empty()) out = "."; return path(out); }
path path::lexically_relative(path const& b) const {
  if (is_absolute() != b.is_absolute()) return path(); auto* x = sxlist(&_M_cmpts); auto* y = sxlist(&b._M_cmpts); int i = 0, j = 0; while (i < x->n && j < y->n && ((x->c[i]._M_type() == _Type::_Root_dir && y->c[j]._M_type() == _Type::_Root_dir) || x->c[i]._M_pathname == y->c[j]._M_pathname)) i++, j++;
  if (i == x->n && j == y->n) return path("."); int n = 0; for (int k = j; k < y->n; k++) { std::string const& c = y->c[k]._M_pathname; if (sxdots(c, 2)) n--; else if (!c.empty() && !sxdots(c, 1)) n++; }
  if (n == 0 && (i == x->n || x->c[i]._M_pathname.empty())) return path("."); path r; if (n < 0) return r; for (; n > 0; n--) r /= path(".."); for (; i < x->n; i++) r /= x->c[i]; return r; }
path path::lexically_proximate(path const& b) const { path r = lexically_relative(b); return r.empty() ? *this : r; }
size_t hash_value(path const& p) noexcept { return 0; }
// lexicographic comparison of the component sequences
static int sxcmp(string_view a, string_view b) {
  bool ra = !a.empty() && a[0] == '/', rb = !b.empty() && b[0] == '/'; if (ra != rb) return ra ? 1 : -1;
  size_t i = 0, j = 0; while (i < a.size() && a[i] == '/') i++; while (j < b.size() && b[j] == '/') j++;
  for (;;) { bool ea = i >= a.size(), eb = j >= b.size();
    if (ea || eb) { // a trailing slash yields a final empty component
      bool ta = ea && i > 0 && a.size() > 0 && a[a.size() - 1] == '/' && a.find_first_not_of('/') != string_view::npos, tb = eb && j > 0 && b.size() > 0 && b[b.size() - 1] == '/' && b.find_first_not_of('/') != string_view::npos;
      if (ea && eb) return ta == tb ? 0 : ta ? 1 : -1; if (ea) return -1; return 1; }
    size_t ie = i, je = j; while (ie < a.size() && a[ie] != '/') ie++; while (je < b.size() && b[je] != '/') je++;
    string_view x = a.substr(i, ie - i), y = b.substr(j, je - j); if (int c = x.compare(y)) return c; i = ie; j = je; while (i < a.size() && a[i] == '/') i++; while (j < b.size() && b[j] == '/') j++; } }
int path::compare(path const& p) const noexcept { return sxcmp(_M_pathname, p._M_pathname); }
int path::compare(basic_string_view<char> p) const noexcept { return sxcmp(_M_pathname, p); }
bool path::has_root_directory() const noexcept { return !_M_pathname.empty() && _M_pathname[0] == '/'; }
bool path::has_root_path() const noexcept { return !_M_pathname.empty() && _M_pathname[0] == '/'; }
bool path::has_root_name() const noexcept { return false; }
bool path::has_filename() const noexcept { return !_M_pathname.empty() && _M_pathname.back() != '/'; }
bool path::has_parent_path() const noexcept { return _M_pathname.find('/') != string::npos; }
path path::root_path() const { return has_root_directory() ? path("/") : path(); }
path path::root_directory() const { return has_root_directory() ? path("/") : path(); }
path path::root_name() const { return path(); }
path path::parent_path() const { auto& s = _M_pathname; if (!has_relative_path()) return *this; size_t e = s.size(); while (e && s[e - 1] != '/') e--; // after last slash
  while (e > 1 && s[e - 1] == '/') e--; if (e == 1 && s[0] != '/') e = 1; return path(s.substr(0, e)); }
path& path::remove_filename() { _M_cmpts.clear(); auto i = _M_pathname.rfind('/'); _M_pathname.resize(i == string::npos ? 0 : i + 1); return *this; }
} } }
// converters of wide paths: made and unmade, the harness converts
extern "C" void _ZNSt7codecvtIwc11__mbstate_tEC2Em(void*, unsigned long) {}
extern "C" void _ZNSt25__codecvt_utf8_utf16_baseIwED2Ev(void*) {}
