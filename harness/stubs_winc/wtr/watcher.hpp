// What watcher-c.cpp uses of the C++ watcher, with paths of 16 bit characters as on Windows.
#pragma once
#include <functional>
#include <memory>
#include <vector>
namespace wtr { inline namespace watcher {
struct wide_path { std::vector<wchar_t> units; wide_path() : units(1, 0) {} wide_path(wchar_t const* p, size_t n) : units(p, p + n) { units.push_back(0); } wchar_t const* c_str() const { return units.data(); } };
struct event {
  enum class effect_type { rename, modify, create, destroy, owner, other }; enum class path_type { dir, file, hard_link, sym_link, watcher, other };
  wide_path path_name; enum effect_type effect_type; enum path_type path_type; long long effect_time; std::unique_ptr<event> associated;
  event(wide_path const& p, enum effect_type e, enum path_type t, long long at) : path_name(p), effect_type(e), path_type(t), effect_time(at) {}
  event(event const& o) : path_name(o.path_name), effect_type(o.effect_type), path_type(o.path_type), effect_time(o.effect_time), associated(o.associated ? std::make_unique<event>(*o.associated) : nullptr) {}
  using callback = std::function<void(event const&)>; };
struct watch { event::callback cb; static watch* last; watch(char const*, event::callback const& c) : cb(c) { last = this; } bool close() { return true; } };
inline watch* watch::last = nullptr; } }
