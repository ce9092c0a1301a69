// Not a property of the watcher: the library models against the real library, by replay (tools/selftest.sh).
#include "../model/sx.h"
#include <filesystem>
#include <string>
namespace fs = std::filesystem;
static std::string text(int max) { std::string s; int n = (int)sx_choose(max + 1, "length"); for (int i = 0; i < n; i++) s += "/.a"[sx_choose(3, "character")]; return s; }
static void say(char const* tag, fs::path const& p) { uint64_t h = p.native().size(); for (char c : p.native()) h = h * 251 + (unsigned char)c; sx_observe(tag, h); }
extern "C" void sx_main() {
  fs::path p = text(sx_param("n", 4)), q = text(sx_param("m", 0));
  say("normal", p.lexically_normal()); say("filename", p.filename()); say("stem", p.stem()); say("extension", p.extension()); say("parent", p.parent_path()); say("relative", p.relative_path()); say("root", p.root_path());
  for (auto& c : p) say("component", c); int n = 0; for (auto i = p.end(); i != p.begin();) { --i; n = n * 7 + (int)i->native().size(); } sx_observe("backwards", n);
  sx_observe("has", p.has_filename() | p.has_stem() << 1 | p.has_extension() << 2 | p.has_parent_path() << 3 | p.has_relative_path() << 4 | p.is_absolute() << 5);
  fs::path r = p; r.replace_extension("x"); say("rext", r); r = p; if (r.has_filename()) { r.replace_filename(q); say("rname", r); } r = p; r.remove_filename(); say("rmname", r); r = p / q; say("join", r); for (auto& c : r) if (!c.is_absolute()) say("component", c); r = p; r += q; say("concat", r);
  say("lexrel", p.lexically_relative(q)); say("lexprox", p.lexically_proximate(q)); int c = p.compare(q); sx_observe("compare", c < 0 ? 2 : c > 0); sx_check(true, "model:done");
}
