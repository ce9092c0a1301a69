#include "world.hpp"
static int n_ev = 0; static char buf[256];
extern "C" void sx_main() {
  W::add("/w", DT_DIR); W::add("/w/a", DT_DIR); W::add("/w/a/b", DT_DIR); W::add("/w/f", DT_REG);
  { wtr::watch w("/w", [](wtr::event const& e) { n_ev++; auto s = wtr::to<std::string>(e.path_name); sx_observe_str("ev", s); });
    sx_block(&W::idle);
    bool ok = w.close(); sx_observe("ok", ok); sx_check(ok, "SMOKE:close"); }
  sx_check(W::nwatches == 3, "SMOKE:watches");
  sx_check(W::open_count() == 0, "SMOKE:fds"); }
