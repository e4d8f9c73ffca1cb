// takes the place of compute_userDefined (the documented place for user code): adds what the configuration asks for
#include "c20user.hpp"
namespace thunder_ns {
int compute_userDefined(Robot& r) {
  if (r.config_yaml["mc_example"]) return compute_example_fun(r);
  if (r.config_yaml["mc_user"]) { auto m = mc::masks_of(r); for (auto s : r.config_yaml["mc_user"]) mc::uf_add(r, mc::UF::parse(s.as<std::string>()), m, true); return 1; }
  return 0;
}
}
