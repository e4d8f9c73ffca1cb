#define MC_WITH_MODEL
#include "c17cfg.hpp"
int main(int argc, char** argv) { return mc::gen_main(argc, argv, mc::c17_specs, [](bool, const mc::vector<mc::GenSpec>&) { return mc::vector<mc::Case>(); }); }
