#include "gate.hpp"
static void program(mc::MC& m) { gate::program(m, true); }
static mc::Options options() { return gate::options(program); }
MC_MAIN(options)
