#include "runner.hpp"
void register_meta();
void register_all() { register_meta(); }
