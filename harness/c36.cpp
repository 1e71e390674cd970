#include "c36.h"
void run(Ctx &c, Rng &r) { run_vec(c, r); run_vec2(c, r); run_mat(c, r); }
