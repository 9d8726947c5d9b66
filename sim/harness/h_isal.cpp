#include "runner.hpp"
void register_pipe();
void register_mbdigest();
void gen_mbdigest(Spec&, Rng&, bool);
void gen_pipe_mb(Spec&, Rng&, bool);
void register_all()
{
    register_pipe();
    register_mbdigest();
    add_property("C21", [](Spec& s, Rng& r, bool t) { if (r.chance(0.15)) gen_mbdigest(s, r, t); else gen_pipe_mb(s, r, t); });
}
