#pragma once
#include "vsup.h"
#define V_MAX_DRAWS 64
struct VDraw { int kind; int have; double p1, p2, value, z; };  // z: the standard normal behind a normal draw
extern VDraw v_draws[V_MAX_DRAWS];
extern int v_ndraws;
enum { V_FREE = 0, V_FORBID = 1, V_REPLAY = 2 };
extern int v_mode;
extern int v_gamma_zero;
extern int v_draw_limit;      // histories that draw more often lie outside the bounds
// from here on the same draws are returned again (same kinds assumed), for comparing two runs
inline void v_rng_rewind() { for (int i = 0; i < v_ndraws; ++i) v_draws[i].have = 1; v_ndraws = 0; v_mode = V_REPLAY; }
inline void v_rng_forbid() { v_mode = V_FORBID; }
inline void v_rng_allow() { v_mode = V_FREE; }
