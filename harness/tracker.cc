// C10: group id tracker
#include "vrng.h"
#include <distributions/mixture.hpp>
using namespace distributions;
typedef MixtureIdTracker T;
#ifndef OPS
#define OPS 3
#endif
#ifndef START
#define START 4
#endif
static void agree(const T & t, const std::vector<unsigned> & s, unsigned next) {
    v_eqi(t.packed_size(), s.size(), "number of groups");
    v_eqi(t.global_size(), next, "number of global ids ever given");
    if (t.packed_size() != s.size() || t.global_size() != next) v_stop();
    for (unsigned i = 0; i < s.size(); ++i) {
        unsigned g = t.packed_to_global(i);
        v_eqi(g, s[i], "surviving groups keep their global id");
        v_eqi(t.global_to_packed(g), i, "global id leads back to the packed id");
    }
}
static unsigned history(T & t, std::vector<unsigned> & s) {
    unsigned next = nd_choice("start", START);
    t.init(next);
    for (unsigned i = 0; i < next; ++i) s.push_back(i);
    agree(t, s, next);
    for (int i = 0; i < OPS; ++i) {
        if (nd_choice("add", 2)) { t.add_group(); s.push_back(next++); }
        else {
            unsigned p = nd_u32("packed", 0, 0xffffffffu);
            v_assume(p < s.size());
            t.remove_group(p);
            s[p] = s.back(); s.pop_back();        // packed ids are kept contiguous by moving the last group
        }
        agree(t, s, next);
    }
    return next;
}
ENTRY(bijection) { v_rng_forbid(); T t; std::vector<unsigned> s; history(t, s); }
ENTRY(lookup_global) {          // any query after any history
    v_rng_forbid();
    T t; std::vector<unsigned> s; unsigned next = history(t, s);
    unsigned q = nd_u32("global", 0, 0xffffffffu);
    int at = -1;
    for (unsigned i = 0; i < s.size(); ++i) if (s[i] == q) at = i;
    if (at < 0) EXPECT_ERROR("looking up a removed or unknown global id is an error", t.global_to_packed(q));
    v_eqi(t.global_to_packed(q), at, "global id leads to its group");
    (void)next;
}
ENTRY(lookup_packed) {
    v_rng_forbid();
    T t; std::vector<unsigned> s; history(t, s);
    unsigned q = nd_u32("packed id", 0, 0xffffffffu);
    if (q >= s.size()) EXPECT_ERROR("looking up a packed id out of range is an error", t.packed_to_global(q));
    v_eqi(t.packed_to_global(q), s[q], "packed id leads to its global id");
}
ENTRY(remove_bad) {
    v_rng_forbid();
    T t; std::vector<unsigned> s; history(t, s);
    unsigned q = nd_u32("packed id", 0, 0xffffffffu);
    v_assume(q >= s.size());
    EXPECT_ERROR("removing a group out of range is an error", t.remove_group(q));
}
ENTRY(reinit) {
    v_rng_forbid();
    T t; std::vector<unsigned> s; history(t, s);
    unsigned n = nd_choice("again", START);
    t.init(n);
    s.clear();
    for (unsigned i = 0; i < n; ++i) s.push_back(i);
    agree(t, s, n);
}
