// C01 add/remove, C02 merge, C03 repeated values, C04 chain rule: one model per build (-DMODEL=...)
#include "models.h"
#ifndef REPMAX
#define REPMAX 4
#endif
typedef MODEL M;
typedef M::Shared Shared; typedef M::Group Group; typedef M::Value Value;

// C01: add then remove restores every statistic
ENTRY(add_remove) {
    rng_t rng; v_rng_forbid();
    Shared s; M::shared(s, rng);
    Group g, h; M::group(s, g, rng);
    h = g;
    Value v = M::value(s);
    h.add_value(s, v, rng);
    h.remove_value(s, v, rng);
    M::same(g, h, "add then remove restores the statistics");
}
// C01: remove then add restores (the value is one of the group's values)
ENTRY(add_order) {
    rng_t rng; v_rng_forbid();
    Shared s; M::shared(s, rng);
    Group g, h; M::group(s, g, rng);
    h = g;
    Value v = M::value(s), w = M::value(s);
    g.add_value(s, v, rng); g.add_value(s, w, rng);
    h.add_value(s, w, rng); h.add_value(s, v, rng);
    M::same(g, h, "order of additions is irrelevant");
    g.remove_value(s, v, rng);
    Group k; k = h; k.remove_value(s, v, rng);
    M::same(g, k, "order of additions is irrelevant after a removal");
    g.remove_value(s, w, rng); h.remove_value(s, w, rng); h.remove_value(s, v, rng);
    M::same(g, h, "order of removals is irrelevant");
}
// C01: from empty: add v,w,x; remove in other order; back to empty
ENTRY(from_empty) {
    rng_t rng; v_rng_forbid();
    Shared s; M::shared(s, rng);
    Group e, g; e.init(s, rng); g.init(s, rng);
    Value v = M::value(s), w = M::value(s);
    g.add_value(s, v, rng);
    Group one; one = g;
    g.add_value(s, w, rng);
    g.remove_value(s, w, rng);
    M::same(g, one, "back to one value");
    g.add_value(s, w, rng);
    g.remove_value(s, v, rng);
    Group o2; o2.init(s, rng); o2.add_value(s, w, rng);
    M::same(g, o2, "first value removed");
    g.remove_value(s, w, rng);
    M::same(g, e, "back to empty");
    // a group object that was used before is reset by init
    g.add_value(s, v, rng);
    g.init(s, rng);
    M::same(g, e, "init clears a used group");
}
// C02: merge commutes with adding, is symmetric, and the empty group is neutral
ENTRY(merge) {
    rng_t rng; v_rng_forbid();
    Shared s; M::shared(s, rng);
    Group a, b; M::group(s, a, rng); M::group(s, b, rng);
    Value v = M::value(s);
    // merging the group {b + v} into a  ==  adding v to the merge
    Group ab; ab = a; ab.merge(s, b, rng);
    Group bv; bv = b; bv.add_value(s, v, rng);
    Group abv; abv = a; abv.merge(s, bv, rng);
    Group ab_v; ab_v = ab; ab_v.add_value(s, v, rng);
    M::same(abv, ab_v, "merge of b+v equals merge of b, then v");
    Group ba; ba = b; ba.merge(s, a, rng);
    M::same(ab, ba, "merge is symmetric");
    v_eqi(M::count(ab), (long)M::count(a) + M::count(b), "merged count");
}
ENTRY(merge_empty) {
    rng_t rng; v_rng_forbid();
    Shared s; M::shared(s, rng);
    Group a, e, e2; M::group(s, a, rng); e.init(s, rng); e2.init(s, rng);
    Group x; x = a; x.merge(s, e, rng);
    M::same(x, a, "merging an empty group changes nothing");
    Group y; y = e; y.merge(s, a, rng);
    M::same(y, a, "merging into an empty group copies");
    Group z; z = e; z.merge(s, e2, rng);
    M::same(z, e, "merging two empty groups gives an empty group");
    M::same(e2, e, "source of a merge is unchanged");
}
// C02: merge of explicitly built groups, statistics and scores
ENTRY(merge_values) {
    rng_t rng; v_rng_forbid();
    Shared s; M::shared(s, rng);
    Group a, b, c; a.init(s, rng); b.init(s, rng); c.init(s, rng);
    int na = nd_choice("na", 3), nb = nd_choice("nb", 3);
    for (int i = 0; i < na; ++i) { Value v = M::value(s); a.add_value(s, v, rng); c.add_value(s, v, rng); }
    for (int i = 0; i < nb; ++i) { Value v = M::value(s); b.add_value(s, v, rng); c.add_value(s, v, rng); }
    a.merge(s, b, rng);
    M::same(a, c, "merge equals adding all values");
}
ENTRY(merge_scores) {
    rng_t rng; v_rng_forbid();
    Shared s; M::shared(s, rng);
    Group a, b, c; a.init(s, rng); b.init(s, rng); c.init(s, rng);
    int na = nd_choice("na", 2), nb = nd_choice("nb", 2);
    for (int i = 0; i < na; ++i) { Value v = M::value(s); a.add_value(s, v, rng); c.add_value(s, v, rng); }
    for (int i = 0; i < nb; ++i) { Value v = M::value(s); b.add_value(s, v, rng); c.add_value(s, v, rng); }
    a.merge(s, b, rng);
    Value w = M::value(s);
    v_close(a.score_data(s, rng), c.score_data(s, rng), "data score of a merged group");
    v_close(a.score_value(s, w, rng), c.score_value(s, w, rng), "value score of a merged group");
    a.validate(s);
}
// C03
ENTRY(repeated) {
    rng_t rng; v_rng_forbid();
    Shared s; M::shared(s, rng);
    Group a, b; M::group(s, a, rng); b = a;
    Value v = M::value(s);
    int n = 1 + nd_choice("n", REPMAX);
    a.add_repeated_value(s, v, n, rng);
    for (int i = 0; i < n; ++i) b.add_value(s, v, rng);
    M::same(a, b, "repeated equals one by one");
}
ENTRY(repeated_empty) {
    rng_t rng; v_rng_forbid();
    Shared s; M::shared(s, rng);
    Group a, b; a.init(s, rng); b = a;
    Value v = M::value(s);
    int n = 1 + nd_choice("n", REPMAX);
    a.add_repeated_value(s, v, n, rng);
    for (int i = 0; i < n; ++i) b.add_value(s, v, rng);
    M::same(a, b, "repeated equals one by one, from empty");
}
// C03: any count: n+1 repetitions are n repetitions and one addition
ENTRY(repeated_step) {
    rng_t rng; v_rng_forbid();
    Shared s; M::shared(s, rng);
    Group a, b; M::group(s, a, rng); b = a;
    Value v = M::value(s);
    int n = nd_int("n", 1, 1000);
    a.add_repeated_value(s, v, n + 1, rng);
    b.add_repeated_value(s, v, n, rng);
    b.add_value(s, v, rng);
    M::same(a, b, "n+1 repetitions are n and one more");
}
// C04
ENTRY(chain) {
    rng_t rng; v_rng_forbid();
    Shared s; M::shared(s, rng);
    Group g; M::group(s, g, rng);
    Value v = M::value(s);
    float before = g.score_data(s, rng);
    float sv = g.score_value(s, v, rng);
    g.add_value(s, v, rng);
    v_close(g.score_data(s, rng) - before, sv, "predictive score is the increment of the data score");
}
ENTRY(chain_scorer) {
    rng_t rng; v_rng_forbid();
    Shared s; M::shared(s, rng);
    Group g; M::group(s, g, rng);
    Value v = M::value(s);
    M::Model::Scorer scorer;
    scorer.init(s, g, rng);
    v_close(scorer.eval(s, v, rng), g.score_value(s, v, rng), "scorer equals the group's score");
}
ENTRY(empty_score) {
    rng_t rng; v_rng_forbid();
    Shared s; M::shared(s, rng);
    Group g; g.init(s, rng);
    v_close(g.score_data(s, rng), 0, "an empty group has data score zero");
}
// C04: sequential scores of a sequence do not depend on its order
ENTRY(exchange) {
    rng_t rng; v_rng_forbid();
    Shared s; M::shared(s, rng);
    Group g, h; M::group(s, g, rng); h = g;
    Value v = M::value(s), w = M::value(s);
    float a = g.score_value(s, v, rng); g.add_value(s, v, rng); a += g.score_value(s, w, rng);
    float b = h.score_value(s, w, rng); h.add_value(s, w, rng); b += h.score_value(s, v, rng);
    v_close(a, b, "sequential scores are exchangeable");
}
