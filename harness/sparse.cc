// C14: sparse counters and sparse maps
#include "vrng.h"
#include <distributions/sparse.hpp>
using namespace distributions;
typedef SparseCounter<uint32_t, int> C;
typedef Sparse_<uint32_t, int> S;
#ifndef OPS
#define OPS 3
#endif
#ifndef KEYS
#define KEYS 3
#endif
static uint32_t key() { return nd_u32("key", 0, 0xffffffffu); }
// what a counter should contain: a list of (key, count) in the order of the additions
struct Log {
    uint32_t k[16]; int c[16]; int n; Log() : n(0) {}
    void add(uint32_t key, int count) { for (int i = 0; i < n; ++i) if (k[i] == key) { c[i] += count; return; } k[n] = key; c[n++] = count; }
    int get(uint32_t key) const { int r = 0; for (int i = 0; i < n; ++i) if (k[i] == key) r += c[i]; return r; }
};
static void agree(const C & c, const Log & l) {
    int total = 0, entries = 0, sum = 0, found = 0;
    for (int i = 0; i < l.n; ++i) { total += l.c[i]; if (l.c[i]) ++entries; v_eqi(c.get_count(l.k[i]), l.c[i], "count of each key"); }
    v_eqi(c.get_total(), total, "total is the sum of the counts");
    for (auto const & i : c) { ++found; sum += i.second; v_check(i.second != 0, "no zero entries are stored"); v_eqi(i.second, l.get(i.first), "stored entry"); }
    v_eqi(found, entries, "stores exactly the keys with nonzero counts");
    v_eqi(sum, total, "entries sum to the total");
    uint32_t q = key();
    bool known = false;
    for (int i = 0; i < l.n; ++i) if (l.k[i] == q) known = true;
    if (!known) v_eqi(c.get_count(q), 0, "other keys have count zero");
}
static void build(C & c, Log & l, int ops) {
    for (int i = 0; i < ops; ++i) {
        uint32_t k = key();
        int op = nd_choice("op", 3), r, n;
        if (op == 0) { n = 1; r = c.add(k); }
        else if (op == 1) { n = -1; r = c.remove(k); }
        else { n = nd_int("n", -1000, 1000); r = c.add(k, n); }
        l.add(k, n);
        v_eqi(r, l.get(k), "an addition returns the resulting count");
    }
}
ENTRY(counter) { v_rng_forbid(); C c; Log l; c.clear(); build(c, l, OPS); agree(c, l); }
ENTRY(counter_fresh) { v_rng_forbid(); C c; Log l; agree(c, l); build(c, l, 1); agree(c, l); }
ENTRY(counter_clear) { v_rng_forbid(); C c; Log l; c.clear(); build(c, l, 2); c.clear(); Log e; build(c, e, 1); agree(c, e); }
ENTRY(counter_init) {
    v_rng_forbid();
    C c; c.clear(); Log l;
    uint32_t a = key(), b = key();
    v_assume(a != b);
    int n = nd_int("n", -1000, 1000), m = nd_int("n", -1000, 1000);
    c.init_count(a, n); l.add(a, n);
    c.init_count(b, m); l.add(b, m);
    agree(c, l);
    v_assume(n != 0 && m != 0);
    RECOVER("initialising a key twice is an error", c.init_count(a, m));
    agree(c, l);
    c.add(b, m); l.add(b, m);
    agree(c, l);
}
ENTRY(counter_merge) {
    v_rng_forbid();
    C a, b; Log l, r, o; a.clear(); b.clear();
    for (int i = 0; i < 2; ++i) { uint32_t k = key(); int n = nd_int("n", -1000, 1000); a.add(k, n); l.add(k, n); }
    for (int i = 0; i < 2; ++i) { uint32_t k = key(); int n = nd_int("n", -1000, 1000); b.add(k, n); l.add(k, n); o.add(k, n); }
    a.merge(b);
    agree(a, l);
    agree(b, o);
}
ENTRY(counter_rename) {
    v_rng_forbid();
    C c; Log l; c.clear();
    uint32_t a = key(), b = key(), to = key();
    int n = nd_int("n", -1000, 1000), m = nd_int("n", -1000, 1000);
    c.add(a, n); c.add(b, m);
    int from = nd_choice("from", 2) ? (int)0 : 1;
    uint32_t f = from ? b : key();
    v_assume(to == f || c.get_count(to) == 0);      // renaming onto another key in use is an error (see below)
    int moved = c.get_count(f);
    l.add(a, n); l.add(b, m);
    c.rename(f, to);
    l.add(f, -moved); l.add(to, moved);
    agree(c, l);
}
ENTRY(counter_rename_clash) {
    v_rng_forbid();
    C c; c.clear();
    uint32_t a = key(), b = key();
    v_assume(a != b);
    int n = nd_int("n", 1, 1000), m = nd_int("n", 1, 1000);
    Log l; l.add(a, n); l.add(b, m);
    c.add(a, n); c.add(b, m);
    RECOVER("renaming onto a key in use is an error", c.rename(a, b));
    agree(c, l);
}
ENTRY(counter_copy) {
    v_rng_forbid();
    C a; Log l, r; a.clear(); build(a, l, 2);
    C b; b = a; r = l;
    build(b, r, 1);
    agree(a, l); agree(b, r);
}
// ---- map
struct Map { uint32_t k[16]; int v[16]; bool in[16]; int n; Map() : n(0) {}
    int find(uint32_t key) const { for (int i = 0; i < n; ++i) if (in[i] && k[i] == key) return i; return -1; }
    void put(uint32_t key, int x) { int i = find(key); if (i < 0) { i = n++; k[i] = key; in[i] = true; } v[i] = x; }
    void drop(uint32_t key) { in[find(key)] = false; }
    int size() const { int r = 0; for (int i = 0; i < n; ++i) r += in[i]; return r; } };
static void agree(S & s, const Map & m) {
    v_eqi(s.size(), m.size(), "number of keys");
    int found = 0;
    for (int i = 0; i < m.n; ++i) if (m.in[i]) { v_check(s.contains(m.k[i]), "contains its keys"); v_eqi(s.get(m.k[i]), m.v[i], "value of each key"); }
    const S & c = s;
    for (auto const & i : c) { ++found; int j = m.find(i.first); v_check(j >= 0, "iterates over its keys"); if (j >= 0) v_eqi(i.second, m.v[j], "iterates over its values"); }
    v_eqi(found, m.size(), "iterates once over every key");
    uint32_t q = key();
    v_check(s.contains(q) == (m.find(q) >= 0), "contains no other key");
}
ENTRY(map) {
    v_rng_forbid();
    S s; Map m;
    for (int i = 0; i < OPS; ++i) {
        uint32_t k = key(); int x = nd_int("x", -1000, 1000);
        bool have = m.find(k) >= 0;
        switch (nd_choice("op", 7)) {
        case 0: if (have) { RECOVER("inserting a key twice is an error", s.add(k, x)); break; } s.add(k, x); m.put(k, x); break;
        case 1: if (have) { RECOVER("inserting a key twice is an error", s.add(k)); break; } s.add(k) = x; m.put(k, x); break;
        case 2: if (!have) { RECOVER("removing a missing key is an error", s.remove(k)); break; } s.remove(k); m.drop(k); break;
        case 3: if (!have) { RECOVER("popping a missing key is an error", s.pop(k)); break; } v_eqi(s.pop(k), m.v[m.find(k)], "pop returns the value"); m.drop(k); break;
        case 4: if (!have) { RECOVER("setting a missing key is an error", s.set(k, x)); break; } s.set(k, x); m.put(k, x); break;
        case 5: if (!have) { RECOVER("reading a missing key is an error", s.get(k)); break; } s.get(k) += 3; m.put(k, m.v[m.find(k)] + 3); break;
        case 6: { int & r = s.get_or_add(k); v_eqi(r, have ? m.v[m.find(k)] : 0, "get_or_add finds the value or starts at zero"); r = x; m.put(k, x); break; }
        }
    }
    agree(s, m);
    if (nd_choice("clear", 2)) { s.clear(); Map e; agree(s, e); }
}
