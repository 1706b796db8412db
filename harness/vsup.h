// Force-included (-include) before everything else, in the symbolic build and in the native replay.
// 1. pulls in the standard headers the library uses, then
// 2. renames the random number distributions / engine to hooks controlled by the harness, and
// 3. (symbolic build only) renames the hash containers to linear ones with the same interface,
//    so that symbolic keys do not have to be hashed.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <complex>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <numeric>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <cxxabi.h>
#ifdef VSYM
#define EIGEN_DONT_VECTORIZE
#define EIGEN_NO_DEBUG
#endif
#include <eigen3/Eigen/Dense>
#include <eigen3/Eigen/Cholesky>

extern "C" {
float nd_float(const char *, float lo, float hi);
double nd_double(const char *, double lo, double hi);
float nd_pos(const char *);
float nd_real(const char *);
int nd_int(const char *, int lo, int hi);
uint32_t nd_u32(const char *, uint32_t lo, uint32_t hi);
int nd_choice(const char *, int n);          // 0..n-1, concrete afterwards
void v_assume(bool);
void v_check(bool, const char *);
void v_close(float, float, const char *);    // equal (reals; a tolerance applies only in the replay)
void v_closed(double, double, const char *);
void v_eqi(long, long, const char *);
void v_neginf(double, const char *);        // minus infinity (the harness itself may be compiled with -ffast-math)
void v_le(float, float, const char *);
void v_lt(float, float, const char *);
float nd_bits(const char *, int exponent);                 // every float with that exponent
float nd_bits_any(const char *, int lo, int hi, int part, int of);           // every float with an exponent in the range
// |got - fn(x)| <= abs + rel |fn(x)|
enum { FN_LOG = 0, FN_LGAMMA = 1, FN_LGAMMA_NU = 2, FN_EXP = 3 };
void v_bound(double got, int fn, double x, double abs, double rel, const char *);
void v_expect_error(int);
void v_reach(const char *);
void v_stop();
int v_symbolic();
// f(0) on one thread, then f(1) on another, with nothing but the code's own synchronisation ordering them (THREADS)
void v_thread(int);
void v_run_threads(void (*)(void *, int), void *);
// values for the other half of a cross-flavour check (printed in the replay)
void v_export_r(const char * prefix, const char *, int index, double);      // index -1: none
void v_export_i(const char * prefix, const char *, int index, long);
// random number hooks (vsup.cc)
double v_draw_real(int kind, double p1, double p2);
int v_draw_int(int kind, double p1, double p2);
}

// An operation that must raise an error (nothing after it runs).
// RECOVER: the same, and the harness continues with whatever state the failed operation left behind.
#ifdef VSYM
extern "C" bool v_try() noexcept; extern "C" void v_tried() noexcept;
#define RECOVER(label, ...) { if (v_try()) { __VA_ARGS__; v_tried(); v_check(false, label); v_stop(); } }
#define EXPECT_ERROR(label, ...) { v_expect_error(1); __VA_ARGS__; v_expect_error(0); v_check(false, label); v_stop(); }
#else
#define RECOVER(label, ...) { bool v_t = false; try { __VA_ARGS__; } catch (...) { v_t = true; } v_check(v_t, label); if (!v_t) v_stop(); }
#define EXPECT_ERROR(label, ...) { bool v_t = false; try { __VA_ARGS__; } catch (...) { v_t = true; } v_check(v_t, label); v_stop(); }
#endif

#ifdef VSYM
#define THREADS(f) { v_thread(0); f(0); v_thread(1); f(1); v_thread(-1); }
#else
template<class F> void v_thread_call(void * f, int i) { (*static_cast<F *>(f))(i); }
#define THREADS(f) v_run_threads(v_thread_call<decltype(f)>, &f);
#endif

namespace std {

enum { V_UNIF = 0, V_NORMAL = 1, V_CHI2 = 2, V_GAMMA = 3, V_POISSON = 4, V_NEGBIN = 5, V_UNIFINT = 6,
       V_RAW = 7, V_EXPO = 8, V_BERN = 9, V_BINOM = 10, V_GEOM = 11, V_DISCRETE = 12 };

struct v_engine {
    typedef unsigned int result_type;
    unsigned draws_;          // drawing changes the generator
    unsigned long long seed_;
    v_engine() : draws_(0), seed_(1) {}
    template<class T> explicit v_engine(const T & s) : draws_(0), seed_(s) {}
    v_engine(const v_engine & o) : draws_(o.draws_), seed_(o.seed_) {}
    v_engine & operator=(const v_engine & o) { draws_ = o.draws_; seed_ = o.seed_; return *this; }
    template<class T> void seed(const T & s) { seed_ = s; draws_ = 0; }
    void seed() { seed_ = 1; draws_ = 0; }
    static constexpr result_type min() { return 1; }
    static constexpr result_type max() { return 2147483646u; }
    result_type operator()() { ++draws_; return v_draw_int(V_RAW, 0, 0); }
    void discard(unsigned long long n) { while (n--) (*this)(); }
    bool operator==(const v_engine &) const { return true; }
};

inline void v_touch(v_engine & r) { ++r.draws_; }
template<class R> inline void v_touch(R &) {}

#define V_REAL_DIST(NAME, KIND, D1, D2, N1, N2)                                           \
template<class T = double> struct NAME {                                                   \
    typedef T result_type;                                                                 \
    struct param_type { T a, b; explicit param_type(T a_ = D1, T b_ = D2) : a(a_), b(b_) {} \
        T N1() const { return a; } T N2() const { return b; } };                            \
    param_type p_;                                                                          \
    explicit NAME(T a = D1, T b = D2) : p_(a, b) {}                                         \
    explicit NAME(const param_type & p) : p_(p) {}                                          \
    void reset() {}                                                                         \
    param_type param() const { return p_; }                                                 \
    void param(const param_type & p) { p_ = p; }                                            \
    T N1() const { return p_.a; } T N2() const { return p_.b; }                             \
    template<class R> T operator()(R & r) { v_touch(r); return v_draw_real(KIND, p_.a, p_.b); }           \
    template<class R> T operator()(R & r, const param_type & p) { v_touch(r); return v_draw_real(KIND, p.a, p.b); } \
};
V_REAL_DIST(v_uniform_real_distribution, V_UNIF, 0, 1, a_, b_)
V_REAL_DIST(v_normal_distribution, V_NORMAL, 0, 1, mean, stddev)
V_REAL_DIST(v_chi_squared_distribution, V_CHI2, 1, 0, n, n2_)
V_REAL_DIST(v_gamma_distribution, V_GAMMA, 1, 1, alpha, beta)
V_REAL_DIST(v_exponential_distribution, V_EXPO, 1, 0, lambda, n2_)

#define V_INT_DIST(NAME, KIND, T1, T2, D1, D2, N1, N2)                                      \
template<class T = int> struct NAME {                                                       \
    typedef T result_type;                                                                  \
    struct param_type { T1 a; T2 b; explicit param_type(T1 a_ = D1, T2 b_ = D2) : a(a_), b(b_) {} }; \
    param_type p_;                                                                          \
    explicit NAME(T1 a = D1, T2 b = D2) : p_(a, b) {}                                       \
    explicit NAME(const param_type & p) : p_(p) {}                                          \
    void reset() {}                                                                         \
    param_type param() const { return p_; }                                                 \
    void param(const param_type & p) { p_ = p; }                                            \
    T1 N1() const { return p_.a; } T2 N2() const { return p_.b; }                           \
    template<class R> T operator()(R & r) { v_touch(r); return v_draw_int(KIND, p_.a, p_.b); }            \
    template<class R> T operator()(R & r, const param_type & p) { v_touch(r); return v_draw_int(KIND, p.a, p.b); } \
};
V_INT_DIST(v_poisson_distribution, V_POISSON, double, double, 1, 0, mean, n2_)
V_INT_DIST(v_negative_binomial_distribution, V_NEGBIN, T, double, 1, 0.5, k, p)
V_INT_DIST(v_uniform_int_distribution, V_UNIFINT, T, T, 0, std::numeric_limits<T>::max(), a_, b_)
V_INT_DIST(v_binomial_distribution, V_BINOM, T, double, 1, 0.5, t, p)
V_INT_DIST(v_geometric_distribution, V_GEOM, double, double, 0.5, 0, p, n2_)
struct v_bernoulli_distribution {
    double p_;
    typedef bool result_type;
    explicit v_bernoulli_distribution(double p = 0.5) : p_(p) {}
    template<class R> bool operator()(R &) { return v_draw_int(V_BERN, p_, 0); }
};

#ifdef VSYM
// ---- hash containers with the same interface; iteration in insertion order
template<class K, class E, class KeyOf, class Eq>
struct v_linear {
    struct node { E e; node * next; node * prev; node(const E & x) : e(x), next(0), prev(0) {}
                  template<class U> node(int, U && x) : e(std::forward<U>(x)), next(0), prev(0) {} };
    node * head; node * tail; size_t n;
    v_linear() : head(0), tail(0), n(0) {}
    v_linear(const v_linear & o) : head(0), tail(0), n(0) { for (node * p = o.head; p; p = p->next) push(new node(p->e)); }
    v_linear(v_linear && o) : head(o.head), tail(o.tail), n(o.n) { o.head = o.tail = 0; o.n = 0; }
    v_linear & operator=(const v_linear & o) { if (this != &o) { clear(); for (node * p = o.head; p; p = p->next) push(new node(p->e)); } return *this; }
    v_linear & operator=(v_linear && o) { if (this != &o) { clear(); head = o.head; tail = o.tail; n = o.n; o.head = o.tail = 0; o.n = 0; } return *this; }
    ~v_linear() { clear(); }
    void push(node * p) { p->prev = tail; p->next = 0; if (tail) tail->next = p; else head = p; tail = p; ++n; }
    node * find_(const K & k) const { for (node * p = head; p; p = p->next) if (Eq()(KeyOf()(p->e), k)) return p; return 0; }
    void drop(node * p) { if (p->prev) p->prev->next = p->next; else head = p->next;
                          if (p->next) p->next->prev = p->prev; else tail = p->prev; --n; delete p; }
    void clear() { node * p = head; while (p) { node * q = p->next; delete p; p = q; } head = tail = 0; n = 0; }
    template<class X, class N> struct it {
        N * p;
        typedef std::forward_iterator_tag iterator_category;
        typedef typename std::remove_const<X>::type value_type; typedef std::ptrdiff_t difference_type;
        typedef X * pointer; typedef X & reference;
        it() : p(0) {}
        explicit it(N * q) : p(q) {}
        template<class X2, class N2> it(const it<X2, N2> & o) : p(o.p) {}
        X & operator*() const { return p->e; }
        X * operator->() const { return &p->e; }
        it & operator++() { p = p->next; return *this; }
        it operator++(int) { it r = *this; p = p->next; return r; }
        template<class X2, class N2> bool operator==(const it<X2, N2> & o) const { return p == o.p; }
        template<class X2, class N2> bool operator!=(const it<X2, N2> & o) const { return p != o.p; }
    };
    size_t size() const { return n; }
    bool empty() const { return n == 0; }
    void reserve(size_t) {}
    void rehash(size_t) {}
    size_t bucket_count() const { return 1; }
    float load_factor() const { return n; }
    void max_load_factor(float) {}
    size_t count(const K & k) const { return find_(k) ? 1 : 0; }
    void swap(v_linear & o) { std::swap(head, o.head); std::swap(tail, o.tail); std::swap(n, o.n); }
};
template<class E> struct v_first { auto operator()(const E & e) const -> decltype((e.first)) { return e.first; } };
template<class E> struct v_self { const E & operator()(const E & e) const { return e; } };

template<class K, class V, class H = void, class Eq = std::equal_to<K>, class A = void>
struct v_unordered_map : v_linear<K, std::pair<const K, V>, v_first<std::pair<const K, V>>, Eq> {
    typedef std::pair<const K, V> value_type;
    typedef K key_type; typedef V mapped_type; typedef size_t size_type;
    typedef v_linear<K, value_type, v_first<value_type>, Eq> L;
    typedef typename L::node node;
    typedef typename L::template it<value_type, node> iterator;
    typedef typename L::template it<const value_type, node> const_iterator;
    v_unordered_map() {}
    v_unordered_map(std::initializer_list<value_type> l) { for (auto & x : l) insert(x); }
    template<class I> v_unordered_map(I a, I b) { for (; a != b; ++a) insert(*a); }
    iterator begin() { return iterator(L::head); }
    iterator end() { return iterator(); }
    const_iterator begin() const { return const_iterator(L::head); }
    const_iterator end() const { return const_iterator(); }
    const_iterator cbegin() const { return const_iterator(L::head); }
    const_iterator cend() const { return const_iterator(); }
    iterator find(const K & k) { return iterator(L::find_(k)); }
    const_iterator find(const K & k) const { return const_iterator(L::find_(k)); }
    V & operator[](const K & k) { node * p = L::find_(k); if (!p) { p = new node(value_type(k, V())); L::push(p); } return p->e.second; }
    V & at(const K & k) { node * p = L::find_(k); if (!p) throw std::out_of_range("at"); return p->e.second; }
    const V & at(const K & k) const { node * p = L::find_(k); if (!p) throw std::out_of_range("at"); return p->e.second; }
    template<class U> std::pair<iterator, bool> insert(U && x) {
        node * p = L::find_(x.first); if (p) return std::make_pair(iterator(p), false);
        p = new node(0, std::forward<U>(x)); L::push(p); return std::make_pair(iterator(p), true); }
    template<class I> void insert(I a, I b) { for (; a != b; ++a) insert(*a); }
    template<class... T> std::pair<iterator, bool> emplace(T && ... t) { return insert(value_type(std::forward<T>(t)...)); }
    template<class U, class... T> std::pair<iterator, bool> try_emplace(const U & k, T && ... t) { return insert(value_type(k, V(std::forward<T>(t)...))); }
    size_t erase(const K & k) { node * p = L::find_(k); if (!p) return 0; L::drop(p); return 1; }
    iterator erase(const_iterator i) { node * q = i.p->next; L::drop(i.p); return iterator(q); }
    iterator erase(iterator i) { node * q = i.p->next; L::drop(i.p); return iterator(q); }
    std::pair<iterator, iterator> equal_range(const K & k) { node * p = L::find_(k); return std::make_pair(iterator(p), iterator(p ? p->next : 0)); }
};
template<class K, class H = void, class Eq = std::equal_to<K>, class A = void>
struct v_unordered_set : v_linear<K, K, v_self<K>, Eq> {
    typedef K value_type; typedef K key_type; typedef size_t size_type;
    typedef v_linear<K, K, v_self<K>, Eq> L;
    typedef typename L::node node;
    typedef typename L::template it<const K, node> iterator;
    typedef iterator const_iterator;
    v_unordered_set() {}
    v_unordered_set(std::initializer_list<K> l) { for (auto & x : l) insert(x); }
    template<class I> v_unordered_set(I a, I b) { for (; a != b; ++a) insert(*a); }
    iterator begin() const { return iterator(L::head); }
    iterator end() const { return iterator(); }
    iterator cbegin() const { return iterator(L::head); }
    iterator cend() const { return iterator(); }
    iterator find(const K & k) const { return iterator(L::find_(k)); }
    std::pair<iterator, bool> insert(const K & k) { node * p = L::find_(k); if (p) return std::make_pair(iterator(p), false);
        p = new node(k); L::push(p); return std::make_pair(iterator(p), true); }
    template<class I> void insert(I a, I b) { for (; a != b; ++a) insert(*a); }
    template<class... T> std::pair<iterator, bool> emplace(T && ... t) { return insert(K(std::forward<T>(t)...)); }
    size_t erase(const K & k) { node * p = L::find_(k); if (!p) return 0; L::drop(p); return 1; }
    iterator erase(iterator i) { node * q = i.p->next; L::drop(i.p); return iterator(q); }
};
template<class K, class H, class Eq, class A>
bool operator==(const v_unordered_set<K, H, Eq, A> & a, const v_unordered_set<K, H, Eq, A> & b) {
    if (a.size() != b.size()) return false; for (auto & x : a) if (!b.count(x)) return false; return true; }
template<class K, class H, class Eq, class A>
bool operator!=(const v_unordered_set<K, H, Eq, A> & a, const v_unordered_set<K, H, Eq, A> & b) { return !(a == b); }
#endif
}  // namespace std

#define default_random_engine v_engine
#define mt19937 v_engine
#define mt19937_64 v_engine
#define minstd_rand v_engine
#define ranlux48 v_engine
#define uniform_real_distribution v_uniform_real_distribution
#define normal_distribution v_normal_distribution
#define chi_squared_distribution v_chi_squared_distribution
#define gamma_distribution v_gamma_distribution
#define exponential_distribution v_exponential_distribution
#define poisson_distribution v_poisson_distribution
#define negative_binomial_distribution v_negative_binomial_distribution
#define uniform_int_distribution v_uniform_int_distribution
#define binomial_distribution v_binomial_distribution
#define geometric_distribution v_geometric_distribution
#define bernoulli_distribution v_bernoulli_distribution
#ifdef VSYM
#define unordered_map v_unordered_map
#define unordered_set v_unordered_set
#endif
#define ENTRY(name) extern "C" void check_##name()
