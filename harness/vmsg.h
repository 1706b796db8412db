// Stand-ins for the generated protobuf messages: same accessors, plain storage.
#pragma once
#include "vsup.h"
template<class T> struct VRep {
    std::vector<T> v;
    int size() const { return v.size(); }
    bool empty() const { return v.empty(); }
    void Add(T x) { v.push_back(x); }
    T Get(int i) const { return v[i]; }
    void Set(int i, T x) { v[i] = x; }
    T operator[](int i) const { return v[i]; }
    T & operator[](int i) { return v[i]; }
    void Clear() { v.clear(); }
    void Reserve(int) {}
    void Resize(int n, T x) { v.resize(n, x); }
    typename std::vector<T>::const_iterator begin() const { return v.begin(); }
    typename std::vector<T>::const_iterator end() const { return v.end(); }
    typename std::vector<T>::iterator begin() { return v.begin(); }
    typename std::vector<T>::iterator end() { return v.end(); }
};
#define V_F(T, N) T N##_ = T(); T N() const { return N##_; } void set_##N(T x) { N##_ = x; } bool has_##N() const { return true; } void clear_##N() { N##_ = T(); }
#define V_R(T, N) VRep<T> N##_; int N##_size() const { return N##_.size(); } T N(int i) const { return N##_.Get(i); } \
    const VRep<T> & N() const { return N##_; } VRep<T> * mutable_##N() { return &N##_; } \
    void add_##N(T x) { N##_.Add(x); } void set_##N(int i, T x) { N##_.Set(i, x); } void clear_##N() { N##_.Clear(); }
struct MBBShared { V_F(float, alpha) V_F(float, beta) void Clear() { *this = MBBShared(); } };
struct MBBGroup { V_F(uint64_t, heads) V_F(uint64_t, tails) void Clear() { *this = MBBGroup(); } };
struct MDDShared { V_R(float, alphas) void Clear() { *this = MDDShared(); } };
struct MDDGroup { V_R(uint64_t, counts) void Clear() { *this = MDDGroup(); } };
struct MDPDShared { V_F(float, gamma) V_F(float, alpha) V_R(uint32_t, values) V_R(float, betas) V_R(uint64_t, counts)
    void Clear() { *this = MDPDShared(); } };
struct MDPDGroup { V_R(uint32_t, keys) V_R(uint64_t, values) void Clear() { *this = MDPDGroup(); } };
struct MGPShared { V_F(float, alpha) V_F(float, inv_beta) void Clear() { *this = MGPShared(); } };
struct MGPGroup { V_F(uint64_t, count) V_F(uint64_t, sum) V_F(float, log_prod) void Clear() { *this = MGPGroup(); } };
struct MBNBShared { V_F(float, alpha) V_F(float, beta) V_F(uint64_t, r) void Clear() { *this = MBNBShared(); } };
struct MBNBGroup { V_F(uint64_t, count) V_F(uint64_t, sum) void Clear() { *this = MBNBGroup(); } };
struct MNICHShared { V_F(float, mu) V_F(float, kappa) V_F(float, sigmasq) V_F(float, nu) void Clear() { *this = MNICHShared(); } };
struct MNICHGroup { V_F(uint64_t, count) V_F(float, mean) V_F(float, count_times_variance) void Clear() { *this = MNICHGroup(); } };
struct MNIWShared { V_R(float, mu) V_F(float, kappa) V_R(float, psi) V_F(float, nu) void Clear() { *this = MNIWShared(); } };
struct MNIWGroup { V_F(int32_t, count) V_R(float, sum_x) V_R(float, sum_xxt) void Clear() { *this = MNIWGroup(); } };
struct MPY { V_F(float, alpha) V_F(float, d) void Clear() { *this = MPY(); } };
struct MLE { V_F(uint64_t, dataset_size) void Clear() { *this = MLE(); } };
