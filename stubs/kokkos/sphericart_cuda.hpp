#pragma once
#include "sphericart.hpp"
// Stand-in for sphericart::cuda: same conventions as the host library, pointers are device pointers.
namespace sphericart { namespace cuda {
template<class T> class SphericalHarmonics {
    sphericart::SphericalHarmonics<T> s_; size_t n_;
public:
    explicit SphericalHarmonics(size_t l_max) : s_(l_max), n_((l_max+1)*(l_max+1)) {}
    void compute(const T* xyz,size_t n,T* sph,void* =nullptr) { s_.compute_array(xyz,3*n,sph,n*n_); }
    void compute_with_gradients(const T* xyz,size_t n,T* sph,T* dsph,void* =nullptr) { s_.compute_array_with_gradients(xyz,3*n,sph,n*n_,dsph,3*n*n_); }
}; } }
