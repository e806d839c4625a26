#pragma once
#include "Kokkos_Core.hpp"
namespace KokkosBatched { struct Trans { struct NoTranspose {}; struct Transpose {}; struct ConjTranspose {}; };
struct Algo { struct Gemm { struct Unblocked {}; struct Blocked {}; }; struct Gemv { struct Unblocked {}; struct Blocked {}; }; };
// team-level C = beta*C + alpha*op(A)*op(B), written as KokkosKernels documents it: set/scale, team barrier, then one entry of C per team-thread index; no barrier at the end
template<class M,class TA,class TB,class Al> struct TeamGemm { template<class S,class A,class B,class C> static int invoke(const M& m,S alpha,const A& a,const B& b,S beta,const C& c) {
    constexpr bool ta=!std::is_same_v<TA,Trans::NoTranspose>, tb=!std::is_same_v<TB,Trans::NoTranspose>; const int n0=c.extent(0),n1=c.extent(1); const int k=ta?a.extent(0):a.extent(1);
    if ((int)(ta?a.extent(1):a.extent(0))!=n0||(int)(tb?b.extent(0):b.extent(1))!=n1||(int)(tb?b.extent(1):b.extent(0))!=k) mk::problem("gemm","dimensions of A, B and C do not match: C "+std::to_string(n0)+"x"+std::to_string(n1)+" A "+std::to_string(a.extent(0))+"x"+std::to_string(a.extent(1))+" B "+std::to_string(b.extent(0))+"x"+std::to_string(b.extent(1)));
    using T=typename C::non_const_value_type; Kokkos::parallel_for(Kokkos::TeamThreadRange(m,n0*n1),[&](int ij){ if (beta==S(0)) c(ij/n1,ij%n1)=T(0); else c(ij/n1,ij%n1)*=beta; });
    if (n0*n1==0||k==0) return 0; m.team_barrier();
    Kokkos::parallel_for(Kokkos::TeamThreadRange(m,n0*n1),[&](int ij){ const int i=ij/n1,j=ij%n1; T s(0); for (int p=0;p<k;++p) s+=(ta?a(p,i):a(i,p))*(tb?b(j,p):b(p,j)); c(i,j)+=alpha*s; }); return 0; } };
template<class TA,class TB,class Al> struct SerialGemm { template<class S,class A,class B,class C> static int invoke(S alpha,const A& a,const B& b,S beta,const C& c) { constexpr bool ta=!std::is_same_v<TA,Trans::NoTranspose>, tb=!std::is_same_v<TB,Trans::NoTranspose>; const int k=ta?a.extent(0):a.extent(1); for (int i=0;i<(int)c.extent(0);++i) for (int j=0;j<(int)c.extent(1);++j) { typename C::non_const_value_type s(0); for (int p=0;p<k;++p) s+=(ta?a(p,i):a(i,p))*(tb?b(j,p):b(p,j)); c(i,j)= (beta==S(0)?0:beta*c(i,j))+alpha*s; } return 0; } }; }
namespace KokkosBlas { using KokkosBatched::Trans; using KokkosBatched::Algo;
template<class A,class B> auto dot(const A& a,const B& b) { typename A::non_const_value_type s(0); if (a.size()!=b.size()) throw std::runtime_error("KokkosBlas::dot: Dimensions of vectors do not match"); Kokkos::parallel_reduce(std::string("KokkosBlas::dot"),a.size(),[=](int i,typename A::non_const_value_type& t){ t+=a(i)*b(i); },s); return s; }
template<class TA,class Al> struct SerialGemv { template<class S,class A,class X,class Y> static int invoke(S alpha,const A& a,const X& x,S beta,const Y& y) { constexpr bool ta=!std::is_same_v<TA,Trans::NoTranspose>; const int m=ta?a.extent(1):a.extent(0),n=ta?a.extent(0):a.extent(1); if ((int)x.extent(0)!=n||(int)y.extent(0)!=m) mk::problem("gemv","dimensions of A, x and y do not match");
    for (int i=0;i<m;++i) { typename Y::non_const_value_type s(0); for (int j=0;j<n;++j) s+=(ta?a(j,i):a(i,j))*x(j); y(i)=(beta==S(0)?0:beta*y(i))+alpha*s; } return 0; } }; }
