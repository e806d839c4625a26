// Helpers for harnesses that run the Kokkos code on the controlled stand-in (stubs/kokkos).
#pragma once
#include "vh.hpp"
#include <Kokkos_Core.hpp>
namespace kh {
template<class T> Kokkos::View<T*> dev(const std::vector<T>& v,const char* name="input") { Kokkos::View<T*> d(name,v.size()); auto h=Kokkos::create_mirror_view(d); for (size_t i=0;i<v.size();++i) h(i)=v[i]; Kokkos::deep_copy(d,h); return d; }
template<class T> Kokkos::View<const T*> cdev(const std::vector<T>& v,const char* name="input") { return dev<T>(v,name); }
template<class T> Kokkos::View<T**,Kokkos::LayoutRight> dev2(const std::vector<T>& v,int n0,int n1,const char* name="input") { Kokkos::View<T**,Kokkos::LayoutRight> d(name,n0,n1); auto h=Kokkos::create_mirror_view(d); for (int i=0;i<n0;++i) for (int j=0;j<n1;++j) h(i,j)=v[(size_t)i*n1+j]; Kokkos::deep_copy(d,h); return d; }
template<class V> auto host(const V& v) { auto h=Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(),v); std::vector<typename V::non_const_value_type> o; o.reserve(h.size());
    if constexpr(V::R==1) for (size_t i=0;i<h.extent(0);++i) o.push_back(h(i)); else if constexpr(V::R==2) for (size_t i=0;i<h.extent(0);++i) for (size_t j=0;j<h.extent(1);++j) o.push_back(h(i,j)); else for (size_t i=0;i<h.extent(0);++i) for (size_t j=0;j<h.extent(1);++j) for (size_t k=0;k<h.extent(2);++k) o.push_back(h(i,j,k)); return o; }
inline std::string cs() { return "T="+std::to_string(mk::cfg.T)+" V="+std::to_string(mk::cfg.V)+" map="+std::to_string(mk::cfg.map)+" order="+std::to_string(mk::cfg.order); }
inline void init() { vh::init(); if (getenv("MK_TRACK")) mk::tracking=true; mk::on_problem=[](const std::string& k,const std::string& t){ vh::fail_here(k,t+" | schedule "+cs()); }; }
struct Cfg { int T,V,map; long order; };
inline void use(const Cfg& c) { mk::cfg.T=c.T; mk::cfg.V=c.V; mk::cfg.map=c.map; mk::cfg.order=c.order; }
// the schedule space: team sizes x vector lengths x index maps x execution orders
inline std::vector<Cfg> cfgs(int level) { std::vector<Cfg> o; if (level==0) return {{1,1,0,0},{2,1,0,1},{3,2,0,0},{2,2,1,1},{1,3,0,2},{4,1,1,0}};
    for (int T=1;T<=(level>1?4:3);++T) for (int V=1;V<=(level>1?4:3);++V) for (int m=0;m<2;++m) for (long r=0;r<(level>1?6:3);++r) o.push_back({T,V,m,r}); return o; }
template<class F> void guarded(F f) { try { f(); } catch (const mk::Stop&) {} catch (const std::exception& e) { vh::fail_here("exception:"+vh::cur_key,std::string("unexpected exception: ")+e.what()+" | schedule "+cs()); } }
inline void counters() { vh::extra["kernels_launched"]+=mk::kernels; vh::extra["work_items"]+=mk::items; vh::extra["synchronisations"]+=mk::syncs; if (mk::tracking) vh::extra["accesses_monitored"]+=mk::accesses; }
}
