// The KOKKOS-package side of the stand-in: dual views, Kokkos atom storage, Kokkos neighbour lists, device communication.
#pragma once
#include "mini_lammps.h"
#include <Kokkos_Core.hpp>
#include <Kokkos_Bitset.hpp>
#include <Kokkos_UnorderedMap.hpp>
#ifdef MK_GPU
#define LMP_KOKKOS_GPU
#endif
namespace LAMMPS_NS {
typedef Kokkos::DefaultExecutionSpace LMPDeviceType; typedef Kokkos::HostSpace::execution_space LMPHostType;
template<class D> struct ExecutionSpaceFromDevice { static constexpr ExecutionSpace space=Host; };
#ifdef MK_GPU
template<> struct ExecutionSpaceFromDevice<LMPDeviceType> { static constexpr ExecutionSpace space=Device; };
#endif
typedef double KK_FLOAT; typedef double KK_ACC_FLOAT; typedef double F_FLOAT; typedef double E_FLOAT; typedef double X_FLOAT;
#define EMPTY_MASK 0x00000000u
#define X_MASK 0x00000001u
#define V_MASK 0x00000002u
#define F_MASK 0x00000004u
#define TAG_MASK 0x00000008u
#define TYPE_MASK 0x00000010u
#define MASK_MASK 0x00000020u
#define IMAGE_MASK 0x00000040u
#define ENERGY_MASK 0x00010000u
#define VIRIAL_MASK 0x00020000u
#define ALL_MASK 0xffffffffu
// two copies of one array; in builds without separate device memory both are the same allocation
template<class DT,class Layout> struct DualView {
    using t_dev=Kokkos::View<DT,Layout,LMPDeviceType>; using t_host=Kokkos::View<DT,Layout,LMPHostType>; t_dev d_view; t_host h_view; std::shared_ptr<std::array<unsigned,2>> m=std::make_shared<std::array<unsigned,2>>(std::array<unsigned,2>{0,0});
    DualView() {}
    template<class... I> DualView(const std::string& l,I... n) : d_view(l,n...) {
        if constexpr(std::is_same_v<t_dev,t_host>) h_view=d_view; else h_view=t_host(l,n...); }
    template<class D> static constexpr bool dev=std::is_same_v<typename D::memory_space,typename LMPDeviceType::memory_space>;
    template<class D> auto view() const { if constexpr(dev<D>) return d_view; else return h_view; } auto view_host() const { return h_view; } auto view_device() const { return d_view; }
    template<class D> void modify() { if constexpr(dev<D>) modify_device(); else modify_host(); } template<class D> void sync() { if constexpr(dev<D>) sync_device(); else sync_host(); }
    void modify_device() { (*m)[1]=std::max((*m)[0],(*m)[1])+1; } void modify_host() { (*m)[0]=std::max((*m)[0],(*m)[1])+1; }
    void sync_device() { if constexpr(!std::is_same_v<t_dev,t_host>) if ((*m)[0]>(*m)[1]) Kokkos::deep_copy(d_view,h_view); if ((*m)[0]>(*m)[1]) clear_sync_state(); }
    void sync_host() { if constexpr(!std::is_same_v<t_dev,t_host>) if ((*m)[1]>(*m)[0]) Kokkos::deep_copy(h_view,d_view); if ((*m)[1]>(*m)[0]) clear_sync_state(); }
    bool need_sync_host() const { return (*m)[1]>(*m)[0]; } bool need_sync_device() const { return (*m)[0]>(*m)[1]; } void clear_sync_state() { (*m)[0]=(*m)[1]=0; }
    size_t extent(int d) const { return d_view.extent(d); } size_t size() const { return d_view.size(); }
    template<class... I> void resize(I... n) { Kokkos::resize(d_view,n...); if constexpr(std::is_same_v<t_dev,t_host>) h_view=d_view; else Kokkos::resize(h_view,n...); } };
struct DAT { using DL=Kokkos::LayoutRight; typedef DualView<int*,DL> tdual_int_1d; typedef DualView<tagint*,DL> tdual_tagint_1d; typedef DualView<double*,DL> tdual_double_1d; typedef DualView<KK_FLOAT*,DL> tdual_kkfloat_1d; typedef DualView<double*[3],DL> tdual_x_array; typedef DualView<double*[3],DL> ttransform_kkfloat_1d_3_lr; typedef DualView<double*[3],DL> ttransform_kkacc_1d_3; typedef DualView<KK_ACC_FLOAT*,DL> ttransform_kkacc_1d; typedef DualView<KK_ACC_FLOAT*[6],DL> ttransform_kkacc_1d_6; typedef tdual_double_1d tdual_xfloat_1d; typedef tdual_double_1d tdual_efloat_1d; };
template<class D> struct ArrayTypes { typedef decltype(DAT::tdual_int_1d().template view<D>()) t_int_1d; typedef decltype(DAT::tdual_double_1d().template view<D>()) t_double_1d; typedef Kokkos::View<int**,D> t_neighbors_2d; };
struct dual_hash_type { std::shared_ptr<std::map<tagint,int>> h,d; dual_hash_type() : h(std::make_shared<std::map<tagint,int>>()), d(h) {} };
class AtomKokkos : public Atom { public: explicit AtomKokkos(LAMMPS* l) : Atom(l) { l->atomKK=this; }
    DAT::tdual_tagint_1d k_tag; DAT::tdual_int_1d k_type,k_mask; DAT::ttransform_kkfloat_1d_3_lr k_x,k_v; DAT::ttransform_kkacc_1d_3 k_f; DAT::tdual_int_1d k_map_array; dual_hash_type k_map_hash; std::vector<double*> xp,fp;
    void sync(ExecutionSpace s,unsigned mask) { auto g=[&](auto& k,unsigned b){ if (mask&b) { if (s==Device) k.sync_device(); else k.sync_host(); } }; g(k_x,X_MASK); g(k_f,F_MASK); g(k_tag,TAG_MASK); g(k_type,TYPE_MASK); }
    void modified(ExecutionSpace s,unsigned mask) { auto g=[&](auto& k,unsigned b){ if (mask&b) { if (s==Device) k.modify_device(); else k.modify_host(); } }; g(k_x,X_MASK); g(k_f,F_MASK); g(k_tag,TAG_MASK); g(k_type,TYPE_MASK); }
    void sync_modify(ExecutionSpace,unsigned,unsigned) {}
    void grow(int n) { k_tag=DAT::tdual_tagint_1d("atom:tag",n); k_type=DAT::tdual_int_1d("atom:type",n); k_x=DAT::ttransform_kkfloat_1d_3_lr("atom:x",n); k_f=DAT::ttransform_kkacc_1d_3("atom:f",n); tag=k_tag.h_view.data(); type=k_type.h_view.data(); xp.resize(n); fp.resize(n); for (int i=0;i<n;++i) { xp[i]=k_x.h_view.data()+3*i; fp[i]=k_f.h_view.data()+3*i; } x=xp.data(); f=fp.data(); }
    void map_set() override { Atom::map_set(); tagint mx=0; for (auto& p:themap) mx=std::max(mx,p.first); if (map_style==MAP_ARRAY) { k_map_array=DAT::tdual_int_1d("atom:map_array",mx+1); for (int i=0;i<=mx;++i) k_map_array.h_view.data()[i]=-1; for (auto& p:themap) k_map_array.h_view.data()[p.first]=p.second; k_map_array.modify_host(); } else { k_map_array=DAT::tdual_int_1d(); *k_map_hash.h=themap; } }
    template<class D> static int map_kokkos(tagint g,int style,const DAT::tdual_int_1d& a,const dual_hash_type& h) { if (style==MAP_ARRAY) return a.view<D>()(g); if (style==MAP_HASH) { auto it=h.d->find(g); return it==h.d->end()?-1:it->second; } return -1; } };
class MemoryKokkos : public Memory { public: template<class DV,class T> void create_kokkos(DV& k,T*& a,int n,const char* l) { k=DV(l,n); a=k.h_view.data(); } template<class DV,class T> void destroy_kokkos(DV& k,T*& a) { if (a==nullptr) return; k=DV(); a=nullptr; } template<class DV,class T> void grow_kokkos(DV& k,T*& a,int n,const char* l) { k=DV(l,n); a=k.h_view.data(); } };
class KokkosLMP : public Pointers { public: explicit KokkosLMP(LAMMPS* l) : Pointers(l) {} int kokkos_exists=1,ngpus=1,neighflag=1,forward_pair_comm_classic=0,reverse_pair_comm_classic=0,newtonflag=1; };
class KokkosBase { public: virtual ~KokkosBase()=default; virtual int pack_forward_comm_kokkos(int,DAT::tdual_int_1d,DAT::tdual_double_1d&,int,int*) { return 0; } virtual void unpack_forward_comm_kokkos(int,int,DAT::tdual_double_1d&) {} virtual int pack_reverse_comm_kokkos(int,int,DAT::tdual_double_1d&) { return 0; } virtual void unpack_reverse_comm_kokkos(int,DAT::tdual_int_1d,DAT::tdual_double_1d&) {} };
template<class D> class NeighListKokkos : public NeighList { public: explicit NeighListKokkos(LAMMPS* l) : NeighList(l) { kokkos=1; } Kokkos::View<int**,D> d_neighbors; Kokkos::View<int*,D> d_ilist,d_numneigh; int maxneighs=0; };
class NeighborKokkos : public Neighbor { public: using Neighbor::Neighbor; };
}
