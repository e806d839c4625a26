// Stand-in for Kokkos (absent in this sandbox): the documented semantics of the interface symmetrix uses, executed by a
// controlled scheduler.  Every team is a set of T threads x V lanes run as fibers; barriers, reductions, scans and single
// are explicit synchronisation events; team size, vector length, index-to-thread mapping and execution order are chosen
// by the checker (mk::cfg).  View accesses are bounds-checked; a build with -fsanitize=thread instrumentation (and our own
// callbacks in mk.cpp, not the TSan runtime) additionally records every access of every work item and reports pairs of
// concurrent conflicting accesses.
#pragma once
#include <cassert>
#include <numbers>
#define KOKKOS_ASSERT(...) assert((__VA_ARGS__))
#define KOKKOS_EXPECTS(...) assert((__VA_ARGS__))
#define KOKKOS_ENSURES(...) assert((__VA_ARGS__))
#include <array>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <limits>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#define KOKKOS_LAMBDA [=]
#define KOKKOS_CLASS_LAMBDA [=,*this]
#define KOKKOS_INLINE_FUNCTION inline
#define KOKKOS_FORCEINLINE_FUNCTION inline
#define KOKKOS_FUNCTION
#define KOKKOS_DEFAULTED_FUNCTION
#define KOKKOS_RESTRICT
#define KOKKOS_IMPL_FORCEINLINE inline
#define KOKKOS_VERSION 40601
#define KOKKOS_VERSION_MAJOR 4
#define KOKKOS_ENABLE_SERIAL
#if defined(__clang__) || defined(__GNUC__)
#define MK_NOTRACK __attribute__((no_sanitize("thread")))
#else
#define MK_NOTRACK
#endif

namespace mk {
struct Config { int T=1, V=1; int map=0; long order=0; bool separate=false; };
extern Config cfg;
extern bool tracking; extern bool in_kernel;                       // inside a parallel region
extern long kernels, items, syncs, accesses; // counters for the evidence
extern std::function<void(const std::string& key,const std::string& text)> on_problem;
struct Stop : std::runtime_error { using std::runtime_error::runtime_error; };
[[noreturn]] void problem(const std::string& key,const std::string& text);   // reports and throws Stop
void note(const std::string& key,const std::string& text);                   // reports only
void* alloc(size_t bytes,const std::string& label,bool device);
void dealloc(void* p,size_t bytes);
void poison(void* p,size_t bytes);
std::string label_of(const void* p);
void atomic_access(const void* p,size_t n);
std::string where();
// scheduler
struct Team { long league; int T, V, t, v; };
Team& self();
void run_items(const char* label,long n,const std::function<void(long)>& f);
void run_teams(const char* label,long leagues,int T,int V,size_t scratch0,size_t scratch1,const std::function<void(long)>& f);
void team_sync();                            // all threads and lanes of the team
void lane_sync();                            // lanes of this thread
double* exchange(int slot);                  // shared reduction buffer of the team (16 doubles per fiber)
char* scratch(int level,size_t& size);
void begin_kernel(const char* label); void end_kernel();
bool kernel_begin_done();
void set_item(long i);
}

namespace Kokkos {
struct LayoutRight {}; struct LayoutLeft {}; struct LayoutStride {};
struct Serial; struct OpenMP; struct Cuda;
struct HostSpace { using memory_space=HostSpace; using execution_space=Serial; using device_type=HostSpace; static constexpr const char* name() { return "Host"; } };
#ifdef MK_GPU
struct DeviceSpace { using memory_space=DeviceSpace; using execution_space=Cuda; using device_type=DeviceSpace; static constexpr const char* name() { return "Device"; } };
struct SharedSpace { using memory_space=SharedSpace; using execution_space=Cuda; using device_type=SharedSpace; static constexpr const char* name() { return "Shared"; } };
struct Serial { using execution_space=Serial; using memory_space=HostSpace; using device_type=Serial; using array_layout=LayoutRight; using scratch_memory_space=HostSpace; void fence() const {} void fence(const std::string&) const {} static int concurrency() { return 1; } };
struct Cuda { using execution_space=Cuda; using memory_space=DeviceSpace; using device_type=Cuda; using array_layout=LayoutLeft; using scratch_memory_space=DeviceSpace; void fence() const {} void fence(const std::string&) const {} static int concurrency() { return 64; } };
using DefaultExecutionSpace=Cuda; using DefaultHostExecutionSpace=Serial;
#else
using SharedSpace=HostSpace; using DeviceSpace=HostSpace;
struct Serial { using execution_space=Serial; using memory_space=HostSpace; using device_type=Serial; using array_layout=LayoutRight; using scratch_memory_space=HostSpace; void fence() const {} void fence(const std::string&) const {} static int concurrency() { return 1; } };
using DefaultExecutionSpace=Serial; using DefaultHostExecutionSpace=Serial;
#endif
template<class E,class M> struct Device { using execution_space=E; using memory_space=M; using device_type=Device; };
enum : unsigned { Unmanaged=1, RandomAccess=2, Atomic=4, Restrict=8, Aligned=16 };
template<unsigned F> struct MemoryTraits { static constexpr unsigned value=F; };
using MemoryUnmanaged=MemoryTraits<Unmanaged>; using MemoryManaged=MemoryTraits<0>; using MemoryRandomAccess=MemoryTraits<Unmanaged|RandomAccess>;
struct ALL_t { constexpr const ALL_t& operator()() const { return *this; } }; constexpr ALL_t ALL{}; struct AUTO_t { constexpr const AUTO_t& operator()() const { return *this; } }; constexpr AUTO_t AUTO{};
namespace numbers { using namespace std::numbers; }
template<int N> struct RankOf { constexpr operator size_t() const { return N; } constexpr size_t operator()() const { return N; } };
struct WithoutInitializing_t {}; constexpr WithoutInitializing_t WithoutInitializing{};
struct SequentialHostInit_t {}; constexpr SequentialHostInit_t SequentialHostInit{};
template<class A,class B> using pair=std::pair<A,B>;
template<class A,class B> constexpr auto make_pair(A a,B b) { return std::pair<A,B>(a,b); }
template<class T,size_t N> using Array=std::array<T,N>;
using std::abs; using std::sqrt; using std::exp; using std::pow; using std::log; using std::sin; using std::cos; using std::fabs; using std::floor; using std::ceil; using std::fmin; using std::fmax; using std::cbrt; using std::hypot; using std::isnan; using std::isfinite; using std::tanh; using std::round; using std::fma;
template<class T> constexpr T min(const T& a,const T& b) { return b<a?b:a; }
template<class T> constexpr T max(const T& a,const T& b) { return a<b?b:a; }
template<class T> constexpr T clamp(const T& v,const T& lo,const T& hi) { return v<lo?lo:hi<v?hi:v; }
template<class T> void kokkos_swap(T& a,T& b) { T c=a; a=b; b=c; }
inline void fence() {} inline void fence(const std::string&) {}
template<class... A> void printf(const char* f,A... a) { ::printf(f,a...); }
inline void abort(const char* m) { mk::problem("abort",std::string("Kokkos::abort: ")+m); }
struct ViewAlloc { std::string label; bool noinit=false; void* ptr=nullptr; };
namespace Impl {
inline void prop(ViewAlloc& a,const std::string& s) { a.label=s; } inline void prop(ViewAlloc& a,const char* s) { a.label=s; }
inline void prop(ViewAlloc& a,WithoutInitializing_t) { a.noinit=true; } inline void prop(ViewAlloc&,SequentialHostInit_t) {}
template<class T> std::enable_if_t<std::is_class_v<T>&&!std::is_convertible_v<T,std::string>> prop(ViewAlloc&,const T&) {}
template<class T> struct parse { using scalar=T; static constexpr int ptr=0; static constexpr int stat=0; static constexpr std::array<size_t,0> s{}; };
template<class T> struct parse<T*> { using P=parse<T>; using scalar=typename P::scalar; static constexpr int ptr=1+P::ptr, stat=P::stat; static constexpr auto s=P::s; };
template<class T,size_t N> struct parse<T[N]> { using P=parse<T>; using scalar=typename P::scalar; static constexpr int ptr=P::ptr, stat=1+P::stat;
    static constexpr std::array<size_t,stat> mk_() { std::array<size_t,stat> r{}; r[0]=N; for (int i=1;i<stat;++i) r[i]=P::s[i-1]; return r; } static constexpr auto s=mk_(); };
template<class T,int R> struct stars { using type=typename stars<T,R-1>::type*; }; template<class T> struct stars<T,0> { using type=T; };
template<class T> constexpr bool is_layout=std::is_same_v<T,LayoutRight>||std::is_same_v<T,LayoutLeft>||std::is_same_v<T,LayoutStride>;
template<class T,class=void> struct has_space : std::false_type {}; template<class T> struct has_space<T,std::void_t<typename T::memory_space>> : std::true_type {};
template<class Def,class... P> struct find_layout { using type=Def; }; template<class Def,class H,class... P> struct find_layout<Def,H,P...> { using type=std::conditional_t<is_layout<H>,H,typename find_layout<Def,P...>::type>; };
template<class Def,class... P> struct find_space { using type=Def; };
template<class Def,class H,class... P> struct find_space<Def,H,P...> { template<class X,bool B> struct g { using type=typename X::memory_space; }; template<class X> struct g<X,false> { using type=typename find_space<Def,P...>::type; }; using type=typename g<H,has_space<H>::value>::type; };
template<class T> struct def_layout { using type=LayoutRight; };
#ifdef MK_GPU
template<> struct def_layout<DeviceSpace> { using type=LayoutLeft; }; template<> struct def_layout<SharedSpace> { using type=LayoutLeft; };
template<class Space> constexpr bool host_ok=!std::is_same_v<Space,DeviceSpace>; template<class Space> constexpr bool dev_ok=!std::is_same_v<Space,HostSpace>;
#else
template<class Space> constexpr bool host_ok=true; template<class Space> constexpr bool dev_ok=true;
#endif
struct Block { int refs=1; void* p=nullptr; size_t bytes=0; std::string label; std::function<void()> destroy; };
}
template<class... A> ViewAlloc view_alloc(const A&... a) { ViewAlloc r; (Impl::prop(r,a),...); return r; }
template<class... A> ViewAlloc view_wrap(const A&... a) { return view_alloc(a...); }
struct ScratchHandle { int level; size_t* used; };

template<class DT,class... Props> class View {
public:
    using P=Impl::parse<DT>; static constexpr int R=P::ptr+P::stat; static constexpr RankOf<R> rank{}; static constexpr int Rank=R; static constexpr int rank_dynamic=P::ptr;
    using memory_space=typename Impl::find_space<typename DefaultExecutionSpace::memory_space,Props...>::type;
    using array_layout=typename Impl::find_layout<typename Impl::def_layout<memory_space>::type,Props...>::type;
    using execution_space=typename memory_space::execution_space; using device_type=Device<execution_space,memory_space>;
    using value_type=typename P::scalar; using non_const_value_type=std::remove_const_t<value_type>; using const_value_type=const non_const_value_type;
    using data_type=DT; using pointer_type=value_type*; using reference_type=value_type&; using size_type=size_t;
    using non_const_data_type=typename Impl::stars<non_const_value_type,R>::type;
    using HostMirror=View<non_const_data_type,array_layout,HostSpace>; using host_mirror_type=HostMirror; using traits=View; using const_type=View<typename Impl::stars<const non_const_value_type,R>::type,array_layout,memory_space>; using non_const_type=View<non_const_data_type,array_layout,memory_space>;
    value_type* p_=nullptr; std::array<size_t,R> n_{}, s_{}; Impl::Block* b_=nullptr; const char* name_="";

    View() { for (int i=P::ptr;i<R;++i) n_[i]=P::s[i-P::ptr]; strides(); }
    View(const View& o) : p_(o.p_), n_(o.n_), s_(o.s_), b_(o.b_), name_(o.name_) { if (b_) ++b_->refs; }
    View& operator=(const View& o) { if (o.b_) ++o.b_->refs; drop(); p_=o.p_; n_=o.n_; s_=o.s_; b_=o.b_; name_=o.name_; return *this; }
    ~View() { drop(); }
    template<class D2,class... P2> requires(View<D2,P2...>::R==R && std::is_convertible_v<typename View<D2,P2...>::value_type(*)[],value_type(*)[]>)
    View(const View<D2,P2...>& o) { take(o); }
    template<class D2,class... P2> requires(View<D2,P2...>::R==R && std::is_convertible_v<typename View<D2,P2...>::value_type(*)[],value_type(*)[]>)
    View& operator=(const View<D2,P2...>& o) { View t(o); return *this=t; }
    template<class... I> requires((std::is_integral_v<I>||std::is_enum_v<I>)&&...) explicit View(const std::string& l,I... n) { ViewAlloc a; a.label=l; make(a,n...); }
    template<class... I> requires((std::is_integral_v<I>||std::is_enum_v<I>)&&...) explicit View(const char* l,I... n) { ViewAlloc a; a.label=l; make(a,n...); }
    template<class... I> requires(std::is_integral_v<I>&&...) explicit View(const ViewAlloc& a,I... n) { make(a,n...); }
    template<class... I> requires((std::is_integral_v<I>&&...) && (sizeof...(I)==P::ptr||sizeof...(I)==R)) explicit View(value_type* p,I... n) { dims(n...); strides(); p_=p; }
    template<class... I> requires(std::is_integral_v<I>&&...) explicit View(const ScratchHandle& h,I... n) {
        dims(n...); strides(); size_t bytes=size()*sizeof(value_type), cap; char* base=mk::scratch(h.level,cap); size_t off=(*h.used+7)/8*8;
        if (off+bytes>cap) mk::problem("scratch","team scratch request of "+std::to_string(off+bytes)+" bytes exceeds the "+std::to_string(cap)+" reserved"); *h.used=off+bytes; p_=(value_type*)(base+off); name_="scratch"; }
    template<class... I> static size_t shmem_size(I... n) { size_t t=sizeof(value_type); ((t*=(size_t)n),...); return t+8; }
    template<class... I> static size_t required_allocation_size(I... n) { size_t t=sizeof(value_type); ((t*=(size_t)n),...); return t; }

    template<class... I> requires(sizeof...(I)==R) value_type& operator()(I... i) const { size_t k=0; int d=0; ((at(k,d,(long long)i)),...); guard(); return p_[k]; }
    template<class I> requires(R==1&&std::is_integral_v<I>) value_type& operator[](I i) const { return (*this)(i); }
    template<class... I> value_type& access(I... i) const { return (*this)(i...); }
    size_t extent(int d) const { return d<R?n_[d]:1; } int extent_int(int d) const { return (int)extent(d); }
    size_t size() const { size_t t=1; for (int i=0;i<R;++i) t*=n_[i]; return t; } size_t span() const { return size(); }
    bool span_is_contiguous() const { View v(*this); v.strides(); return v.s_==s_; }
    size_t stride(int d) const { return s_[d]; } size_t stride_0() const { return s_[0]; }
    value_type* data() const { return p_; } std::string label() const { return b_?b_->label:""; } bool is_allocated() const { return p_!=nullptr; } int use_count() const { return b_?b_->refs:0; }
    static constexpr bool is_hostspace=std::is_same_v<memory_space,HostSpace>;
    template<class D2,class... P2> bool operator==(const View<D2,P2...>& o) const { return (const void*)p_==(const void*)o.p_&&n_==o.n_&&s_==o.s_; }

    MK_NOTRACK void at(size_t& k,int& d,long long i) const { if (i<0||(size_t)i>=n_[d]) mk::problem("bounds",std::string("index ")+std::to_string(i)+" outside extent "+std::to_string(n_[d])+" of dimension "+std::to_string(d)+" of view '"+(b_?b_->label:std::string(name_))+"'"); k+=i*s_[d]; ++d; }
    void guard() const {
        if constexpr(!Impl::host_ok<memory_space>) if (!mk::in_kernel) mk::problem("host-access",std::string("host code dereferences device view '")+(b_?b_->label:"")+"'");
        if constexpr(!Impl::dev_ok<memory_space>) if (mk::in_kernel) mk::problem("device-access",std::string("a kernel dereferences host view '")+(b_?b_->label:"")+"'"); }
    void strides() { if constexpr(R>0) { if constexpr(std::is_same_v<array_layout,LayoutLeft>) { size_t t=1; for (int i=0;i<R;++i) { s_[i]=t; t*=n_[i]; } } else { size_t t=1; for (int i=R-1;i>=0;--i) { s_[i]=t; t*=n_[i]; } } } }
    template<class... I> void dims(I... n) { long long a[]={(long long)n...,0}; for (int i=0;i<R;++i) n_[i]= i<(int)sizeof...(I) ? (size_t)a[i] : i>=P::ptr ? P::s[i-P::ptr] : 0; for (int i=0;i<R;++i) if ((long long)n_[i]<0) mk::problem("extent","negative extent requested for a view");
        for (int i=P::ptr;i<R;++i) n_[i]=P::s[i-P::ptr]; }
    template<class... I> void make(const ViewAlloc& a,I... n) {
        dims(n...); strides(); using NC=non_const_value_type; size_t m=size();
        b_=new Impl::Block; b_->bytes=m*sizeof(NC); b_->label=a.label; b_->p=mk::alloc(b_->bytes,a.label,true); p_=(value_type*)b_->p; NC* q=(NC*)b_->p;
        if constexpr(std::is_trivially_destructible_v<NC>) { if (a.noinit) mk::poison(q,b_->bytes); else zero(q,m); }
        else { if (mk::in_kernel) mk::problem("alloc","allocation of a view of views inside a kernel"); for (size_t i=0;i<m;++i) new(q+i) NC(); b_->destroy=[q,m]{ for (size_t i=0;i<m;++i) q[i].~NC(); }; }
        if (mk::in_kernel) mk::problem("alloc","managed view '"+a.label+"' allocated inside a kernel"); }
    MK_NOTRACK static void zero(non_const_value_type* q,size_t m) { if (m) std::memset((void*)q,0,m*sizeof(*q)); }
    void drop() { if (b_&&--b_->refs==0) { if (b_->destroy) b_->destroy(); mk::dealloc(b_->p,b_->bytes); delete b_; } b_=nullptr; p_=nullptr; }
    template<class V2> void take(const V2& o) { p_=o.p_; b_=(Impl::Block*)o.b_; name_=o.name_; if (b_) ++b_->refs; for (int i=0;i<R;++i) { n_[i]=o.n_[i]; s_[i]=o.s_[i]; }
        for (int i=P::ptr;i<R;++i) if (n_[i]!=P::s[i-P::ptr]) mk::problem("assign","view assignment with a different static extent");
        if constexpr(R>0&&!std::is_same_v<array_layout,LayoutStride>&&!std::is_same_v<array_layout,typename V2::array_layout>) if (size()>1) { View t; t.n_=n_; t.strides(); bool ok=true;
            if constexpr(std::is_same_v<array_layout,LayoutRight>) { for (int i=1;i<R;++i) ok=ok&&(n_[i]<=1||s_[i]==t.s_[i]); ok=ok&&(R>1||s_[0]==1); } else { for (int i=0;i+1<R;++i) ok=ok&&(n_[i]<=1||s_[i]==t.s_[i]); ok=ok&&(R>1||s_[0]==1); }
            if (!ok) mk::problem("assign","view assignment must have compatible layouts"); } }
};
template<class T> struct is_view : std::false_type {}; template<class D,class... P> struct is_view<View<D,P...>> : std::true_type {};
template<class T> constexpr bool is_view_v=is_view<T>::value;

// ---- copies -------------------------------------------------------------------------------------------------------
namespace Impl {
template<class V,class F> MK_NOTRACK void each(const V& v,F&& f) { constexpr int R=V::R; std::array<size_t,R> i{}; if (v.size()==0) return; for (;;) { size_t k=0; for (int d=0;d<R;++d) k+=i[d]*v.s_[d]; f(k,i); int d=R-1; for (;d>=0;--d) { if (++i[d]<v.n_[d]) break; i[d]=0; } if (d<0) break; } }
template<class D,class S> MK_NOTRACK void copy(const D& d,const S& s) { each(d,[&](size_t k,const auto& i) MK_NOTRACK { size_t q=0; for (int j=0;j<S::R;++j) q+=i[j]*s.s_[j]; const_cast<typename D::non_const_value_type&>(d.p_[k])=s.p_[q]; }); }
template<class D,class T> MK_NOTRACK void fill(const D& d,const T& x) { each(d,[&](size_t k,const auto&) MK_NOTRACK { d.p_[k]=x; }); }
}
template<class D,class... P,class D2,class... P2> void deep_copy(const View<D,P...>& d,const View<D2,P2...>& s) {
    static_assert(View<D,P...>::R==View<D2,P2...>::R,"deep_copy ranks"); static_assert(!std::is_const_v<typename View<D,P...>::value_type>,"deep_copy to const");
    if (mk::in_kernel) mk::problem("deep_copy","deep_copy inside a kernel");
    if ((const void*)d.p_==(const void*)s.p_&&d.n_==s.n_&&d.s_==s.s_) return;
    if (d.n_!=s.n_) { if (d.p_==nullptr&&s.p_==nullptr) return; throw std::runtime_error("Kokkos::deep_copy extents of views don't match: "+d.label()+" "+s.label()); }
    Impl::copy(d,s); }
template<class D,class... P,class T> requires(!is_view_v<T>&&std::is_convertible_v<T,typename View<D,P...>::non_const_value_type>) void deep_copy(const View<D,P...>& d,const T& x) { if (mk::in_kernel) mk::problem("deep_copy","deep_copy inside a kernel"); Impl::fill(d,(typename View<D,P...>::non_const_value_type)x); }
template<class D,class... P,class T> requires(!is_view_v<T>&&View<D,P...>::R==0) void deep_copy(T& x,const View<D,P...>& s) { x=*s.p_; }
template<class E,class A,class B> requires(Impl::has_space<E>::value&&!is_view_v<E>) void deep_copy(const E&,const A& a,const B& b) { deep_copy(a,b); }
namespace Impl { template<class V,size_t... J> V create(const ViewAlloc& a,const std::array<size_t,V::R>& n,std::index_sequence<J...>) { return V(a,n[J]...); } }
template<class V> V mk_like(const std::string& l,const std::array<size_t,V::R>& n,bool noinit=false) { ViewAlloc a; a.label=l; a.noinit=noinit; return Impl::create<V>(a,n,std::make_index_sequence<V::P::ptr>()); }
template<class Sp> using space_of=typename Sp::memory_space;
template<class D,class... P> auto create_mirror(const View<D,P...>& v) { using H=typename View<D,P...>::HostMirror; return mk_like<H>(v.label(),v.n_); }
template<class Sp,class D,class... P> requires(Impl::has_space<Sp>::value&&!is_view_v<Sp>) auto create_mirror(const Sp&,const View<D,P...>& v) { using V=View<D,P...>; using H=View<typename V::non_const_data_type,typename V::array_layout,space_of<Sp>>; return mk_like<H>(v.label(),v.n_); }
template<class D,class... P> auto create_mirror_view(const View<D,P...>& v) { using V=View<D,P...>; if constexpr(Impl::host_ok<typename V::memory_space>) return v; else return create_mirror(v); }
template<class D,class... P> auto create_mirror_view(WithoutInitializing_t,const View<D,P...>& v) { return create_mirror_view(v); }
template<class Sp,class D,class... P> requires(Impl::has_space<Sp>::value&&!is_view_v<Sp>) auto create_mirror_view(const Sp& sp,const View<D,P...>& v) { using V=View<D,P...>; if constexpr(std::is_same_v<space_of<Sp>,typename V::memory_space>) return v; else return create_mirror(sp,v); }
template<class Sp,class D,class... P> requires(Impl::has_space<Sp>::value&&!is_view_v<Sp>) auto create_mirror_view_and_copy(const Sp& sp,const View<D,P...>& v,const std::string& label="") { using V=View<D,P...>;
    if constexpr(std::is_same_v<space_of<Sp>,typename V::memory_space>) return v; else { using H=View<typename V::non_const_data_type,typename V::array_layout,space_of<Sp>>; auto r=mk_like<H>(label.empty()?v.label():label,v.n_); deep_copy(r,v); return r; } }
// ---- realloc / resize ---------------------------------------------------------------------------------------------
namespace Impl { template<class V,class... I> void realloc_(bool noinit,V& v,I... n) { if (mk::in_kernel) mk::problem("alloc","realloc inside a kernel"); V t; t.dims(n...); if (t.n_==v.n_&&(v.p_||v.size()==0)&&v.b_) { if (!noinit) { if constexpr(std::is_trivially_destructible_v<typename V::non_const_value_type>) Impl::fill(v,typename V::non_const_value_type{}); } return; } std::string l=v.label(); v=V(); ViewAlloc a; a.label=l; a.noinit=noinit; v=V(a,n...); } }
template<class D,class... P,class... I> requires(std::is_integral_v<I>&&...) void realloc(View<D,P...>& v,I... n) { Impl::realloc_(false,v,n...); }
template<class D,class... P,class... I> void realloc(WithoutInitializing_t,View<D,P...>& v,I... n) { Impl::realloc_(true,v,n...); }
template<class D,class... P,class... I> void realloc(const ViewAlloc& a,View<D,P...>& v,I... n) { Impl::realloc_(a.noinit,v,n...); }
template<class D,class... P,class... I> requires(std::is_integral_v<I>&&...) void resize(View<D,P...>& v,I... n) { using V=View<D,P...>; if (mk::in_kernel) mk::problem("alloc","resize inside a kernel"); V t; t.dims(n...); if (t.n_==v.n_&&v.b_) return; ViewAlloc a; a.label=v.label(); V w(a,n...);
    if (v.p_) { V x=v,y=w; for (int i=0;i<V::R;++i) x.n_[i]=y.n_[i]=std::min(v.n_[i],w.n_[i]); Impl::copy(y,x); } v=w; }
template<class D,class... P,class... I> void resize(WithoutInitializing_t,View<D,P...>& v,I... n) { resize(v,n...); }
// ---- subview ------------------------------------------------------------------------------------------------------
namespace Impl {
template<class A> constexpr bool keep=!std::is_integral_v<std::decay_t<A>>;
template<class V,class S> void sub1(const V& v,S& s,size_t& off,int& d,int& o,ALL_t) { s.n_[o]=v.n_[d]; s.s_[o]=v.s_[d]; ++o; ++d; }
template<class V,class S,class A,class B> void sub1(const V& v,S& s,size_t& off,int& d,int& o,const std::pair<A,B>& r) { long long a=r.first,b=r.second; if (a<0||b<a||(size_t)b>v.n_[d]) mk::problem("bounds","subview range ["+std::to_string(a)+","+std::to_string(b)+") outside extent "+std::to_string(v.n_[d])+" of dimension "+std::to_string(d)+" of view '"+v.label()+"'"); s.n_[o]=b-a; s.s_[o]=v.s_[d]; off+=a*v.s_[d]; ++o; ++d; }
template<class V,class S,class I> std::enable_if_t<std::is_integral_v<I>> sub1(const V& v,S& s,size_t& off,int& d,int& o,I i) { long long a=i; if (a<0||(size_t)a>=v.n_[d]) mk::problem("bounds","subview index "+std::to_string(a)+" outside extent "+std::to_string(v.n_[d])+" of view '"+v.label()+"'"); off+=a*v.s_[d]; ++d; }
}
template<class D,class... P,class... A> auto subview(const View<D,P...>& v,const A&... a) { using V=View<D,P...>; static_assert(sizeof...(A)==V::R); constexpr int NR=(0+...+(Impl::keep<A>?1:0)); using S=View<typename Impl::stars<typename V::value_type,NR>::type,LayoutStride,typename V::memory_space>; S s; size_t off=0; int d=0,o=0; (Impl::sub1(v,s,off,d,o,a),...); s.p_=v.p_+off; s.b_=v.b_; if (s.b_) ++s.b_->refs; return s; }

// ---- policies -----------------------------------------------------------------------------------------------------
enum class Iterate { Default, Left, Right }; struct Schedule_ {}; template<class T> struct IndexType {}; template<class T> struct Schedule {}; struct Dynamic {}; struct Static {}; template<unsigned A,unsigned B=0> struct LaunchBounds {};
template<unsigned N,Iterate O=Iterate::Default,Iterate I=Iterate::Default> struct Rank { static constexpr int rank=N; static constexpr Iterate outer=O; };
namespace Impl { template<class T> constexpr bool is_std_policy_arg=has_space<T>::value||std::is_integral_v<T>; template<class T> struct is_other_arg : std::false_type {}; template<class T> struct is_other_arg<IndexType<T>> : std::true_type {}; template<class T> struct is_other_arg<Schedule<T>> : std::true_type {}; template<unsigned A,unsigned B> struct is_other_arg<LaunchBounds<A,B>> : std::true_type {}; template<unsigned N,Iterate O,Iterate I> struct is_other_arg<Rank<N,O,I>> : std::true_type {};
template<class... P> struct tag_of { using type=void; }; template<class H,class... P> struct tag_of<H,P...> { using type=std::conditional_t<is_std_policy_arg<H>||is_other_arg<H>::value,typename tag_of<P...>::type,H>; };
template<class... P> struct rank_of { static constexpr int v=2; }; template<class H,class... P> struct rank_of<H,P...> { static constexpr int v=rank_of<P...>::v; }; template<unsigned N,Iterate O,Iterate I,class... P> struct rank_of<Rank<N,O,I>,P...> { static constexpr int v=N; }; }
template<class... Pr> struct RangePolicy { using tag=typename Impl::tag_of<Pr...>::type; long b=0,e=0; RangePolicy(long b,long e) : b(b), e(e) {} template<class Sp> requires(Impl::has_space<Sp>::value) RangePolicy(const Sp&,long b,long e) : b(b), e(e) {} };
RangePolicy(long,long)->RangePolicy<>; RangePolicy(int,int)->RangePolicy<>;
template<class... Pr> struct MDRangePolicy { using tag=typename Impl::tag_of<Pr...>::type; static constexpr int N=Impl::rank_of<Pr...>::v; std::array<long,N> b{},e{};
    template<class T1,class T2> MDRangePolicy(std::initializer_list<T1> x,std::initializer_list<T2> y) { int i=0; for (auto v:x) b[i++]=(long)v; i=0; for (auto v:y) e[i++]=(long)v; }
    MDRangePolicy(std::initializer_list<long> x,std::initializer_list<long> y) { int i=0; for (auto v:x) b[i++]=v; i=0; for (auto v:y) e[i++]=v; }
    MDRangePolicy(const std::array<long,N>& x,const std::array<long,N>& y) : b(x), e(y) {}
    template<class X> MDRangePolicy(std::initializer_list<long> x,std::initializer_list<long> y,const X&) : MDRangePolicy(x,y) {} };
struct TeamMember {
    size_t used0=0,used1=0;
    int league_rank() const { return (int)mk::self().league; } int league_size() const { return leagues_; } int team_rank() const { return mk::self().t; } int team_size() const { return mk::self().T; }
    void team_barrier() const { mk::team_sync(); }
    ScratchHandle team_scratch(int l) const { return {l,l?const_cast<size_t*>(&used1):const_cast<size_t*>(&used0)}; } ScratchHandle team_shmem() const { return team_scratch(0); }
    template<class T> void team_broadcast(T& x,int src) const { double* e=mk::exchange(0); (void)e; T* q=(T*)mk::exchange(-1); if (mk::self().t==src&&mk::self().v==0) *q=x; mk::team_sync(); x=*q; mk::team_sync(); }
    int leagues_=0; using execution_space=DefaultExecutionSpace; using scratch_memory_space=typename DefaultExecutionSpace::scratch_memory_space; };
struct PerTeamValue { long n; }; struct PerThreadValue { long n; };
struct PerTeamMember { const TeamMember& m; }; struct PerThreadMember { const TeamMember& m; };
inline PerTeamMember PerTeam(const TeamMember& m) { return {m}; } inline PerThreadMember PerThread(const TeamMember& m) { return {m}; }
template<class I> requires(std::is_integral_v<I>) PerTeamValue PerTeam(I n) { return {(long)n}; } template<class I> requires(std::is_integral_v<I>) PerThreadValue PerThread(I n) { return {(long)n}; }
struct ParallelForTag {}; struct ParallelReduceTag {};
template<class... Pr> struct TeamPolicy { using member_type=TeamMember; using tag=typename Impl::tag_of<Pr...>::type; long n; int T,V; long per_team[2]={0,0},per_thread[2]={0,0}; 
    static int t(AUTO_t) { return -1; } static int t(long x) { return (int)x; } static int v(AUTO_t) { return 1; } static int v(long x) { return x>1?-1:1; }
    template<class A> requires(!Impl::has_space<A>::value) TeamPolicy(long n,A a) : n(n), T(t(a)), V(1) {} template<class A,class B> TeamPolicy(long n,A a,B b) : n(n), T(t(a)), V(v(b)) {}
    template<class Sp,class A> requires(Impl::has_space<Sp>::value) TeamPolicy(const Sp&,long n,A a) : TeamPolicy(n,a) {} template<class Sp,class A,class B> requires(Impl::has_space<Sp>::value) TeamPolicy(const Sp&,long n,A a,B b) : TeamPolicy(n,a,b) {}
    TeamPolicy& set_scratch_size(int l,PerTeamValue s) { per_team[l]=s.n; return *this; } TeamPolicy& set_scratch_size(int l,PerThreadValue s) { per_thread[l]=s.n; return *this; } TeamPolicy& set_scratch_size(int l,PerTeamValue s,PerThreadValue u) { per_team[l]=s.n; per_thread[l]=u.n; return *this; } TeamPolicy& set_chunk_size(int) { return *this; }
    int T_() const { return T<0?mk::cfg.T:T; } int V_() const { return V<0?mk::cfg.V:V; } int team_size() const { return T_(); } int league_size() const { return (int)n; }
    template<class F,class G> int team_size_max(const F&,const G&) const { return mk::cfg.T; } template<class F,class G> int team_size_recommended(const F&,const G&) const { return mk::cfg.T; } static int vector_length_max() { return 32; } static int scratch_size_max(int) { return 1<<20; } };
struct TTR { long b,e; const TeamMember& m; }; struct TVR { long b,e; const TeamMember& m; }; struct HVR { long b,e; const TeamMember& m; };   // team-thread, thread-vector, team-vector
inline TTR TeamThreadRange(const TeamMember& m,long n) { return {0,n,m}; } inline TTR TeamThreadRange(const TeamMember& m,long a,long b) { return {a,b,m}; }
inline TVR ThreadVectorRange(const TeamMember& m,long n) { return {0,n,m}; } inline TVR ThreadVectorRange(const TeamMember& m,long a,long b) { return {a,b,m}; }
inline HVR TeamVectorRange(const TeamMember& m,long n) { return {0,n,m}; } inline HVR TeamVectorRange(const TeamMember& m,long a,long b) { return {a,b,m}; }
template<class Rk,class M=TeamMember> struct TeamVectorMDRange { std::vector<long> n; const TeamMember& m; template<class... I> TeamVectorMDRange(const TeamMember& m,I... i) : n{(long)i...}, m(m) {} };
template<class Rk,class M=TeamMember> struct TeamThreadMDRange { std::vector<long> n; const TeamMember& m; template<class... I> TeamThreadMDRange(const TeamMember& m,I... i) : n{(long)i...}, m(m) {} };
template<class Rk,class M=TeamMember> struct ThreadVectorMDRange { std::vector<long> n; const TeamMember& m; template<class... I> ThreadVectorMDRange(const TeamMember& m,I... i) : n{(long)i...}, m(m) {} };
namespace Impl {
// which indices of [b,e) belong to worker w of W: strided (as on GPUs) or in contiguous chunks (as on CPUs)
template<class F> void mine(long b,long e,int w,int W,F&& f) { if (mk::cfg.map==0) for (long i=b+w;i<e;i+=W) f(i); else { long c=(e-b+W-1)/W, lo=b+w*c, hi=std::min(e,lo+c); for (long i=lo;i<hi;++i) f(i); } }
template<class F> void mine_rev(long b,long e,int w,int W,F&& f) { mine(b,e,w,W,f); }
}
template<class F> void parallel_for(const TTR& r,const F& f) { auto& s=mk::self(); Impl::mine(r.b,r.e,s.t,s.T,[&](long i){ f((int)i); }); }
template<class F> void parallel_for(const TVR& r,const F& f) { auto& s=mk::self(); Impl::mine(r.b,r.e,s.v,s.V,[&](long i){ f((int)i); }); mk::lane_sync(); }
template<class F> void parallel_for(const HVR& r,const F& f) { auto& s=mk::self(); Impl::mine(r.b,r.e,s.t*s.V+s.v,s.T*s.V,[&](long i){ f((int)i); }); }
namespace Impl { template<class F,class... X> void md_(const std::vector<long>& n,const F& f,int wt,int WT,int wv,int WV,X... x) {   // outermost dimension over threads, innermost over lanes
    constexpr size_t d=sizeof...(X);
    if constexpr(d>0&&std::is_invocable_v<F,X...>) { if (d==n.size()) { f(x...); return; } }
    if constexpr(d<8) { if (d>=n.size()) mk::problem("stub","MD range body does not take the rank of its range");
        auto g=[&](long i){ md_(n,f,wt,WT,wv,WV,x...,(int)i); };
        if (d==0) mine(0,n[d],wt,WT,g); else if (d+1==n.size()) mine(0,n[d],wv,WV,g); else for (long i=0;i<n[d];++i) g(i); } }
template<class F> void md(const std::vector<long>& n,const F& f,int wt,int WT,int wv,int WV) { md_(n,f,wt,WT,wv,WV); } }
template<class Rk,class M,class F> void parallel_for(const TeamVectorMDRange<Rk,M>& r,const F& f) { auto& s=mk::self(); Impl::md(r.n,f,s.t,s.T,s.v,s.V); }
template<class Rk,class M,class F> void parallel_for(const TeamThreadMDRange<Rk,M>& r,const F& f) { auto& s=mk::self(); Impl::md(r.n,f,s.t,s.T,0,1); }
template<class Rk,class M,class F> void parallel_for(const ThreadVectorMDRange<Rk,M>& r,const F& f) { auto& s=mk::self(); Impl::md(r.n,f,0,1,s.v,s.V); mk::lane_sync(); }
// reducers
template<class T> struct Sum { T& r; using value_type=T; explicit Sum(T& r) : r(r) {} static T init() { return T(0); } static void join(T& a,const T& b) { a+=b; } };
template<class T> struct Prod { T& r; using value_type=T; explicit Prod(T& r) : r(r) {} static T init() { return T(1); } static void join(T& a,const T& b) { a*=b; } };
template<class T> struct Max { T& r; using value_type=T; explicit Max(T& r) : r(r) {} static T init() { return std::numeric_limits<T>::lowest(); } static void join(T& a,const T& b) { if (a<b) a=b; } };
template<class T> struct Min { T& r; using value_type=T; explicit Min(T& r) : r(r) {} static T init() { return std::numeric_limits<T>::max(); } static void join(T& a,const T& b) { if (b<a) a=b; } };
template<class T> struct LOr { T& r; using value_type=T; explicit LOr(T& r) : r(r) {} static T init() { return T(0); } static void join(T& a,const T& b) { a=a||b; } };
namespace Impl {
template<class X> struct red { using R=Sum<X>; static R make(X& x) { return R(x); } };
template<class T> struct red<Sum<T>> { using R=Sum<T>; static R make(const R& x) { return x; } }; template<class T> struct red<Prod<T>> { using R=Prod<T>; static R make(const R& x) { return x; } };
template<class T> struct red<Max<T>> { using R=Max<T>; static R make(const R& x) { return x; } }; template<class T> struct red<Min<T>> { using R=Min<T>; static R make(const R& x) { return x; } }; template<class T> struct red<LOr<T>> { using R=LOr<T>; static R make(const R& x) { return x; } };
template<class D,class... P> struct red<View<D,P...>> { using T=typename View<D,P...>::value_type; using R=Sum<T>; static R make(const View<D,P...>& v) { return R(*v.p_); } };
template<class X> auto mkred(X&& x) { return red<std::remove_cv_t<std::remove_reference_t<X>>>::make(x); }
enum Scope { TEAM, LANE, BOTH };
// combine one local value per fiber, in index order, over the chosen scope; every participant obtains the result
template<class Rd> void combine(Scope sc,int slot,Rd rd,typename Rd::value_type loc) { using T=typename Rd::value_type; static_assert(sizeof(T)<=8&&std::is_trivially_copyable_v<T>); auto& s=mk::self(); std::memcpy(mk::exchange(slot),&loc,sizeof(T));
    if (sc==LANE) mk::lane_sync(); else mk::team_sync();
    T a=Rd::init(); int W=s.T*s.V; for (int w=0;w<W;++w) { int t=w/s.V,v=w%s.V; if (sc==TEAM&&v!=s.v) continue; if (sc==LANE&&t!=s.t) continue; T x; double* e=mk::exchange(slot)+16*(w-(s.t*s.V+s.v)); std::memcpy(&x,e,sizeof(T)); Rd::join(a,x); }
    if (sc==LANE) mk::lane_sync(); else mk::team_sync(); rd.r=a; }
template<class F,class Rg,class... Rd,size_t... J> void team_reduce(Scope sc,const Rg& r,const F& f,std::index_sequence<J...>,Rd... rd) { auto& s=mk::self(); std::tuple<typename Rd::value_type...> loc{Rd::init()...};
    int w= sc==TEAM?s.t: sc==LANE?s.v: s.t*s.V+s.v, W= sc==TEAM?s.T: sc==LANE?s.V: s.T*s.V; mine(r.b,r.e,w,W,[&](long i){ f((int)i,std::get<J>(loc)...); }); (combine(sc,(int)J,rd,std::get<J>(loc)),...); }
}
template<class F,class... X> requires(sizeof...(X)>=1) void parallel_reduce(const TTR& r,const F& f,X&&... x) { Impl::team_reduce(Impl::TEAM,r,f,std::index_sequence_for<X...>(),Impl::mkred(std::forward<X>(x))...); }
template<class F,class... X> requires(sizeof...(X)>=1) void parallel_reduce(const TVR& r,const F& f,X&&... x) { Impl::team_reduce(Impl::LANE,r,f,std::index_sequence_for<X...>(),Impl::mkred(std::forward<X>(x))...); }
template<class F,class... X> requires(sizeof...(X)>=1) void parallel_reduce(const HVR& r,const F& f,X&&... x) { Impl::team_reduce(Impl::BOTH,r,f,std::index_sequence_for<X...>(),Impl::mkred(std::forward<X>(x))...); }
template<class F> void single(const PerTeamMember&,const F& f) { if (mk::self().t==0&&mk::self().v==0) f(); }
template<class F> void single(const PerThreadMember&,const F& f) { if (mk::self().v==0) f(); mk::lane_sync(); }
template<class F,class T> void single(const PerTeamMember& p,const F& f,T& x) { if (mk::self().t==0&&mk::self().v==0) f(x); p.m.team_broadcast(x,0); }
template<class F,class T> void single(const PerThreadMember&,const F& f,T& x) { auto& s=mk::self(); if (s.v==0) { f(x); std::memcpy(mk::exchange(0),&x,sizeof(T)); } mk::lane_sync(); std::memcpy(&x,mk::exchange(0)-16*s.v,sizeof(T)); mk::lane_sync(); }
// ---- launches -----------------------------------------------------------------------------------------------------
namespace Impl {
template<class Tag,class F,class... A> void call(const F& f,A&&... a) { if constexpr(std::is_void_v<Tag>) f(std::forward<A>(a)...); else f(Tag(),std::forward<A>(a)...); }
template<class Pol> struct is_range : std::false_type {}; template<class... P> struct is_range<RangePolicy<P...>> : std::true_type {};
template<class Pol> struct is_md : std::false_type {}; template<class... P> struct is_md<MDRangePolicy<P...>> : std::true_type {};
template<class Pol> struct is_team : std::false_type {}; template<class... P> struct is_team<TeamPolicy<P...>> : std::true_type {};
template<class Pol> constexpr bool is_policy=is_range<Pol>::value||is_md<Pol>::value||is_team<Pol>::value;
inline void nest() { if (mk::in_kernel) mk::problem("nested","kernel launched inside a kernel"); }
}
template<class Pol,class F> requires(Impl::is_policy<Pol>) void parallel_for(const std::string& label,const Pol& p,const F& f0) {
    Impl::nest(); const F f=f0; using Tag=typename Pol::tag;
    if constexpr(Impl::is_range<Pol>::value) mk::run_items(label.c_str(),p.e-p.b,[&](long i){ Impl::call<Tag>(f,(int)(p.b+i)); });
    else if constexpr(Impl::is_md<Pol>::value) { std::array<long,Pol::N> n; long t=1; for (int d=0;d<Pol::N;++d) { n[d]=std::max(0L,p.e[d]-p.b[d]); t*=n[d]; } mk::run_items(label.c_str(),t,[&](long i){ std::array<int,Pol::N> x; for (int d=Pol::N-1;d>=0;--d) { x[d]=(int)(p.b[d]+i%n[d]); i/=n[d]; } std::apply([&](auto... a){ Impl::call<Tag>(f,a...); },x); }); }
    else { int T=p.T_(); long s0=p.per_team[0]+T*p.per_thread[0],s1=p.per_team[1]+T*p.per_thread[1]; mk::run_teams(label.c_str(),p.n,T,p.V_(),s0,s1,[&](long){ TeamMember m; m.leagues_=(int)p.n; Impl::call<Tag>(f,m); }); } }
template<class Pol,class F> requires(Impl::is_policy<Pol>) void parallel_for(const Pol& p,const F& f) { parallel_for(std::string("unnamed"),p,f); }
template<class I,class F> requires(std::is_integral_v<I>) void parallel_for(const std::string& l,I n,const F& f) { parallel_for(l,RangePolicy<>(0L,(long)n),f); }
template<class I,class F> requires(std::is_integral_v<I>) void parallel_for(I n,const F& f) { parallel_for(std::string("unnamed"),RangePolicy<>(0L,(long)n),f); }
namespace Impl { template<class Pol,class F,class... Rd,size_t... J> void reduce(const std::string& label,const Pol& p,const F& f0,std::index_sequence<J...>,Rd... rd) { nest(); const F f=f0; using Tag=typename Pol::tag; const int C=std::max(1,mk::cfg.T); std::vector<std::tuple<typename Rd::value_type...>> part(C,std::tuple<typename Rd::value_type...>{Rd::init()...});
    auto run=[&](long n,auto&& body){ long c=(n+C-1)/C; mk::run_items(label.c_str(),n,[&](long i){ auto& a=part[mk::cfg.map==0?i%C:i/std::max(1L,c)]; body(i,std::get<J>(a)...); }); };
    if constexpr(is_range<Pol>::value) run(p.e-p.b,[&](long i,auto&... a){ call<Tag>(f,(int)(p.b+i),a...); });
    else if constexpr(is_md<Pol>::value) { std::array<long,Pol::N> n; long t=1; for (int d=0;d<Pol::N;++d) { n[d]=std::max(0L,p.e[d]-p.b[d]); t*=n[d]; } run(t,[&](long i,auto&... a){ std::array<int,Pol::N> x; for (int d=Pol::N-1;d>=0;--d) { x[d]=(int)(p.b[d]+i%n[d]); i/=n[d]; } std::apply([&](auto... q){ call<Tag>(f,q...,a...); },x); }); }
    else { std::vector<std::tuple<typename Rd::value_type...>> lp(std::max(1L,p.n),std::tuple<typename Rd::value_type...>{Rd::init()...}); int T=p.T_(); mk::run_teams(label.c_str(),p.n,T,p.V_(),p.per_team[0]+T*p.per_thread[0],p.per_team[1]+T*p.per_thread[1],[&](long l){ TeamMember m; m.leagues_=(int)p.n; std::tuple<typename Rd::value_type...> loc{Rd::init()...}; call<Tag>(f,m,std::get<J>(loc)...); (Rd::join(std::get<J>(lp[l]),std::get<J>(loc)),...); }); for (auto& x:lp) (Rd::join(std::get<J>(part[0]),std::get<J>(x)),...); }
    std::tuple<typename Rd::value_type...> tot{Rd::init()...}; for (auto& a:part) (Rd::join(std::get<J>(tot),std::get<J>(a)),...); ((rd.r=std::get<J>(tot)),...); } }
template<class Pol,class F,class... X> requires(Impl::is_policy<Pol>&&sizeof...(X)>=1) void parallel_reduce(const std::string& l,const Pol& p,const F& f,X&&... x) { Impl::reduce(l,p,f,std::index_sequence_for<X...>(),Impl::mkred(std::forward<X>(x))...); }
template<class Pol,class F,class... X> requires(Impl::is_policy<Pol>&&sizeof...(X)>=1) void parallel_reduce(const Pol& p,const F& f,X&&... x) { parallel_reduce(std::string("unnamed"),p,f,std::forward<X>(x)...); }
template<class I,class F,class... X> requires(std::is_integral_v<I>&&sizeof...(X)>=1) void parallel_reduce(const std::string& l,I n,const F& f,X&&... x) { parallel_reduce(l,RangePolicy<>(0L,(long)n),f,std::forward<X>(x)...); }
template<class I,class F,class... X> requires(std::is_integral_v<I>&&sizeof...(X)>=1) void parallel_reduce(I n,const F& f,X&&... x) { parallel_reduce(std::string("unnamed"),RangePolicy<>(0L,(long)n),f,std::forward<X>(x)...); }
namespace Impl { template<class F> struct scan_arg : scan_arg<decltype(&F::operator())> {}; template<class C,class R,class I,class U,class B> struct scan_arg<R(C::*)(I,U,B) const> { using type=std::remove_reference_t<U>; };
template<class Tag,class Pol,class F,class U> void scan(const std::string& label,const Pol& p,const F& f0,U& total) { nest(); const F f=f0; const long n=p.e-p.b; const int C=std::max(1,mk::cfg.T); long c=std::max(1L,(n+C-1)/C); std::vector<U> part(C,U(0));
    if (C>1) mk::run_items((label+" (pass 1)").c_str(),n,[&](long i){ call<Tag>(f,(int)(p.b+i),part[i/c],false); });   // pass 1: totals of the chunks
    U acc(0); for (auto& q:part) { U t=q; q=acc; acc+=t; }
    // pass 2 must run in order inside a chunk; chunks are independent
    mk::begin_kernel(label.c_str()); struct End { ~End() { mk::end_kernel(); } } end; for (long k=0;k<C;++k) { long cc= mk::cfg.order%2 ? C-1-k : k; for (long i=cc*c;i<std::min(n,(cc+1)*c);++i) { mk::set_item(i); call<Tag>(f,(int)(p.b+i),part[cc],true); } }
    total= n? part[std::min((long)C-1,(n-1)/c)] : U(0); } }
template<class... Pr,class F> void parallel_scan(const std::string& l,const RangePolicy<Pr...>& p,const F& f) { typename Impl::scan_arg<F>::type t(0); Impl::scan<typename RangePolicy<Pr...>::tag>(l,p,f,t); }
template<class... Pr,class F,class U> void parallel_scan(const std::string& l,const RangePolicy<Pr...>& p,const F& f,U& t) { Impl::scan<typename RangePolicy<Pr...>::tag>(l,p,f,t); }
template<class I,class F> requires(std::is_integral_v<I>) void parallel_scan(const std::string& l,I n,const F& f) { parallel_scan(l,RangePolicy<>(0L,(long)n),f); }
template<class I,class F,class U> requires(std::is_integral_v<I>) void parallel_scan(const std::string& l,I n,const F& f,U& t) { parallel_scan(l,RangePolicy<>(0L,(long)n),f,t); }
template<class I,class F> requires(std::is_integral_v<I>) void parallel_scan(I n,const F& f) { parallel_scan(std::string("unnamed"),RangePolicy<>(0L,(long)n),f); }
template<class... Pr,class F> void parallel_scan(const RangePolicy<Pr...>& p,const F& f) { parallel_scan(std::string("unnamed"),p,f); }
// ---- atomics ------------------------------------------------------------------------------------------------------
template<class T,class U> MK_NOTRACK void atomic_add(T* p,U v) { mk::atomic_access((const void*)p,sizeof(T)); *const_cast<std::remove_volatile_t<T>*>(p)+=(T)v; }
template<class T,class U> MK_NOTRACK void atomic_sub(T* p,U v) { mk::atomic_access((const void*)p,sizeof(T)); *const_cast<std::remove_volatile_t<T>*>(p)-=(T)v; }
template<class T,class U> MK_NOTRACK T atomic_fetch_add(T* p,U v) { mk::atomic_access((const void*)p,sizeof(T)); T o=*p; *p=o+(T)v; return o; }
template<class T,class U> MK_NOTRACK T atomic_fetch_sub(T* p,U v) { mk::atomic_access((const void*)p,sizeof(T)); T o=*p; *p=o-(T)v; return o; }
template<class T> MK_NOTRACK void atomic_inc(T* p) { mk::atomic_access((const void*)p,sizeof(T)); ++*p; } template<class T> MK_NOTRACK void atomic_increment(T* p) { atomic_inc(p); } template<class T> MK_NOTRACK void atomic_dec(T* p) { mk::atomic_access((const void*)p,sizeof(T)); --*p; }
template<class T,class U> MK_NOTRACK void atomic_store(T* p,U v) { mk::atomic_access((const void*)p,sizeof(T)); *p=v; } template<class T> MK_NOTRACK T atomic_load(T* p) { mk::atomic_access((const void*)p,sizeof(T)); return *p; } template<class T,class U> MK_NOTRACK void atomic_assign(T* p,U v) { atomic_store(p,v); }
template<class T,class U> MK_NOTRACK void atomic_max(T* p,U v) { mk::atomic_access((const void*)p,sizeof(T)); if (*p<(T)v) *p=v; } template<class T,class U> MK_NOTRACK void atomic_min(T* p,U v) { mk::atomic_access((const void*)p,sizeof(T)); if ((T)v<*p) *p=v; }
template<class T,class U> MK_NOTRACK T atomic_exchange(T* p,U v) { mk::atomic_access((const void*)p,sizeof(T)); T o=*p; *p=v; return o; }
// ---- life cycle ---------------------------------------------------------------------------------------------------
struct InitializationSettings { InitializationSettings& set_num_threads(int) { return *this; } InitializationSettings& set_disable_warnings(bool) { return *this; } InitializationSettings& set_map_device_id_by(const std::string&) { return *this; } InitializationSettings& set_device_id(int) { return *this; } InitializationSettings& set_print_configuration(bool) { return *this; } };
inline bool& init_flag_() { static bool b=false; return b; } inline bool& final_flag_() { static bool b=false; return b; }
inline void initialize() { if (init_flag_()||final_flag_()) throw std::runtime_error("Kokkos::initialize called twice"); init_flag_()=true; } inline void initialize(const InitializationSettings&) { initialize(); } inline void initialize(int&,char**) { initialize(); }
inline void finalize() { if (!init_flag_()) throw std::runtime_error("Kokkos::finalize without initialize"); init_flag_()=false; final_flag_()=true; }
inline bool is_initialized() { return init_flag_(); } inline bool is_finalized() { return final_flag_(); }
struct ScopeGuard { ScopeGuard() { initialize(); } ScopeGuard(int&,char**) { initialize(); } ~ScopeGuard() { finalize(); } };
struct Timer { double seconds() const { return 0; } void reset() {} };
namespace Profiling { inline void pushRegion(const std::string&) {} inline void popRegion() {} }
// ---- bit sets -----------------------------------------------------------------------------------------------------
struct Bitset { std::shared_ptr<std::vector<char>> b; Bitset(unsigned n=0) : b(std::make_shared<std::vector<char>>(n,0)) {} void chk(unsigned i) const { if (i>=b->size()) mk::problem("bounds","Bitset index "+std::to_string((int)i)+" outside "+std::to_string(b->size())); }
    bool set(unsigned i) const { chk(i); bool o=(*b)[i]; (*b)[i]=1; return !o; } bool reset(unsigned i) const { chk(i); bool o=(*b)[i]; (*b)[i]=0; return o; } bool test(unsigned i) const { chk(i); return (*b)[i]; } unsigned count() const { unsigned c=0; for (char x:*b) c+=x; return c; } unsigned size() const { return (unsigned)b->size(); } void set() { for (char& x:*b) x=1; } void reset() { for (char& x:*b) x=0; } void clear() { reset(); } };
}
