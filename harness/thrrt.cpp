// C27 runtime: records, byte by byte, what two threads read and write (compile-time instrumentation of the real code and of the
// harness; no sanitizer runtime), and the synchronisation the code itself performs.  Not instrumented.
#include "thrrt.hpp"
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <pthread.h>
#include <sys/mman.h>
#include <new>
#include <atomic>
namespace rt {
struct Cell { uintptr_t key; uint8_t r1,w1,r2,w2; uint32_t rt1,wt1; uint32_t pcr,pcw; };
static Cell* tab; static const size_t N=size_t(1)<<23; static size_t used;
static thread_local int me=0; static thread_local char *lo=nullptr,*hi=nullptr;
static volatile bool on=false; static uint32_t now=1,known=0; Report* rep; static char *tlo,*thi;
extern "C" char __executable_start,__etext;
struct Rel { uintptr_t a; uint32_t t; }; static Rel rel[4096]; static int nrel;
void begin(Report* r) { rep=r; if (!tab) { tab=(Cell*)mmap(nullptr,N*sizeof(Cell),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if (tab==MAP_FAILED) abort(); } now=1; known=0; nrel=0; }
void enter(int t) { me=t; pthread_attr_t a; void* s; size_t n; pthread_getattr_np(pthread_self(),&a); pthread_attr_getstack(&a,&s,&n); lo=(char*)s; hi=lo+n; pthread_attr_destroy(&a); on=true; }
void leave() { on=false; me=0; }
bool active() { return on; }
static Cell* cell(uintptr_t k) { size_t h=(k*0x9E3779B97F4A7C15ull)>>41; for (;;++h) { Cell& c=tab[h&(N-1)]; if (c.key==k) return &c; if (!c.key) { if (++used>N*3/4) abort(); c.key=k; return &c; } } }
static uint32_t pcof(void* pc) { return (uint32_t)(uintptr_t)pc-1; }   /* linked without PIE */
static inline void touch(const void* p,size_t n,bool w,void* pc) { if (!on||!me) return; const char* q=(const char*)p; if (q>=lo&&q<hi) return; rep->accesses++; ++now;
    while (n) { uintptr_t k=(uintptr_t)q>>3; int o=(uintptr_t)q&7,m=n<size_t(8-o)?n:8-o; uint8_t mask=((1u<<m)-1)<<o; Cell* c=cell(k);
        if (me==1) { if (w) { c->w1|=mask; c->wt1=now; c->pcw=pcof(pc); } else { c->r1|=mask; c->rt1=now; c->pcr=pcof(pc); } }
        else { bool ww=(c->w1&mask)&&c->wt1>known, rw=w&&(c->r1&mask)&&c->rt1>known; if ((c->w1|c->r1)&mask) rep->common++; if ((ww||rw)&&!rep->conflict) { rep->conflict=1; rep->addr=(uintptr_t)q; rep->pc1=ww?c->pcw:c->pcr; rep->k1=ww?'w':'r'; rep->pc2=pcof(pc); rep->k2=w?'w':'r'; rep->global=q>=&__executable_start&&q<(char*)sbrk_hint(); } if (w) c->w2|=mask; else c->r2|=mask; }
        q+=m; n-=m; } }
void note(const void* p,size_t n,bool w) { touch(p,n,w,__builtin_return_address(0)); }
// synchronisation: thread 1 ran to its end before thread 2 starts; what thread 2 acquires orders thread 1's earlier accesses
static void release(const void* a) { if (!on||me!=1) return; rep->syncs++; for (int i=0;i<nrel;++i) if (rel[i].a==(uintptr_t)a) { rel[i].t=now; return; } if (nrel<4096) rel[nrel++]={(uintptr_t)a,now}; }
static void acquire(const void* a) { if (!on||me!=2) return; rep->syncs++; for (int i=0;i<nrel;++i) if (rel[i].a==(uintptr_t)a&&rel[i].t>known) known=rel[i].t; }
static bool ours(void* pc) { return (char*)pc>=&__executable_start&&(char*)pc<&__etext; }
template<class F> static F real(const char* n) { void* p=dlsym(RTLD_NEXT,n); if (!p) abort(); return (F)p; }
extern "C" char _end; void* sbrk_hint() { return &_end; }
}
using namespace rt;
extern "C" {
#define PC __builtin_return_address(0)
#define RW(N) void __tsan_read##N(void* p) { touch(p,N,false,PC); } void __tsan_write##N(void* p) { touch(p,N,true,PC); } void __tsan_unaligned_read##N(void* p) { touch(p,N,false,PC); } void __tsan_unaligned_write##N(void* p) { touch(p,N,true,PC); } \
 void __tsan_read_write##N(void* p) { touch(p,N,false,PC); touch(p,N,true,PC); } void __tsan_unaligned_read_write##N(void* p) { touch(p,N,false,PC); touch(p,N,true,PC); } void __tsan_volatile_read##N(void* p) { touch(p,N,false,PC); } void __tsan_volatile_write##N(void* p) { touch(p,N,true,PC); } void __tsan_unaligned_volatile_read##N(void* p) { touch(p,N,false,PC); } void __tsan_unaligned_volatile_write##N(void* p) { touch(p,N,true,PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {} void __tsan_vptr_update(void** p,void*) { touch(p,8,true,PC); } void __tsan_vptr_read(void** p) { touch(p,8,false,PC); }
void __tsan_read_range(void* p,unsigned long n) { touch(p,n,false,PC); } void __tsan_write_range(void* p,unsigned long n) { touch(p,n,true,PC); }
void* __tsan_memset(void* d,int c,unsigned long n) { touch(d,n,true,PC); return memset(d,c,n); }
void* __tsan_memcpy(void* d,const void* s,unsigned long n) { touch(s,n,false,PC); touch(d,n,true,PC); return memcpy(d,s,n); }
void* __tsan_memmove(void* d,const void* s,unsigned long n) { touch(s,n,false,PC); touch(d,n,true,PC); return memmove(d,s,n); }
#define AT(B,T) T __tsan_atomic##B##_load(const volatile T* a,int) { acquire((const void*)a); return __atomic_load_n(a,__ATOMIC_SEQ_CST); } void __tsan_atomic##B##_store(volatile T* a,T v,int) { __atomic_store_n(a,v,__ATOMIC_SEQ_CST); release((const void*)a); } \
 T __tsan_atomic##B##_exchange(volatile T* a,T v,int) { acquire((const void*)a); T r=__atomic_exchange_n(a,v,__ATOMIC_SEQ_CST); release((const void*)a); return r; } \
 T __tsan_atomic##B##_fetch_add(volatile T* a,T v,int) { acquire((const void*)a); T r=__atomic_fetch_add(a,v,__ATOMIC_SEQ_CST); release((const void*)a); return r; } T __tsan_atomic##B##_fetch_sub(volatile T* a,T v,int) { acquire((const void*)a); T r=__atomic_fetch_sub(a,v,__ATOMIC_SEQ_CST); release((const void*)a); return r; } \
 T __tsan_atomic##B##_fetch_and(volatile T* a,T v,int) { acquire((const void*)a); T r=__atomic_fetch_and(a,v,__ATOMIC_SEQ_CST); release((const void*)a); return r; } T __tsan_atomic##B##_fetch_or(volatile T* a,T v,int) { acquire((const void*)a); T r=__atomic_fetch_or(a,v,__ATOMIC_SEQ_CST); release((const void*)a); return r; } T __tsan_atomic##B##_fetch_xor(volatile T* a,T v,int) { acquire((const void*)a); T r=__atomic_fetch_xor(a,v,__ATOMIC_SEQ_CST); release((const void*)a); return r; } \
 int __tsan_atomic##B##_compare_exchange_strong(volatile T* a,T* e,T v,int,int) { acquire((const void*)a); int r=__atomic_compare_exchange_n(a,e,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); release((const void*)a); return r; } int __tsan_atomic##B##_compare_exchange_weak(volatile T* a,T* e,T v,int,int) { acquire((const void*)a); int r=__atomic_compare_exchange_n(a,e,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); release((const void*)a); return r; } \
 T __tsan_atomic##B##_compare_exchange_val(volatile T* a,T e,T v,int,int) { acquire((const void*)a); __atomic_compare_exchange_n(a,&e,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); release((const void*)a); return e; }
AT(8,uint8_t) AT(16,uint16_t) AT(32,uint32_t) AT(64,uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
int pthread_mutex_lock(pthread_mutex_t* m) { static auto f=real<int(*)(pthread_mutex_t*)>("pthread_mutex_lock"); int r=f(m); if (ours(PC)) acquire(m); return r; }
int pthread_mutex_trylock(pthread_mutex_t* m) { static auto f=real<int(*)(pthread_mutex_t*)>("pthread_mutex_trylock"); int r=f(m); if (!r&&ours(PC)) acquire(m); return r; }
int pthread_mutex_unlock(pthread_mutex_t* m) { static auto f=real<int(*)(pthread_mutex_t*)>("pthread_mutex_unlock"); if (ours(PC)) release(m); return f(m); }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { static auto f=real<int(*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock"); int r=f(m); if (ours(PC)) acquire(m); return r; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { static auto f=real<int(*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock"); int r=f(m); if (ours(PC)) acquire(m); return r; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { static auto f=real<int(*)(pthread_rwlock_t*)>("pthread_rwlock_unlock"); if (ours(PC)) release(m); return f(m); }
int pthread_once(pthread_once_t* o,void (*g)()) { static auto f=real<int(*)(pthread_once_t*,void(*)())>("pthread_once"); int r=f(o,g); if (ours(PC)) { acquire(o); release(o); } return r; }
int __cxa_guard_acquire(long* g) { static auto f=real<int(*)(long*)>("__cxa_guard_acquire"); int r=f(g); acquire(g); return r; }
void __cxa_guard_release(long* g) { static auto f=real<void(*)(long*)>("__cxa_guard_release"); release(g); f(g); }
// BLAS: note what is read and written, then the real routine
typedef int BI;
static void vec(const double* x,BI n,BI inc,bool w) { BI s=inc<0?-inc:inc; for (BI i=0;i<n;++i) touch(x+(size_t)i*s,8,w,PC); }
static void mat(const double* a,BI maj,BI min,BI ld,bool w) { for (BI i=0;i<maj;++i) touch(a+(size_t)i*ld,(size_t)min*8,w,PC); }
void cblas_dgemm(int o,int ta,int tb,BI m,BI n,BI k,double al,const double* a,BI lda,const double* b,BI ldb,double be,double* c,BI ldc) { static auto f=real<void(*)(int,int,int,BI,BI,BI,double,const double*,BI,const double*,BI,double,double*,BI)>("cblas_dgemm"); bool row=o==101;
    { BI r=ta==111?m:k,cc=ta==111?k:m; mat(a,row?r:cc,row?cc:r,lda,false); } { BI r=tb==111?k:n,cc=tb==111?n:k; mat(b,row?r:cc,row?cc:r,ldb,false); } if (be!=0) mat(c,row?m:n,row?n:m,ldc,false); mat(c,row?m:n,row?n:m,ldc,true); f(o,ta,tb,m,n,k,al,a,lda,b,ldb,be,c,ldc); }
void cblas_dgemv(int o,int t,BI m,BI n,double al,const double* a,BI lda,const double* x,BI ix,double be,double* y,BI iy) { static auto f=real<void(*)(int,int,BI,BI,double,const double*,BI,const double*,BI,double,double*,BI)>("cblas_dgemv"); bool row=o==101; mat(a,row?m:n,row?n:m,lda,false); BI lx=t==111?n:m,ly=t==111?m:n; vec(x,lx,ix,false); if (be!=0) vec(y,ly,iy,false); vec(y,ly,iy,true); f(o,t,m,n,al,a,lda,x,ix,be,y,iy); }
void cblas_dcopy(BI n,const double* x,BI ix,double* y,BI iy) { static auto f=real<void(*)(BI,const double*,BI,double*,BI)>("cblas_dcopy"); vec(x,n,ix,false); vec(y,n,iy,true); f(n,x,ix,y,iy); }
void cblas_daxpy(BI n,double a,const double* x,BI ix,double* y,BI iy) { static auto f=real<void(*)(BI,double,const double*,BI,double*,BI)>("cblas_daxpy"); vec(x,n,ix,false); vec(y,n,iy,false); vec(y,n,iy,true); f(n,a,x,ix,y,iy); }
void cblas_dscal(BI n,double a,double* x,BI ix) { static auto f=real<void(*)(BI,double,double*,BI)>("cblas_dscal"); vec(x,n,ix,false); vec(x,n,ix,true); f(n,a,x,ix); }
double cblas_ddot(BI n,const double* x,BI ix,const double* y,BI iy) { static auto f=real<double(*)(BI,const double*,BI,const double*,BI)>("cblas_ddot"); vec(x,n,ix,false); vec(y,n,iy,false); return f(n,x,ix,y,iy); }
}
// memory freed while recording is not handed out again, so one thread never gets the other's old addresses
void* operator new(size_t n) { void* p=malloc(n?n:1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n,std::align_val_t a) { void* p=aligned_alloc((size_t)a,(n+(size_t)a-1)/(size_t)a*(size_t)a); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n,std::align_val_t a) { return operator new(n,a); }
void operator delete(void* p) noexcept { if (!rt::active()) free(p); }
void operator delete[](void* p) noexcept { if (!rt::active()) free(p); }
void operator delete(void* p,size_t) noexcept { if (!rt::active()) free(p); }
void operator delete[](void* p,size_t) noexcept { if (!rt::active()) free(p); }
void operator delete(void* p,std::align_val_t) noexcept { if (!rt::active()) free(p); }
void operator delete[](void* p,std::align_val_t) noexcept { if (!rt::active()) free(p); }
void operator delete(void* p,size_t,std::align_val_t) noexcept { if (!rt::active()) free(p); }
void operator delete[](void* p,size_t,std::align_val_t) noexcept { if (!rt::active()) free(p); }
