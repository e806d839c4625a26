// Runtime of the Kokkos stand-in: fibers, barriers, memory with liveness, and the access monitor.
#include "Kokkos_Core.hpp"
#include <algorithm>
#include <deque>
#include <map>
#include <sys/mman.h>
namespace mk {
Config cfg; bool in_kernel=false; long kernels=0,items=0,syncs=0,accesses=0;
std::function<void(const std::string&,const std::string&)> on_problem;
static std::string klabel; static uint32_t kid=0; static Team cur_host{0,1,1,0,0};
struct Fiber { void* sp=nullptr; char* stack=nullptr; Team id; uint16_t te=0,le=0; int state=0; /*0 ready 1 team barrier 2 lane barrier 3 done*/ };
static std::vector<Fiber> fib; static int cur=-1; static void* main_sp=nullptr; static const std::function<void(long)>* body=nullptr; static std::exception_ptr err;
static std::vector<double> exch; static char* scr[2]={nullptr,nullptr}; static size_t scrcap[2]={0,0}; static long cur_item=0;
constexpr size_t STACK=1<<18;
std::string where() { std::string s="kernel '"+klabel+"'"; if (!in_kernel) return "host code (last kernel '"+klabel+"')"; auto& t=self(); s+=" item "+std::to_string(t.league); if (cur>=0) s+=" thread "+std::to_string(t.t)+"/"+std::to_string(t.T)+" lane "+std::to_string(t.v)+"/"+std::to_string(t.V); return s; }
static std::string kind_key(const std::string& k) { return k+":"+klabel; }
void problem(const std::string& key,const std::string& text) { std::string t=text+" in "+where(); if (on_problem) on_problem(kind_key(key),t); throw Stop(key+": "+t); }
void note(const std::string& key,const std::string& text) { if (on_problem) on_problem(kind_key(key),text+" in "+where()); }
// ---- memory -------------------------------------------------------------------------------------------------------
struct Rd { uint16_t f,te,le; };                             // fiber index, team epoch, lane epoch
struct Cell { uint32_t wk,wl; uint16_t wf,wte,wle; uint8_t wat,live,wm; uint32_t rk,rl; uint8_t nr,multi,rat; Rd r[8]; };
constexpr size_t ARENA=(size_t)1<<30; static char* base=nullptr; static Cell* shadow=nullptr; static size_t top=0; static std::multimap<size_t,char*> freed; static std::deque<std::pair<char*,size_t>> quarantine; static size_t qbytes=0; static std::map<const char*,std::pair<size_t,std::string>> live;
static void arena() { if (base) return; base=(char*)mmap(nullptr,ARENA,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); shadow=(Cell*)mmap(nullptr,ARENA/4*sizeof(Cell),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if (base==MAP_FAILED||shadow==MAP_FAILED) { fprintf(stderr,"no address space for the arena\n"); abort(); } }
bool tracking=false;      // set by harnesses built with instrumentation
static void setlive(char* p,size_t n,int v) { if (!tracking) return; size_t a=(p-base)/4,b=(p-base+n+3)/4; for (size_t i=a;i<b;++i) { shadow[i]=Cell{}; shadow[i].live=v; } }
static size_t round_(size_t n) { return (n+63)/64*64+64; }
void* alloc(size_t bytes,const std::string& label,bool) { arena(); size_t n=round_(bytes); char* p; auto it=freed.find(n); if (it!=freed.end()) { p=it->second; freed.erase(it); } else { if (top+n>ARENA) { fprintf(stderr,"arena exhausted\n"); abort(); } p=base+top; top+=n; }
    live[p]={bytes,label}; setlive(p,bytes,1); return p; }
void dealloc(void* q,size_t bytes) { if (!q) return; char* p=(char*)q; live.erase(p); setlive(p,bytes,2); memset(p,0xFA,bytes); quarantine.push_back({p,bytes}); qbytes+=round_(bytes); while (qbytes>(16u<<20)) { auto x=quarantine.front(); quarantine.pop_front(); qbytes-=round_(x.second); freed.emplace(round_(x.second),x.first); } }
void poison(void* p,size_t bytes) { memset(p,0xFA,bytes); }
std::string label_of(const void* q) { const char* p=(const char*)q; auto it=live.upper_bound(p); if (it==live.begin()) return "?"; --it; if (p>=it->first+it->second.first) { return "memory after '"+it->second.second+"'"; } return "'"+it->second.second+"'["+std::to_string(p-it->first)+" bytes]"; }
// ---- monitor ------------------------------------------------------------------------------------------------------
static inline uint16_t fidx() { return cur<0?0:(uint16_t)cur; }
static void touch(const char* p,size_t n,bool write,bool atomic);
void atomic_access(const void* p,size_t n) { if (tracking) touch((const char*)p,n,true,true); }
static bool conc(uint32_t l1,uint16_t f1,uint16_t te1,uint16_t le1,uint32_t l2,uint16_t f2,uint16_t te2,uint16_t le2,int V) {
    if (l1!=l2) return true; if (f1==f2) return false; if (te1!=te2) return false; if (f1/V!=f2/V) return true; return le1==le2; }
static bool reporting=false;
static void race(const char* p,const char* what,uint32_t ol,uint16_t of) { if (reporting) return; reporting=true; auto& t=self(); note(std::string("race:")+what,std::string(what)+" conflict on "+label_of(p)+" with item "+std::to_string(ol)+" thread "+std::to_string(of/std::max(1,t.V))+" lane "+std::to_string(of%std::max(1,t.V))+" not separated by a barrier"); reporting=false; }
static void touch(const char* p,size_t n,bool write,bool atomic) {
    if ((size_t)(p-base)>=ARENA||!base) return; ++accesses;
    size_t a=(p-base)/4,b=(p-base+n-1)/4; 
    for (size_t i=a;i<=b;++i) { Cell& c=shadow[i];
        if (c.live!=1&&c.live!=3) { problem("memory",std::string(write?"write to ":"read of ")+(c.live==2?"freed memory":"memory outside every live view")+" near "+label_of(p)); }
        if (!in_kernel) continue;
        Team& me=self(); uint32_t l=(uint32_t)me.league; uint16_t f=fidx(),te=0,le=0; if (cur>=0) { te=fib[cur].te; le=fib[cur].le; } int V=std::max(1,me.V);
        if (c.wk==kid) { if (!(c.wat&&atomic)&&conc(c.wl,c.wf,c.wte,c.wle,l,f,te,le,V)) race(p,write?"write-write":"write-read",c.wl,c.wf);
            else if (!atomic&&c.wm&&(c.wm==2||(c.wl==l&&c.wte==te))) race(p,write?"write-write":"write-read",c.wl,c.wf); }
        if (write) {
            if (c.rk==kid) { if (c.multi&&!(atomic&&c.rat)) { if (!(c.multi==1&&c.nr==0)) race(p,"read-write",c.rl,c.nr?c.r[0].f:0); }
                else for (int q=0;q<c.nr;++q) if (conc(c.rl,c.r[q].f,c.r[q].te,c.r[q].le,l,f,te,le,V)) { race(p,"read-write",c.rl,c.r[q].f); break; } }
            c.wm= c.wk==kid&&c.wat&&atomic ? (c.wl!=l||c.wm==2 ? 2 : conc(c.wl,c.wf,c.wte,c.wle,l,f,te,le,V)||(c.wm&&c.wte==te) ? 1 : 0) : 0;
            if (!(c.wk==kid&&c.wat==0&&atomic)||c.wl!=l||c.wf!=f) { c.wk=kid; c.wl=l; c.wf=f; c.wte=te; c.wle=le; c.wat=atomic; } else { c.wte=te; c.wle=le; }
        } else {
            if (c.rk!=kid) { c.rk=kid; c.rl=l; c.nr=0; c.multi=0; c.rat=0; }
            if (c.rl!=l) { c.multi=2; }
            else { int q=0; for (;q<c.nr;++q) if (c.r[q].f==f) break; if (q==c.nr) { if (c.nr<8) ++c.nr; else q=f%8; } c.r[q]={f,te,le}; }
        } } }
// ---- scheduler ----------------------------------------------------------------------------------------------------
Team& self() { return cur>=0?fib[cur].id:cur_host; }
extern "C" void mk_switch(void** from,void* to);
asm(R"(
.text
.globl mk_switch
.type mk_switch,@function
mk_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp,(%rdi)
    movq %rsi,%rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
)");
static void entry() { try { (*body)(fib[cur].id.league); } catch (...) { err=std::current_exception(); } fib[cur].state=3; void* dummy; mk_switch(&dummy,main_sp); abort(); }
static std::vector<char*> stacks;
static void start(Fiber& f,int k) { while ((int)stacks.size()<=k) { char* p=(char*)mmap(nullptr,STACK,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if (p==MAP_FAILED) abort(); stacks.push_back(p); } f.stack=stacks[k];
    void** s=(void**)(f.stack+STACK-64); *--s=nullptr; *--s=(void*)entry; for (int i=0;i<6;++i) *--s=nullptr; f.sp=s; f.state=0; f.te=f.le=0; }
static void yield_(int st) { fib[cur].state=st; int me=cur; mk_switch(&fib[me].sp,main_sp); }
static std::vector<long> order(long n) { std::vector<long> o(n); for (long i=0;i<n;++i) o[i]=i; long k=cfg.order; if (k==1) std::reverse(o.begin(),o.end()); else if (k==2) std::rotate(o.begin(),o.begin()+n/2,o.end()); else if (k>=3) { k-=3; if (n<=8) { std::vector<long> src=o; for (long i=0;i<n;++i) { long m=n-i; long j=k%m; k/=m; o[i]=src[j]; src.erase(src.begin()+j); } } else { long s=2*k+3; while (std::__gcd(s,n)!=1) ++s; for (long i=0;i<n;++i) o[i]=(i*s+k)%n; } } return o; }
void begin_kernel(const char* label) { klabel=label; ++kid; ++kernels; in_kernel=true; cur_host={0,1,1,0,0}; }
void end_kernel() { in_kernel=false; cur=-1; }
void set_item(long i) { cur_host.league=i; cur_item=i; ++items; }
namespace { struct End { ~End() { end_kernel(); } }; }
void run_items(const char* label,long n,const std::function<void(long)>& f) { if (n<=0) { klabel=label; return; } begin_kernel(label); End e; if (cfg.order==0) for (long i=0;i<n;++i) { set_item(i); f(i); } else for (long i:order(n)) { set_item(i); f(i); } }
void run_teams(const char* label,long leagues,int T,int V,size_t s0,size_t s1,const std::function<void(long)>& f) {
    if (leagues<=0) { klabel=label; return; } begin_kernel(label); End e; arena();
    size_t need[2]={s0,s1}; for (int l=0;l<2;++l) { scrcap[l]=need[l]; }
    static char* sb[2]={nullptr,nullptr}; static size_t sc[2]={0,0}; for (int l=0;l<2;++l) if (need[l]>sc[l]) { sb[l]=(char*)alloc(need[l],"team scratch",true); sc[l]=need[l]; } scr[0]=sb[0]; scr[1]=sb[1];
    const int W=T*V; exch.assign((size_t)W*16+32,0); fib.resize(W);
    for (long l:order(leagues)) {
        for (int q=0;q<2;++q) if (need[q]) { poison(scr[q],need[q]); setlive(scr[q],need[q],3); }
        if (W==1) { cur_host={l,1,1,0,0}; ++items; cur=-1; f(l); continue; }
        body=&f; err=nullptr; for (int k=0;k<W;++k) { fib[k].id={l,T,V,k/V,k%V}; start(fib[k],k); ++items; }
        auto o=order(W); 
        for (;;) { bool ran=false; for (long k:o) if (fib[k].state==0) { cur=(int)k; mk_switch(&main_sp,fib[k].sp); cur=-1; ran=true; if (err) { auto x=err; err=nullptr; std::rethrow_exception(x); } }
            int done=0,team=0; for (auto& b:fib) { done+=b.state==3; team+=b.state==1; } if (done==W) break;
            bool rel=false; if (team==W) { for (auto& b:fib) { b.state=0; ++b.te; } rel=true; ++syncs; }
            else for (int t=0;t<T;++t) { int c=0; for (int v=0;v<V;++v) c+=fib[t*V+v].state==2; if (c==V) { for (int v=0;v<V;++v) { fib[t*V+v].state=0; ++fib[t*V+v].le; } rel=true; ++syncs; } }
            if (!ran&&!rel) { cur_host={l,T,V,0,0}; problem("barrier-divergence","threads or lanes of one team wait at different barriers, or some never arrive"); } } }
}
void team_sync() { if (cur<0) return; yield_(1); }
void lane_sync() { if (cur<0||fib[cur].id.V==1) return; yield_(2); }
double* exchange(int slot) { static double one[32]; if (cur<0) { return slot<0?one+16:one+slot; } return slot<0?&exch[fib.size()*16]:&exch[(size_t)cur*16+slot]; }
char* scratch(int level,size_t& size) { size=scrcap[level]; return scr[level]; }
}
// ---- instrumentation callbacks (clang -fsanitize=thread, without the TSan runtime) ----------------------------------
extern "C" {
#define MK_RW(N) void __tsan_read##N(void* p) { if (mk::tracking) mk::touch((const char*)p,N,false,false); } void __tsan_write##N(void* p) { if (mk::tracking) mk::touch((const char*)p,N,true,false); } \
 void __tsan_unaligned_read##N(void* p) { if (mk::tracking) mk::touch((const char*)p,N,false,false); } void __tsan_unaligned_write##N(void* p) { if (mk::tracking) mk::touch((const char*)p,N,true,false); } \
 void __tsan_read_write##N(void* p) { if (mk::tracking) { mk::touch((const char*)p,N,false,false); mk::touch((const char*)p,N,true,false); } } void __tsan_unaligned_read_write##N(void* p) { __tsan_read_write##N(p); } \
 void __tsan_volatile_read##N(void* p) { __tsan_read##N(p); } void __tsan_volatile_write##N(void* p) { __tsan_write##N(p); }
MK_RW(1) MK_RW(2) MK_RW(4) MK_RW(8) MK_RW(16)
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {} void __tsan_vptr_update(void**,void*) {} void __tsan_vptr_read(void**) {}
void __tsan_read_range(void*,unsigned long) {} void __tsan_write_range(void*,unsigned long) {}
void* __tsan_memset(void* d,int c,unsigned long n) { return memset(d,c,n); } void* __tsan_memcpy(void* d,const void* s,unsigned long n) { return memcpy(d,s,n); } void* __tsan_memmove(void* d,const void* s,unsigned long n) { return memmove(d,s,n); }
}
