// C27: separate objects on separate threads.  For every ordered pair of operations a fresh process runs the first on one real
// thread and, without any synchronisation added between them, the second on another, recording every byte each of them reads and
// writes (thrrt.cpp).  When no byte written by one is touched by the other (except as ordered by the code's own
// synchronisation), all interleavings of the two are equivalent to the one executed; the results are compared with those of
// each operation alone.
// usage: thrx <shard> <nshards> <model.json>...
#include "vh.hpp"
#include "thrrt.hpp"
#include "mace.hpp"
#include "spherical_harmonic.hpp"
#include "tools.hpp"
#include <memory>
#include <thread>
#include <condition_variable>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/wait.h>
typedef std::vector<double> V; typedef std::vector<std::vector<double>> VV;
static V g(int n,int s) { V v(n); for (int i=0;i<n;++i) v[i]=vh::gen(s*1000+i); return v; }
static void put(V& o,const V& a) { o.insert(o.end(),a.begin(),a.end()); }
static void puti(V& o,const std::vector<std::vector<int>>& a) { for (auto& x:a) { o.push_back(x.size()); o.insert(o.end(),x.begin(),x.end()); } }
static std::vector<std::string> models;
// ---- the classes: how to construct variant v, how to use an object -------------------------------------------------
struct CPoly { typedef MultivariatePolynomial T; static constexpr const char* n="polynomial"; static const int nv=3; static std::unique_ptr<T> make(int v) { std::vector<std::vector<int>> m; int nvar=v==0?2:v==1?3:5; if (v==0) m={{0},{1},{0,1},{0,0},{0,1,1}}; else if (v==1) m={{0,1,2},{2,2},{1},{0,0,1,2}}; else for (int i=0;i<5;++i) for (int j=i;j<5;++j) m.push_back({i,j}); return std::make_unique<T>(nvar,g(m.size(),v+3),m); }
    static V use(T& p,int v) { V o; auto x=g(p.num_variables,v+7); o.push_back(p.evaluate(x)); { auto [e,d]=p.evaluate_gradient(x); o.push_back(e); put(o,d); } for (int b:{1,3,8}) { auto [e,d]=p.evaluate_batch(g(p.num_variables*b,v+9),b); put(o,e); put(o,d); } o.push_back(p.evaluate_simple(x)); { auto [e,d]=p.evaluate_gradient_simple(x); o.push_back(e); put(o,d); } return o; } };
struct CMlp { typedef MultilayerPerceptron T; static constexpr const char* n="perceptron"; static const int nv=2; static std::unique_ptr<T> make(int v) { std::vector<int> s=v?std::vector<int>{2,5,4,1}:std::vector<int>{3,4,2}; VV w; for (size_t i=0;i+1<s.size();++i) w.push_back(g(s[i]*s[i+1],v+20+i)); return std::make_unique<T>(s,w,1.1+v); }
    static V use(T& p,int v) { int d=v?2:3; V o; put(o,p.evaluate(g(d,v+30))); { auto [e,q]=p.evaluate_gradient(g(d,v+31)); put(o,e); put(o,q); } for (int b:{1,4,9}) { put(o,p.evaluate_batch(g(d*b,v+32),b)); auto [e,q]=p.evaluate_gradient_batch(g(d*b,v+33),b); put(o,e); put(o,q); } return o; } };
struct CSpl { typedef CubicSpline T; static constexpr const char* n="spline"; static const int nv=1; static std::unique_ptr<T> make(int v) { return std::make_unique<T>(0.5,g(7,41),g(7,42)); } static V use(T& p,int) { V o; for (double r:{0.1,0.5,1.3,2.9}) { o.push_back(p.evaluate(r)); auto [a,b]=p.evaluate_deriv(r); auto [c,d]=p.evaluate_deriv_divided(r); put(o,{a,b,c,d}); } return o; } };
struct CSet { typedef CubicSplineSet T; static constexpr const char* n="spline set"; static const int nv=1; static std::unique_ptr<T> make(int v) { return std::make_unique<T>(0.5,VV{g(7,43),g(7,44),g(7,45)},VV{g(7,46),g(7,47),g(7,48)}); } static V use(T& p,int) { V o; for (double r:{0.1,0.5,1.3,2.9}) { V a(3),b(3),c(3); p.evaluate(r,a); p.evaluate_derivs(r,b,c); put(o,a); put(o,b); put(o,c); } return o; } };
struct CZbl { typedef ZBL T; static constexpr const char* n="ZBL"; static const int nv=1; static std::unique_ptr<T> make(int) { V rad(30); for (int i=0;i<30;++i) rad[i]=0.5+0.04*i; return std::make_unique<T>(0.3,0.4543,V{0.1818,0.5099,0.2802,0.02817},rad,6); }
    static V use(T& p,int) { V o; for (double r:{0.3,0.8,1.2}) put(o,{p.compute(1,8,r),p.compute_gradient(8,6,r),p.compute_envelope(r,1.9,6),p.compute_envelope_gradient(r,1.9,6)}); std::vector<int> ty={0,1},nn={2,1},nt={1,0,0},z={1,8}; V r={0.7,0.9,0.6},xyz={0.7,0,0,0,0.9,0,0,0,-0.6},e(2),f(9); p.compute_ZBL(2,ty,nn,nt,z,r,xyz,e,f); put(o,e); put(o,f); return o; } };
struct CMace { typedef MACE T; static constexpr const char* n="MACE"; static int nv; static std::unique_ptr<T> make(int v) { return std::make_unique<T>(models[v]); }
    static V use(T& m,int v) { V o; for (int k=0;k<2;++k) { int N=3-k; std::vector<int> ty,nn,idx,nt; V xyz,r; for (int i=0;i<N;++i) { ty.push_back((i+v)%m.num_elements); int c=i==1?1:2; nn.push_back(c); for (int j=0;j<c;++j) { idx.push_back((i+j+1)%N); double s=0; for (int q=0;q<3;++q) { double x=0.5*m.r_cut*vh::gen(100*v+10*i+3*j+q+k); xyz.push_back(x); s+=x*x; } r.push_back(std::sqrt(s)); } } for (int j:idx) nt.push_back(ty[j]); m.compute_node_energies_forces(N,ty,nn,idx,nt,xyz,r); put(o,m.node_energies); put(o,m.node_forces); } return o; } };
int CMace::nv=0;
// free functions, as classes without state
struct CSph { struct T {}; static constexpr const char* n="spherical harmonics"; static const int nv=2; static std::unique_ptr<T> make(int) { return std::make_unique<T>(); } static V use(T&,int v) { V o; int L=3+v; for (int l=0;l<=L;++l) for (int m=-l;m<=l;++m) { auto a=sph_harm(l,m,0.4+v,1.1),b=sph_harm_xyz(l,m,0.2,-0.4,0.5+v),c=sphericart_sph_harm(l,m,0.3,0.1,v-0.5); put(o,{a.real(),a.imag(),b.real(),b.imag(),c.real(),c.imag(),real_sph_harm(l,m,0.6,2.0+v),real_sph_harm_xyz(l,m,-0.3,0.1,0.7+v),sphericart_real_sph_harm(l,m,0.1,0.2,0.3+v)}); } put(o,sphericart_real(L,{0.1,0.2,0.3,1,0,0})); for (auto z:sphericart_complex(L,{0.3,0.1,-0.2,0,0,1})) put(o,{z.real(),z.imag()}); return o; } };
struct CTools { struct T {}; static constexpr const char* n="index tools"; static const int nv=2; static std::unique_ptr<T> make(int) { return std::make_unique<T>(); } static V use(T&,int v) { V o; std::vector<int> a={0,1,2,3}; if (v) a={2,5,7}; for (int n=0;n<6+v;++n) for (int k=0;k<=n;++k) o.push_back(_binomial_coefficient(n,k)); o.push_back(_sum(a)); for (auto& p:_partitions(a)) puti(o,p); for (auto& p:_two_part_partitions(a)) puti(o,p); puti(o,_permutations(3+v)); puti(o,_combinations(a,2)); puti(o,_product<int>({a,{1,2},{3}})); puti(o,_product_repeat({0,1},3)); puti(o,_generate_indices(3,2+v)); return o; } };
// ---- operations ----------------------------------------------------------------------------------------------------
struct Op { std::string name; std::function<std::shared_ptr<void>()> prepare; std::function<V(std::shared_ptr<void>&)> run; };
struct Pair { std::string name; std::function<void(std::shared_ptr<void>&,std::shared_ptr<void>&)> prepare; std::function<V(std::shared_ptr<void>&)> a,b; };
static std::vector<Op> ops; static std::vector<Pair> pairs;
template<class C> void add() { typedef typename C::T T; for (int v=0;v<C::nv;++v) { std::string n=std::string(C::n)+" "+std::to_string(v);
        ops.push_back({"construct, use and destroy "+n,[]{ return std::shared_ptr<void>(); },[v](std::shared_ptr<void>&){ auto p=C::make(v); return C::use(*p,v); }});
        if (std::is_empty<T>::value) continue;
        ops.push_back({"use an existing "+n,[v]{ return std::shared_ptr<void>(std::shared_ptr<T>(C::make(v))); },[v](std::shared_ptr<void>& p){ return C::use(*(T*)p.get(),v); }});
        ops.push_back({"use and destroy an already used "+n,[v]{ std::shared_ptr<T> p(C::make(v)); C::use(*p,v); return std::shared_ptr<void>(p); },[v](std::shared_ptr<void>& p){ V o=C::use(*(T*)p.get(),v); p.reset(); return o; }});
        if constexpr (std::is_copy_constructible<T>::value) for (int how=0;how<4;++how) for (int x=0;x<2;++x) for (int y=0;y<2;++y) { // a copy and its original
            auto f=[v](int k) { return [v,k](std::shared_ptr<void>& p) { V o; if (k==0) o=C::use(*(T*)p.get(),v); else { T c(*(T*)p.get()); o=C::use(c,v); p.reset(); } return o; }; }; const char* hs[]={"copied","copied after use","assigned","assigned after both were used"}; const char* ks[]={"use","copy, use and destroy"};
            pairs.push_back({std::string(ks[x])+" the original / "+ks[y]+" the duplicate of "+n+" ("+hs[how]+")",[v,how](std::shared_ptr<void>& A,std::shared_ptr<void>& B){ std::shared_ptr<T> a(C::make(v)),b; if (how==1||how==3) C::use(*a,v); if (how<2) b=std::make_shared<T>(*a); else { b=std::shared_ptr<T>(C::make(v?0:C::nv-1)); if (how==3) C::use(*b,v?0:C::nv-1); *b=*a; } A=a; B=b; },f(x),f(y)}); } } }
static rt::Report* rep; static V* outA; static V* outB;
struct Job { sem_t go,done; std::function<void()> f; };
static void* thread_main(void* p) { Job* j=(Job*)p; sem_wait(&j->go); j->f(); sem_post(&j->done); sem_wait(&j->go); return nullptr; }
// one execution: both threads exist all the time; the semaphores are used outside the recorded part
static void execute(std::function<void(std::shared_ptr<void>&,std::shared_ptr<void>&)> prep,const std::function<V(std::shared_ptr<void>&)>& a,const std::function<V(std::shared_ptr<void>&)>* b,V& ra,V& rb) {
    static Job j[2]; static pthread_t t[2]; std::shared_ptr<void> A,B; prep(A,B); rt::begin(rep); for (auto& x:j) { sem_init(&x.go,0,0); sem_init(&x.done,0,0); }
    j[0].f=[&]{ rt::enter(1); { V o=a(A); ra=o; } rt::leave(); }; j[1].f=[&]{ if (b) { rt::enter(2); { V o=(*b)(B); rb=o; } rt::leave(); } };
    for (int i=0;i<2;++i) pthread_create(&t[i],nullptr,thread_main,&j[i]); for (int i=0;i<2;++i) { sem_post(&j[i].go); sem_wait(&j[i].done); } }
template<class F> static int forked(F f) { memset((void*)rep,0,sizeof *rep); fflush(stdout); pid_t p=fork(); if (!p) { for (int s:{SIGSEGV,SIGBUS,SIGFPE,SIGABRT,SIGILL}) signal(s,SIG_DFL); alarm(120); f(); rep->done=1; _exit(0); } int st=0; waitpid(p,&st,0); return rep->done?0:WIFSIGNALED(st)?WTERMSIG(st):256; }
static bool sameV(const double* a,size_t n,const V& b) { if (n!=b.size()) return false; for (size_t i=0;i<n;++i) if (!vh::close(a[i],b[i],1+std::fabs(b[i]),1e-11)) return false; return true; }
static std::string where(const char* exe,uint32_t pc) { char cmd[600]; snprintf(cmd,600,"addr2line -s -f -C -e '%s' 0x%x 2>/dev/null | head -2 | tr '\\n' ' ' | cut -c1-160",exe,pc); std::string o; if (FILE* f=popen(cmd,"r")) { char b[300]; while (fgets(b,300,f)) o+=b; pclose(f); } while (!o.empty()&&isspace((unsigned char)o.back())) o.pop_back(); return o; }
int main(int argc,char** argv) { vh::init(); int shard=atoi(argv[1]),nsh=atoi(argv[2]); for (int i=3;i<argc;++i) models.push_back(argv[i]); CMace::nv=models.size(); char exe[500]; ssize_t k=readlink("/proc/self/exe",exe,499); exe[k>0?k:0]=0;
    const size_t CAP=1<<16; char* sh=(char*)mmap(nullptr,sizeof(rt::Report)+CAP*8+64,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); rep=(rt::Report*)sh; double* shared=(double*)(sh+((sizeof(rt::Report)+63)/64)*64);
    add<CPoly>(); add<CMlp>(); add<CSpl>(); add<CSet>(); add<CZbl>(); add<CSph>(); add<CTools>(); add<CMace>();
    auto none=[](std::shared_ptr<void>&,std::shared_ptr<void>&){};
    // what each operation gives alone, in a process of its own
    std::vector<V> solo(ops.size()); for (size_t i=0;i<ops.size();++i) { vh::Case cs("alone",[&]{ return ops[i].name; }); vh::states++; int bad=forked([&]{ V a,b; execute([&](auto& A,auto&){ A=ops[i].prepare(); },ops[i].run,nullptr,a,b); if (a.size()+1>CAP) abort(); shared[0]=a.size(); memcpy(shared+1,a.data(),a.size()*8); }); if (bad) { vh::fail_here("alone","the operation on a thread of its own fails ("+std::to_string(bad)+")"); continue; } solo[i]=V(shared+1,shared+1+(size_t)shared[0]); if (solo[i].empty()) abort(); }
    auto one=[&](const std::string& name,auto prep,const std::function<V(std::shared_ptr<void>&)>& a,const std::function<V(std::shared_ptr<void>&)>& b,const V* wa,const V* wb) { vh::Case cs("threads",[&]{ return name; }); vh::traces++; vh::states++;
        int bad=forked([&]{ V ra,rb; execute(prep,a,&b,ra,rb); if (!wa) { if (!sameV(ra.data(),ra.size(),rb)) rep->differs=3; } else { if (!sameV(ra.data(),ra.size(),*wa)) rep->differs=1; else if (!sameV(rb.data(),rb.size(),*wb)) rep->differs=2; } });
        vh::transitions+=rep->accesses; vh::extra["bytes groups touched by both threads (read by both, or ordered)"]+=rep->common; vh::extra["synchronisation operations"]+=rep->syncs;
        if (rep->conflict) { auto w=[](char c){ return c=='w'?"writes":"reads"; }; std::string s=where(exe,rep->pc1),t=where(exe,rep->pc2); vh::fail_here("data-race:"+s.substr(0,s.find('(')),std::string("the first thread ")+w(rep->k1)+" a "+(rep->global?"global":"heap")+" location ("+s+") that the second "+w(rep->k2)+" ("+t+") with nothing ordering the two"); }
        else if (bad) vh::fail_here("crash","the execution fails ("+std::to_string(bad)+")"); else if (rep->differs) vh::fail_here("results","results differ from those of the operation alone (thread "+std::to_string(rep->differs)+")"); };
    long c=0; for (size_t i=0;i<ops.size();++i) for (size_t q=0;q<ops.size();++q) { if (c++%nsh!=shard) continue; one("thread 1: "+ops[i].name+"; thread 2: "+ops[q].name,[&](std::shared_ptr<void>& A,std::shared_ptr<void>& B){ A=ops[i].prepare(); B=ops[q].prepare(); },ops[i].run,ops[q].run,&solo[i],&solo[q]); }
    for (auto& p:pairs) { if (c++%nsh!=shard) continue; one(p.name,p.prepare,p.a,p.b,nullptr,nullptr); }
    return vh::finish(); }
