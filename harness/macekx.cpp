// C14/C15/C16: the Kokkos MACE evaluator on the controlled scheduler against the serial evaluator.
// usage: macekx <agree|reuse|sched> <double|float> <size n|s> <model.json> <shard> <nshards>
//   agree: all small neighbour graphs x types, schedules rotating;  sched: fewer graphs x every schedule;  reuse: all sequences of structures
#include "kokh.hpp"
#include "mace.hpp"
#include "mace_kokkos.hpp"
#include "maceref.hpp"
#include "graphs.hpp"
#include <memory>
static std::string mode,prec,mname; static double worst_e=0,worst_f=0;
struct Res { std::vector<double> e,f; };
static Res serial(MACE& M,const Graph& g) { auto nt=g.nty(); auto r=g.r(); M.compute_node_energies_forces(g.n,g.ty,g.nn,g.idx,nt,g.xyz,r); return {M.node_energies,M.node_forces}; }
template<class P> Res kok(MACEKokkos<P>& M,const Graph& g,bool exact) { auto nt=g.nty(); auto r=g.r(); vh::transitions++; auto ty=kh::cdev(g.ty,"node_types"),nn=kh::cdev(g.nn,"num_neigh"),ix=kh::cdev(g.idx,"neigh_indices"),t2=kh::cdev(nt,"neigh_types"); auto x=kh::cdev(g.xyz,"xyz"),rr=kh::cdev(r,"r");
    M.compute_node_energies_forces(g.n,ty,nn,ix,t2,x,rr); if (kh::host(ty)!=g.ty||kh::host(nn)!=g.nn||kh::host(ix)!=g.idx||kh::host(t2)!=nt||kh::host(x)!=g.xyz||kh::host(rr)!=r) vh::fail_here("inputs-modified","inputs changed");
    auto e=kh::host(M.node_energies),f=kh::host(M.node_forces); if ((int)e.size()<g.n||f.size()<g.xyz.size()) { vh::fail_here("sizes","node_energies holds "+std::to_string(e.size())+", node_forces "+std::to_string(f.size())); return {}; } e.resize(g.n); f.resize(g.xyz.size()); return {e,f}; }
static void cmp(const Res& k,const Res& s,double tol,const char* key) { if (k.e.size()!=s.e.size()) return; double em=1,fm=1; for (double v:s.e) em=std::max(em,std::fabs(v)); for (double v:s.f) fm=std::max(fm,std::fabs(v)); fm=std::max(fm,em);
    for (size_t i=0;i<s.e.size();++i) { worst_e=std::max(worst_e,std::fabs(k.e[i]-s.e[i])/em); if (!vh::close(k.e[i],s.e[i],em,tol)) { vh::fail_here(std::string(key)+":energy","atom "+std::to_string(i)+" Kokkos "+vh::num(k.e[i])+" serial "+vh::num(s.e[i])+" | schedule "+kh::cs()); break; } }
    for (size_t i=0;i<s.f.size();++i) { worst_f=std::max(worst_f,std::fabs(k.f[i]-s.f[i])/fm); if (!vh::close(k.f[i],s.f[i],fm,tol)) { vh::fail_here(std::string(key)+":force","entry "+std::to_string(i)+" Kokkos "+vh::num(k.f[i])+" serial "+vh::num(s.f[i])+" | schedule "+kh::cs()); break; } } }
template<class P> void run(const std::string& file,const std::string& size,bool T) {
    RefModel R(file); make_vecs(R.r_cut,R.h); MACE S(file); const double tol=sizeof(P)==4?1e-4:1e-11; std::unique_ptr<MACEKokkos<P>> K; auto need=[&]{ if (!K) K=std::make_unique<MACEKokkos<P>>(file); };
    { vh::Case cs("load",[&]{ return mname+" loading"; }); kh::guarded([&]{ need(); if (K->num_elements!=R.na||K->num_channels!=R.ch||K->l_max!=R.l_max||K->L_max!=R.L_max||kh::host(K->atomic_numbers)!=R.Z||K->r_cut!=R.r_cut||K->has_zbl!=R.zbl||kh::host(K->atomic_energies)!=R.E0) vh::fail_here("model-data","public model data differ from the file"); }); }
    if (!K) return;
    std::vector<kh::Cfg> rot=kh::cfgs(0); long n_=0;
    auto one=[&](Graph& g,int pat,const kh::Cfg& cf){ setv(g,pat); vh::Case cs(mode,[&]{ return mname+" "+prec+" "+gs(g); }); vh::states++; vh::traces++; kh::use(cf); bool ok=false; kh::guarded([&]{ need(); auto s=serial(S,g); auto k=kok<P>(*K,g,false); cmp(k,s,tol,"kokkos"); ok=true; }); if (!ok) K.reset(); };
    if (mode=="agree") {
        for (int n=0;n<=(size=="n"?3:2);++n) { int Kn=n<=1?4:n==2?(R.na>4?1:3):(R.na>1&&!T?1:2); graphs(n,Kn,R.na,[&](Graph& g){ static const int P1[]={0,1,2,3,4,5,6,7,8}, P2[]={0,6,1,7,5}; if (n<=1||T) for (int p:P1) one(g,p,rot[n_++%rot.size()]); else if (n==2) { int k=0; for (int p:P2) if (k++<(size=="n"?4:2)) one(g,p,rot[n_++%rot.size()]); } else { one(g,n_%2?0:6,rot[n_%rot.size()]); n_++; } }); }
        large(R.na,[&](Graph& g){ one(g,1,rot[n_%rot.size()]); n_++; });
        larger(R.na,[&](Graph& g){ if (T||size=="n"||(n_%3)==0) one(g,1,rot[n_%rot.size()]); n_++; });
    } else if (mode=="sched") {
        std::vector<Graph> G; auto add=[&](int n,std::vector<int> ty,std::vector<int> nn,std::vector<int> idx){ Graph g; g.n=n; g.ty=ty; for (int& t:g.ty) t%=R.na; g.nn=nn; g.idx=idx; G.push_back(g); };
        add(1,{0},{3},{0,0,0}); add(3,{0,1,2},{2,0,3},{1,2,0,1,0}); add(2,{1,0},{1,4},{1,0,0,1,0}); add(4,{0,0,1,1},{1,2,1,2},{1,0,2,3,0,1}); if (T) add(6,{0,1,2,0,1,2},{5,0,1,3,2,4},{1,2,3,4,5,0,0,1,2,3,4,0,1,2,5});
        auto cf=kh::cfgs(T?2:1); for (size_t a=0;a<G.size();++a) for (auto& c:cf) if (mine()) one(G[a],(int)a,c);
    } else {
        std::vector<Graph> A; std::vector<std::string> nm; auto add=[&](std::string s,Graph g,int pat){ setv(g,pat); for (auto& t:g.ty) t%=R.na; A.push_back(g); nm.push_back(s); };
        Graph g; add("empty",g,0); g.n=1; g.ty={0}; g.nn={0}; add("atom",g,0); g.ty={R.na-1}; g.nn={3}; g.idx={0,0,0}; add("self-images",g,1);
        g=Graph(); g.n=2; g.ty={0,1}; g.nn={1,1}; g.idx={1,0}; add("dimer",g,0); g=Graph(); g.n=4; g.ty={1,0,0,1}; g.nn={0,0,0,0}; add("4 isolated",g,0);
        g=Graph(); g.n=3; g.ty={0,0,1}; g.nn={0,1,0}; g.idx={2}; add("one edge",g,3); g=Graph(); g.n=5; for (int i=0;i<5;++i) { g.ty.push_back(i%3==1); g.nn.push_back(i==3?0:4); if (i!=3) for (int k=0;k<4;++k) g.idx.push_back((i+k*k+1)%5); } add("5 atoms dense",g,2);
        g=Graph(); g.n=2; g.ty={1,1}; g.nn={9,1}; for (int k=0;k<9;++k) g.idx.push_back(k%2); g.idx.push_back(0); add("2 atoms dense",g,1);
        g=Graph(); g.n=2; g.ty={0,1}; g.nn={1,1}; g.idx={1,0}; add("dimer elsewhere",g,3); g.ty={1,0}; add("dimer exchanged",g,0); g.ty={0,1}; g.nn={2,0}; g.idx={1,1}; add("2 edges on one atom",g,0);
        g=Graph(); g.n=5; for (int i=0;i<5;++i) { g.ty.push_back(i%2); g.nn.push_back(i==1?0:4); if (i!=1) for (int k=0;k<4;++k) g.idx.push_back((i+k*k+k+1)%5); } add("5 atoms dense, changed",g,6);
        auto big=[&](int n,int k,int v){ Graph b; b.n=n; for (int i=0;i<n;++i) { b.ty.push_back((i*i+v)%3); int q=(i*7+v)%5==0?0:1+(i*3+v)%k; b.nn.push_back(q); for (int j=0;j<q;++j) b.idx.push_back((i+j*j+j+1+v)%n); } return b; }; const int NS=(int)A.size();
        add("40 atoms",big(40,5,0),1); add("40 atoms, changed",big(40,5,2),2); add("3 atoms, 90 edges",big(3,45,1),3); add("19 atoms",big(19,9,1),0); const int NB=(int)A.size();
        auto near_=[&](int v){ Graph b; b.n=6; for (int i=0;i<6;++i) { b.ty.push_back((i*i)%3%R.na); int q=i==4?0:i==0?5:3; b.nn.push_back(q); for (int k=0;k<q;++k) b.idx.push_back((i+k*k+1)%6); } setv(b,1); size_t E=b.idx.size(); auto sw=[&](size_t x,size_t y){ std::swap(b.idx[x],b.idx[y]); for (int c=0;c<3;++c) std::swap(b.xyz[3*x+c],b.xyz[3*y+c]); };
            if (v==1) { b.xyz[3*E-3]*=0.8; b.xyz[3*E-1]+=0.1*std::fabs(b.xyz[3*E-3]); } else if (v==2) { sw(0,3); sw(1,4); } else if (v==3) b.ty[5]=(b.ty[5]+1)%R.na; else if (v==4) b.xyz[0]*=1+1e-6; else if (v==5) for (size_t e=0;e<E;++e) { std::swap(b.xyz[3*e],b.xyz[3*e+1]); } else if (v==6) b.idx[E-1]=(b.idx[E-1]+1)%6; else if (v==7) { b.nn[5]--; b.nn[4]++; } else if (v==8) { for (double& c:b.xyz) c*=0.97; } else if (v==9) { for (int c=0;c<3;++c) std::swap(b.xyz[c],b.xyz[3*(E-1)+c]); } return b; };
        static const char* NN[]={"base","last edge moved","neighbours of the first atom in another order","last element changed","one coordinate changed by 1e-6","x and y exchanged","last neighbour changed","an edge given to the previous atom","scaled","first and last vector exchanged"}; const int N0=(int)A.size(); for (int v=0;v<10;++v) { A.push_back(near_(v)); nm.push_back(NN[v]); } const int N1=(int)A.size();
        std::vector<Res> fresh; for (auto& x:A) fresh.push_back(serial(S,x)); const int NA=NS, depth=size=="n"?(T?4:3):2; long w_=0;
        for (int d=1;d<=depth;++d) { std::vector<int> w(d,0); for (;;) { if (mine()) { int st=0; vh::traces++; kh::use(rot[w_++%rot.size()]); vh::Case cs("reuse",[&]{ std::string s=mname+" "+prec+" history:"; for (int i=0;i<=st&&i<d;++i) s+=" "+nm[w[i]]+";"; return s; }); bool ok=false;
                    kh::guarded([&]{ std::unique_ptr<MACEKokkos<P>> own; if (d<=2) own=std::make_unique<MACEKokkos<P>>(file); else need(); MACEKokkos<P>& X=own?*own:*K; for (st=0;st<d;++st) { vh::states++; auto k=kok<P>(X,A[w[st]],false); cmp(k,fresh[w[st]],tol,"reuse"); } ok=true; }); if (!ok) K.reset(); }
                int i=d-1; while (i>=0&&++w[i]==NA) w[i--]=0; if (i<0) break; } }
        for (int a=N0;a<N1;++a) for (int b=N0;b<N1;++b) { if (!T&&size!="n"&&a!=N0&&b!=N0&&(a+b)%2) continue; if (mine()) { int st=0; const int w[3]={a,b,a}; vh::traces++; kh::use(rot[w_++%rot.size()]); vh::Case cs("reuse",[&]{ std::string s=mname+" "+prec+" history:"; for (int i=0;i<=st&&i<3;++i) s+=" "+nm[w[i]]+";"; return s; }); bool ok=false; kh::guarded([&]{ need(); for (st=0;st<3;++st) { vh::states++; auto k=kok<P>(*K,A[w[st]],false); cmp(k,fresh[w[st]],tol,"reuse"); } ok=true; }); if (!ok) K.reset(); } }
        for (int a=0;a<NB;++a) for (int b=NS;b<NB;++b) for (int c=0;c<NB;++c) { if (a>=NS&&c>=NS) continue; if (!T&&(a+b+c)%(size=="n"?3:11)) continue; if (mine()) { int st=0; const int w[3]={a,b,c}; vh::traces++; kh::use(rot[w_++%rot.size()]); vh::Case cs("reuse",[&]{ std::string s=mname+" "+prec+" history:"; for (int i=0;i<=st&&i<3;++i) s+=" "+nm[w[i]]+";"; return s; }); bool ok=false; kh::guarded([&]{ need(); for (st=0;st<3;++st) { vh::states++; auto k=kok<P>(*K,A[w[st]],false); cmp(k,fresh[w[st]],tol,"reuse"); } ok=true; }); if (!ok) K.reset(); } } }
    kh::use({1,1,0,0});
}
int main(int argc,char** argv) { kh::init(); Kokkos::initialize(); mode=argv[1]; prec=argv[2]; std::string size=argv[3],file=argv[4]; shard=atoi(argv[5]); nshards=atoi(argv[6]); mname=file.substr(file.rfind('/')+1);
    if (prec=="double") run<double>(file,size,vh::thorough()); else run<float>(file,size,vh::thorough());
    if (getenv("MK_WORST")) fprintf(stderr,"worst %s %s e=%.3g f=%.3g\n",mname.c_str(),prec.c_str(),worst_e,worst_f);
    kh::counters(); return vh::finish(); }
