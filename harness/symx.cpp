// C11 (and the mechanical part of C10): symmetry operations on all small structures over a point alphabet.
// usage: symx <model.json> <shard> <nshards>
#include "vh.hpp"
#include "mace.hpp"
#include "maceref.hpp"
#include <algorithm>
static int shard=0,nshards=1; static long counter=0; static bool mine(){ return (counter++%nshards)==shard; }
typedef std::array<double,3> P3; typedef std::array<P3,3> M3;
static std::string mname;
struct S { std::vector<P3> x; std::vector<int> ty; bool per=false; M3 cell{}; std::array<int,3> rep{0,0,0}; };
struct Res { std::vector<double> e; std::vector<P3> F; double tot=0,fm=1; std::vector<double> W; };
static std::string ss(const S& s){ std::string o="types="+vh::str(s.ty)+" x="; for (auto& p:s.x) o+=vh::str(p); if (s.per) { o+=" cell="; for (auto& p:s.cell) o+=vh::str(p); } return o; }
static MACE* M; static double rc;
static Res eval(const Graph& g){ auto nt=g.nty(); auto r=g.r(); M->compute_node_energies_forces(g.n,g.ty,g.nn,g.idx,nt,g.xyz,r); vh::transitions++; Res q; q.e=M->node_energies; q.F.assign(g.n,{0,0,0}); q.W.assign(9,0);
    int e=0; for (int i=0;i<g.n;++i) for (int k=0;k<g.nn[i];++k,++e) for (int a=0;a<3;++a) { double f=M->node_forces[3*e+a]; q.F[g.idx[e]][a]+=f; q.F[i][a]-=f; q.fm=std::max(q.fm,std::fabs(f)); for (int b=0;b<3;++b) q.W[3*a+b]+=f*g.xyz[3*e+b]; }
    for (double v:q.e) q.tot+=v; return q; }
static Graph graph(const S& s){ return neighbours(s.x,s.ty,rc,s.per?&s.cell:nullptr,s.rep); }
static P3 rot(const M3& R,const P3& p){ P3 q; for (int i=0;i<3;++i) q[i]=R[i][0]*p[0]+R[i][1]*p[1]+R[i][2]*p[2]; return q; }
static void cmp(const Res& a,const Res& b,const std::string& key,const M3* R=nullptr,const std::vector<int>* perm=nullptr){ // b[perm[i]] ~ R a[i]
    int n=a.e.size(); double em=1; for (double v:a.e) em=std::max(em,std::fabs(v));
    for (int i=0;i<n;++i) { int j=perm?(*perm)[i]:i; if (!vh::close(a.e[i],b.e[j],em,1e-9)) vh::fail_here(key+":energy","atom "+std::to_string(i)+" "+vh::num(a.e[i])+" -> "+vh::num(b.e[j]));
        P3 f=R?rot(*R,a.F[i]):a.F[i]; for (int k=0;k<3;++k) if (!vh::close(f[k],b.F[j][k],a.fm,1e-8)) vh::fail_here(key+":force","atom "+std::to_string(i)+" expected "+vh::str(f)+" got "+vh::str(b.F[j])); } }
static M3 quat(double w,double x,double y,double z){ double n=std::sqrt(w*w+x*x+y*y+z*z); w/=n;x/=n;y/=n;z/=n; return {{{1-2*(y*y+z*z),2*(x*y-z*w),2*(x*z+y*w)},{2*(x*y+z*w),1-2*(x*x+z*z),2*(y*z-x*w)},{2*(x*z-y*w),2*(y*z+x*w),1-2*(x*x+y*y)}}}; }
int main(int argc,char** argv){
    vh::init(); std::string file=argv[1]; mname=file.substr(file.rfind('/')+1); shard=atoi(argv[2]); nshards=atoi(argv[3]); bool T=vh::thorough(); MACE mm(file); M=&mm; rc=mm.r_cut; int na=mm.num_elements;
    std::vector<M3> ops; { int p[3]={0,1,2}; do for (int s=0;s<8;++s) { M3 R{}; for (int i=0;i<3;++i) R[i][p[i]]=(s>>i&1)?-1:1; ops.push_back(R); } while (std::next_permutation(p,p+3)); } // the 48 cube operations, inversion included
    size_t ncube=ops.size(); for (int k=0;k<(T?12:5);++k) { M3 R=quat(vh::gen(k),vh::gen(k+50),vh::gen(k+150),vh::gen(k+250)); if (k%2) for (auto& r:R) for (auto& v:r) v=-v; ops.push_back(R); } (void)ncube;
    double a=rc*0.28; std::vector<P3> pts={{0,0,0},{a,0,0},{0,a*1.1,0},{0,0,-1.3*a},{-a,0.4*a,0.9*a},{1.7*a,1.2*a,-0.6*a},{0,-2.6*a,0.1*a},{a,a,2*a}}; int NP=pts.size();
    // second alphabet: a cube with exactly representable coordinates, so that distances coincide to the last bit
    double c=std::exp2(std::floor(std::log2(rc*0.4))); std::vector<P3> cube={{0,0,0},{c,0,0},{0,c,0},{0,0,c},{c,c,0},{-c,0,0},{c,c,c},{0,2*c,0}}; const std::vector<P3> generic=pts;
    int maxn=T?5:4;
    for (int al=0;al<2;++al) { pts=al?cube:generic; for (int mask=1;mask<(1<<NP);++mask) { int n=__builtin_popcount(mask); if (n>maxn) continue; int nt=1; for (int i=0;i<n;++i) nt*=na;
        for (int t=0;t<nt;++t) for (int per=0;per<3;++per) { if (n==maxn && (t%3)!=(mask%3)) continue; if (per && n>2) continue; if (!mine()) continue;
            S s; int q=t; for (int i=0;i<NP;++i) if (mask>>i&1) { s.x.push_back(pts[i]); s.ty.push_back(q%na); q/=na; }
            if (per) { s.per=true; s.cell=per==1?M3{{{rc*1.05,0,0},{0.2*rc,rc*1.1,0},{0.1*rc,-0.15*rc,1.2*rc}}}:M3{{{rc*0.8,0,0},{0,rc*3.5,0},{0,0,rc*3}}}; s.rep={2,2,2}; }
            std::string what; vh::Case cs("sym",[&]{ return mname+" "+ss(s)+" op="+what; }); vh::states++;
            Graph g=graph(s); Res b=eval(g);
            // no net force; no net torque / symmetric virial
            P3 f{0,0,0}; for (auto& F:b.F) for (int k=0;k<3;++k) f[k]+=F[k]; for (double v:f) if (!vh::close(v,0,b.fm,1e-9)) vh::fail_here("net-force","net force "+vh::str(f));
            for (int i=0;i<3;++i) for (int j=0;j<i;++j) if (!vh::close(b.W[3*i+j],b.W[3*j+i],b.fm*rc,1e-9)) vh::fail_here("net-torque","virial not symmetric: "+vh::str(b.W));
            for (size_t o=0;o<ops.size();++o) { what="rotation/inversion "+std::to_string(o); S u=s; for (auto& p:u.x) p=rot(ops[o],p); for (auto& p:u.cell) p=rot(ops[o],p); cmp(b,eval(graph(u)),"rotation",&ops[o]); vh::traces++; }
            for (P3 tr:{P3{0.3,-1.7,2.2},P3{100.5,-37.25,11.125}}) { what="translation"; S u=s; for (auto& p:u.x) for (int k=0;k<3;++k) p[k]+=tr[k]; cmp(b,eval(graph(u)),"translation"); vh::traces++; }
            std::vector<int> pm(n); for (int i=0;i<n;++i) pm[i]=i; do { what="atom order "+vh::str(pm); S u=s; for (int i=0;i<n;++i) { u.x[pm[i]]=s.x[i]; u.ty[pm[i]]=s.ty[i]; } cmp(b,eval(graph(u)),"atom-order",nullptr,&pm); vh::traces++; } while (std::next_permutation(pm.begin(),pm.end()));
            // neighbour order: all permutations of each atom's list when short, else reversal and rotations, one atom at a time
            { int e0=0; for (int i=0;i<n;++i) { int c=g.nn[i]; std::vector<std::vector<int>> orders; std::vector<int> o(c); for (int k=0;k<c;++k) o[k]=k; if (c<=3) { while (std::next_permutation(o.begin(),o.end())) orders.push_back(o); } else { auto r=o; std::reverse(r.begin(),r.end()); orders.push_back(r); for (int sft:{1,c/2}) { auto r2=o; std::rotate(r2.begin(),r2.begin()+sft,r2.end()); orders.push_back(r2); } }
                for (auto& od:orders) { what="neighbour order of atom "+std::to_string(i)+" "+vh::str(od); Graph h=g; for (int k=0;k<c;++k) { h.idx[e0+k]=g.idx[e0+od[k]]; for (int d=0;d<3;++d) h.xyz[3*(e0+k)+d]=g.xyz[3*(e0+od[k])+d]; } cmp(b,eval(h),"neighbour-order"); vh::traces++; } e0+=c; } }
            if (!s.per) { what="two distant copies"; S u=s; for (int i=0;i<n;++i) { P3 p=s.x[i]; p[0]+=7*rc; u.x.push_back(p); u.ty.push_back(s.ty[i]); } Res d=eval(graph(u)); std::vector<int> id(n),id2(n); for (int i=0;i<n;++i) { id[i]=i; id2[i]=n+i; } cmp(b,d,"extensive",nullptr,&id); cmp(b,d,"extensive",nullptr,&id2); vh::traces++;
                for (int tt=0;tt<na;++tt) for (int front=0;front<2;++front) { what="distant atom added"; S w=s; P3 far{-9*rc,rc,0}; std::vector<int> pm2(n); if (front) { w.x.insert(w.x.begin(),far); w.ty.insert(w.ty.begin(),tt); for (int i=0;i<n;++i) pm2[i]=i+1; } else { w.x.push_back(far); w.ty.push_back(tt); for (int i=0;i<n;++i) pm2[i]=i; } Res d2=eval(graph(w)); cmp(b,d2,"locality",nullptr,&pm2); int fi=front?0:n; for (int k=0;k<3;++k) if (d2.F[fi][k]!=0) vh::fail_here("locality:force-on-isolated","isolated atom feels "+vh::str(d2.F[fi])); vh::traces++; } }
            else { what="supercell"; for (int ax=0;ax<3;++ax) { S u=s; for (int i=0;i<n;++i) { P3 p=s.x[i]; for (int k=0;k<3;++k) p[k]+=s.cell[ax][k]; u.x.push_back(p); u.ty.push_back(s.ty[i]); } for (int k=0;k<3;++k) u.cell[ax][k]*=2; Res d=eval(graph(u)); std::vector<int> id(n),id2(n); for (int i=0;i<n;++i) { id[i]=i; id2[i]=n+i; } cmp(b,d,"supercell",nullptr,&id); cmp(b,d,"supercell",nullptr,&id2); vh::traces++;
                    what="atom moved to another periodic cell"; S v=s; for (int k=0;k<3;++k) v.x[0][k]+=s.cell[ax][k]; v.rep={3,3,3}; cmp(b,eval(graph(v)),"wrap"); vh::traces++; } }
        } } }
    // two-layer range on chains: moving the third neighbour along the chain cannot change atom 0, moving the second can
    for (int t=0;t<(1<<4);++t) if (mine()) { S s; for (int i=0;i<4;++i) { s.x.push_back({0.8*rc*i,0.1*i*i,0}); s.ty.push_back((t>>i&1)%na); } std::string what="chain"; vh::Case cs("chain",[&]{ return mname+" "+ss(s); }); Res b=eval(graph(s)); vh::states++;
        for (int mv=1;mv<4;++mv) { S u=s; u.x[mv][1]+=0.21; u.x[mv][2]-=0.17; Res d=eval(graph(u)); vh::traces++; for (int i=0;i<4;++i) if (std::abs(mv-i)>2 && !vh::close(b.e[i],d.e[i],1+std::fabs(b.e[i]),1e-12)) vh::fail_here("locality:range","atom "+std::to_string(i)+" depends on an atom three hops away"); if (!vh::close(b.e[std::max(0,mv-2)],d.e[std::max(0,mv-2)],1,1e-13)) vh::extra["two-hop influence seen"]++; } }
    return vh::finish();
}
