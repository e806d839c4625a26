// C09/C10: all neighbour graphs up to a bound x all type assignments x model variants: energies and edge forces vs reference.
// C12: all sequences of structures up to a depth on one evaluator vs fresh evaluators.
// usage: macex <energy|force|reuse> <size: n|s> <model.json> <shard> <nshards>
#include "vh.hpp"
#include "mace.hpp"
#include "maceref.hpp"
#include "graphs.hpp"
#include <memory>
static void call(MACE& M,const Graph& g){ auto nt=g.nty(); auto r=g.r(); M.compute_node_energies_forces(g.n,g.ty,g.nn,g.idx,nt,g.xyz,r); vh::transitions++; }
int main(int argc,char** argv){
    vh::init(); std::string mode=argv[1],size=argv[2],file=argv[3]; shard=atoi(argv[4]); nshards=atoi(argv[5]); bool T=vh::thorough();
    std::string mname=file.substr(file.rfind('/')+1);
    RefModel R(file); make_vecs(R.r_cut,R.h);
    if (mode=="energy"||mode=="force") {
        MACE M(file);
        if (M.num_elements!=R.na||M.num_channels!=R.ch||M.l_max!=R.l_max||M.L_max!=R.L_max||M.atomic_numbers!=R.Z||M.atomic_energies!=R.E0||M.r_cut!=R.r_cut||M.has_zbl!=R.zbl) vh::fail("model-data","public model data differ from the file "+mname);
        auto one=[&](Graph& g,int pat){ setv(g,pat); vh::Case cs(mode,[&]{ return mname+" "+gs(g); }); vh::states++; vh::traces++;
            auto ty=g.ty,nn=g.nn,idx=g.idx; auto xyz=g.xyz; call(M,g);
            if ((int)M.node_energies.size()!=g.n||M.node_forces.size()!=g.xyz.size()) { vh::fail_here("sizes","node_energies has "+std::to_string(M.node_energies.size())+", node_forces "+std::to_string(M.node_forces.size())); return; }
            if (ty!=g.ty||nn!=g.nn||idx!=g.idx||xyz!=g.xyz) vh::fail_here("inputs-modified","inputs changed");
            if (mode=="energy") { auto e=R.energies<double>(g.n,g.ty,g.nn,g.idx,g.xyz); for (int i=0;i<g.n;++i) { bool iso=g.nn[i]==0; if (!vh::close(M.node_energies[i],e[i],1+std::fabs(e[i]),1e-9)) vh::fail_here(iso?"energy:isolated-atom":"energy","atom "+std::to_string(i)+" got "+vh::num(M.node_energies[i])+" expected "+vh::num(e[i])); } }
            else { int E=g.idx.size(); std::vector<Dual> x(3*E); for (int q=0;q<3*E;++q) x[q]=Dual(g.xyz[q]); double fm=1; std::vector<double> w(3*E);
                for (int q=0;q<3*E;++q) { x[q].d=1; auto e=R.energies<Dual>(g.n,g.ty,g.nn,g.idx,x); double s=0; for (auto& v:e) s+=v.d; w[q]=-s; fm=std::max(fm,std::fabs(s)); x[q].d=0; }
                for (int q=0;q<3*E;++q) if (!vh::close(M.node_forces[q],w[q],fm,1e-9)) vh::fail_here("force","edge "+std::to_string(q/3)+" component "+std::to_string(q%3)+" got "+vh::num(M.node_forces[q])+" expected "+vh::num(w[q])); }
        };
        bool F=mode=="force";
        for (int n=0;n<=(size=="n"?3:2);++n) { int K=n<=1?4:n==2?(R.na>4?1:3):(F&&!T&&R.na>1?1:2); graphs(n,K,R.na,[&](Graph& g){ if (n<=2) for (int p=0;p<9;++p) one(g,p); else { one(g,0); if (!F||T) { one(g,6); one(g,7); } } }); }
        if (F&&size=="n"&&!T) { graphs(3,2,1,[&](Graph& g){ one(g,2); }); graphs(3,1,R.na,[&](Graph& g){ one(g,6); }); }
        if (!F||size=="n"||T||R.na>4) large(R.na,[&](Graph& g){ one(g,1); }); if (!F||size=="n"||T) larger(R.na,[&](Graph& g){ one(g,1); if (!F||T) one(g,6); }); else { Graph g; g.n=5; for (int i=0;i<5;++i) { g.ty.push_back(i%R.na); g.nn.push_back(i==2?0:4); if (i!=2) for (int j=1;j<5;++j) g.idx.push_back((i+j)%5); } if (mine()) one(g,0); }
    } else {
        // structure alphabet
        std::vector<Graph> A; std::vector<std::string> nm; auto add=[&](std::string s,Graph g,int pat){ setv(g,pat); for (auto& t:g.ty) t%=R.na; A.push_back(g); nm.push_back(s); };
        Graph g; add("empty",g,0); g.n=1; g.ty={0}; g.nn={0}; add("atom",g,0); g.ty={R.na-1}; g.nn={3}; g.idx={0,0,0}; add("self-images",g,1);
        g=Graph(); g.n=2; g.ty={0,1}; g.nn={1,1}; g.idx={1,0}; add("dimer",g,0); g=Graph(); g.n=4; g.ty={1,0,0,1}; g.nn={0,0,0,0}; add("4 isolated",g,0);
        g=Graph(); g.n=3; g.ty={0,0,1}; g.nn={0,1,0}; g.idx={2}; add("one edge",g,3); g=Graph(); g.n=6; for (int i=0;i<6;++i) { g.ty.push_back(i%3==1); g.nn.push_back(i==4?0:8); if (i!=4) for (int k=0;k<8;++k) g.idx.push_back((i+k*k+1)%6); } add("6 atoms dense",g,2);
        g=Graph(); g.n=2; g.ty={1,1}; g.nn={12,1}; for (int k=0;k<12;++k) g.idx.push_back(k%2); g.idx.push_back(0); add("2 atoms dense",g,1);
        // structures that differ from an earlier one only in geometry, in the elements, or in who is whose neighbour
        g=Graph(); g.n=2; g.ty={0,1}; g.nn={1,1}; g.idx={1,0}; add("dimer elsewhere",g,3); g.ty={1,0}; add("dimer exchanged",g,0); g.ty={0,1}; g.nn={2,0}; g.idx={1,1}; add("2 edges on one atom",g,0);
        g=Graph(); g.n=6; for (int i=0;i<6;++i) { g.ty.push_back(i%2); g.nn.push_back(i==1?0:8); if (i!=1) for (int k=0;k<8;++k) g.idx.push_back((i+k*k+k+1)%6); } add("6 atoms dense, changed",g,6);
        auto big=[&](int n,int k,int v){ Graph b; b.n=n; for (int i=0;i<n;++i) { b.ty.push_back((i*i+v)%3); int q=(i*7+v)%5==0?0:1+(i*3+v)%k; b.nn.push_back(q); for (int j=0;j<q;++j) b.idx.push_back((i+j*j+j+1+v)%n); } return b; }; const int NS=(int)A.size();
        add("40 atoms",big(40,5,0),1); add("40 atoms, changed",big(40,5,2),2); add("3 atoms, 90 edges",big(3,45,1),3); add("19 atoms",big(19,9,1),0); const int NB=(int)A.size();
        auto near_=[&](int v){ Graph b; b.n=6; for (int i=0;i<6;++i) { b.ty.push_back((i*i)%3%R.na); int q=i==4?0:i==0?5:3; b.nn.push_back(q); for (int k=0;k<q;++k) b.idx.push_back((i+k*k+1)%6); } setv(b,1); size_t E=b.idx.size(); auto sw=[&](size_t x,size_t y){ std::swap(b.idx[x],b.idx[y]); for (int c=0;c<3;++c) std::swap(b.xyz[3*x+c],b.xyz[3*y+c]); };
            if (v==1) { b.xyz[3*E-3]*=0.8; b.xyz[3*E-1]+=0.1*std::fabs(b.xyz[3*E-3]); } else if (v==2) { sw(0,3); sw(1,4); } else if (v==3) b.ty[5]=(b.ty[5]+1)%R.na; else if (v==4) b.xyz[0]*=1+1e-6; else if (v==5) for (size_t e=0;e<E;++e) { std::swap(b.xyz[3*e],b.xyz[3*e+1]); } else if (v==6) b.idx[E-1]=(b.idx[E-1]+1)%6; else if (v==7) { b.nn[5]--; b.nn[4]++; } else if (v==8) { for (double& c:b.xyz) c*=0.97; } else if (v==9) { for (int c=0;c<3;++c) std::swap(b.xyz[c],b.xyz[3*(E-1)+c]); } return b; };
        static const char* NN[]={"base","last edge moved","neighbours of the first atom in another order","last element changed","one coordinate changed by 1e-6","x and y exchanged","last neighbour changed","an edge given to the previous atom","scaled","first and last vector exchanged"}; const int N0=(int)A.size(); for (int v=0;v<10;++v) { A.push_back(near_(v)); nm.push_back(NN[v]); } const int N1=(int)A.size();
        struct Res { std::vector<double> e,f; }; std::vector<Res> fresh;
        for (size_t a=0;a<A.size();++a) { vh::Case cs("fresh",[&]{ return mname+" fresh "+nm[a]; }); MACE M(file); call(M,A[a]); fresh.push_back({M.node_energies,M.node_forces});
            auto e=R.energies<double>(A[a].n,A[a].ty,A[a].nn,A[a].idx,A[a].xyz); for (int i=0;i<A[a].n;++i) if (!vh::close(M.node_energies[i],e[i],1+std::fabs(e[i]),1e-9)) vh::fail_here("fresh","fresh evaluator differs from the reference"); }
        auto cmp=[&](MACE& M,int a){ auto& f=fresh[a]; if ((int)M.node_energies.size()!=A[a].n||M.node_forces.size()!=A[a].xyz.size()) { vh::fail_here("reuse:sizes","containers hold "+std::to_string(M.node_energies.size())+" energies and "+std::to_string(M.node_forces.size())+" force entries"); return; }
            for (size_t i=0;i<f.e.size();++i) if (!vh::close(M.node_energies[i],f.e[i],1+std::fabs(f.e[i]),1e-11)) vh::fail_here("reuse:energy","atom "+std::to_string(i)+" got "+vh::num(M.node_energies[i])+" fresh evaluator "+vh::num(f.e[i]));
            double fm=1; for (double v:f.f) fm=std::max(fm,std::fabs(v)); for (size_t i=0;i<f.f.size();++i) if (!vh::close(M.node_forces[i],f.f[i],fm,1e-11)) vh::fail_here("reuse:force","entry "+std::to_string(i)+" got "+vh::num(M.node_forces[i])+" fresh evaluator "+vh::num(f.f[i])); };
        int NA=NS, depth=size=="n"?(T?5:4):3; MACE M(file),M2(file);
        // histories are explored depth first on live evaluators: the state of an evaluator after any prefix is produced by that prefix preceded by
        // all earlier histories, so each history additionally starts from a used evaluator; the first pass of each depth starts from fresh ones
        for (int d=1;d<=depth;++d) { std::vector<int> w(d,0); for (;;) { if (mine()) { int st=0; vh::traces++; vh::Case cs("reuse",[&]{ std::string s=mname+" history:"; for (int i=0;i<=st&&i<d;++i) s+=" "+nm[w[i]]+";"; return s; });
                    std::unique_ptr<MACE> own; if (d<=2) own=std::make_unique<MACE>(file); MACE& X=own?*own:M;
                    for (st=0;st<d;++st) { vh::states++; call(X,A[w[st]]); cmp(X,w[st]); if (st==0&&d<=3) { call(M2,A[w[d-1]]); cmp(M2,w[d-1]); cmp(X,w[0]); } } }
                int i=d-1; while (i>=0&&++w[i]==NA) w[i--]=0; if (i<0) break; } }
        // structures that agree in sizes and in most of their data: whatever a result might be remembered by
        for (int a=N0;a<N1;++a) for (int b=N0;b<N1;++b) for (int c=N0;c<N1;++c) { if (!T&&size!="n"&&c!=a&&c!=N0) continue; if (mine()) { int st=0; const int w[3]={a,b,c}; vh::traces++; vh::Case cs("reuse",[&]{ std::string s=mname+" history:"; for (int i=0;i<=st&&i<3;++i) s+=" "+nm[w[i]]+";"; return s; }); for (st=0;st<3;++st) { vh::states++; call(M,A[w[st]]); cmp(M,w[st]); } } }
        // much larger structures in between: every (a, large, b) and (large, a, large')
        for (int a=0;a<NB;++a) for (int b=NS;b<NB;++b) for (int c=0;c<NB;++c) { if (a>=NS&&c>=NS&&!T) continue; if (!T&&size!="n"&&(a+b+c)%5) continue; if (mine()) { int st=0; const int w[3]={a,b,c}; vh::traces++; vh::Case cs("reuse",[&]{ std::string s=mname+" history:"; for (int i=0;i<=st&&i<3;++i) s+=" "+nm[w[i]]+";"; return s; }); MACE X(file); for (st=0;st<3;++st) { vh::states++; call(X,A[w[st]]); cmp(X,w[st]); } } }
    }
    return vh::finish();
}
