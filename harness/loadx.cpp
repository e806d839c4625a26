// C26: model files.  Every prefix of a file, every missing/null/mistyped top-level entry, every textual form of the same
// content, and every short history of writing the file, constructing, evaluating and destroying evaluators.
// usage: loadx <trunc|keys|text|hist> <serial|double|float> <scratch> <shard> <nshards> <model.json> [<model2.json>]
#include "kokh.hpp"
#include "mace.hpp"
#include "mace_kokkos.hpp"
#include "maceref.hpp"
#include "graphs.hpp"
#include <memory>
#include <sys/stat.h>
static std::string kind,dir,mname; typedef nlohmann::ordered_json OJ;
struct Res { std::vector<double> e,f; };
struct Ev { virtual Res eval(const Graph&)=0; virtual ~Ev()=default; int na=0; double rc=0; };
struct Ser:Ev { MACE M; Ser(const std::string& f):M(f) { na=M.num_elements; rc=M.r_cut; } Res eval(const Graph& g) override { auto nt=g.nty(); auto r=g.r(); M.compute_node_energies_forces(g.n,g.ty,g.nn,g.idx,nt,g.xyz,r); return {M.node_energies,M.node_forces}; } };
template<class P> struct Kok:Ev { MACEKokkos<P> M; Kok(const std::string& f):M(f) { na=M.num_elements; rc=M.r_cut; } Res eval(const Graph& g) override { auto nt=g.nty(); auto r=g.r();
    M.compute_node_energies_forces(g.n,kh::cdev(g.ty,"node_types"),kh::cdev(g.nn,"num_neigh"),kh::cdev(g.idx,"neigh_indices"),kh::cdev(nt,"neigh_types"),kh::cdev(g.xyz,"xyz"),kh::cdev(r,"r")); auto e=kh::host(M.node_energies),f=kh::host(M.node_forces); e.resize(g.n); f.resize(g.xyz.size()); return {e,f}; } };
static std::unique_ptr<Ev> make(const std::string& f) { vh::transitions++; if (kind=="serial") return std::make_unique<Ser>(f); if (kind=="double") return std::make_unique<Kok<double>>(f); return std::make_unique<Kok<float>>(f); }
// nullptr: refused with an exception
static std::unique_ptr<Ev> try_make(const std::string& f) { try { return make(f); } catch (const mk::Stop&) { throw; } catch (const std::exception&) { return nullptr; } }
static void put(const std::string& path,const std::string& text) { FILE* o=fopen(path.c_str(),"wb"); if (!o||fwrite(text.data(),1,text.size(),o)!=text.size()) { perror("write"); _exit(4); } fclose(o); }
static std::string slurp(const std::string& p) { std::ifstream i(p,std::ios::binary); std::stringstream s; s<<i.rdbuf(); return s.str(); }
static Res ref(const RefModel& R,const Graph& g) { Res o; o.e=R.energies<double>(g.n,g.ty,g.nn,g.idx,g.xyz); int E=g.idx.size(); std::vector<Dual> x(3*E); for (int q=0;q<3*E;++q) x[q]=Dual(g.xyz[q]); for (int q=0;q<3*E;++q) { x[q].d=1; auto e=R.energies<Dual>(g.n,g.ty,g.nn,g.idx,x); double s=0; for (auto& v:e) s+=v.d; o.f.push_back(-s); x[q].d=0; } return o; }
static bool same(const Res& a,const Res& b,std::string& why) { double tol=kind=="float"?1e-4:1e-9,em=1; for (double v:b.e) em=std::max(em,std::fabs(v)); for (double v:b.f) em=std::max(em,std::fabs(v)); if (a.e.size()!=b.e.size()||a.f.size()!=b.f.size()) { why="result sizes"; return false; }
    for (size_t i=0;i<a.e.size();++i) if (!vh::close(a.e[i],b.e[i],em,tol)) { why="energy of atom "+std::to_string(i)+" "+vh::num(a.e[i])+" expected "+vh::num(b.e[i]); return false; } for (size_t i=0;i<a.f.size();++i) if (!vh::close(a.f[i],b.f[i],em,tol)) { why="force entry "+std::to_string(i)+" "+vh::num(a.f[i])+" expected "+vh::num(b.f[i]); return false; } return true; }
static std::vector<Graph> structures(int na) { std::vector<Graph> o; for (int k=0;k<2;++k) { Graph g; g.n=3+k; for (int i=0;i<g.n;++i) { g.ty.push_back((i+k)%na); g.nn.push_back(i==k?1:2); for (int j=0;j<g.nn[i];++j) g.idx.push_back((i+j+1)%g.n); } setv(g,k?6:1); o.push_back(g); } return o; }
static void dump(const OJ& j,std::string& o,int style,int lv) {   // styles: 0 minified, 1 indented, 2 reversed entries, 3 exponents, 4 integral reals as integers, 5 CRLF and tabs
    std::string nl=style==1?"\n"+std::string(lv*3+3,' '):style==5?"\r\n\t":"",end=style==1?"\n"+std::string(lv*3,' '):style==5?"\r\n":"";
    if (j.is_object()) { o+="{"; std::vector<std::pair<std::string,const OJ*>> v; for (auto it=j.begin();it!=j.end();++it) v.push_back({it.key(),&it.value()}); if (style==2) std::reverse(v.begin(),v.end()); bool f=true; for (auto& [k,x]:v) { o+=(f?"":",")+nl+OJ(k).dump()+(style==1||style==5?" : ":":"); f=false; dump(*x,o,style,lv+1); } o+=end+"}"; }
    else if (j.is_array()) { o+="["; bool f=true; for (auto& x:j) { if (!f) o+=","; if (style==1||style==5) o+=" "; f=false; dump(x,o,style,lv+1); } o+="]"; }
    else if (j.is_number_float()) { double x=j; char b[64]; if (style==3) snprintf(b,64,"%.17E",x); else if (style==4&&x==std::floor(x)&&std::fabs(x)<1e9) snprintf(b,64,"%.0f",x+0.0); else snprintf(b,64,style==1?"%.20g":"%.17g",x); o+=b; if (style!=4&&style!=3&&!strpbrk(b,".e")) o+=".0"; }
    else o+=j.dump(); }
struct Ctx { std::string text; RefModel R; std::vector<Graph> G; std::vector<Res> want; OJ j;
    Ctx(const std::string& f):text(slurp(f)),R(f) { vecs.clear(); make_vecs(R.r_cut,R.h); G=structures(R.na); for (auto& g:G) want.push_back(ref(R,g)); j=OJ::parse(text); }
    void check(Ev& e,const char* key,const std::string& what) const { std::string why; if (e.na!=R.na||e.rc!=R.r_cut) { vh::fail_here(key,what+": public model data differ from the file"); return; } for (size_t i=0;i<G.size();++i) { vh::states++; if (!same(e.eval(G[i]),want[i],why)) { vh::fail_here(key,what+": "+why); return; } } } };
int main(int argc,char** argv) { kh::init(); Kokkos::initialize(); std::string mode=argv[1]; kind=argv[2]; dir=argv[3]; shard=atoi(argv[4]); nshards=atoi(argv[5]); std::string file=argv[6]; mname=file.substr(file.rfind('/')+1); bool T=vh::thorough();
    std::string me=dir+"/loadx_"+mode+"_"+kind+"_"+std::to_string(shard)+"_"+std::to_string(getpid()); mkdir(me.c_str(),0700); std::string path=me+"/model.json"; kh::use({2,2,0,1});
    Ctx A(file);
    if (mode=="trunc") { size_t last=A.text.find_last_not_of(" \t\r\n"); 
        auto refused=[&](const char* key,const std::string& p,const std::string& what) { vh::Case cs(key,[&]{ return mname+" "+kind+" "+what; }); vh::traces++; vh::states++; kh::guarded([&]{ if (try_make(p)) vh::fail_here(key,what+" was accepted as a model"); }); };
        if (shard==0) { refused("missing",me+"/nothing.json","a missing file"); refused("directory",me,"a directory"); for (const char* s:{""," ","\n","{}","[]","null","1","\"model\"","{\"num_elements\":2}","[{\"num_elements\":2}]"}) { put(path,s); refused("no-model",path,std::string("a file holding '")+s+"'"); } }
        // from the longest to the shortest prefix: one truncation of the same file per step, as a copy that was cut short at any byte
        put(path,A.text); size_t fine=T?A.text.size():6000; for (size_t n=A.text.size();n-->0;) { if (!T&&n>fine/2&&A.text.size()-n>fine/2&&n%7) continue; if (!mine()) continue; if (truncate(path.c_str(),n)) { perror("truncate"); return 4; }
            if (n<=last) refused("truncated",path,"the first "+std::to_string(n)+" of "+std::to_string(A.text.size())+" bytes"); }
    } else if (mode=="keys") { std::vector<std::string> ks; for (auto it=A.j.begin();it!=A.j.end();++it) ks.push_back(it.key());
        auto one=[&](const std::string& what,const OJ& j) { if (!mine()) return; vh::Case cs("entry",[&]{ return mname+" "+kind+" "+what; }); vh::traces++; put(path,j.dump()); kh::guarded([&]{ auto e=try_make(path); vh::states++; if (e) A.check(*e,"incomplete-model",what+" was accepted and changes the results"); }); };
        for (auto& k:ks) { OJ j=A.j; j.erase(k); one("without "+k,j); j=A.j; j[k]=nullptr; one("null "+k,j); j=A.j; j[k]="text"; one("text as "+k,j); if (A.j[k].is_array()) { j=A.j; j[k]=OJ::object(); one("object as "+k,j); } else { j=A.j; j[k]=OJ::array(); one("array as "+k,j); } j=A.j; { OJ v=j[k]; j.erase(k); j[k+"_"]=v; } one("misspelt "+k,j); }
        if (T) for (size_t a=0;a<ks.size();++a) for (size_t b=0;b<a;++b) { OJ j=A.j; j.erase(ks[a]); j.erase(ks[b]); one("without "+ks[a]+" and "+ks[b],j); }
    } else if (mode=="text") { for (int st=0;st<6;++st) for (int pre=0;pre<3;++pre) for (int extra=0;extra<3;++extra) { if (!mine()) continue; OJ j=A.j; if (extra) { OJ q; if (extra==1) q["comment"]="a note"; for (auto it=j.begin();it!=j.end();++it) q[it.key()]=it.value(); if (extra==2) q["zz_other"]={{"a",{1,2,3}}}; j=q; } std::string t; dump(j,t,st,0); if (pre==1) t="\n\n  "+t+"\n"; else if (pre==2) t+="\r\n\r\n";
            vh::Case cs("text",[&]{ return mname+" "+kind+" textual form "+std::to_string(st)+" blank space "+std::to_string(pre)+" further entries "+std::to_string(extra); }); vh::traces++; put(path,t); kh::guarded([&]{ auto e=make(path); A.check(*e,"textual-form","the same model written differently"); }); }
    } else { // hist: one path, rewritten before every construction; two evaluators; after every history the last step is an evaluation
        Ctx B(argv[7]); const Ctx* C[2]={&A,&B}; std::string cut=A.text.substr(0,A.text.size()*2/3); const int D=T?6:kind=="serial"?5:4;
        struct Op { char k; int s,x; }; std::vector<Op> ops; for (int s=0;s<2;++s) { for (int x=0;x<3;++x) ops.push_back({'c',s,x}); ops.push_back({'d',s,0}); for (int x=0;x<2;++x) ops.push_back({'e',s,x}); }
        auto os=[](const Op& o){ return std::string(o.k=='c'?"construct ":o.k=='d'?"destroy ":"evaluate ")+std::to_string(o.s)+(o.k=='c'?o.x==2?" from a truncated file":o.x?" from B":" from A":o.k=='e'?o.x?" on structure 2":" on structure 1":""); };
        // a history is worth running when every evaluation finds an evaluator, it ends in an evaluation, and slot 0 is used first
        std::vector<int> w; std::function<void(std::array<int,2>)> go=[&](std::array<int,2> st) {
            if (!w.empty()&&ops[w.back()].k=='e'&&mine()) { size_t at=0; vh::traces++; vh::Case cs("history",[&]{ std::string s=mname+" + second model "+kind+":"; for (size_t i=0;i<=at&&i<w.size();++i) s+=" "+os(ops[w[i]])+";"; return s; });
                kh::guarded([&]{ std::unique_ptr<Ev> ev[2]; int which[2]={-1,-1}; for (at=0;at<w.size();++at) { const Op& o=ops[w[at]]; vh::states++; if (o.k=='d') { ev[o.s].reset(); which[o.s]=-1; }
                    else if (o.k=='c') { put(path,o.x==2?cut:C[o.x]->text); if (o.x==2) { if (try_make(path)) vh::fail_here("truncated","a truncated file was accepted"); } else { auto e=make(path); ev[o.s]=std::move(e); which[o.s]=o.x; } unlink(path.c_str()); }
                    else { std::string why; const Ctx& c=*C[which[o.s]]; if (!same(ev[o.s]->eval(c.G[o.x]),c.want[o.x],why)) vh::fail_here("coexist",why); } } }); }
            if ((int)w.size()==D) return;
            for (size_t i=0;i<ops.size();++i) { const Op& o=ops[i]; auto n=st; if (w.empty()&&o.s==1) continue; if (o.k=='e') { if (st[o.s]<0) continue; } else if (o.k=='d') { if (st[o.s]<0) continue; n[o.s]=-1; } else if (o.x<2) n[o.s]=o.x; w.push_back(i); go(n); w.pop_back(); } };
        go({-1,-1}); }
    unlink(path.c_str()); rmdir(me.c_str()); kh::counters(); return vh::finish(); }
