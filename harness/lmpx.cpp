// C17-C20: the LAMMPS pair styles on a simulated machine (stubs/lammps) against the evaluator on the whole system.
// usage: lmpx <decomp|tally|setup> <style: plain|kk|kkf|kkhost> <size n|s> <model.json> <shard> <nshards>
#include "vh.hpp"
#include "pair_symmetrix_mace.h"
#ifdef MINI_KOKKOS
#include "kokh.hpp"
#include "pair_symmetrix_mace_kokkos.h"
#endif
#include "world.hpp"
#include "maceref.hpp"
#include "graphs.hpp"
#include <memory>
using namespace LAMMPS_NS;
static std::string what,style,size_,file,mname; static double tol=1e-10,worst=0; static int schedn=0; static const char* sym(int Z) { static const char* s[]={"X","H","He","Li","Be","B","C","N","O","F","Ne","Na","Mg","Al","Si","P","S","Cl","Ar","K","Ca","Sc","Ti","V","Cr","Mn","Fe","Co","Ni","Cu","Zn","Ga","Ge","As","Se","Br","Kr","Rb","Sr","Y","Zr","Nb","Mo","Tc","Ru","Rh","Pd","Ag","Cd","In","Sn","Sb","Te","I","Xe","Cs","Ba","La","Ce","Pr","Nd","Pm","Sm","Eu","Gd","Tb","Dy","Ho","Er","Tm","Yb","Lu","Hf","Ta","W","Re","Os","Ir","Pt","Au","Hg","Tl","Pb","Bi","Po","At","Rn","Fr","Ra","Ac","Th","Pa","U","Np","Pu","Am","Cm","Bk","Cf","Es","Fm","Md","No","Lr","Rf","Db","Sg","Bh","Hs","Mt","Ds","Rg","Cn","Nh","Fl","Mc","Lv","Ts","Og"}; return Z>=1&&Z<=118?s[Z]:"?"; }
// the style by the name a user writes, through the registration lines LAMMPS collects
static Pair* by_name(const std::string& name,LAMMPS* l) {
#define PAIR_CLASS
#define PairStyle(key,Class) if (name==#key) return new Class(l)
#include "pair_symmetrix_mace.h"
#ifdef MINI_KOKKOS
#include "pair_symmetrix_mace_kokkos.h"
#endif
#undef PairStyle
#undef PAIR_CLASS
    throw LAMMPSException("ERROR: Unrecognized pair style "+name); }
static const std::map<std::string,std::string> NAMES={{"plain","symmetrix/mace"},{"kk","symmetrix/mace/kk"},{"kkf","symmetrix/mace/float32/kk"},{"kkd","symmetrix/mace/kk/device"},{"kkfd","symmetrix/mace/float32/kk/device"},{"kkhost","symmetrix/mace/kk/host"},{"kkhostf","symmetrix/mace/float32/kk/host"}};
static Pair* make(LAMMPS* l) { Pair* p=by_name(NAMES.at(style),l);
#ifdef MK_GPU
    if ((style.rfind("kkhost",0)==0)!=(p->execution_space==Host)) throw Violation("execution-space","style "+NAMES.at(style)+" runs in the wrong execution space");
#endif
    return p; }
struct Ref { double e=0; std::vector<double> ea; std::vector<std::array<double,3>> f; std::array<double,6> v{}; };
static std::string ss(const Sys& s) { std::string t="box="+vh::str(s.box)+" periodic="+vh::str(s.per)+" types="+vh::str(s.type)+" x="; for (auto& x:s.x) t+=vh::str(x); return t; }
static std::string os(const Opt& o,const std::string& mode) { return " procs="+vh::str(o.grid)+" mode="+(mode.empty()?"default":mode)+" skin="+vh::num(o.skin)+" order="+std::to_string(o.order)+"/"+std::to_string(o.norder)+" bits="+std::to_string(o.bits)+" map="+std::to_string(o.map)+" classic="+std::to_string(o.classic); }
static Graph graph(const Sys& s,const std::vector<int>& map,double rc) { std::array<std::array<double,3>,3> cell{}; std::array<int,3> rep; for (int d=0;d<3;++d) { cell[d][d]=s.box[d]; rep[d]=s.per[d]?(int)std::ceil(rc/s.box[d])+1:0; } std::vector<int> ty; for (int t:s.type) ty.push_back(map[t-1]); return neighbours(s.x,ty,rc,&cell,rep); }
static Ref reference(MACE& M,const Sys& s,const std::vector<int>& map) { Graph g=graph(s,map,M.r_cut); auto nt=g.nty(); auto r=g.r(); M.compute_node_energies_forces(g.n,g.ty,g.nn,g.idx,nt,g.xyz,r); Ref o; o.ea=M.node_energies; for (double e:o.ea) o.e+=e; o.f.assign(g.n,{0,0,0}); int q=0;
    for (int i=0;i<g.n;++i) for (int k=0;k<g.nn[i];++k,++q) { double* F=&M.node_forces[3*q]; double* X=&g.xyz[3*q]; for (int c=0;c<3;++c) { o.f[i][c]-=F[c]; o.f[g.idx[q]][c]+=F[c]; o.v[c]+=X[c]*F[c]; } o.v[3]+=0.5*(X[0]*F[1]+X[1]*F[0]); o.v[4]+=0.5*(X[0]*F[2]+X[2]*F[0]); o.v[5]+=0.5*(X[1]*F[2]+X[2]*F[1]); } return o; }
static bool near(double a,double b,double sc) { worst=std::max(worst,std::fabs(a-b)/sc); return vh::close(a,b,sc,tol); }
static void compare(const Out& o,const Ref& r,int eflag,int vflag,const std::string& k) { double em=1,fm=1; for (double e:r.ea) em=std::max(em,std::fabs(e)); for (auto& f:r.f) for (double c:f) fm=std::max(fm,std::fabs(c)); for (double v:r.v) fm=std::max(fm,std::fabs(v)*0.1); em*=std::max<size_t>(1,r.ea.size()); fm=std::max(fm,em);
    if ((eflag&1)&&!near(o.e,r.e,em)) vh::fail_here(k+":energy","energy "+vh::num(o.e)+" expected "+vh::num(r.e));
    for (size_t i=0;i<r.f.size();++i) for (int c=0;c<3;++c) if (!near(o.f[i][c],r.f[i][c],fm)) { vh::fail_here(k+":force","force component "+std::to_string(c)+" of atom "+std::to_string(i+1)+" is "+vh::num(o.f[i][c])+" expected "+vh::num(r.f[i][c])); i=r.f.size()-1; break; }
    if (vflag&3) for (int c=0;c<6;++c) if (!near(o.v[c],r.v[c],10*fm)) { vh::fail_here(k+":virial","virial component "+std::to_string(c)+" is "+vh::num(o.v[c])+" expected "+vh::num(r.v[c])); break; }
    if (eflag&2) for (size_t i=0;i<r.ea.size();++i) if (!near(o.ea[i],r.ea[i],em)) { vh::fail_here(k+":per-atom energy","energy of atom "+std::to_string(i+1)+" is "+vh::num(o.ea[i])+" expected "+vh::num(r.ea[i])); break; } }
template<class F> bool guarded(F f) {
#ifdef MINI_KOKKOS
    static auto cf=kh::cfgs(0); kh::use(cf[schedn++%cf.size()]); try { f(); return true; } catch (const mk::Stop&) {}
#else
    try { f(); return true; }
#endif
    catch (const Violation& v) { vh::fail_here(v.key,v.what()); } catch (const std::exception& e) { vh::fail_here("exception:"+vh::cur_key,std::string("unexpected exception: ")+e.what()); } return false; }
static std::vector<std::string> elements(const RefModel& R,const std::vector<int>& map) { std::vector<std::string> v; for (int t:map) v.push_back(sym(R.Z[t])); return v; }
struct Machine { Opt o; std::string mode; std::vector<std::string> el; std::unique_ptr<World> w;
    void need(const Sys& s) { if (w) return; w=std::make_unique<World>(s,o,make); w->settings(mode.empty()?std::vector<std::string>{}:std::vector<std::string>{mode}); std::vector<std::string> c={"*","*",file}; c.insert(c.end(),el.begin(),el.end()); w->coeff(c); w->init(); } };
static std::vector<std::array<double,3>> sites() { return {{0.03,0.04,0.06},{0.47,0.11,0.88},{0.52,0.56,0.13},{0.96,0.91,0.47},{0.27,0.73,0.52},{0,0.5,0.5},{0.74,0.26,0.97},{0.9,0.45,0.25}}; }
static const std::vector<std::array<int,3>> GR={{1,1,1},{2,1,1},{1,2,1},{1,1,2},{3,1,1},{2,2,1},{4,1,1},{2,2,2}};
static const char* MODES[]={"no_domain_decomposition","mpi_message_passing","no_mpi_message_passing",""};
static std::vector<std::array<double,3>> boxes(double rc) { return {{2.6*rc,2.4*rc,2.2*rc},{1.3*rc,1.7*rc,1.1*rc},{0.8*rc,0.62*rc,0.7*rc},{0.6*rc,2.1*rc,3.1*rc}}; }
int main(int argc,char** argv) {
#ifdef MINI_KOKKOS
    kh::init(); Kokkos::initialize();
#else
    vh::init();
#endif
    what=argv[1]; style=argv[2]; size_=argv[3]; file=argv[4]; shard=atoi(argv[5]); nshards=atoi(argv[6]); mname=file.substr(file.rfind('/')+1); const bool T=vh::thorough(), N=size_=="n", U=size_=="u", Y=U||size_=="t"; if (style=="kkf"||style=="kkhostf") tol=2e-4;
#ifdef MK_GPU
    // one defect, whichever kernel shows it first: kernels of the host variants run in the default (device) space
    if (style.rfind("kkhost",0)==0) { auto prev=mk::on_problem; mk::on_problem=[prev](const std::string& k,const std::string& t){ prev(k.rfind("device-access",0)==0?"device-access:"+style:k,t); }; }
#endif
    RefModel RM(file); MACE M(file); const double rc=RM.r_cut; std::vector<int> map={RM.na-1,0}; auto st=sites(); auto bx=boxes(rc); Opt base; base.skin=0.15*rc;
    if (what=="decomp") {
        std::vector<std::unique_ptr<Machine>> W; int k=0; for (auto& g:GR) for (int m=0;m<4;++m) { int np=g[0]*g[1]*g[2]; if (m==0&&np>1) continue; if (m==3&&np!=1&&np!=2) continue; if (np==8&&!N&&!T) continue; if (Y&&g[1]==2&&g[0]==1) continue; auto x=std::make_unique<Machine>(); x->o=base; x->o.grid=g; x->o.order=k%4; x->o.norder=k%3; x->o.bits=k%2; x->o.map=1+(k/2)%2; x->o.sched=k%4; x->o.classic=k%5==0; x->o.tags=(k/3)%2; x->mode=MODES[m]; x->el=elements(RM,map); W.push_back(std::move(x)); ++k; }
        auto run=[&](const Sys& s,bool stale,const std::vector<std::array<double,3>>* given=nullptr,int axis=-1){ Ref r0,r1; Sys s2=s; std::vector<std::array<double,3>> d(s.x.size()); bool have=false;
            for (auto& w:W) { if (given) { int np=w->o.grid[0]*w->o.grid[1]*w->o.grid[2]; if (w->mode.empty()||(axis<0?np!=1:np!=2||w->o.grid[axis]!=2)) continue; } bool ok=false; std::string ph="fresh lists"; vh::Case cs("decomp",[&]{ return mname+" "+style+" "+ss(s)+os(w->o,w->mode)+" "+ph; }); vh::states++; vh::traces++;
                ok=guarded([&]{ if (!have) { have=true; r0=reference(M,s,map); if (stale) { for (size_t i=0;i<d.size();++i) for (int c=0;c<3;++c) { d[i][c]=given?(*given)[i][c]:0.49*base.skin/std::sqrt(3.0)*vh::gen(31*i+c+7*s.x.size()); s2.x[i][c]+=d[i][c]; } r1=reference(M,s2,map); } }
                    bool fresh=!w->w; w->need(s); if (!fresh) w->w->change(s); w->w->reneighbor(); vh::transitions++; compare(w->w->compute(3,1,schedn%3==0),r0,3,1,"decomposition"); if (stale) { ph="moved, old lists"; w->w->move(d); vh::transitions++; compare(w->w->compute(3,2),r1,3,2,"stale-lists"); if (!given&&vh::states%2) { auto b=d; for (auto& q:b) for (double& c:q) c=-c; ph="moved back, old lists"; w->w->move(b); vh::transitions++; compare(w->w->compute(1,1),r0,1,1,"stale-lists"); w->w->move(d); } ph="moved, rebuilt lists"; w->w->reneighbor(); vh::transitions++; compare(w->w->compute(1,1),r1,1,1,"migration"); } });
                vh::extra["forward_exchanges"]+=w->w?w->w->forwards:0; vh::extra["reverse_exchanges"]+=w->w?w->w->reverses:0; if (w->w) w->w->forwards=w->w->reverses=0; if (!ok) w->w.reset(); } };
        const int S=(int)st.size(); std::vector<int> subs; for (int b=0;b<(1<<S);++b) { int c=__builtin_popcount(b); if (Y) { if ((c<=2&&(c<1||(c==1&&(!U||b%3==1))||(c==2&&(U?b%5==3:b%3!=1))))||c==8) subs.push_back(b); } else if (c<=2||(c==3&&(N||T||b%4==1))||(c==4&&(T||(N&&b%8==3)))||c==8||(c==6&&b%16==15)) subs.push_back(b); }
        for (int b:subs) for (size_t B=0;B<bx.size();++B) for (int p=0;p<8;++p) { int c=__builtin_popcount(b); if (Y&&p!=7&&p!=0&&(p+b)%5) continue; if (U&&p==0&&c!=2) continue; if (p!=7&&p!=0&&!(T||(c==2)||(N&&c==3&&(b+p)%7==0))) continue; if (c>=6&&B==2&&!T) continue; for (int ty=0;ty<(c<=2&&p==7?4:1);++ty) { if (c==1&&ty>1) continue; if (!mine()) continue; Sys s; s.box=bx[B]; s.per={p&1,p>>1&1,p>>2&1}; s.lo={B==1?-0.3*rc:0,0,B==3?2.0:0}; int i=0; for (int q=0;q<S;++q) if (b>>q&1) { s.x.push_back({s.lo[0]+st[q][0]*s.box[0],s.lo[1]+st[q][1]*s.box[1],s.lo[2]+st[q][2]*s.box[2]}); s.type.push_back(1+(c<=2?(ty>>i&1):(q%2))); ++i; } run(s,(b+p)%3==0||c==2); } }
        // chains across a subdomain or periodic boundary, with links just inside and outside the cutoff, every atom staying or moving by almost half the skin:
        // neighbours of neighbours that are beyond the cutoffs when the lists are built and within them when the lists are old
        const double sk=base.skin, gap[4]={rc-0.05*sk,rc+0.4*sk,rc+0.8*sk,0.5*rc}; for (int axis=0;axis<3;++axis) for (int dir:{1,-1}) for (int at=0;at<2;++at) for (int g=0;g<16;++g) for (int mv=0;mv<27;++mv) { if (!T&&!N&&(axis+dir+at+g+mv)%(Y?13:4)) continue; if (U&&mv%2) continue; if (!mine()) continue;
            Sys s; s.box={2.3*rc,2.2*rc,2.4*rc}; s.box[axis]=8*rc; s.per={1,1,1}; double x=(at?4*rc:0)-dir*0.01*rc; std::vector<std::array<double,3>> d; for (int i=0;i<3;++i) { if (i) x+=dir*gap[i==1?g%4:g/4]; std::array<double,3> q={1.1*rc+0.01*sk*i,1.0*rc,1.2*rc-0.02*sk*i},m={0,0,0}; q[axis]=std::fmod(x+8*rc,8*rc); m[axis]=(((i==0?mv:i==1?mv/3:mv/9)%3)-1)*0.45*sk; s.x.push_back(q); s.type.push_back(1+(i+g)%2); d.push_back(m); } run(s,true,&d,at?axis:-1); }
        // many atoms: more atoms, neighbours and ghosts than the usual block sizes, alternating with the small structures on the same machines
        for (int B=0;B<4;++B) { if (Y&&B!=1) continue; if (!mine()) continue; Sys s; s.box={2.6*rc,2.4*rc,2.2*rc}; s.per={B!=2,B!=2,B!=2&&B!=3}; int nx=B==1?3:4,ny=B==0?5:3; for (int i=0;i<nx;++i) for (int j=0;j<ny;++j) for (int l=0;l<(B==3?2:3);++l) { int q=(int)s.x.size(); s.x.push_back({s.box[0]*((i+0.5)/nx+0.06*vh::gen(3*q)),s.box[1]*((j+0.5)/ny+0.06*vh::gen(3*q+1)),s.box[2]*((l+0.5)/3+0.06*vh::gen(3*q+2))}); s.type.push_back(1+(q*q%5)%2); }
            run(s,B%2==0); Sys t=s; t.x.resize(2); t.type.resize(2); run(t,false); for (auto& x:s.x) x[0]=std::min(x[0],s.box[0]*0.999)*0.45; s.x.resize(s.x.size()/2); s.type.resize(s.x.size()); run(s,false); }
    } else if (what=="tally") {
        // every history of two requests (flags x structures) on one machine; virial against exact strain derivatives of an independent reference
        std::vector<Sys> A; auto add=[&](int B,int p,std::vector<int> q){ Sys s; s.box=bx[B]; s.per={p&1,p>>1&1,p>>2&1}; for (int i:q) { s.x.push_back({st[i][0]*s.box[0],st[i][1]*s.box[1],st[i][2]*s.box[2]}); s.type.push_back(1+(i%2)); } A.push_back(s); };
        add(0,7,{0,1,2,4}); add(2,7,{3}); add(1,3,{0,5,7}); add(3,0,{4,2}); add(0,7,{}); add(1,7,{6}); if (T||N) { add(3,7,{1,3,6}); add(0,5,{0,3,6,7,1}); }
        std::vector<Ref> ref; for (auto& s:A) { ref.push_back(reference(M,s,map)); Graph g=graph(s,map,rc); int E=g.idx.size(); std::vector<Dual> x(3*E); Ref& r=ref.back(); vh::Case cs("strain",[&]{ return mname+" "+ss(s); }); double fm=1; for (double v:r.v) fm=std::max(fm,std::fabs(v)); for (double e:r.ea) fm=std::max(fm,std::fabs(e)); std::array<double,6> v{};
            for (int c=0;c<6;++c) { static const int ab[6][2]={{0,0},{1,1},{2,2},{0,1},{0,2},{1,2}}; int a=ab[c][0],b=ab[c][1]; for (int e=0;e<E;++e) { for (int q=0;q<3;++q) x[3*e+q]=Dual(g.xyz[3*e+q]); if (a==b) x[3*e+a].d=g.xyz[3*e+a]; else { x[3*e+a].d=0.5*g.xyz[3*e+b]; x[3*e+b].d=0.5*g.xyz[3*e+a]; } } auto en=RM.energies<Dual>(g.n,g.ty,g.nn,g.idx,x); double sum=0,ee=0; for (auto& q:en) { sum+=q.d; ee+=q.v; } v[c]=-sum; if (!vh::close(ee,r.e,fm*10,1e-9)) vh::fail_here("strain:energy","evaluator energy differs from the reference"); }
            for (int c=0;c<6;++c) if (!vh::close(v[c],r.v[c],fm*10,1e-9)) vh::fail_here("strain:virial","edge virial differs from the strain derivative"); r.v=v; }
        std::vector<std::array<int,2>> fl; for (int e=0;e<4;++e) for (int v:{0,1,2}) fl.push_back({e,v}); for (int e:{0,1,3}) for (int v:{4,5,6,8,9}) fl.push_back({e,v});
        for (auto& g:std::vector<std::array<int,3>>{{1,1,1},{2,1,1},{1,2,2}}) for (int m=0;m<3;++m) { if (m==0&&g!=GR[0]) continue; for (int cl=0;cl<2;++cl) {
#ifndef MK_GPU
            if (cl) continue;
#endif
            Machine w; w.o=base; w.o.grid=g; w.o.classic=cl; w.o.order=m; w.o.bits=1; w.mode=MODES[m]; w.el=elements(RM,map);
            const size_t NF=fl.size(); for (size_t a1=0;a1<A.size();++a1) for (size_t a2=0;a2<A.size();++a2) for (size_t f1=0;f1<NF;++f1) for (size_t f2=0;f2<NF;++f2) { if (!(a1==0&&a2==0)&&(f1*5+f2+a1+a2)%(T?3:N?17:29)) continue; if (f1>=12&&f2>=12) continue; if (!T&&!N&&(f1+f2+a1)%3) continue; if (!mine()) continue; std::string ph; vh::traces++; vh::Case cs("tally",[&]{ return mname+" "+style+os(w.o,w.mode)+" history: "+ph; });
                bool ok=guarded([&]{ for (int st_=0;st_<2;++st_) { auto& s=A[st_?a2:a1]; auto& r=ref[st_?a2:a1]; auto f=fl[st_?f2:f1]; ph+=" [eflag="+std::to_string(f[0])+" vflag="+std::to_string(f[1])+" "+ss(s)+"]"; vh::states++; vh::transitions++; bool fresh=!w.w; w.need(s); if (!fresh) w.w->change(s); w.w->reneighbor(); Out o; try { o=w.w->compute(f[0],f[1],st_+1); } catch (const LAMMPSException&) { if (f[1]<4) throw; vh::extra["refused_per_atom_virial"]++; continue; } compare(o,r,f[0],f[1],"tally"); if (f[0]==3) { double t=0; for (double e:o.ea) t+=e; if (!vh::close(t,o.e,1+std::fabs(o.e),std::max(tol,1e-9))) vh::fail_here("tally:sum","per-atom energies sum to "+vh::num(t)+" but the energy is "+vh::num(o.e)); } } }); if (!ok) w.w.reset(); } } }
    } else if (what=="table") {
        // every element of the periodic table as a model element: exactly the names of the model's elements are accepted, and they select its parameters
        std::ifstream in(file); nlohmann::json j=nlohmann::json::parse(in); Sys s; s.box=bx[1]; s.type={1,2,2}; for (int i=0;i<3;++i) s.x.push_back({st[i][0]*s.box[0],st[i][1]*s.box[1],st[i][2]*s.box[2]}); std::vector<Ref> want={reference(M,s,{0,1}),reference(M,s,{1,0})};
        for (int Z=1;Z<=118;++Z) { if (!mine()) continue; int Z2=(Z*37)%118+1; if (Z2==Z) Z2=Z%118+1; j["atomic_numbers"]={Z,Z2}; std::string f="table_"+style+"_"+std::to_string(Z)+"_"+std::to_string(getpid())+".json"; { std::ofstream o(f); o<<j.dump(); }
            for (int X=1;X<=118;++X) { vh::Case cs("table",[&]{ return style+" pair_coeff * * "+sym(X)+" with a model of "+sym(Z)+" and "+sym(Z2); }); vh::states++; vh::transitions++; bool ok=true; std::string msg; bool expect=X==Z||X==Z2;
                try { Opt o=base; o.ntypes=1; Sys q=s; q.type={1,1,1}; World w(q,o,make); w.settings({}); w.coeff({"*","*",f,sym(X)}); }
#ifdef MINI_KOKKOS
                catch (const mk::Stop&) { continue; }
#endif
                catch (const std::exception& e) { ok=false; msg=e.what(); } if (ok!=expect) vh::fail_here("element-table",ok?"accepted, an error was expected":"rejected: "+msg); }
            for (int r=0;r<2;++r) { vh::Case cs("table",[&]{ return style+" pair_coeff * * "+(r?sym(Z2):sym(Z))+" "+(r?sym(Z):sym(Z2))+" with a model of "+sym(Z)+" and "+sym(Z2); }); vh::states++; vh::traces++; guarded([&]{ Opt o=base; World w(s,o,make); w.settings({}); w.coeff({"*","*",f,r?sym(Z2):sym(Z),r?sym(Z):sym(Z2)}); w.init(); w.reneighbor(); vh::transitions++; compare(w.compute(3,1),want[r],3,1,"table"); }); }
            unlink(f.c_str()); }
    } else {
        // set-up commands: which are accepted, and what the accepted ones compute
        auto tryit=[&](const std::function<void()>& f,bool expect,const std::string& key){ vh::states++; vh::traces++; vh::transitions++; bool ok=true; std::string msg; try { f(); }
#ifdef MINI_KOKKOS
            catch (const mk::Stop& e) { return; }
#endif
            catch (const Violation& v) { vh::fail_here(v.key,v.what()); return; } catch (const std::exception& e) { ok=false; msg=e.what(); } if (ok!=expect) vh::fail_here(key,ok?"accepted, an error was expected":"rejected: "+msg); };
        Sys s0; s0.box=bx[1]; s0.x={{0.1*rc,0.2*rc,0.3*rc},{0.8*rc,0.5*rc,0.9*rc}}; s0.type={1,1};
        for (int np:{1,2}) { Opt o=base; o.grid={np,1,1}; std::vector<std::string> words={"no_domain_decomposition","mpi_message_passing","no_mpi_message_passing","","no_domain","mpi_message_passing ","MPI_MESSAGE_PASSING","no_mpi","*","0","cutoff"};
            for (size_t a=0;a<words.size();++a) { vh::Case cs("settings",[&]{ return "pair_style "+style+" "+words[a]+" on "+std::to_string(np)+" ranks"; }); tryit([&]{ World w(s0,o,make); w.settings({words[a]}); },a<3&&!(a==0&&np>1),"settings"); for (size_t b=0;b<words.size();++b) { vh::Case c2("settings",[&]{ return "pair_style "+style+" "+words[a]+" "+words[b]; }); tryit([&]{ World w(s0,o,make); w.settings({words[a],words[b]}); },false,"settings:two arguments"); } }
            vh::Case cs("settings",[&]{ return "pair_style "+style+" without arguments on "+std::to_string(np)+" ranks"; }); tryit([&]{ World w(s0,o,make); w.settings({}); },true,"settings:none"); }
        // element lists: every sequence up to ntypes+1 over an alphabet of model elements, absent elements and nonsense
        std::vector<std::string> al; std::vector<int> idx; for (int a=0;a<RM.na&&a<3;++a) { al.push_back(sym(RM.Z[a])); idx.push_back(a); } int good=(int)al.size(); for (const char* x:{"Cu","Qq","","NULL"}) { al.push_back(x); idx.push_back(-1); } { std::string l=al[0]; for (char& c:l) c=tolower(c); al.push_back(l); idx.push_back(-1); } al.push_back("8"); idx.push_back(-1); const int NA=(int)al.size();
        for (int nt=1;nt<=3;++nt) for (int len=0;len<=nt+1;++len) { std::vector<int> w(len,0); for (;;) { int bad=0; for (int x:w) bad+=x>=good; if (bad<=1||(nt==1&&T)) if (mine()) { bool expect=len==nt&&!bad; vh::Case cs("coeff",[&]{ std::string t=mname+" "+style+" ntypes="+std::to_string(nt)+" pair_coeff * * model"; for (int x:w) t+=" '"+al[x]+"'"; return t; });
                tryit([&]{ Opt o=base; o.ntypes=nt; Sys s=s0; s.x.clear(); s.type.clear(); for (int t=0;t<nt;++t) { s.x.push_back({st[t][0]*s.box[0],st[t][1]*s.box[1],st[t][2]*s.box[2]}); s.type.push_back(nt-t); } s.x.push_back({st[4][0]*s.box[0],st[4][1]*s.box[1],st[4][2]*s.box[2]}); s.type.push_back(1+(len+nt)%nt); World W(s,o,make); W.settings(len%2?std::vector<std::string>{MODES[(len+nt)%3]}:std::vector<std::string>{}); std::vector<std::string> c={"*","*",file}; for (int x:w) c.push_back(al[x]); W.coeff(c); W.init(); if (!expect) return; W.reneighbor(); std::vector<int> mp; for (int x:w) mp.push_back(idx[x]); compare(W.compute(3,1),reference(M,s,mp),3,1,"mapping"); },expect,len!=nt?"coeff:argument count":bad?"coeff:element":"coeff"); }
            int i=len-1; while (i>=0&&++w[i]==NA) w[i--]=0; if (i<0) break; } }
        // the /device names of the Kokkos styles
        for (const char* q:{"d","fd"}) if (style=="kk"&&mine()) { auto keep=style; auto kt=tol; style="kk"+std::string(q); if (q[0]=='f') tol=2e-4; { vh::Case cs("name",[&]{ return "pair_style "+NAMES.at(style); }); tryit([&]{ Sys s; s.box=bx[1]; s.type={1,2,2}; for (int i=0;i<3;++i) s.x.push_back({st[i][0]*s.box[0],st[i][1]*s.box[1],st[i][2]*s.box[2]}); Opt o=base; World W(s,o,make); W.settings({}); std::vector<std::string> c={"*","*",file}; for (auto& e:elements(RM,map)) c.push_back(e); W.coeff(c); W.init(); W.reneighbor(); compare(W.compute(3,1),reference(M,s,map),3,1,"name"); },true,"style name"); } style=keep; tol=kt; }
        // as many types as elements and more: rotations, reversal, repeats
        for (int nt:{4,5,12,13}) for (int v=0;v<(RM.na>4?14:3);++v) if (mine()) { std::vector<int> mp; for (int t=0;t<nt;++t) mp.push_back(v==12?(RM.na-1-t%RM.na):v==13?(t*t)%RM.na:(t+v)%RM.na); vh::Case cs("coeff",[&]{ return mname+" "+style+" "+std::to_string(nt)+" types, elements "+vh::str(mp); });
            tryit([&]{ Opt o=base; o.ntypes=nt; o.tags=v%2; Sys s; s.box=bx[0]; for (int t=0;t<nt+1;++t) { s.x.push_back({s.box[0]*std::fmod(0.03+0.37*t,1.0),s.box[1]*std::fmod(0.1+0.23*t,1.0),s.box[2]*std::fmod(0.05+0.41*t,1.0)}); s.type.push_back(1+(5*t+v)%nt); } World W(s,o,make); W.settings({}); std::vector<std::string> c={"*","*",file}; for (int t:mp) c.push_back(sym(RM.Z[t])); W.coeff(c); W.init(); W.reneighbor(); compare(W.compute(3,1),reference(M,s,mp),3,1,"mapping"); },true,"coeff:many types"); }
        if (shard==0) { std::string el=sym(RM.Z[0]); auto tc=[&](const std::string& d,std::vector<std::string> c,int np,bool expect){ vh::Case cs("coeff",[&]{ return style+" "+d; }); tryit([&]{ Opt o=base; o.ntypes=1; o.grid={np,1,1}; World W(s0,o,make); W.settings({}); W.coeff(c); W.init(); },expect,"coeff:"+d); };
            tc("no model file name",{"*","*"},1,false); tc("missing model file",{"*","*","/nonexistent/model.json",el},1,false); tc("one star",{"*"},1,false); tc("numeric types",{"1","1",file,el},1,false); tc("plain",{"*","*",file,el},1,true); tc("plain on two ranks",{"*","*",file,el},2,true);
            for (int m=0;m<3;++m) for (int np:{1,2}) { if (m==0&&np>1) continue; for (int map_:{0,1,2,3}) for (int nw:{0,1}) { vh::Case cs("environment",[&]{ return style+" "+MODES[m]+" map="+std::to_string(map_)+" newton="+std::to_string(nw)+" ranks="+std::to_string(np); }); tryit([&]{ Opt o=base; o.ntypes=1; o.grid={np,1,1}; o.map=map_; o.newton=nw; World W(s0,o,make); W.settings({MODES[m]}); W.coeff({"*","*",file,el}); W.init(); W.reneighbor(); compare(W.compute(3,1),reference(M,s0,{0}),3,1,"environment"); },map_&&nw,"environment"); } }
            // no coefficients, commands repeated, runs repeated, user communication cutoffs
            { vh::Case cs("coeff",[&]{ return style+" run without pair_coeff"; }); tryit([&]{ World W(s0,base,make); W.settings({}); W.init(); },false,"coeff:missing"); }
            for (int m=0;m<3;++m) for (double cu:{0.0,0.5,1.5,2.15,3.0}) for (int rep=1;rep<=3;++rep) for (int np:{1,2}) { if (m==0&&np>1) continue; vh::Case cs("repeat",[&]{ return style+" "+MODES[m]+" comm cutoff "+vh::num(cu*rc)+" pair_coeff and run repeated "+std::to_string(rep)+" times"; }); tryit([&]{ Opt o=base; o.grid={np,1,1}; o.cutuser=cu*rc; Sys s=s0; s.box={2.2*rc,1.9*rc,2.6*rc}; s.x.push_back({1.7*rc,1.1*rc,0.5*rc}); s.type={1,2,1}; World W(s,o,make); W.settings({MODES[m]}); for (int q=0;q<rep;++q) { std::vector<int> mp={q%RM.na,(q+1)%RM.na}; W.coeff({"*","*",file,sym(RM.Z[mp[0]]),sym(RM.Z[mp[1]])}); W.init(); W.reneighbor(); compare(W.compute(3,1),reference(M,s,mp),3,1,"repeat"); W.init(); W.reneighbor(); compare(W.compute(1,0),reference(M,s,mp),1,0,"repeat"); } },true,"repeat"); } }
    }
    if (getenv("MK_WORST")) fprintf(stderr,"worst %s %s %s %.3g\n",mname.c_str(),style.c_str(),what.c_str(),worst);
#ifdef MINI_KOKKOS
    kh::counters();
#endif
    return vh::finish(); }
