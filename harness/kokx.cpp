// C13/C15: Kokkos building blocks against the serial ones, over all small inputs x schedules (team size, vector length, map, order).
// usage: kokx <spline|set|radial|mlp|poly|zbl> <level> <shard> <nshards>
#include "kokh.hpp"
#include "cubic_spline.hpp"
#include "cubic_spline_set.hpp"
#include "cubic_spline_kokkos.hpp"
#include "cubic_spline_set_kokkos.hpp"
#include "radial_function_set_kokkos.hpp"
#include "multilayer_perceptron.hpp"
#include "multilayer_perceptron_kokkos.hpp"
#include "multivariate_polynomial.hpp"
#include "multivariate_polynomial_kokkos.hpp"
#include "zbl.hpp"
#include "zbl_kokkos.hpp"
#include "tools_kokkos.hpp"
using vh::gen; using V1=std::vector<double>; using V2=std::vector<V1>; using V3=std::vector<V2>;
static int shard=0,nshards=1,level=0; static long counter=0; static bool mine() { return (counter++%nshards)==shard; }
static void eq(const char* key,double a,double b,double sc,double tol) { if (!vh::close(a,b,sc,tol)) vh::fail_here(key,std::string(key)+": Kokkos "+vh::num(a)+" serial "+vh::num(b)+" | schedule "+kh::cs()); }
static void eqv(const char* key,const V1& a,const V1& b,double tol) { if (a.size()!=b.size()) { vh::fail_here(key,std::string(key)+" sizes "+std::to_string(a.size())+" vs "+std::to_string(b.size())); return; } double s=1e-3; for (double x:b) s=std::max(s,std::fabs(x)); for (size_t i=0;i<a.size();++i) if (!vh::close(a[i],b[i],s,tol)) { vh::fail_here(key,std::string(key)+" entry "+std::to_string(i)+": Kokkos "+vh::num(a[i])+" serial "+vh::num(b[i])+" | schedule "+kh::cs()); return; } }
static V1 grid(double h,int n,bool out) { V1 g; for (int i=0;i<n;++i) { g.push_back(h*i); g.push_back(std::nextafter(h*i,1e9)); if (i) { g.push_back(std::nextafter(h*i,0)); g.push_back(i*h-1e-12); } if (i<n-1) { g.push_back(h*(i+0.37)); g.push_back(h*(i+0.5)); } }
    V1 o; for (double x:g) if (x<h*(n-1)&&x/h<n-1) o.push_back(x); if (out) { o.push_back(h*(n-1)); o.push_back(h*(n-1)*1.0001); o.push_back(h*(n+3)); o.push_back(-h); o.push_back(-1.5*h); o.push_back(-3*h); o.push_back(-0.5*h); } return o; }
static void spline() {
    for (int n:{2,3,4,5,6,33,129,1001}) for (double h:{0.1,0.25,1.0/3,1.0,2.7}) for (int dat=0;dat<2*n+2;++dat) { if (n>6&&dat!=n-2&&dat<2*n+1) continue; if (!mine()) continue; V1 v(n,0),d(n,0); if (dat<n) v[dat]=1.3; else if (dat<2*n) d[dat-n]=-0.7; else for (int i=0;i<n;++i) { v[i]=gen(i*3+dat); d[i]=gen(i*5+dat+7); }
        for (int c=0;c<3;++c) { kh::use({c+1,1,0,c}); vh::Case cs("spline",[&]{ return "CubicSplineKokkos h="+vh::num(h)+" values="+vh::str(v)+" derivs="+vh::str(d); });
          kh::guarded([&]{ CubicSpline S(h,v,d); CubicSplineKokkos K1(h,v,d), K2(h,kh::dev(v),kh::dev(d)); CubicSplineKokkos K3=K1; CubicSplineKokkos* ks[3]={&K1,&K2,&K3};
            for (double r:grid(h,n,true)) for (int q=0;q<(c?2:3);++q) { CubicSplineKokkos& K=*ks[q]; vh::states++; vh::transitions+=6; vh::traces++;
                auto two=[&](auto f,auto g,const char* key){ bool t1=false,t2=false; std::pair<double,double> a{},b{}; try { a=f(); } catch (const mk::Stop&) { throw; } catch (const std::exception&) { t1=true; } try { b=g(); } catch (const std::exception&) { t2=true; }
                    if (t1!=t2) vh::fail_here(std::string(key)+":range",std::string(key)+" at r="+vh::num(r)+(t1?" is rejected by Kokkos only":" is rejected by the serial spline only")); else if (!t1) { eq(key,a.first,b.first,2,1e-12); if (std::fabs(r)>1e-100||std::string(key)!="divided") eq(key,a.second,b.second,(std::string(key)=="divided"?20/std::fabs(r):20)/h,1e-12); } };
                two([&]{ return std::pair<double,double>(K.evaluate(r),0.0); },[&]{ return std::pair<double,double>(S.evaluate(r),0.0); },"value");
                two([&]{ auto [a,b]=K.evaluate_deriv(r); return std::pair<double,double>(a,b); },[&]{ auto [a,b]=S.evaluate_deriv(r); return std::pair<double,double>(a,b); },"deriv");
                two([&]{ auto [a,b]=K.evaluate_deriv_divided(r); return std::pair<double,double>(a,b); },[&]{ auto [a,b]=S.evaluate_deriv_divided(r); return std::pair<double,double>(a,b); },"divided"); } }); } } }
static void set() {
    std::vector<std::array<int,2>> NM; for (int n=2;n<=4;++n) for (int m=1;m<=5;++m) NM.push_back({n,m}); for (int m:{17,33,130}) { NM.push_back({3,m}); NM.push_back({40,m}); }
    for (auto [n,m]:NM) for (double h:{0.1,1.0/3,1.5}) { if (n>4&&h!=0.1) continue; if (!mine()) continue; V2 v(m,V1(n)),d(m,V1(n)); for (int j=0;j<m;++j) for (int i=0;i<n;++i) { v[j][i]=gen(i*11+j*3+n); d[j][i]=gen(i*7+j*13+m); }
        V1 g=grid(h,n,false); g.push_back(h*(n-1)); if (n*m>60) { V1 q; for (size_t i=0;i<g.size();i+=1+g.size()/12) q.push_back(g[i]); q.push_back(h*(n-1)); g=q; }
        int cn=0; for (auto cf:kh::cfgs(level)) { if (n*m>60&&cn++%4) continue; kh::use(cf); vh::Case cs("set",[&]{ return "CubicSplineSetKokkos h="+vh::num(h)+" values="+vh::str2(v)+" derivs="+vh::str2(d); });
          kh::guarded([&]{ CubicSplineSet S(h,v,d); CubicSplineSetKokkos K1(h,v,d); Kokkos::View<double**> vv("v",m,n),dd("d",m,n); { auto a=Kokkos::create_mirror_view(vv),b=Kokkos::create_mirror_view(dd); for (int j=0;j<m;++j) for (int i=0;i<n;++i) { a(j,i)=v[j][i]; b(j,i)=d[j][i]; } Kokkos::deep_copy(vv,a); Kokkos::deep_copy(dd,b); } CubicSplineSetKokkos K2(h,vv,dd);
            for (auto* K:{&K1,&K2}) { for (double r:g) { vh::states++; vh::transitions+=6; vh::traces++; V1 a(m),b(m),c(m); S.evaluate(r,a); S.evaluate_derivs(r,b,c);
                auto x=kh::dev(V1(m,9.5),"values"),y=kh::dev(V1(m,-9.5),"values"),z=kh::dev(V1(m,7.5),"derivs"); K->evaluate(r,x); K->evaluate_derivs(r,y,z); eqv("set:value",kh::host(x),a,1e-11); eqv("set:deriv-value",kh::host(y),b,1e-11); eqv("set:deriv",kh::host(z),c,1e-11);
#ifndef MK_GPU
                for (int ex:{0,2}) { V1 A(m+ex,3.25),B(m+ex,3.5),C(m+ex,3.75); K->evaluate(r,std::span<double>(A)); K->evaluate_derivs(r,std::span<double>(B),std::span<double>(C)); for (int q=m;q<m+ex;++q) if (A[q]!=3.25||B[q]!=3.5||C[q]!=3.75) vh::fail_here("set:tail","entries beyond the requested splines changed"); eqv("set:span",V1(A.begin(),A.begin()+m),a,1e-11); eqv("set:span-deriv-value",V1(B.begin(),B.begin()+m),b,1e-11); eqv("set:span-deriv",V1(C.begin(),C.begin()+m),c,1e-11); }
#endif
                }
              for (int nb:{0,1,2,3,4,67}) { if (nb>4&&n*m<=60&&m!=5) continue; V1 rs,ev,ed; for (int b=0;b<nb;++b) rs.push_back(g[(b*5+nb)%g.size()]); for (double r:rs) { V1 b(m),c(m); S.evaluate_derivs(r,b,c); ev.insert(ev.end(),b.begin(),b.end()); ed.insert(ed.end(),c.begin(),c.end()); } vh::states++; vh::transitions++; vh::traces++;
                auto X=kh::dev2(V1(nb*m,5.5),nb,m,"values"),Y=kh::dev2(V1(nb*m,-5.5),nb,m,"derivs"); K->evaluate_derivs(kh::cdev(rs,"r"),X,Y); eqv("set:batch-value",kh::host(X),ev,1e-11); eqv("set:batch-deriv",kh::host(Y),ed,1e-11); } } }); } } }
template<class P> void radial_() { const double tol=sizeof(P)==4?2e-6:1e-12;
    std::vector<std::array<int,3>> SZ; for (int na=1;na<=3;++na) for (int n=2;n<=4;++n) for (int m=1;m<=4;++m) SZ.push_back({na,n,m}); SZ.push_back({5,3,17}); SZ.push_back({12,20,3}); SZ.push_back({2,50,66});
    for (auto [na,n,m]:SZ) for (double h:{0.2,1.0/3}) { int ne=na*(na+1)/2; V3 v(ne,V2(m,V1(n))),d=v; for (int e=0;e<ne;++e) for (int j=0;j<m;++j) for (int i=0;i<n;++i) { v[e][j][i]=gen(e*17+i*11+j*3+n); d[e][j][i]=gen(e*29+i*7+j*13+m); }
        V1 g=grid(h,n,false); g.push_back(h*(n-1)); std::vector<CubicSplineSet> S; for (int e=0;e<ne;++e) S.emplace_back(h,v[e],d[e]);
        const bool L=na*n*m>48; for (int st=0;st<7;++st) { if (L&&st<5) continue; if (!mine()) continue; int N=st<6?st:37; std::vector<int> ty,nn,nt; V1 r; for (int i=0;i<N;++i) { ty.push_back((i*2+st)%na); nn.push_back(st==6&&i==20?71:(i*3+st)%4); for (int j=0;j<nn[i];++j) { nt.push_back((i+j+st)%na); r.push_back(g[(i*3+j*5+st*7)%g.size()]); } }
          int cn=0; for (auto cf:kh::cfgs(level)) { if ((L||st==6)&&cn++%5) continue; kh::use(cf); vh::Case cs(sizeof(P)==4?"radial:float":"radial",[&]{ return "RadialFunctionSetKokkos na="+std::to_string(na)+" functions="+std::to_string(m)+" h="+vh::num(h)+" nodes="+std::to_string(n)+" types="+vh::str(ty)+" num_neigh="+vh::str(nn)+" neigh_types="+vh::str(nt)+" r="+vh::str(r); }); vh::states++; vh::transitions++; vh::traces++;
            kh::guarded([&]{ RadialFunctionSetKokkos<P> K(h,v,d); int E=r.size(); auto X=kh::dev2(std::vector<P>(E*m,5.5f),E,m,"R"),Y=kh::dev2(std::vector<P>(E*m,-5.5f),E,m,"R_deriv"); K.evaluate(N,kh::cdev(ty),kh::cdev(nn),kh::cdev(nt),kh::cdev(r),X,Y);
                auto x=kh::host(X); auto y=kh::host(Y); for (int i=0,q=0;i<N;++i) for (int j=0;j<nn[i];++j,++q) { int a=std::min(ty[i],nt[q]),b=std::max(ty[i],nt[q]); int e=a*(2*na-a-1)/2+b; V1 p(m),s(m); S[e].evaluate_derivs(r[q],p,s); for (int k=0;k<m;++k) { eq("radial:value",x[q*m+k],p[k],6,tol); eq("radial:deriv",y[q*m+k],s[k],20/h,tol); } } }); } } } }
static void mlp() {
    std::vector<std::vector<int>> shapes; for (int a=1;a<=3;++a) { shapes.push_back({a,1}); for (int b=1;b<=4;++b) { shapes.push_back({a,b,1}); for (int c=1;c<=3;++c) shapes.push_back({a,b,c,1}); } } shapes.push_back({4,16,1}); shapes.push_back({2,2,2,2,1}); const size_t small=shapes.size(); for (std::vector<int> q:std::vector<std::vector<int>>{{16,16,1},{33,1},{8,64,33,1},{3,130,1},{40,40,40,1},{5,4,3,4,5,1},{129,2,1}}) shapes.push_back(q); const std::vector<int> SN={1,3,2,0,4,4,1,2,0,3}, SL={2,70,1,33,0,17,70,3}; size_t si=0;
    for (auto& sh:shapes) { ++si; for (double sc:{1.0,1.6765324703310907}) { if (!mine()) continue; const bool L=si>small; const auto& ST=L||sh==std::vector<int>{2,3,2,1}?SL:SN; int cn=0; V2 w; for (size_t l=0;l+1<sh.size();++l) { V1 x; for (int i=0;i<sh[l]*sh[l+1];++i) x.push_back(1.7*gen(i*3+l*101+sh[0])); w.push_back(x); }
        for (auto cf:kh::cfgs(level)) { if (L&&cn++%5) continue; kh::use(cf); std::string hist; vh::Case cs("mlp",[&]{ return "MultilayerPerceptronKokkos shape="+vh::str(sh)+" scale="+vh::num(sc)+" calls:"+hist; });
          kh::guarded([&]{ MultilayerPerceptron S(sh,w,sc); MultilayerPerceptronKokkos K(sh,w,sc); int nb0=sh[0];
            for (int step=0;step<(int)ST.size();++step) { const int nb=ST[step]; V1 x; for (int i=0;i<nb*nb0;++i) x.push_back(2*gen(i*13+step*7+sh.size())); V1 f,g; for (int b=0;b<nb;++b) { V1 xi(x.begin()+b*nb0,x.begin()+(b+1)*nb0); auto [q1,q2]=S.evaluate_gradient(xi); f.push_back(q1[0]); g.insert(g.end(),q2.begin(),q2.end()); }
                vh::states++; vh::transitions+=2; vh::traces++; auto X=kh::dev2(x,nb,nb0,"x"); auto F=Kokkos::View<double*,Kokkos::LayoutRight>("f",nb); auto G=kh::dev2(V1(nb*nb0,3.5),nb,nb0,"g");
                if (step%3!=1) { hist+=" evaluate("+std::to_string(nb)+")"; K.evaluate(X,F); eqv("mlp:value",kh::host(F),f,1e-11); auto X2=kh::host(X); if (X2!=x) vh::fail_here("mlp:input","input modified"); }
                if (step%4!=2) { auto F2=Kokkos::View<double*,Kokkos::LayoutRight>("f",nb); hist+=" gradient("+std::to_string(nb)+")"; K.evaluate_gradient(X,F2,G); eqv("mlp:grad-value",kh::host(F2),f,1e-11); eqv("mlp:grad",kh::host(G),g,1e-11); } } }); } } } }
static void poly() {
    auto run=[&](int nv,const std::vector<std::vector<int>>& mono,int pid){ V1 c; for (size_t i=0;i<mono.size();++i) c.push_back(gen(i*7+pid)+0.1); auto cfs=level>0?kh::cfgs(1):std::vector<kh::Cfg>{{1,1,0,0},{3,1,0,1},{2,1,1,2}}; if (level==0&&pid%4) cfs.resize(1);
        for (auto cf:cfs) { if (cf.V>1) continue; kh::use(cf); vh::Case cs("poly",[&]{ return "MultivariatePolynomialKokkos variables="+std::to_string(nv)+" monomials="+vh::str2(mono); });
          kh::guarded([&]{ MultivariatePolynomial S(nv,c,mono); MultivariatePolynomialKokkos K(nv,c,mono);
            for (int pt=0;pt<3;++pt) { V1 x; for (int i=0;i<nv;++i) x.push_back(pt==1&&i==0?0.0:2*gen(i*5+pt*31)); auto qt=S.evaluate_gradient_simple(x); std::pair<double,V1> q(std::get<0>(qt),std::get<1>(qt)); double sc=1; for (size_t i=0;i<c.size();++i) { double m=std::fabs(c[i]); for (int k:mono[i]) m*=std::max(1.0,std::fabs(x[k])); sc+=m; }
                Kokkos::View<const double*> X=kh::dev(x,"x"); Kokkos::View<double*> g=kh::dev(V1(nv,4.5),"g"),g2=kh::dev(V1(nv,-4.5),"g"); vh::states++; vh::transitions+=4; vh::traces++;
                eq("poly:value",K.evaluate(X),q.first,sc,1e-11); eq("poly:simple",K.evaluate_simple(X),q.first,sc,1e-11); eq("poly:grad-value",K.evaluate_gradient(X,g),q.first,sc,1e-11); eq("poly:simple-grad-value",K.evaluate_gradient_simple(X,g2),q.first,sc,1e-11);
                auto a=kh::host(g),b=kh::host(g2); for (int i=0;i<nv;++i) { eq("poly:grad",a[i],q.second[i],4*sc,1e-11); eq("poly:simple-grad",b[i],q.second[i],4*sc,1e-11); } } }); } };
    int pid=0; for (auto [nv,deg]:{std::pair{1,4},{2,3},{3,2}}) { std::vector<std::vector<int>> all; std::function<void(std::vector<int>,int)> rec=[&](std::vector<int> m,int lo){ if (m.size()) all.push_back(m); if ((int)m.size()<deg) for (int k=lo;k<nv;++k) { auto q=m; q.push_back(k); rec(q,k); } }; rec({},0);
        for (long s=1;s<(1L<<all.size());++s) { ++pid; if (level==0&&pid%2&&all.size()>8&&__builtin_popcountl(s)>5) continue; if (!mine()) continue; std::vector<std::vector<int>> mono; for (size_t i=0;i<all.size();++i) if (s>>i&1) mono.push_back(all[i]); run(nv,mono,pid); } }
    for (int b=0;b<4;++b) if (mine()) { std::vector<std::vector<int>> mono={{2,1,0},{0},{3,3},{1,3,3},{0,1,2,3},{2,0,0,0}}; std::rotate(mono.begin(),mono.begin()+b,mono.end()); run(4,mono,b*4); }
    // complete sets of many variables or high degree, chains of powers, single high monomials
    for (auto [nv,deg]:{std::pair{5,4},{9,3},{16,2},{33,1},{1,11},{2,8}}) if (mine()) { std::vector<std::vector<int>> all; std::function<void(std::vector<int>,int)> rec=[&](std::vector<int> m,int lo){ if (m.size()) all.push_back(m); if ((int)m.size()<deg) for (int k=lo;k<nv;++k) { auto q=m; q.push_back(k); rec(q,k); } }; rec({},0); run(nv,all,4); }
    for (int d=5;d<=11;++d) for (int nv:{1,2,3,12}) if (mine()) { std::vector<int> m; for (int i=0;i<d;++i) m.push_back((i*5)%nv); std::sort(m.begin(),m.end()); run(nv,{m},4); std::vector<std::vector<int>> two={m,{nv-1}}; run(nv,two,4); } }
static void zbl() {
    V1 rad(119,0.2); for (int z=1;z<119;++z) rad[z]=0.3+0.011*z; for (int p:{3,5,6}) { V1 cc={0.1818,0.5099,0.2802,0.02817}; ZBL S(0.3,0.4543,cc,rad,p); ZBLKokkos K(0.3,0.4543,cc,rad,p); std::vector<int> Z={1,6,8,26,92,118}; if (p==6) { Z.clear(); for (int z=1;z<=118;z+=level>1?1:3) Z.push_back(z); Z.push_back(118); }
        for (int zu:Z) for (int zv:Z) { if (!mine()) continue; double rm=rad[zu]+rad[zv]; V1 rs={0.01,0.1,0.3*rm,0.5*rm,0.77*rm,rm*(1-1e-9),rm,std::nextafter(rm,9),1.5*rm,4*rm}; vh::Case cs("zbl",[&]{ return "ZBLKokkos Z="+std::to_string(zu)+","+std::to_string(zv)+" p="+std::to_string(p); });
            kh::use({1,1,0,0}); kh::guarded([&]{ auto R=kh::dev(rs,"r"); Kokkos::View<double*> e("e",rs.size()),g("g",rs.size()); Kokkos::parallel_for("zbl pair",rs.size(),KOKKOS_LAMBDA(int i){ e(i)=K.compute(zu,zv,R(i)); g(i)=K.compute_gradient(zu,zv,R(i)); }); auto E=kh::host(e),G=kh::host(g);
                for (size_t i=0;i<rs.size();++i) { vh::states++; vh::transitions+=2; vh::traces++; double se=S.compute(zu,zv,rs[i]),sg=S.compute_gradient(zu,zv,rs[i]); eq("zbl:energy",E[i],se,std::fabs(se)+1e-9*zu*zv,1e-10); eq("zbl:gradient",G[i],sg,std::fabs(sg)+1e-8*zu*zv,1e-10); if (rs[i]>=rm&&(E[i]!=0||G[i]!=0)) vh::fail_here("zbl:cutoff","not zero beyond the cutoff"); } }); }
        for (int st=0;st<14;++st) { if (!mine()) continue; std::vector<int> an={8,1,26}, ty,nn,nt; V1 r,xyz,e0,f0; int N=st<12?st%6:st==12?45:130; for (int i=0;i<N;++i) { ty.push_back((i+st)%3); nn.push_back(st==12&&i==9?97:(i*2+st)%5); e0.push_back(gen(i)*3); for (int j=0;j<nn[i];++j) { nt.push_back((i+j)%3); double x=0.5*gen(i*9+j+st),y=0.4*gen(i*5+j*3+1),z=0.6*gen(j+st+3)+0.2; xyz.insert(xyz.end(),{x,y,z}); r.push_back(std::sqrt(x*x+y*y+z*z)); for (int q=0;q<3;++q) f0.push_back(gen(i*3+j+q)); } }
            for (auto cf:kh::cfgs(level)) { kh::use(cf); vh::Case cs("zbl:list",[&]{ return "ZBLKokkos::compute_ZBL types="+vh::str(ty)+" num_neigh="+vh::str(nn)+" xyz="+vh::str(xyz); }); vh::states++; vh::transitions++; vh::traces++;
                kh::guarded([&]{ V1 e=e0,f=f0; S.compute_ZBL(N,ty,nn,nt,an,r,xyz,e,f); auto E=kh::dev(e0,"node_energies"),F=kh::dev(f0,"node_forces"); K.compute_ZBL(N,kh::cdev(ty),kh::cdev(nn),kh::cdev(nt),kh::cdev(an),kh::cdev(r),kh::cdev(xyz),E,F); eqv("zbl:list-energy",kh::host(E),e,1e-11); eqv("zbl:list-forces",kh::host(F),f,1e-11); }); } } } }
int main(int argc,char** argv) { kh::init(); Kokkos::initialize(); std::string m=argv[1]; level=atoi(argv[2]); shard=atoi(argv[3]); nshards=atoi(argv[4]);
    if (m=="spline") spline(); else if (m=="set") set(); else if (m=="radial") { radial_<double>(); radial_<float>(); } else if (m=="mlp") mlp(); else if (m=="poly") poly(); else zbl();
    kh::counters(); return vh::finish(); }
