// C06: ZBL over all atomic-number pairs and a distance grid, and over all small neighbour lists.  usage: zblx <shard> <nshards>
#include "vh.hpp"
#include "zbl.hpp"
static int shard=0, nshards=1; static long counter=0;
static bool mine() { return (counter++ % nshards) == shard; }
typedef long double LD;
struct Par { double ae,ap; std::vector<double> c,cov; int p; };
static const LD CE[4]={-3.2L,-0.9423L,-0.4028L,-0.2016L};
struct EV { LD e,g,se,sg; };
static EV ref(const Par& P,int u,int v,LD r) {
    LD rm=(LD)P.cov[u]+P.cov[v]; EV o{0,0,0,0}; 
    LD a=P.ap*0.529L/(powl(u,P.ae)+powl(v,P.ae)), phi=0,dphi=0,sphi=0;
    for (int k=0;k<4;++k) { LD t=P.c[k]*expl(CE[k]*r/a); phi+=t; dphi+=CE[k]/a*t; sphi+=fabsl(t)*(1+fabsl(CE[k])/a); }
    LD V=14.3996L*u*v/r*phi, dV=14.3996L*u*v*(r*dphi-phi)/(r*r);
    LD x=r/rm; int p=P.p; LD A=(p+1.0L)*(p+2.0L)/2,B=p*(p+2.0L),C=p*(p+1.0L)/2;
    LD f=1-A*powl(x,p)+B*powl(x,p+1)-C*powl(x,p+2), df=(-A*p*powl(x,p-1)+B*(p+1)*powl(x,p)-C*(p+2)*powl(x,p+1))/rm;
    o.se=fabsl(V)*(A+B+C)+1e-30L; o.sg=(A+B+C)*(p+2)*14.3996L*u*v*sphi*(1/r+1/(r*r)+1/(r*rm));
    if (r<rm) { o.e=0.5L*V*f; o.g=0.5L*(V*df+dV*f); } return o; }
static double tol=1e-11;
static void pairs(const Par& P,const std::string& pn,int u,int v,ZBL& Z,bool dense) {
    double r=0; vh::Case cs("pair",[&]{ return pn+" Z=("+std::to_string(u)+","+std::to_string(v)+") r="+vh::num(r); });
    double rm=P.cov[u]+P.cov[v];
    std::vector<double> R={0.05*rm,0.1*rm,0.3*rm,0.5*rm,0.7*rm,0.9*rm,0.99*rm,rm*(1-1e-6),rm*(1-1e-12),std::nextafter(rm,0.0),rm,std::nextafter(rm,1e9),rm*(1+1e-12),rm*1.5,100*rm,1e-3,0.5,1.0,2.5};
    if (dense) for (int k=1;k<40;++k) R.push_back(rm*k/38.0);
    for (double q:R) { r=q; vh::states++; vh::traces++; vh::transitions+=2;
        double e=Z.compute(u,v,r), g=Z.compute_gradient(u,v,r); EV w=ref(P,u,v,r);
        if (r>=rm && (e!=0||g!=0)) vh::fail_here("zbl:nonzero-beyond-cutoff","energy "+vh::num(e)+" gradient "+vh::num(g));
        if (!vh::close(e,w.e,w.se,tol)) vh::fail_here("zbl:energy","got "+vh::num(e)+" expected "+vh::num(w.e));
        if (!vh::close(g,w.g,w.sg,tol)) vh::fail_here("zbl:gradient","got "+vh::num(g)+" expected "+vh::num(w.g));
        double es=Z.compute(v,u,r), gs=Z.compute_gradient(v,u,r);
        if (!vh::close(e,es,w.se,1e-13)||!vh::close(g,gs,w.sg,1e-13)) vh::fail_here("zbl:asymmetric","("+vh::num(e)+","+vh::num(g)+") vs swapped ("+vh::num(es)+","+vh::num(gs)+")");
        // envelope helpers
        double f=Z.compute_envelope(r,rm,P.p), df=Z.compute_envelope_gradient(r,rm,P.p); LD x=(LD)r/rm; int p=P.p; LD A=(p+1.0L)*(p+2.0L)/2,B=p*(p+2.0L),C=p*(p+1.0L)/2;
        LD wf=r<rm?1-A*powl(x,p)+B*powl(x,p+1)-C*powl(x,p+2):0, wd=r<rm?(-A*p*powl(x,p-1)+B*(p+1)*powl(x,p)-C*(p+2)*powl(x,p+1))/rm:0;
        if (!vh::close(f,wf,A+B+C,tol)||!vh::close(df,wd,(A+B+C)*(p+2)/rm,tol)) vh::fail_here("zbl:envelope","envelope "+vh::num(f)+","+vh::num(df)+" expected "+vh::num(wf)+","+vh::num(wd));
    } }
static void lists(const Par& P,const std::string& pn,ZBL& Z) {
    // every neighbour-count vector with up to 3 atoms x up to 3 neighbours, every type assignment over 2 types for atoms, neighbours cycling through types
    const std::vector<int> AN={8,1,79};
    for (int n=0;n<=3;++n) { int tot=1; for (int i=0;i<n;++i) tot*=4; int tt=1; for (int i=0;i<n;++i) tt*=3;
        for (int c=0;c<tot;++c) for (int t=0;t<tt;++t) for (int nt=0;nt<3;++nt) {
            if (!mine()) continue;
            std::vector<int> nn(n),ty(n); int q=c; for (int i=0;i<n;++i) { nn[i]=q%4; q/=4; } q=t; for (int i=0;i<n;++i) { ty[i]=q%3; q/=3; }
            int E=0; for (int k:nn) E+=k; std::vector<int> nty(E); std::vector<double> r(E),xyz(3*E);
            for (int e=0;e<E;++e) { nty[e]=(e*e+nt)%3; double x=0.3+vh::gen(e+1)*0.6,y=vh::gen(e+71)*0.9,z=vh::gen(e+33)*0.8; if (e%4==3) { x*=4;y*=4;z*=4; } xyz[3*e]=x;xyz[3*e+1]=y;xyz[3*e+2]=z; r[e]=std::sqrt(x*x+y*y+z*z); }
            vh::Case cs("list",[&]{ return pn+" num_neigh="+vh::str(nn)+" node_types="+vh::str(ty)+" neigh_types="+vh::str(nty); });
            std::vector<double> en(n),F(3*E); for (int i=0;i<n;++i) en[i]=100*(i+1); for (int k=0;k<3*E;++k) F[k]=-7.5*k+1;
            const int pad=4; std::vector<double> be(n+2*pad,5.5),bf(3*E+2*pad,6.5); std::copy(en.begin(),en.end(),be.begin()+pad); std::copy(F.begin(),F.end(),bf.begin()+pad);
            auto nn0=nn,ty0=ty,nty0=nty; auto r0=r,x0=xyz;
            Z.compute_ZBL(n,ty,nn,nty,AN,r,xyz,std::span<double>(be.data()+pad,n),std::span<double>(bf.data()+pad,3*E)); vh::transitions++; vh::states++; vh::traces++;
            if (nn!=nn0||ty!=ty0||nty!=nty0||r!=r0||xyz!=x0) vh::fail_here("list:inputs-modified","inputs changed");
            for (int k=0;k<pad;++k) if (be[k]!=5.5||be[n+pad+k]!=5.5||bf[k]!=6.5||bf[3*E+pad+k]!=6.5) vh::fail_here("list:writes-outside","wrote outside the arrays");
            int e=0; for (int i=0;i<n;++i) { LD s=en[i],sc=fabs(en[i]); for (int j=0;j<nn[i];++j,++e) { EV w=ref(P,AN[ty[i]],AN[nty[e]],r[e]); s+=w.e; sc+=w.se;
                for (int k=0;k<3;++k) { LD f=(LD)F[3*e+k]-(LD)xyz[3*e+k]/r[e]*w.g; if (!vh::close(bf[pad+3*e+k],f,fabs(F[3*e+k])+w.sg,tol)) vh::fail_here("list:force","edge "+std::to_string(e)+" got "+vh::num(bf[pad+3*e+k])+" expected "+vh::num(f)); } }
                if (!vh::close(be[pad+i],s,sc,tol)) vh::fail_here("list:energy","atom "+std::to_string(i)+" got "+vh::num(be[pad+i])+" expected "+vh::num(s)); }
        } } }
int main(int argc,char** argv) {
    vh::init(); shard=atoi(argv[1]); nshards=atoi(argv[2]); bool T=vh::thorough();
    std::vector<double> cov(120); for (int i=0;i<120;++i) cov[i]=0.2+0.31*(1+vh::gen(i+5))+0.006*i;
    std::vector<Par> PP; for (int p:{2,3,5,6,10}) PP.push_back({0.300,0.4543,{0.1818,0.5099,0.2802,0.02817},cov,p});
    PP.push_back({0.23,0.8854,{0.18175,0.50986,0.28022,0.028171},cov,6}); PP.push_back({1.0,1.0,{1,2,-3,0.5},cov,6}); PP.push_back({0.3,0.4543,{1,0,0,0},cov,1});
    int k=0; for (auto& P:PP) { ZBL Z(P.ae,P.ap,P.c,P.cov,P.p); std::string pn="param#"+std::to_string(k)+"(p="+std::to_string(P.p)+")";
        for (int u=1;u<119;++u) for (int v=1;v<119;++v) if (mine()) { if (!T && k && !(u%10<=1 && v%7<=1)) continue; pairs(P,pn,u,v,Z,T&&u<30); }
        lists(P,pn,Z); ++k; }
    return vh::finish();
}
