// C08: all (l,m) up to a bound x a direction set with every axis, pole, coordinate half-plane and generic directions.
// usage: sph <shard> <nshards>
#include "vh.hpp"
#include "spherical_harmonic.hpp"
#include <complex>
static int shard=0,nshards=1; static long counter=0; static bool mine(){ return (counter++%nshards)==shard; }
typedef long double LD; typedef std::complex<double> C;
// orthonormal, Condon-Shortley; from cos/sin of the polar angle and exp(i azimuth)
static std::complex<LD> ref(int l,int m,LD ct,LD st,LD ca,LD sa){ int a=std::abs(m); LD pmm=1; for (int k=1;k<=a;++k) pmm*=-(2*k-1)*st; LD p2=0,p1=pmm; for (int k=a+1;k<=l;++k) { LD p=((2*k-1)*ct*p1-(k+a-1)*p2)/(k-a); p2=p1; p1=p; }
    LD f=(2*l+1)/(4*acosl(-1.0L)); for (int k=l-a+1;k<=l+a;++k) f/=k; std::complex<LD> e(1,0),w(ca,sa); for (int k=0;k<a;++k) e*=w; std::complex<LD> y=sqrtl(f)*p1*e; if (m<0) { y=std::conj(y); if (a%2) y=-y; } return y; }
static LD refr(int l,int m,LD ct,LD st,LD ca,LD sa){ if (m==0) return ref(l,0,ct,st,ca,sa).real(); LD s=(m%2)?-1:1; auto y=ref(l,std::abs(m),ct,st,ca,sa); return sqrtl(2)*s*(m<0?y.imag():y.real()); }
int main(int argc,char** argv){
    vh::init(); shard=atoi(argv[1]); nshards=atoi(argv[2]); bool T=vh::thorough(); int L=T?20:14;
    std::vector<std::array<double,3>> dirs; const double al[7]={-2.0,-1.0,-0.0,0.0,0.5,1.0,1e-3};
    for (double x:al) for (double y:al) for (double z:al) if (x||y||z) dirs.push_back({x,y,z});
    for (int k=0;k<(T?400:60);++k) dirs.push_back({3*vh::gen(3*k+1),3*vh::gen(3*k+2),3*vh::gen(3*k+3)});
    for (double sc:{1e-6,1e6}) for (int k=0;k<20;++k) dirs.push_back({sc*vh::gen(k),sc*vh::gen(k+77),sc*vh::gen(k+177)});
    for (double eps:{1e-12,1e-9,1e-7,1e-5}) for (double sx:{-1.,0.,1.}) for (double sy:{-1.,0.,1.}) for (double z:{-1.,1.}) dirs.push_back({sx*eps,sy*eps,z}), dirs.push_back({z,sx*eps,sy*eps}), dirs.push_back({sx*eps,z,sy*eps});
    std::vector<double> all; for (auto& d:dirs) for (double v:d) all.push_back(v);
    for (auto& d:dirs) { if (!mine()) continue; double x=d[0],y=d[1],z=d[2]; LD X=x,Yy=y,Z=z,r=sqrtl(X*X+Yy*Yy+Z*Z),rho=sqrtl(X*X+Yy*Yy); LD ct=Z/r,st=rho/r,ca=rho>0?X/rho:1,sa=rho>0?Yy/rho:0;
        double pol=acos((double)(rho>0||true?ct:ct)), az=atan2((double)Yy,(double)X); pol=(double)atan2l(rho,Z);
        LD theta=std::min((LD)pol,acosl(-1.0L)-(LD)pol); double slack=(double)std::min((LD)3e-8,4e-16L/std::max(theta,(LD)1e-30));   // conditioning of acos(z/r) near the poles
        int l=0,m=0; vh::Case cs("sph",[&]{ return "l="+std::to_string(l)+" m="+std::to_string(m)+" xyz=("+vh::num(x)+","+vh::num(y)+","+vh::num(z)+")"; });
        auto cre=[&](C a,std::complex<LD> w,double t){ return vh::close(a.real(),w.real(),1,t)&&vh::close(a.imag(),w.imag(),1,t); };
        auto vr=sphericart_real(L,{x,y,z}); auto vc=sphericart_complex(L,{x,y,z}); vh::transitions+=2;
        if ((int)vr.size()!=(L+1)*(L+1)||(int)vc.size()!=(L+1)*(L+1)) { vh::fail_here("sizes","vector routines return the wrong number of entries"); continue; }
        for (l=0;l<=L;++l) for (m=-l;m<=l;++m) { vh::states++; vh::traces++; double t=1e-12*(1+l*l), tx=t+slack*(1+l)*(1+l)*2; auto w=ref(l,m,ct,st,ca,sa); LD wr=refr(l,m,ct,st,ca,sa);
            C a=sph_harm(l,m,pol,az); if (!cre(a,w,tx)) vh::fail_here("sph_harm","got ("+vh::num(a.real())+","+vh::num(a.imag())+") expected ("+vh::num(w.real())+","+vh::num(w.imag())+")");
            C b=sph_harm_xyz(l,m,x,y,z); if (!cre(b,w,tx)) vh::fail_here("sph_harm_xyz","got ("+vh::num(b.real())+","+vh::num(b.imag())+") expected ("+vh::num(w.real())+","+vh::num(w.imag())+")");
            double ra=real_sph_harm(l,m,pol,az); if (!vh::close(ra,wr,1,tx)) vh::fail_here("real_sph_harm","got "+vh::num(ra)+" expected "+vh::num(wr));
            double rb=real_sph_harm_xyz(l,m,x,y,z); if (!vh::close(rb,wr,1,tx)) vh::fail_here("real_sph_harm_xyz","got "+vh::num(rb)+" expected "+vh::num(wr));
            C c=sphericart_sph_harm(l,m,x,y,z); if (!cre(c,w,t)) vh::fail_here("sphericart_sph_harm","got ("+vh::num(c.real())+","+vh::num(c.imag())+") expected ("+vh::num(w.real())+","+vh::num(w.imag())+")");
            double rc=sphericart_real_sph_harm(l,m,x,y,z); if (!vh::close(rc,wr,1,t)) vh::fail_here("sphericart_real_sph_harm","got "+vh::num(rc)+" expected "+vh::num(wr));
            if (!vh::close(vr[l*l+l+m],wr,1,t)) vh::fail_here("sphericart_real","got "+vh::num(vr[l*l+l+m])+" expected "+vh::num(wr));
            if (!cre(vc[l*l+l+m],w,t)) vh::fail_here("sphericart_complex","got ("+vh::num(vc[l*l+l+m].real())+","+vh::num(vc[l*l+l+m].imag())+") expected ("+vh::num(w.real())+","+vh::num(w.imag())+")");
            double sg=l%2?-1:1; C bi=sph_harm_xyz(l,m,-x,-y,-z); if (!cre(bi,std::complex<LD>(sg*b.real(),sg*b.imag()),2*tx)) vh::fail_here("parity","parity (-1)^l violated");
            C bs=sph_harm_xyz(l,m,2*x,2*y,2*z); if (!cre(bs,std::complex<LD>(b.real(),b.imag()),t)) vh::fail_here("direction-only","value depends on the length of the vector");
            vh::transitions+=8; } }
    // several samples in one call, every number up to a bound
    if (shard==0) for (int lm=0;lm<=4;++lm) for (int n:{0,1,2,3,4,5,6,7,8,9,10,11,12,17,33,64,65,130}) { vh::Case cs("batch",[&]{ return "l_max="+std::to_string(lm)+" samples="+std::to_string(n); }); std::vector<double> xyz(all.begin(),all.begin()+3*n); auto c=sphericart_complex(lm,xyz); auto r=sphericart_real(lm,xyz); vh::transitions+=2; vh::states++; vh::traces++; int N=(lm+1)*(lm+1);
        if ((int)c.size()!=n*N) { vh::fail_here("batch:size","complex size"); continue; } if (n&&(int)r.size()!=n*N) { vh::fail_here("batch:size-real","real size"); continue; }
        for (int i=0;i<n;++i) { std::vector<double> p(xyz.begin()+3*i,xyz.begin()+3*i+3); auto c1=sphericart_complex(lm,p); auto r1=sphericart_real(lm,p); for (int k=0;k<N;++k) if (std::abs(c1[k]-c[i*N+k])>1e-13||std::fabs(r1[k]-r[i*N+k])>1e-13) vh::fail_here("batch:value","sample "+std::to_string(i)); } }
    return vh::finish();
}
