// C04/C05: cubic splines and spline sets.  usage: spline <single|set> <shard> <nshards>
#include "vh.hpp"
#include "cubic_spline.hpp"
#include "cubic_spline_set.hpp"
#include <algorithm>
static int shard=0, nshards=1; static long counter=0;
static bool mine() { return (counter++ % nshards) == shard; }
typedef long double LD;
// Hermite reference on the interval [i h,(i+1) h]; also a magnitude scale for value and slope
struct RV { LD v,d,sv,sd; };
static RV hermite(LD h,const std::vector<double>& f,const std::vector<double>& g,int i,LD r) {
    LD t=(r-h*i)/h;
    LD H00=2*t*t*t-3*t*t+1,H10=t*t*t-2*t*t+t,H01=-2*t*t*t+3*t*t,H11=t*t*t-t*t;
    LD D00=6*t*t-6*t,D10=3*t*t-4*t+1,D01=-6*t*t+6*t,D11=3*t*t-2*t;
    RV q; q.v=H00*f[i]+H10*h*g[i]+H01*f[i+1]+H11*h*g[i+1];
    q.d=(D00*f[i]+D10*h*g[i]+D01*f[i+1]+D11*h*g[i+1])/h;
    q.sv=10*(fabsl(f[i])+fabsl(f[i+1])+h*fabsl(g[i])+h*fabsl(g[i+1])); q.sd=q.sv/h*4; return q; }
struct Point { double r; std::vector<int> intervals; std::string tag; };   // admissible intervals (both at a knot)
// every r of the grid: knots, both floating neighbours, just inside, fractions of each interval
static std::vector<Point> points(double h,int n) {
    std::vector<Point> P; int m=n-1;
    auto add=[&](double r,std::string tag) { if (r<0) return; Point p; p.r=r; p.tag=tag; LD q=(LD)r/h;
        for (int i=0;i<m;++i) if (q>=i-1e-9L*(1+fabsl((LD)i)) && q<=i+1+1e-9L*(i+1)) p.intervals.push_back(i);
        if (!p.intervals.empty() && q<=m) P.push_back(p); };
    for (int i=0;i<=m;++i) {
        double k=h*i; add(k,"knot"); add(std::nextafter(k,1e300),"knot+ulp"); add(std::nextafter(k,-1),"knot-ulp"); add(i*1.0*h*(1-1e-13),"knot-1e-13"); add(k*(1+1e-13),"knot+1e-13"); add(k-1e-12,"knot-1e-12");
        if (i<m) for (double fr:{0.0625,0.25,1.0/3,0.5,0.6180339887,0.9,0.999999}) add(h*(i+fr),"inside"); }
    add(5e-324,"denormal"); add(1e-300,"tiny");
    return P; }
static bool ok(double got,const std::vector<LD>& want,LD scale,double tol=1e-11) { for (LD w:want) if (vh::close(got,w,scale,tol)) return true; return false; }

static void single(double h,const std::vector<double>& f,const std::vector<double>& g) {
    if (!mine()) return;
    double r=0; std::string tag;
    vh::Case cs("spline",[&]{ return "h="+vh::num(h)+" values="+vh::str(f)+" slopes="+vh::str(g)+" r="+vh::num(r)+" ("+tag+")"; });
    CubicSpline S(h,f,g); int n=f.size();
    vh::extra["splines"]++;
    for (auto& p:points(h,n)) {
        r=p.r; tag=p.tag; vh::states++; vh::traces++;
        std::vector<LD> V,D,Q; LD sv=0,sd=0;
        for (int i:p.intervals) { RV q=hermite(h,f,g,i,r); V.push_back(q.v); D.push_back(q.d); if (r>0) Q.push_back(q.d/r); sv=std::max(sv,q.sv); sd=std::max(sd,q.sd); }
        bool last=(LD)r/h > (n-1)*(1-1e-13L);      // at the very last node rounding decides: value or rejection, nothing else
        int e2; bool must=std::frexp(h,&e2)==0.5 && r==h*(n-1);   // no rounding involved: the last node itself is out of bounds
        double e=0,v1=0,d1=0,v2=0,d2=0; int thrown=0;
        try { e=S.evaluate(r); } catch (const std::exception&) { thrown|=1; }
        try { std::tie(v1,d1)=S.evaluate_deriv(r); } catch (const std::exception&) { thrown|=2; }
        try { std::tie(v2,d2)=S.evaluate_deriv_divided(r); } catch (const std::exception&) { thrown|=4; }
        vh::transitions+=3;
        if (thrown) { if (!last) vh::fail_here("spline:rejected-inside","a radius inside the table was rejected (calls "+std::to_string(thrown)+")"); else if (thrown!=7) vh::fail_here("spline:calls-differ-at-end","only some calls reject this radius"); continue; }
        if (must) vh::fail_here("spline:not-rejected-at-end","a radius at the last node was answered");
        if (!ok(e,V,sv)) vh::fail_here("spline:evaluate","got "+vh::num(e)+" expected "+vh::num(V[0]));
        if (!ok(v1,V,sv)) vh::fail_here("spline:evaluate_deriv:value","got "+vh::num(v1)+" expected "+vh::num(V[0]));
        if (!ok(d1,D,sd)) vh::fail_here("spline:evaluate_deriv:slope","got "+vh::num(d1)+" expected "+vh::num(D[0]));
        if (!ok(v2,V,sv)) vh::fail_here("spline:evaluate_deriv_divided:value","got "+vh::num(v2)+" expected "+vh::num(V[0]));
        if (r>1e-200 && !ok(d2,Q,sd/r)) vh::fail_here("spline:evaluate_deriv_divided:slope","got "+vh::num(d2)+" expected "+vh::num(Q[0]));
        if (!vh::close(e,v1,sv,1e-12)||!vh::close(e,v2,sv,1e-12)) vh::fail_here("spline:calls-disagree","values of the three calls differ");
    }
    // outside: every call must reject
    int m=n-1; std::vector<double> out;
    for (double k:{1e-6,0.001,0.5,0.999999,1.0,1.5,2.0,3.0,4.0,7.0,10.0,3.0*m+1,3.0*m+3,100.0,1e4,1e6,1e9}) out.push_back(h*(m+k));
    for (double k:{1.0000001,1.5,2.0,3.5,m+1.0,4.0*m+5,1e4,1e9}) out.push_back(-h*k);
    for (double q:out) { r=q; tag="outside"; vh::states++; vh::traces++; int thrown=0;
        try { S.evaluate(r); } catch (const std::exception&) { thrown|=1; }
        try { S.evaluate_deriv(r); } catch (const std::exception&) { thrown|=2; }
        try { S.evaluate_deriv_divided(r); } catch (const std::exception&) { thrown|=4; }
        vh::transitions+=3;
        if (thrown!=7) vh::fail_here(std::string("spline:not-rejected-")+(r<0?"below":"above"),"a radius outside the table was answered (rejecting calls mask "+std::to_string(thrown)+" of 7)"); }
}
static void set_case(double h,int n,int ns,int pat,double S1,double S2) {
    if (!mine()) return;
    std::vector<std::vector<double>> F(ns),G(ns);
    for (int j=0;j<ns;++j) for (int i=0;i<n;++i) { F[j].push_back(pat==0?vh::gen(i*131+j*7+1):(pat==1?(i==j%n?1.0:0.0):3.0*j+i)); G[j].push_back(pat==0?vh::gen(i*17+j*1013+5):(pat==1?0.0:0.25*j-i)); }
    double r=0; std::string tag,call; int pad=5; unsigned turn=0;
    vh::Case cs("set",[&]{ return call+" h="+vh::num(h)+" nodes="+std::to_string(n)+" splines="+std::to_string(ns)+" data#"+std::to_string(pat)+" r="+vh::num(r)+" ("+tag+")"; });
    CubicSplineSet S(h,F,G); std::vector<CubicSpline> C; for (int j=0;j<ns;++j) C.emplace_back(h,F[j],G[j]);
    if (S.num_splines!=ns) vh::fail_here("set:num_splines","num_splines="+std::to_string(S.num_splines));
    vh::extra["sets"]++;
    for (auto& p:points(h,n)) {
        r=p.r; tag=p.tag; vh::states++; vh::traces++;
        std::vector<double> e(ns+2*pad,S1), v(ns+2*pad,S1), d(ns+2*pad,S2);
        int w=ns+(turn++%3);   // the caller's arrays may be longer than the number of splines
        call="evaluate"; S.evaluate(r,std::span<double>(e.data()+pad,w)); call="evaluate_derivs";
        S.evaluate_derivs(r,std::span<double>(v.data()+pad,w),std::span<double>(d.data()+pad,w)); vh::transitions+=2;
        for (int k=0;k<ns+2*pad;++k) if (k<pad||k>=pad+ns) if (memcmp(&e[k],&S1,8)||memcmp(&v[k],&S1,8)||memcmp(&d[k],&S2,8)) vh::fail_here("set:writes-outside","entry "+std::to_string(k-pad)+" outside the outputs was written");
        for (int j=0;j<ns;++j) {
            std::vector<LD> V,D; LD sv=0,sd=0; for (int i:p.intervals) { RV q=hermite(h,F[j],G[j],i,r); V.push_back(q.v); D.push_back(q.d); sv=std::max(sv,q.sv); sd=std::max(sd,q.sd); }
            if (!ok(e[pad+j],V,sv)) vh::fail_here("set:evaluate","spline "+std::to_string(j)+" got "+vh::num(e[pad+j])+" expected "+vh::num(V[0]));
            if (!ok(v[pad+j],V,sv)) vh::fail_here("set:evaluate_derivs:value","spline "+std::to_string(j)+" got "+vh::num(v[pad+j])+" expected "+vh::num(V[0]));
            if (!ok(d[pad+j],D,sd)) vh::fail_here("set:evaluate_derivs:slope","spline "+std::to_string(j)+" got "+vh::num(d[pad+j])+" expected "+vh::num(D[0]));
            try { auto [cv,cd]=C[j].evaluate_deriv(r); double ce=C[j].evaluate(r); vh::transitions+=2;
                // at a knot the two may legitimately sit on different sides; values agree, slopes agree (C1)
                if (!vh::close(cv,v[pad+j],sv,1e-11)||!vh::close(ce,e[pad+j],sv,1e-11)||!vh::close(cd,d[pad+j],sd,1e-11)) vh::fail_here("set:differs-from-single","spline "+std::to_string(j)+" differs from the single spline");
            } catch (const std::exception&) { if ((LD)r/h <= (n-1)*(1-1e-13L)) vh::fail_here("set:single-rejects","the single spline rejects this radius"); }
        }
    }
}
int main(int argc,char** argv) {
    vh::init(); std::string mode=argv[1]; shard=atoi(argv[2]); nshards=atoi(argv[3]); bool T=vh::thorough();
    std::vector<double> H=T?std::vector<double>{1.0,0.5,0.1,0.3,0.7,1e-3,1.0/3,2.5,7.0,(6.0-1e-12)/7,(5.0-1e-12)/199,1e-6,1e3}:std::vector<double>{1.0,0.1,0.3,1e-3,2.5,(6.0-1e-12)/7};
    if (mode=="single") {
        int N=T?9:7;
        for (int n=2;n<=N;++n) for (double h:H) {
            for (int k=0;k<2*n;++k) { std::vector<double> f(n,0),g(n,0); (k<n?f[k]:g[k-n])=1; single(h,f,g); }        // basis data: the scheme is linear in it
            for (int pat=0;pat<4;++pat) { std::vector<double> f(n),g(n); for (int i=0;i<n;++i) { double x=h*i; // cubic polynomials and generic data
                double c0=vh::gen(pat*9+1),c1=vh::gen(pat*9+2),c2=vh::gen(pat*9+3),c3=vh::gen(pat*9+4);
                f[i]=pat<2?c0+c1*x+c2*x*x+c3*x*x*x:vh::gen(i+50*pat); g[i]=pat<2?c1+2*c2*x+3*c3*x*x:vh::gen(i+51*pat+9); } single(h,f,g); }
            if (n<=4) { // all data vectors over {-1,0,1} for the shortest splines
                int tot=1; for (int i=0;i<2*n;++i) tot*=3; for (int c=0;c<tot;++c) { std::vector<double> f(n),g(n); int q=c; for (int i=0;i<n;++i) { f[i]=q%3-1; q/=3; } for (int i=0;i<n;++i) { g[i]=q%3-1; q/=3; } if (n==4 && !T && h!=1.0) break; single(h,f,g); } }
        }
        for (int n:{50,200}) for (double h:{0.1,(5.0-1e-12)/(n-1)}) { std::vector<double> f(n),g(n); for (int i=0;i<n;++i) { f[i]=vh::gen(i+1); g[i]=vh::gen(i+999); } single(h,f,g); }
    } else {
        int NN=T?8:6, NS=T?40:18;
        for (int n=2;n<=NN;++n) for (int ns=1;ns<=NS;++ns) for (double h:H) for (int pat=0;pat<3;++pat) {
            set_case(h,n,ns,pat,12345.678,-98765.4321);
            if (pat==0) { double nan=__builtin_nan(""); set_case(h,n,ns,0,nan,nan); } }
        for (int n:{50,200}) for (int ns:{1,7,64,128}) set_case((5.0-1e-12)/(n-1),n,ns,0,1e300,-1e300);
    }
    return vh::finish();
}
