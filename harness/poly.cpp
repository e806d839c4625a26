// C01: bounded exhaustive exploration of polynomials.
// usage: poly <shard> <nshards>
#include "vh.hpp"
#include "multivariate_polynomial.hpp"
#include <algorithm>
using Mono = std::vector<int>;
static int shard=0, nshards=1; static long counter=0;
static bool mine() { return (counter++ % nshards) == shard; }

static void monomials_rec(int n, int deg, int start, bool sorted, Mono& m, std::vector<Mono>& out) {
    if (deg==0) { out.push_back(m); return; }
    for (int v = sorted?start:0; v<n; ++v) { m.push_back(v); monomials_rec(n,deg-1,v,sorted,m,out); m.pop_back(); }
}
static std::vector<Mono> pool(int n, int maxdeg, bool sorted, int mindeg=1) {
    std::vector<Mono> out; Mono m;
    for (int d=mindeg; d<=maxdeg; ++d) monomials_rec(n,d,0,sorted,m,out);
    return out;
}
static const int PR[] = {2,-3,5,-7,11,-13,17,-19,23,-29,31,-37,41,-43,47,-53,59,-61,67,-71,73,-79,83,-89};

struct Ref { double f; std::vector<double> g; double scale; };
// plain definition of the polynomial and its derivative
static Ref reference(int n, const std::vector<double>& c, const std::vector<Mono>& ms, const double* x) {
    Ref r{0.0, std::vector<double>(n,0.0), 1.0};
    for (size_t i=0;i<ms.size();++i) {
        double p=1; for (int v:ms[i]) p*=x[v];
        r.f += c[i]*p; r.scale += std::fabs(c[i]*p);
        for (size_t j=0;j<ms[i].size();++j) {
            double q=1; for (size_t k=0;k<ms[i].size();++k) if (k!=j) q*=x[ms[i][k]];
            r.g[ms[i][j]] += c[i]*q; r.scale += std::fabs(c[i]*q);
        }
    }
    return r;
}
static void drive(int n, const std::vector<double>& c, const std::vector<Mono>& ms, const std::vector<std::vector<double>>& pts,
                  const std::vector<int>& batch_sizes, double tol /*0: exact*/, bool simple=true) {
    vh::traces++;
    std::string where="construct"; std::vector<double> curx;
    vh::Case cs("poly",[&]{ return "n="+std::to_string(n)+" c="+vh::str(c)+" monomials="+vh::str2(ms)+" call="+where+" x="+vh::str(curx); });
    MultivariatePolynomial P(n,c,ms);
    auto ok=[&](double a,double b,double s){ return tol==0 ? a==b : vh::close(a,b,s,tol); };
    std::vector<Ref> refs;
    for (auto& x:pts) {
        curx=x; vh::states++;
        refs.push_back(reference(n,c,ms,x.data())); auto& r=refs.back();
        where="evaluate"; vh::transitions++;
        double f=P.evaluate(x);
        if (!ok(f,r.f,r.scale)) vh::fail_here("evaluate","evaluate returned "+vh::num(f)+", polynomial is "+vh::num(r.f));
        where="evaluate_gradient"; vh::transitions++;
        auto [f1,g1]=P.evaluate_gradient(x);
        if (!ok(f1,r.f,r.scale)) vh::fail_here("evaluate_gradient.value","value "+vh::num(f1)+", polynomial is "+vh::num(r.f));
        bool gok = (int)g1.size()==n; for (int i=0;i<n&&gok;++i) gok=ok(g1[i],r.g[i],r.scale);
        if (!gok) vh::fail_here("evaluate_gradient.gradient","gradient "+vh::str(g1)+", exact "+vh::str(r.g));
        if (!simple) continue;
        where="evaluate_simple"; vh::transitions++;
        double f2=P.evaluate_simple(x);
        if (!ok(f2,r.f,r.scale)) vh::fail_here("evaluate_simple","value "+vh::num(f2)+", polynomial is "+vh::num(r.f));
        where="evaluate_gradient_simple"; vh::transitions++;
        auto [f3,g3]=P.evaluate_gradient_simple(x);
        if (!ok(f3,r.f,r.scale)) vh::fail_here("evaluate_gradient_simple.value","value "+vh::num(f3)+", polynomial is "+vh::num(r.f));
        gok=(int)g3.size()==n; for (int i=0;i<n&&gok;++i) gok=ok(g3[i],r.g[i],r.scale);
        if (!gok) vh::fail_here("evaluate_gradient_simple.gradient","gradient "+vh::str(g3)+", exact "+vh::str(r.g));
    }
    for (int B:batch_sizes) {
        where="evaluate_batch("+std::to_string(B)+")"; vh::transitions++;
        std::vector<double> X; for (int b=0;b<B;++b) for (double v:pts[b%pts.size()]) X.push_back(v);
        curx = B<=8 ? X : std::vector<double>{};
        auto [F,G]=P.evaluate_batch(X,B);
        bool good=(int)F.size()==B && (int)G.size()==B*n;
        for (int b=0;b<B&&good;++b) { auto& r=refs[b%pts.size()]; good=ok(F[b],r.f,r.scale);
            for (int i=0;i<n&&good;++i) good=ok(G[b*n+i],r.g[i],r.scale); }
        if (!good) vh::fail_here("evaluate_batch","batched value or gradient differs from the polynomial");
    }
}
static std::vector<std::vector<double>> grid(int n, int d) { // {0..d}^n shifted so that it contains negatives
    std::vector<std::vector<double>> out; std::vector<double> x(n);
    long tot=1; for (int i=0;i<n;++i) tot*=d+1;
    for (long t=0;t<tot;++t) { long s=t; for (int i=0;i<n;++i) { x[i]=(double)(s%(d+1)) - d/2; s/=d+1; } out.push_back(x); }
    return out;
}
static std::vector<double> coeffs(size_t k, int rot=0) { std::vector<double> c; for (size_t i=0;i<k;++i) c.push_back(PR[(i+rot)%24]); return c; }

int main(int argc, char** argv) {
    vh::init(); shard=atoi(argv[1]); nshards=atoi(argv[2]);
    const bool T=vh::thorough();
    // (a) every subset of all monomials up to a degree: full power set for small pools
    auto powerset=[&](int n,int d,int maxsz,const char* tag){
        auto pl=pool(n,d,true); auto g=grid(n,d);
        std::vector<int> idx;
        std::function<void(int)> rec=[&](int start){
            if (mine()) {
                std::vector<Mono> ms; for (int i:idx) ms.push_back(pl[i]);
                auto c=coeffs(ms.size(), idx.empty()?0:idx[0]);
                if (ms.size()>1 && idx[0]%3==1) c[1]=0.0;
                int G=g.size();
                drive(n,c,ms,g,{G},0, true);
                vh::extra[std::string("sets ")+tag]++;
            }
            if ((int)idx.size()==maxsz) return;
            for (int i=start;i<(int)pl.size();++i) { idx.push_back(i); rec(i+1); idx.pop_back(); }
        };
        rec(0);
    };
    powerset(1,T?14:11,99,"1 variable, all subsets");
    powerset(2,T?4:3,99,"2 variables, all subsets");
    powerset(2,6,3,"2 variables degree<=6, <=3 monomials");
    powerset(3,3,T?5:3,"3 variables degree<=3");
    powerset(3,4,T?3:2,"3 variables degree<=4");
    powerset(3,6,T?2:1,"3 variables degree<=6");
    powerset(4,4,T?2:1,"4 variables degree<=4");
    powerset(5,3,T?2:1,"5 variables degree<=3");
    // (b) every order of the listing and every order of the variables within the monomials
    {
        int n=3; auto pl=pool(n,3,false);
        auto g=grid(n,3);
        auto canon=[&](Mono m){ std::sort(m.begin(),m.end()); return m; };
        auto go=[&](std::vector<int> id){
            for (size_t a=0;a<id.size();++a) for (size_t b=0;b<a;++b) if (canon(pl[id[a]])==canon(pl[id[b]])) return;
            if (!mine()) return;
            std::vector<Mono> ms; for (int i:id) ms.push_back(pl[i]);
            drive(n,coeffs(ms.size(),id[0]),ms,g,{},0,true); vh::extra["ordered lists, 3 variables degree<=3"]++;
        };
        int N=pl.size();
        for (int i=0;i<N;++i) { go({i}); for (int j=0;j<N;++j) { go({i,j});
            if (T) for (int k=0;k<N;++k) go({i,j,k}); } }
        // all 120 listing orders of every 5-subset of a chain-forming pool
        std::vector<Mono> ch={{0},{0,1},{1,1,2},{0,1,1,2},{0,0,1},{2,2},{0,1,2},{0,1,2,2,2}};
        auto g2=grid(3,3);
        std::vector<int> sel(8,0); std::fill(sel.begin(),sel.begin()+(T?5:4),1);
        do { std::vector<int> id; for (int i=0;i<8;++i) if (sel[i]) id.push_back(i);
            do { if (!mine()) continue; std::vector<Mono> ms; for (int i:id) ms.push_back(ch[i]);
                 drive(3,coeffs(ms.size()),ms,g2,{2},0,true); vh::extra["listing orders"]++;
            } while (std::next_permutation(id.begin(),id.end()));
        } while (std::prev_permutation(sel.begin(),sel.end()));
    }
    // (c) model-sized polynomials: every single monomial of degree <=4 in 16 variables, full sets, high degrees
    {
        std::vector<std::vector<double>> p16; for (int s=0;s<2;++s) { std::vector<double> x; for (int i=0;i<16;++i) x.push_back((i*7+s*3)%11-5+(i%2)); p16.push_back(x); }
        for (auto& m:pool(16,T?4:3,true)) if (mine()) { drive(16,{3},{m},p16,{1},0); vh::extra["single monomials, 16 variables"]++; }
        for (int n:{4,9,16}) for (int d=1;d<=(n==16?3:4);++d) if (mine()) {
            auto ms=pool(n,d,true); std::vector<double> c; for (size_t i=0;i<ms.size();++i) c.push_back(vh::gen(i+1000*d));
            std::vector<std::vector<double>> pts; for (int s=0;s<4;++s) { std::vector<double> x; for (int i=0;i<n;++i) x.push_back(1.5*vh::gen(i*31+s)); pts.push_back(x); }
            std::vector<int> bs; for (int b=1;b<=9;++b) bs.push_back(b);
            drive(n,c,ms,pts,bs,1e-12); vh::extra["complete sets of monomials"]++; vh::sample("complete set n="+std::to_string(n)+" degree<="+std::to_string(d)+": "+std::to_string(ms.size())+" monomials");
        }
        // sparse pairs over 16 variables with shared / unshared prefixes
        auto p3=pool(16,3,true,3);
        int stride=T?3:17;
        for (size_t i=0;i<p3.size();i+=stride) for (size_t j=i+1;j<p3.size();j+=stride*3) if (mine()) {
            drive(16,{2,-3},{p3[j],p3[i]},{p16[0]},{},0); vh::extra["pairs of cubic monomials, 16 variables"]++; }
        // high degree
        for (int d=5; d<=(T?11:9); ++d) for (auto& m:pool(2,d,true,d)) if (mine()) {
            std::vector<std::vector<double>> pts; for (int a=-2;a<=2;++a) for (int b=-1;b<=2;++b) pts.push_back({(double)a,(double)b});
            drive(2,{5},{m},pts,{7},0); vh::extra["high degree monomials"]++; }
    }
    // (e) many variables: indices around the widths a packed representation would have, alone and in colliding pairs; high degrees in one variable;
    //     magnitudes far from one, scaled by powers of two so that the arithmetic stays exact
    {
        for (int n:T?std::vector<int>{17,25,36,49,64,65,130,257,300}:std::vector<int>{17,36,65,130,300}) { std::vector<int> v; for (int i:{0,1,2,7,8,9,10,15,16,17,31,32,33,35,63,64,65,99,127,128,129,255,256,257,299}) if (i<n) v.push_back(i);
            std::vector<std::vector<double>> pts; for (int s=0;s<2;++s) { std::vector<double> x; for (int i=0;i<n;++i) x.push_back((i*7+s*3)%11-5+(i%2)); pts.push_back(x); }
            for (size_t a=0;a<v.size();++a) { if (mine()) drive(n,{3,7},{{v[a]},{v[a],v[a]}},pts,{1,3},0); for (size_t b=0;b<a;++b) { if ((T||n<=36||(a*a+b)%(n/30)==0)&&mine()) drive(n,{3,-2,5,7},{{v[b],v[a]},{v[b],v[b],v[a]},{v[b],v[a],v[a]},{v[a]}},pts,{2},0,true);
                for (size_t c=0;c<b;++c) if ((T||(n<=36&&(a+b+c)%5==0))&&mine()) drive(n,{2,-3,5},{{v[c],v[b],v[a]},{v[c],v[a]},{v[a],v[c],v[b],v[c]}},pts,{},0,true); } } vh::extra["many variables"]++; }
        for (int n:{40,T?70:41}) if (mine()) { auto al=pool(n,2,true); std::vector<Mono> ms; for (size_t i=0;i<al.size();i+=al.size()/(T?400:150)) ms.push_back(al[i]); std::vector<double> c; for (size_t i=0;i<ms.size();++i) c.push_back((int)(i*37%19)-9); std::vector<std::vector<double>> pts(2); for (int s=0;s<2;++s) for (int i=0;i<n;++i) pts[s].push_back((i*5+s)%7-3); drive(n,c,ms,pts,{2},0,true); vh::extra["many variables"]++; }
        for (int d=10;d<=(T?16:13);++d) for (int k:{0,1,d/2,d-1}) if (mine()) { Mono m(k,0); m.resize(d,1); Mono m2(m.begin()+1,m.end()); drive(2,{3,-2},{m,m2},{{1,-1},{-1,2},{2,1},{0,1},{1,0}},{5},0); vh::extra["high degree monomials"]++; }
        for (int e:{-300,-100,-60,-45,-30,-10,10,40,100,300}) for (int ex:{-40,-20,0,20,30}) if (mine()) { double sc=std::ldexp(1.0,e),sx=std::ldexp(1.0,ex); std::vector<Mono> ms={{0},{0,1},{1,1,2},{0,0,1,2}};
            // every monomial scaled so that all terms have comparable size: coefficient 2^(e-degree*ex)
            std::vector<double> c; for (size_t i=0;i<ms.size();++i) c.push_back(PR[i]*sc*std::ldexp(1.0,-ex*(int)ms[i].size())); auto g=grid(3,3); for (auto& x:g) for (double& y:x) y*=sx; drive(3,c,ms,g,{(int)g.size()},0); vh::extra["scaled polynomials"]++; }
        for (size_t i=0;i<4;++i) for (double z:{0x1p-40,0x1p-30}) if (mine()) { std::vector<Mono> ms={{0},{0,1},{1,1,2},{2}}; auto c=coeffs(4); c[i]*=z; drive(3,c,ms,grid(3,3),{64},0); vh::extra["scaled polynomials"]++; }
    }
    // (d) batch sizes
    {
        std::vector<Mono> ms={{0},{0,1},{1,1,2},{0,1,2,4},{3,3,3}}; auto c=coeffs(5);
        std::vector<std::vector<double>> pts; for (int s=0;s<300;++s) { std::vector<double> x; for (int i=0;i<5;++i) x.push_back((s*(i+2)+i*s*s)%7-3); pts.push_back(x); }
        for (int b=1;b<=(T?300:140);++b) if (mine()) { auto q=pts; q.resize(b); drive(5,c,ms,q,{b},0,false); vh::extra["batch sizes"]++; }
        for (int b:{255,256,257,511,512,513,1000,1024,4096}) if (mine()) { drive(5,c,ms,pts,{b},0,false); vh::extra["batch sizes"]++; }
        for (int n=1;n<=6;++n) if (mine()) drive(n,{},{},grid(n,1),{1,2},0,true); // zero polynomial
    }
    return vh::finish();
}
