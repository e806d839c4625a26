// C02: every sequence of public calls up to a depth on the basic evaluators, each step compared with a fresh object.
// usage: hist <shard> <nshards>
#include "vh.hpp"
#include "multivariate_polynomial.hpp"
#include "multilayer_perceptron.hpp"
#include "cubic_spline.hpp"
#include "cubic_spline_set.hpp"
#include "zbl.hpp"
#include <memory>
static int shard=0, nshards=1; static long counter=0;
static bool mine() { return (counter++ % nshards) == shard; }
using Out = std::vector<double>;
template<class Obj> struct Op { std::string name; std::function<Out(Obj&)> f; };
static Out cat(std::initializer_list<Out> l) { Out o; for (auto& v:l) { o.push_back(v.size()); o.insert(o.end(),v.begin(),v.end()); } return o; }

static bool same(const Out& a, const Out& b) {
    if (a.size()!=b.size()) return false;
    double s=1e-6; for (double v:b) s=std::max(s,std::fabs(v));
    for (size_t i=0;i<a.size();++i) if (!vh::close(a[i],b[i],s,1e-11)) return false;
    return true;
}
// explore all histories of length `depth`; special letters: copy object (continue on the copy, original destroyed or kept)
template<class Obj> void explore(const std::string& kind, std::function<Obj()> make, const std::vector<Op<Obj>>& ops, int depth, bool copies) {
    // fresh-object oracle, evaluated once per letter
    std::vector<Out> expect;
    for (auto& op:ops) { vh::Case cs(kind+":fresh",[&]{return kind+" fresh "+op.name;}); Obj o=make(); expect.push_back(op.f(o)); vh::transitions++;
        Obj o2=make(); Out e2=op.f(o2); vh::transitions++; if (!same(e2,expect.back())) vh::fail_here(kind+":"+op.name+":two-fresh-objects","two fresh objects differ"); }
    const int NL = ops.size() + (copies?2:0); // +copy-continue-on-copy, +copy-then-use-copy-but-continue-on-original
    std::vector<int> w(depth,0);
    for (;;) {
        if (mine()) {
            vh::traces++;
            int step=0;
            auto name=[&](int l)->std::string{ return l<(int)ops.size()?ops[l].name : l==(int)ops.size()?"copy":"clobber-copy"; };
            vh::Case cs(kind,[&]{ std::string s=kind+" history:"; for (int i=0;i<=step&&i<depth;++i) s+=" "+name(w[i]); return s; });
            auto o=std::make_unique<Obj>(make());
            for (step=0;step<depth;++step) {
                vh::states++;
                int l=w[step];
                if (l<(int)ops.size()) {
                    Out r=ops[l].f(*o); vh::transitions++;
                    if (!same(r,expect[l])) vh::fail_here(kind+":"+ops[l].name,"result depends on the calls made before it: got "+vh::str(r)+" expected "+vh::str(expect[l]));
                } else if (l==(int)ops.size()) { auto p=std::make_unique<Obj>(*o); o=std::move(p); vh::transitions++; }
                else { Obj p(*o); for (auto& op:ops) { op.f(p); vh::transitions++; } }
            }
        }
        int i=depth-1; while (i>=0 && ++w[i]==NL) w[i--]=0;
        if (i<0) break;
    }
    vh::extra[kind+" histories depth"]=depth;
}
// two live objects interleaved
template<class Obj> void explore2(const std::string& kind, std::function<Obj()> makeA, std::function<Obj()> makeB, const std::vector<Op<Obj>>& ops, int depth) {
    std::vector<Out> ea,eb; for (auto& op:ops) { Obj a=makeA(); ea.push_back(op.f(a)); Obj b=makeB(); eb.push_back(op.f(b)); vh::transitions+=2; }
    const int NL=2*ops.size(); std::vector<int> w(depth,0);
    for (;;) {
        if (mine()) {
            vh::traces++; int step=0;
            vh::Case cs(kind+":2",[&]{ std::string s=kind+" two objects:"; for (int i=0;i<=step&&i<depth;++i) s+=std::string(w[i]%2?" B.":" A.")+ops[w[i]/2].name; return s; });
            Obj a=makeA(), b=makeB();
            for (step=0;step<depth;++step) { vh::states++; int l=w[step]/2; Out r=ops[l].f(w[step]%2?b:a); vh::transitions++;
                if (!same(r,(w[step]%2?eb:ea)[l])) vh::fail_here(kind+":2:"+ops[l].name,"result disturbed by the other object"); }
        }
        int i=depth-1; while (i>=0 && ++w[i]==NL) w[i--]=0;
        if (i<0) break;
    }
}
int main(int argc,char** argv) {
    vh::init(); shard=atoi(argv[1]); nshards=atoi(argv[2]); const bool T=vh::thorough();
    { // polynomials
        using P=MultivariatePolynomial;
        std::vector<double> X; for (int i=0;i<200;++i) X.push_back((i*i*3+i)%7-3);
        auto xs=[=](int off,int n){ return std::vector<double>(X.begin()+off,X.begin()+off+n); };
        const int n=4;
        std::vector<Op<P>> ops;
        for (int o:{0,5}) {
            ops.push_back({"evaluate@"+std::to_string(o),[=](P& p){ return Out{p.evaluate(xs(o,n))}; }});
            ops.push_back({"evaluate_gradient@"+std::to_string(o),[=](P& p){ auto [f,g]=p.evaluate_gradient(xs(o,n)); return cat({{f},g}); }});
        }
        for (int B:{0,1,2,5}) ops.push_back({"evaluate_batch("+std::to_string(B)+")",[=](P& p){ auto [f,g]=p.evaluate_batch(xs(3,n*B),B); return cat({f,g}); }});
        ops.push_back({"simple",[=](P& p){ auto [f,g]=p.evaluate_gradient_simple(xs(2,n)); return cat({{p.evaluate_simple(xs(9,n))},{f},g}); }});
        std::vector<std::vector<int>> m1={{0},{0,1},{1,1,2},{0,1,2,3}}, m2={{3,3,3},{2},{0,2,2,1,1}};
        explore<P>("polynomial",[=]{return P(n,{2,-3,5,7},m1);},ops,T?5:4,true);
        explore<P>("polynomial-b",[=]{return P(n,{2,-3,5},m2);},ops,T?4:3,true);
        // inputs that agree in size, first entries, sum or magnitude, or differ very little: whatever a result might be remembered by
        auto var=[](std::vector<double> x,int v){ size_t k=x.size(); if (!k) return x; if (v==1) x[k-1]+=0.5; else if (v==2) std::reverse(x.begin(),x.end()); else if (v==3) x[0]+=1e-6; else if (v==4) { for (double& c:x) c=-c; } else if (v==5) { x[0]+=0.25; x[k-1]-=0.25; } return x; };
        std::vector<Op<P>> near; for (int v=0;v<6;++v) { std::string s="/"+std::to_string(v); near.push_back({"evaluate"+s,[=](P& p){ return Out{p.evaluate(var(xs(0,n),v))}; }}); near.push_back({"evaluate_gradient"+s,[=](P& p){ auto [f,g]=p.evaluate_gradient(var(xs(0,n),v)); return cat({{f},g}); }}); near.push_back({"evaluate_batch(3)"+s,[=](P& p){ auto [f,g]=p.evaluate_batch(var(xs(0,3*n),v),3); return cat({f,g}); }}); near.push_back({"simple"+s,[=](P& p){ auto [f,g]=p.evaluate_gradient_simple(var(xs(0,n),v)); return cat({{p.evaluate_simple(var(xs(0,n),v))},{f},g}); }}); }
        explore<P>("polynomial-near",[=]{return P(n,{2,-3,5,7},m1);},near,T?3:2,true);
        explore2<P>("polynomial",[=]{return P(n,{2,-3,5,7},m1);},[=]{return P(n,{2,-3,5},m2);},ops,T?4:3);
    }
    { // perceptrons
        using M=MultilayerPerceptron;
        auto mk=[](std::vector<int> shape,double scale){ std::vector<std::vector<double>> W; int q=1; for (size_t l=0;l+1<shape.size();++l) { std::vector<double> w; for (int i=0;i<shape[l]*shape[l+1];++i) w.push_back(vh::gen(q++)); W.push_back(w);} return M(shape,W,scale); };
        std::vector<double> X; for (int i=0;i<400;++i) X.push_back(2*vh::gen(i+77));
        auto xs=[=](int off,int n){ return std::vector<double>(X.begin()+off,X.begin()+off+n); };
        const int n=3;
        std::vector<Op<M>> ops;
        for (int o:{0,5}) {
            ops.push_back({"evaluate@"+std::to_string(o),[=](M& p){ return p.evaluate(xs(o,n)); }});
            ops.push_back({"evaluate_gradient@"+std::to_string(o),[=](M& p){ auto [f,g]=p.evaluate_gradient(xs(o,n)); return cat({f,g}); }});
        }
        for (int B:{0,1,2,5}) {
            ops.push_back({"evaluate_batch("+std::to_string(B)+")",[=](M& p){ return p.evaluate_batch(xs(3,n*B),B); }});
            ops.push_back({"evaluate_gradient_batch("+std::to_string(B)+")",[=](M& p){ auto [f,g]=p.evaluate_gradient_batch(xs(3,n*B),B); return cat({f,g}); }});
        }
        explore<M>("perceptron",[=]{return mk({3,2,4,2},1.7);},ops,T?4:3,true);
        explore<M>("perceptron-2layer",[=]{return mk({3,2,1},1.7);},ops,T?4:3,true);
        explore<M>("perceptron-1layer",[=]{return mk({3,2},1.7);},ops,3,true);
        auto var=[](std::vector<double> x,int v){ size_t k=x.size(); if (!k) return x; if (v==1) x[k-1]+=0.5; else if (v==2) std::reverse(x.begin(),x.end()); else if (v==3) x[0]+=1e-6; else if (v==4) { for (double& c:x) c=-c; } else if (v==5) { x[0]+=0.25; x[k-1]-=0.25; } return x; };
        std::vector<Op<M>> near; for (int v=0;v<6;++v) { std::string s="/"+std::to_string(v); near.push_back({"evaluate"+s,[=](M& p){ return p.evaluate(var(xs(0,n),v)); }}); near.push_back({"evaluate_gradient"+s,[=](M& p){ auto [f,g]=p.evaluate_gradient(var(xs(0,n),v)); return cat({f,g}); }}); near.push_back({"evaluate_batch(3)"+s,[=](M& p){ return p.evaluate_batch(var(xs(0,3*n),v),3); }}); near.push_back({"evaluate_gradient_batch(3)"+s,[=](M& p){ auto [f,g]=p.evaluate_gradient_batch(var(xs(0,3*n),v),3); return cat({f,g}); }}); }
        explore<M>("perceptron-near",[=]{return mk({3,2,4,2},1.7);},near,T?3:2,true);
        explore2<M>("perceptron",[=]{return mk({3,2,4,2},1.7);},[=]{return mk({3,1,2},0.3);},ops,T?3:2);
    }
    { // splines
        using S=CubicSpline; std::vector<Op<S>> ops;
        for (double r:{0.0,0.7,0.5,1.3,1.49}) {
            ops.push_back({"evaluate@"+vh::num(r),[=](S& s){ return Out{s.evaluate(r)}; }});
            ops.push_back({"deriv@"+vh::num(r),[=](S& s){ auto [f,d]=s.evaluate_deriv(r); return Out{f,d}; }});
            if (r>0) ops.push_back({"deriv_divided@"+vh::num(r),[=](S& s){ auto [f,d]=s.evaluate_deriv_divided(r); return Out{f,d}; }});
        }
        ops.push_back({"rejected",[=](S& s){ int n=0; for (double r:{5.0,-3.0}) { try { s.evaluate(r); } catch (std::exception&) {n++;} try { s.evaluate_deriv(r); } catch (std::exception&) {n++;} try { s.evaluate_deriv_divided(r); } catch (std::exception&) {n++;} } return Out{(double)n}; }});
        explore<S>("spline",[=]{return S(0.5,{1,-2,3,0.5},{0.3,1,-1,2});},ops,3,true);
        using Q=CubicSplineSet; std::vector<Op<Q>> q;
        for (double r:{0.0,0.7,0.5,1.3,1.49}) {
            q.push_back({"evaluate@"+vh::num(r),[=](Q& s){ Out v(3,9e9); s.evaluate(r,v); return v; }});
            q.push_back({"derivs@"+vh::num(r),[=](Q& s){ Out v(3,9e9),d(3,-9e9); s.evaluate_derivs(r,v,d); return cat({v,d}); }});
            q.push_back({"zeroed-derivs@"+vh::num(r),[=](Q& s){ Out v(3,0.0),d(3,0.0); s.evaluate_derivs(r,v,d); return cat({v,d}); }});
        }
        explore<Q>("spline set",[=]{return Q(0.5,{{1,-2,3,0.5},{0,1,0,2},{4,4,-4,1}},{{0.3,1,-1,2},{1,1,1,-1},{0,0,2,0}});},q,3,true);
    }
    { // ZBL
        using Z=ZBL; std::vector<Op<Z>> ops;
        for (auto [u,v]:{std::pair{1,1},std::pair{1,3},std::pair{3,2}}) for (double r:{0.1,0.4,2.9}) {
            ops.push_back({"compute"+std::to_string(u)+std::to_string(v)+"@"+vh::num(r),[=](Z& z){ return Out{z.compute(u,v,r)}; }});
            ops.push_back({"gradient"+std::to_string(u)+std::to_string(v)+"@"+vh::num(r),[=](Z& z){ return Out{z.compute_gradient(u,v,r)}; }});
        }
        ops.push_back({"env",[=](Z& z){ return Out{z.compute_envelope(0.3,1.0,5),z.compute_envelope_gradient(0.3,1.0,4)}; }});
        for (int base:{0,2}) ops.push_back({"list"+std::to_string(base),[=](Z& z){ std::vector<int> nt={0,1},nn={2,1},jt={1,0,1},an={1,3}; Out r={0.4,0.5,0.6},xyz={0.4,0,0,0,0.5,0,0,0,-0.6},e(2,base),f(9,base); z.compute_ZBL(2,nt,nn,jt,an,r,xyz,e,f); return cat({e,f}); }});
        explore<Z>("zbl",[=]{return Z(0.3,0.4543,{0.1818,0.5099,0.2802,0.02817},{0.2,0.31,0.28,1.28},6);},ops,2+T,true);
    }
    return vh::finish();
}
