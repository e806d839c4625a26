// C03: every network shape up to a bound, every input vector over an alphabet, every batch size up to a bound.
// usage: mlp <shard> <nshards>
#include "vh.hpp"
#include "multilayer_perceptron.hpp"
static int shard=0, nshards=1; static long counter=0;
static bool mine() { return (counter++ % nshards) == shard; }
typedef long double LD;
struct Ref { std::vector<double> y, J, ys, Js; };   // values and magnitude scales
static Ref reference(const std::vector<int>& shape, const std::vector<std::vector<double>>& W, double s, const double* x) {
    int L=shape.size(), n0=shape[0];
    std::vector<LD> a(x,x+n0), as(n0); for (int i=0;i<n0;++i) as[i]=fabsl(a[i]);
    std::vector<LD> J(n0*n0,0), Js(n0*n0,0); for (int i=0;i<n0;++i) J[i*n0+i]=Js[i*n0+i]=1;
    for (int l=0;l+1<L;++l) {
        int m=shape[l+1], n=shape[l];
        std::vector<LD> b(m,0), bs(m,0), K(m*n0,0), Ks(m*n0,0);
        for (int i=0;i<m;++i) for (int j=0;j<n;++j) {
            LD w=W[l][i*n+j]; b[i]+=w*a[j]; bs[i]+=fabsl(w)*as[j];
            for (int k=0;k<n0;++k) { K[i*n0+k]+=w*J[j*n0+k]; Ks[i*n0+k]+=fabsl(w)*Js[j*n0+k]; } }
        if (l+2<L) for (int i=0;i<m;++i) {
            LD sg=1/(1+expl(-b[i])), d=s*(sg+b[i]*sg*(1-sg)), mag=fabsl((LD)s)*(1+bs[i]);
            for (int k=0;k<n0;++k) { K[i*n0+k]*=d; Ks[i*n0+k]*=mag; }
            b[i]=s*b[i]*sg; bs[i]=fabsl((LD)s)*bs[i]*(1+bs[i]); }
        a=b; as=bs; J=K; Js=Ks;
    }
    Ref r; for (auto v:a) r.y.push_back(v); for (auto v:as) r.ys.push_back(v); for (auto v:J) r.J.push_back(v); for (auto v:Js) r.Js.push_back(v);
    return r;
}
static bool cmp(const std::vector<double>& got, size_t off, const std::vector<double>& want, const std::vector<double>& sc) {
    for (size_t i=0;i<want.size();++i) if (!vh::close(got[off+i],want[i],sc[i],1e-11)) return false;
    return true;
}
static void run_shape(const std::vector<int>& shape, const std::vector<double>& alphabet, int wpat, double scale, int max_inputs, const std::vector<int>& batches) {
    if (!mine()) return;
    std::vector<std::vector<double>> W;
    for (size_t l=0;l+1<shape.size();++l) { std::vector<double> w(shape[l]*shape[l+1]);
        for (size_t i=0;i<w.size();++i) {
            double g=vh::gen(1000*l+i+77*wpat);
            if (wpat==0) w[i]=g; else if (wpat==1) w[i]=2.5*g; else if (wpat==2) w[i]=(i%3==1)?0.0:(i%2?1.0:-1.0); else w[i]=(int)(i/shape[l])==(int)(i%shape[l])?1.0:0.0; }
        W.push_back(w); }
    int n0=shape[0], no=shape.back();
    double xv[512]; std::string what;
    vh::Case cs("mlp",[&]{ return "shape="+vh::str(shape)+" weights#"+std::to_string(wpat)+" scale="+vh::num(scale)+" "+what+" x="+vh::str(std::vector<double>(xv,xv+n0)); });
    MultilayerPerceptron P(shape,W,scale), G(shape,W,scale), B(shape,W,scale), GB(shape,W,scale);
    // all input vectors over the alphabet (or, for wide inputs, single-coordinate variations)
    std::vector<std::vector<double>> X;
    double total=1; for (int i=0;i<n0;++i) total*=alphabet.size();
    if (total<=max_inputs) { std::vector<int> d(n0,0); for (;;) { std::vector<double> x(n0); for (int i=0;i<n0;++i) x[i]=alphabet[d[i]]; X.push_back(x); int i=n0-1; while (i>=0 && ++d[i]==(int)alphabet.size()) d[i--]=0; if (i<0) break; } }
    else for (int i=0;i<n0;++i) for (double a:alphabet) { std::vector<double> x(n0); for (int j=0;j<n0;++j) x[j]=vh::gen(j+3); x[i]=a; X.push_back(x); if ((int)X.size()>=max_inputs) break; }
    std::vector<Ref> R;
    for (auto& x:X) {
        std::copy(x.begin(),x.end(),xv); vh::states++; vh::traces++;
        Ref r=reference(shape,W,scale,x.data()); R.push_back(r);
        what="evaluate"; auto y=P.evaluate(x); vh::transitions++;
        if ((int)y.size()!=no) { vh::fail_here("evaluate:size","output has "+std::to_string(y.size())+" entries"); continue; }
        if (!cmp(y,0,r.y,r.ys)) vh::fail_here("evaluate","got "+vh::str(y)+" expected "+vh::str(r.y));
        what="evaluate_gradient"; auto [yg,J]=G.evaluate_gradient(x); vh::transitions++;
        if ((int)yg.size()!=no || (int)J.size()!=no*n0) { vh::fail_here("gradient:size","sizes "+std::to_string(yg.size())+","+std::to_string(J.size())); continue; }
        if (!cmp(yg,0,r.y,r.ys)) vh::fail_here("gradient:value","got "+vh::str(yg)+" expected "+vh::str(r.y));
        if (!cmp(J,0,r.J,r.Js)) vh::fail_here("gradient:jacobian","got "+vh::str(J)+" expected "+vh::str(r.J));
    }
    for (int nb:batches) {
        std::vector<double> in; std::vector<int> idx;
        // different samples in every slot: walk X with a stride coprime to its size
        size_t st=1; for (size_t cand:{7,5,3,11,13,1}) if (std::__gcd(cand,X.size())==1) { st=cand; break; }
        for (int b=0;b<nb;++b) { int k=(b*st+nb)%X.size(); idx.push_back(k); in.insert(in.end(),X[k].begin(),X[k].end()); }
        what="batch "+std::to_string(nb); vh::states++; vh::traces++;
        auto y=B.evaluate_batch(in,nb); vh::transitions++;
        auto [yg,J]=GB.evaluate_gradient_batch(in,nb); vh::transitions++;
        if ((int)y.size()!=nb*no || (int)yg.size()!=nb*no || (int)J.size()!=nb*no*n0) { vh::fail_here("batch:size","wrong sizes"); continue; }
        for (int b=0;b<nb;++b) { auto& r=R[idx[b]]; std::copy(X[idx[b]].begin(),X[idx[b]].end(),xv);
            if (!cmp(y,b*no,r.y,r.ys)) vh::fail_here("batch:value","sample "+std::to_string(b)+" of evaluate_batch");
            if (!cmp(yg,b*no,r.y,r.ys)) vh::fail_here("gradient_batch:value","sample "+std::to_string(b));
            if (!cmp(J,b*no*n0,r.J,r.Js)) vh::fail_here("gradient_batch:jacobian","sample "+std::to_string(b)+" got "+vh::str(J)+" expected "+vh::str(r.J)); }
    }
    vh::extra["shape/weight/scale configurations"]++;
}
int main(int argc,char** argv) {
    vh::init(); shard=atoi(argv[1]); nshards=atoi(argv[2]); bool T=vh::thorough();
    std::vector<int> b9; for (int i=0;i<=(T?17:9);++i) b9.push_back(i);
    std::vector<int> ball; for (int i=0;i<=(T?140:70);++i) ball.push_back(i);
    int Lmax=T?6:5, wmax=3;
    for (int L=2;L<=Lmax;++L) {
        std::vector<int> s(L,1);
        for (;;) {
            for (int wp=0;wp<4;++wp) for (double sc:(L<=3?std::vector<double>{1.0,1.6790,0.5,-2.0,0.0}:std::vector<double>{1.0,1.6790})) {
                if (L>=5 && wp>=2 && !T) continue;
                run_shape(s,L<=3?std::vector<double>{0.7,-1.3,0,40,-700}:std::vector<double>{0.7,-1.3,0},wp,sc,L<=3?125:27,b9); }
            int i=L-1; while (i>=0 && ++s[i]>wmax) s[i--]=1; if (i<0) break;
        }
    }
    // wider layers: three-layer nets over a width alphabet around vector/block sizes, and two-layer nets
    std::vector<int> wide=T?std::vector<int>{1,2,4,5,7,8,9,15,16,17,31,32,33,63,64,65}:std::vector<int>{1,4,5,8,9,16,17,33,64};
    for (int a:wide) for (int b:wide) { run_shape({a,b},{0.7,-1.3},0,1.5,8,{0,1,2,3,4,5,8,17});
        for (int c:wide) run_shape({a,b,c},{0.7,-1.3},0,1.5,4,{1,2,3,5,8}); }
    for (auto s:std::vector<std::vector<int>>{{1,128,1},{3,200,2},{129,2},{2,257},{257,3,1},{2,100,130,1}}) run_shape(s,{0.7,-1.3},0,1.5,6,{0,1,2,5,9});
    // every batch size for a few shapes
    for (auto s:std::vector<std::vector<int>>{{1,1},{1,1,1},{2,3},{2,3,1},{3,2,2},{2,2,3,2},{1,16,1},{8,16,4}}) run_shape(s,{0.7,-1.3,0},1,1.6790,27,ball);
    return vh::finish();
}
