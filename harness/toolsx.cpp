// C07: the combinatorial helpers over every input up to a bound.  usage: toolsx
#include "vh.hpp"
#include "tools.hpp"
#include <algorithm>
#include <set>
typedef std::vector<int> V; typedef std::vector<V> VV; typedef std::vector<VV> VVV;
static void parts(const V& v,bool two) {
    vh::Case cs(two?"two_part":"partitions",[&]{ return std::string(two?"_two_part_partitions":"_partitions")+vh::str(v); });
    VVV P=two?_two_part_partitions(v):_partitions(v); vh::transitions++; vh::states++; vh::traces++;
    std::string k=two?"two_part":"partitions";
    int n=v.size(); // expected number: Bell numbers / 2^(n-1)-1, listed by reference enumeration (restricted growth strings)
    std::map<VV,int> want; // canonical partition -> multiplicity
    auto canon=[](VV p){ std::sort(p.begin(),p.end()); return p; };
    if (n>0) { V rg(n,0); for (;;) { int m=*std::max_element(rg.begin(),rg.end())+1; if (!two||m==2) { VV p(m); for (int i=0;i<n;++i) p[rg[i]].push_back(v[i]); want[canon(p)]++; }
        int i=n-1; for (;i>0;--i) { int mx=*std::max_element(rg.begin(),rg.begin()+i); if (rg[i]<=mx) { rg[i]++; std::fill(rg.begin()+i+1,rg.end(),0); break; } } if (i<=0) break; } }
    std::map<VV,int> got; int prev=0;
    for (auto& p:P) { for (auto& q:p) if (q.empty()) vh::fail_here(k+":empty-part","a part is empty");
        if ((int)p.size()<prev) vh::fail_here(k+":order","not ordered by number of parts"); prev=p.size(); got[canon(p)]++; vh::states++; }
    if (got!=want) vh::fail_here(k+":set","returned "+std::to_string(P.size())+" partitions, expected "+std::to_string([&]{int s=0;for(auto&x:want)s+=x.second;return s;}())+" or contents differ");
}
int main() {
    vh::init(); bool T=vh::thorough();
    // lists: distinct values in increasing, decreasing and mixed order, and every list over {5,2,-1} (repeats) 
    int NP=T?10:8;
    for (int n=0;n<=NP;++n) for (int o=0;o<4;++o) { V v(n); for (int i=0;i<n;++i) v[i]=o==0?i:o==1?n-i:o==2?(i*7+3)%(n+1)*5-9:i-3; parts(v,false); parts(v,true); }
    for (int n=0;n<=(T?6:5);++n) { int tot=1; for (int i=0;i<n;++i) tot*=3; for (int c=0;c<tot;++c) { V v(n); int q=c; const int al[3]={5,2,-1}; for (int i=0;i<n;++i) { v[i]=al[q%3]; q/=3; } parts(v,false); parts(v,true);
        vh::Case cs("comb",[&]{ return "_combinations/_sum "+vh::str(v); }); vh::transitions+=2; vh::states++; vh::traces++;
        VV w; for (int i=0;i<n;++i) for (int j=i+1;j<n;++j) w.push_back({v[i],v[j]}); if (_combinations(v,2)!=w) vh::fail_here("combinations","wrong 2-combinations"); 
        int s=0; for (int x:v) s+=x; if (_sum(v)!=s) vh::fail_here("sum","wrong sum"); } }
    for (int n=0;n<=16;++n) { V v(n); for (int i=0;i<n;++i) v[i]=n-i*3; vh::Case cs("comb",[&]{ return "_combinations "+vh::str(v); }); vh::transitions+=2; vh::states++; vh::traces++;
        VV w; for (int i=0;i<n;++i) for (int j=i+1;j<n;++j) w.push_back({v[i],v[j]}); if (_combinations(v,2)!=w) vh::fail_here("combinations","wrong 2-combinations"); int s=0; for (int x:v) s+=x; if (_sum(v)!=s) vh::fail_here("sum","wrong sum");
        if (n<=8) for (int k:{-1,0,1,3,4,17}) { bool thrown=false; try { auto r=_combinations(v,k);  // unsupported k: refused, or the right answer
                VV want; if (k>=0&&k<=n) { std::vector<bool> m(n,false); std::fill(m.begin(),m.begin()+k,true); do { V c; for (int i=0;i<n;++i) if (m[i]) c.push_back(v[i]); want.push_back(c); } while (std::prev_permutation(m.begin(),m.end())); }
                if (r!=want) vh::fail_here("combinations:k","k="+std::to_string(k)+" answered wrongly"); } catch (const std::exception&) { thrown=true; } (void)thrown; vh::transitions++; } }
    const char* nb=getenv("VERIF_BINOM"); int NB=nb?atoi(nb):(T?33:30);
    for (int n=-3;n<=120;++n) for (int k=-4;k<=n+4 || k<=4;++k) { if (n>NB && k>3 && k<n-3) continue; vh::Case cs("binomial",[&]{ return "_binomial_coefficient("+std::to_string(n)+","+std::to_string(k)+")"; }); vh::transitions++; vh::states++; vh::traces++;
        if (n<0) { if ((k<0||k>n) && _binomial_coefficient(n,k)!=0) vh::fail_here("binomial","outside the triangle must be 0"); continue; }
        double w=0; if (k>=0&&k<=n) { w=1; for (int i=1;i<=k;++i) w=w*(n-k+i)/i; } if (_binomial_coefficient(n,k)!=(int)std::lround(w)) vh::fail_here("binomial","got "+std::to_string(_binomial_coefficient(n,k))+" expected "+vh::num(w)); }
    for (int n=0;n<=(T?9:8);++n) { vh::Case cs("permutations",[&]{ return "_permutations("+std::to_string(n)+")"; }); vh::transitions++; vh::states++; vh::traces++;
        auto P=_permutations(n); VV w; V v(n); for (int i=0;i<n;++i) v[i]=i; std::function<void(V,std::vector<bool>)> rec=[&](V c,std::vector<bool> u){ if ((int)c.size()==n) { w.push_back(c); return; } for (int i=0;i<n;++i) if (!u[i]) { auto d=c; d.push_back(i); auto u2=u; u2[i]=true; rec(d,u2); } }; rec({},std::vector<bool>(n,false));
        vh::states+=w.size(); if (P!=w) vh::fail_here("permutations","not all permutations in lexicographic order"); }
    // Cartesian products: every tuple of list lengths 0..3 for up to 4 lists (contents distinct per list), repeated values too
    for (int m=0;m<=(T?5:4);++m) { int tot=1; for (int i=0;i<m;++i) tot*=4; for (int c=0;c<tot;++c) for (int o=0;o<2;++o) { VV in(m); int q=c; for (int i=0;i<m;++i) { in[i].resize(q%4); for (int j=0;j<(int)in[i].size();++j) in[i][j]=o?j/2:10*i-3*j; q/=4; }
        vh::Case cs("product",[&]{ return "_product "+vh::str2(in); }); vh::transitions++; vh::states++; vh::traces++;
        VV w; std::function<void(V)> rec=[&](V p){ if ((int)p.size()==m) { w.push_back(p); return; } for (int x:in[p.size()]) { auto d=p; d.push_back(x); rec(d); } }; rec({}); if (_product(in)!=w) vh::fail_here("product","wrong product"); } }
    for (int n=0;n<=4;++n) for (int rep=0;rep<=4;++rep) { V v(n); for (int i=0;i<n;++i) v[i]=7-3*i; vh::Case cs("product_repeat",[&]{ return "_product_repeat "+vh::str(v)+" x"+std::to_string(rep); }); vh::transitions+=2; vh::states++; vh::traces++;
        VV w,g; std::function<void(V)> rec=[&](V p){ if ((int)p.size()==rep) { w.push_back(p); return; } for (int x:v) { auto d=p; d.push_back(x); rec(d); } }; rec({}); if (_product_repeat(v,rep)!=w) vh::fail_here("product_repeat","wrong product");
        V id(n); for (int i=0;i<n;++i) id[i]=i; v=id; w.clear(); rec({}); if (_generate_indices(rep,n)!=w) vh::fail_here("generate_indices","dim="+std::to_string(rep)+" max="+std::to_string(n)+" wrong"); }
    // longer lists, more repetitions
    for (auto [n,rep]:std::vector<std::pair<int,int>>{{2,8},{3,6},{5,5},{12,3},{40,2},{300,1},{1,12},{0,6}}) { V v(n); for (int i=0;i<n;++i) v[i]=7-3*i; vh::Case cs("product_repeat",[&]{ return "_product_repeat of "+std::to_string(n)+" x"+std::to_string(rep); }); vh::transitions+=2; vh::states++; vh::traces++;
        VV w; std::function<void(V)> rec=[&](V p){ if ((int)p.size()==rep) { w.push_back(p); return; } for (int x:v) { auto d=p; d.push_back(x); rec(d); } }; rec({}); if (_product_repeat(v,rep)!=w) vh::fail_here("product_repeat","wrong product"); V id(n); for (int i=0;i<n;++i) id[i]=i; v=id; w.clear(); rec({}); if (_generate_indices(rep,n)!=w) vh::fail_here("generate_indices","dim="+std::to_string(rep)+" max="+std::to_string(n)+" wrong"); }
    for (int m=5;m<=9;++m) { VV in(m); for (int i=0;i<m;++i) for (int j=0;j<1+(i*m)%3;++j) in[i].push_back(100*i-j*j); vh::Case cs("product",[&]{ return "_product "+vh::str2(in); }); vh::transitions++; vh::states++; vh::traces++; VV w; std::function<void(V)> rec=[&](V p){ if ((int)p.size()==m) { w.push_back(p); return; } for (int x:in[p.size()]) { auto d=p; d.push_back(x); rec(d); } }; rec({}); if (_product(in)!=w) vh::fail_here("product","wrong product"); }
    return vh::finish();
}
