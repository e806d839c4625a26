// Plain reference of the two-layer MACE expression defined by a model file, templated on the scalar so that the same
// text gives energies (double) and exact directional derivatives (Dual).  Reads the file itself; shares no code with /repo.
#pragma once
#include <array>
#include <cmath>
#include <fstream>
#include <map>
#include <string>
#include <vector>
#include "nlohmann/json.hpp"
struct Dual { double v,d; Dual(double v=0,double d=0):v(v),d(d){} };
inline Dual operator+(Dual a,Dual b){return {a.v+b.v,a.d+b.d};} inline Dual operator-(Dual a,Dual b){return {a.v-b.v,a.d-b.d};}
inline Dual operator*(Dual a,Dual b){return {a.v*b.v,a.v*b.d+a.d*b.v};} inline Dual operator/(Dual a,Dual b){return {a.v/b.v,(a.d*b.v-a.v*b.d)/(b.v*b.v)};}
inline Dual operator-(Dual a){return {-a.v,-a.d};}
inline Dual& operator+=(Dual& a,Dual b){a=a+b;return a;} inline Dual& operator*=(Dual& a,Dual b){a=a*b;return a;} inline Dual& operator/=(Dual& a,Dual b){a=a/b;return a;}
inline Dual sqrt(Dual a){double s=std::sqrt(a.v);return {s,a.d/(2*s)};} inline Dual exp(Dual a){double e=std::exp(a.v);return {e,e*a.d};}
inline double val(double x){return x;} inline double val(Dual x){return x.v;}
inline Dual powi(Dual a,int n){ Dual r(1); for(int i=0;i<n;++i) r*=a; return r; } inline double powi(double a,int n){ double r=1; for(int i=0;i<n;++i) r*=a; return r; }

struct RefModel {
    int na,ch,l_max,L_max,nlm,nLM; double r_cut; std::vector<int> Z; std::vector<double> E0; bool zbl,a0,a1;
    double z_ae,z_ap; std::vector<double> z_c,z_cov; int z_p;
    double h,h0,h1; std::vector<std::vector<std::vector<double>>> f0,g0,f1,g1; std::vector<std::vector<double>> a0f,a0g,a1f,a1g;
    std::vector<double> H0,H1w,W2m,R1w,R2a,R2b; std::vector<std::vector<std::vector<double>>> A0w; std::vector<std::vector<double>> A1w,W2h; double act;
    std::vector<std::vector<std::vector<int>>> m0; std::vector<std::vector<int>> m1; std::vector<std::vector<std::vector<std::vector<double>>>> w0; std::vector<std::vector<std::vector<double>>> w1;
    std::vector<int> pl,pl1,pl2,lme,lel; std::vector<double> cg;
    explicit RefModel(const std::string& file) {
        std::ifstream in(file); nlohmann::json j=nlohmann::json::parse(in);
        na=j["num_elements"]; ch=j["num_channels"]; l_max=j["l_max"]; L_max=j["L_max"]; r_cut=j["r_cut"]; nlm=(l_max+1)*(l_max+1); nLM=(L_max+1)*(L_max+1);
        Z=j["atomic_numbers"].get<std::vector<int>>(); E0=j["atomic_energies"].get<std::vector<double>>(); zbl=j["has_zbl"]; a0=j["A0_scaled"]; a1=j["A1_scaled"];
        if (zbl) { z_ae=j["zbl_a_exp"]; z_ap=j["zbl_a_prefactor"]; z_c=j["zbl_c"].get<std::vector<double>>(); z_cov=j["zbl_covalent_radii"].get<std::vector<double>>(); z_p=j["zbl_p"]; }
        typedef std::vector<std::vector<std::vector<double>>> V3; typedef std::vector<std::vector<double>> V2; typedef std::vector<double> V1;
        h=j["radial_spline_h"]; f0=j["radial_spline_values_0"].get<V3>(); g0=j["radial_spline_derivs_0"].get<V3>(); f1=j["radial_spline_values_1"].get<V3>(); g1=j["radial_spline_derivs_1"].get<V3>();
        if (a0) { h0=j["A0_spline_h"]; a0f=j["A0_spline_values"].get<V2>(); a0g=j["A0_spline_derivs"].get<V2>(); }
        if (a1) { h1=j["A1_spline_h"]; a1f=j["A1_spline_values"].get<V2>(); a1g=j["A1_spline_derivs"].get<V2>(); }
        H0=j["H0_weights"].get<V1>(); A0w=j["A0_weights"].get<V3>(); H1w=j["H1_weights"].get<V1>(); A1w=j["A1_weights"].get<V2>(); W2h=j["H2_weights_for_H1"].get<V2>(); W2m=j["H2_weights_for_M1"].get<V1>();
        R1w=j["readout_1_weights"].get<V1>(); R2a=j["readout_2_weights_1"].get<V1>(); R2b=j["readout_2_weights_2"].get<V1>(); act=j["readout_2_scale_factor"];
        for (int lm=0;lm<nLM;++lm) m0.push_back(j["M0_monomials"][std::to_string(lm)].get<std::vector<std::vector<int>>>()); m1=j["M1_monomials"].get<std::vector<std::vector<int>>>();
        w0.resize(na); w1.resize(na);
        for (int a=0;a<na;++a) { auto& J=j["M0_weights"][std::to_string(a)]; for (int lm=0;lm<nLM;++lm) { V2 q; for (int k=0;k<ch;++k) q.push_back(J[std::to_string(lm)][std::to_string(k)].get<V1>()); w0[a].push_back(q); }
            for (int k=0;k<ch;++k) w1[a].push_back(j["M1_weights"][std::to_string(a)][std::to_string(k)].get<V1>()); }
        pl=j["Phi1_l"].get<std::vector<int>>(); pl1=j["Phi1_l1"].get<std::vector<int>>(); pl2=j["Phi1_l2"].get<std::vector<int>>(); lme=j["Phi1_lme"].get<std::vector<int>>(); lel=j["Phi1_lelm1lm2"].get<std::vector<int>>(); cg=j["Phi1_clebsch_gordan"].get<V1>();
    }
    int pairIndex(int a,int b) const { int n=0; for (int i=0;i<na;++i) for (int j=i;j<na;++j,++n) if ((i==a&&j==b)||(i==b&&j==a)) return n; return -1; }
    template<class T> T spline(double h,const std::vector<double>& f,const std::vector<double>& g,T r) const {
        int n=f.size(), i=(int)std::floor(val(r)/h); if (i>n-2) i=n-2; if (i<0) i=0; T t=(r-T(h*i))/T(h);
        return T(f[i])*(T(2)*t*t*t-T(3)*t*t+T(1))+T(h*g[i])*(t*t*t-T(2)*t*t+t)+T(f[i+1])*(T(3)*t*t-T(2)*t*t*t)+T(h*g[i+1])*(t*t*t-t*t); }
    // Y(xyz) = 2 sqrt(pi) * real orthonormal harmonics (no CS phase) of (z,x,y)
    template<class T> void harmonics(const T* p,T r,std::vector<T>& Y) const {
        T x=p[2]/r,y=p[0]/r,z=p[1]/r; std::vector<T> c(l_max+1),s(l_max+1); c[0]=T(1); s[0]=T(0);
        for (int m=1;m<=l_max;++m) { c[m]=x*c[m-1]-y*s[m-1]; s[m]=x*s[m-1]+y*c[m-1]; }
        Y.assign(nlm,T(0));
        for (int m=0;m<=l_max;++m) { T pmm(1); for (int k=1;k<=m;++k) pmm=pmm*T(2*k-1); T p1=pmm,p2(0);
            for (int l=m;l<=l_max;++l) { T P; if (l==m) P=pmm; else { P=(T(2*l-1)*z*p1-T(l+m-1)*p2)/T(l-m); p2=p1; p1=P; }
                double f=2*l+1; for (int k=l-m+1;k<=l+m;++k) f/=k; double nrm=std::sqrt(f*(m?2:1)); // 2 sqrt(pi) included
                Y[l*l+l+m]=T(nrm)*P*c[m]; if (m) Y[l*l+l-m]=T(nrm)*P*s[m]; } } }
    template<class T> T poly(const std::vector<std::vector<int>>& mono,const std::vector<double>& w,const std::vector<T>& x) const {
        T s(0); for (size_t i=0;i<mono.size();++i) { T p(w[i]); for (int v:mono[i]) p=p*x[v]; s+=p; } return s; }
    template<class T> T zblpair(int u,int v,T r) const { double rm=z_cov[u]+z_cov[v]; if (val(r)>=rm) return T(0); static const double ce[4]={-3.2,-0.9423,-0.4028,-0.2016};
        double a=z_ap*0.529/(std::pow(u,z_ae)+std::pow(v,z_ae)); T phi(0); for (int k=0;k<4;++k) phi+=T(z_c[k])*exp(T(ce[k]/a)*r); T x=r/T(rm); double p=z_p;
        T env=T(1)-T((p+1)*(p+2)/2)*powi(x,z_p)+T(p*(p+2))*powi(x,z_p+1)-T(p*(p+1)/2)*powi(x,z_p+2); return T(0.5*14.3996*u*v)/r*phi*env; }
    // per-node energies of a neighbour graph; xyz: 3 per edge
    template<class T> std::vector<T> energies(int n,const std::vector<int>& ty,const std::vector<int>& nn,const std::vector<int>& idx,const std::vector<T>& xyz) const {
        int E=idx.size(); std::vector<T> r(E); std::vector<std::vector<T>> Y(E);
        for (int e=0;e<E;++e) { r[e]=sqrt(xyz[3*e]*xyz[3*e]+xyz[3*e+1]*xyz[3*e+1]+xyz[3*e+2]*xyz[3*e+2]); harmonics(&xyz[3*e],r[e],Y[e]); }
        std::vector<T> en(n,T(0)); std::vector<std::vector<T>> H1(n);
        int e=0;
        for (int i=0;i<n;++i) { int ti=ty[i]; std::vector<T> Phi(nlm*ch,T(0)); T sc(1); en[i]+=T(E0[ti]);
            for (int q=0;q<nn[i];++q,++e) { int tj=ty[idx[e]], pi=pairIndex(ti,tj);
                if (zbl) en[i]+=zblpair(Z[ti],Z[tj],r[e]);
                if (a0) sc+=spline(h0,a0f[pi],a0g[pi],r[e]);
                for (int l=0;l<=l_max;++l) for (int k=0;k<ch;++k) { T R=spline(h,f0[pi][l*ch+k],g0[pi][l*ch+k],r[e])*T(H0[tj*ch+k]); for (int m=0;m<2*l+1;++m) Phi[(l*l+m)*ch+k]+=R*Y[e][l*l+m]; } }
            std::vector<T> A(nlm*ch,T(0)); for (int l=0;l<=l_max;++l) for (int m=0;m<2*l+1;++m) for (int k=0;k<ch;++k) { T s(0); for (int kp=0;kp<ch;++kp) s+=Phi[(l*l+m)*ch+kp]*T(A0w[ti][l][kp*ch+k]); A[(l*l+m)*ch+k]=s/sc; }
            std::vector<T> M(nLM*ch); std::vector<T> x(nlm); for (int k=0;k<ch;++k) { for (int lm=0;lm<nlm;++lm) x[lm]=A[lm*ch+k]; for (int lm=0;lm<nLM;++lm) M[lm*ch+k]=poly(m0[lm],w0[ti][lm][k],x); }
            H1[i].assign(nLM*ch,T(0)); for (int l=0;l<=L_max;++l) for (int m=0;m<2*l+1;++m) for (int k=0;k<ch;++k) { T s(0); for (int kp=0;kp<ch;++kp) s+=M[(l*l+m)*ch+kp]*T(H1w[(l*ch+kp)*ch+k]); H1[i][(l*l+m)*ch+k]=s; }
            for (int k=0;k<ch;++k) en[i]+=T(R1w[k])*H1[i][k]; }
        std::vector<int> ne(l_max+1,0); for (int l:pl) ne[l]++; int nlel=0,nlme=0; for (size_t p=0;p<pl.size();++p) { nlel+=(2*pl1[p]+1)*(2*pl2[p]+1); nlme+=2*pl[p]+1; }
        e=0;
        for (int i=0;i<n;++i) { int ti=ty[i]; std::vector<T> Pr(nlel*ch,T(0)),Ph(nlme*ch,T(0)); T sc(1);
            for (int q=0;q<nn[i];++q,++e) { int j=idx[e],tj=ty[j],pi=pairIndex(ti,tj); if (a1) sc+=spline(h1,a1f[pi],a1g[pi],r[e]); int o=0;
                for (size_t p=0;p<pl.size();++p) { int l1=pl1[p],l2=pl2[p]; std::vector<T> R(ch); for (int k=0;k<ch;++k) R[k]=spline(h,f1[pi][p*ch+k],g1[pi][p*ch+k],r[e]);
                    for (int a=0;a<2*l1+1;++a) for (int b=0;b<2*l2+1;++b,++o) for (int k=0;k<ch;++k) Pr[o*ch+k]+=R[k]*Y[e][l1*l1+a]*H1[j][(l2*l2+b)*ch+k]; } }
            for (size_t p=0;p<cg.size();++p) for (int k=0;k<ch;++k) Ph[lme[p]*ch+k]+=T(cg[p])*Pr[lel[p]*ch+k];
            std::vector<T> A(nlm*ch,T(0)); int off=0;
            for (int l=0;l<=l_max;++l) { for (int m=0;m<2*l+1;++m) for (int k=0;k<ch;++k) { T s(0); for (int ek=0;ek<ne[l]*ch;++ek) s+=Ph[(off+m*ne[l])*ch+ek]*T(A1w[l][ek*ch+k]); A[(l*l+m)*ch+k]=s/sc; } off+=(2*l+1)*ne[l]; }
            std::vector<T> M(ch),x(nlm); for (int k=0;k<ch;++k) { for (int lm=0;lm<nlm;++lm) x[lm]=A[lm*ch+k]; M[k]=poly(m1,w1[ti][k],x); }
            std::vector<T> H2(ch,T(0)); for (int k=0;k<ch;++k) for (int kp=0;kp<ch;++kp) H2[k]+=T(W2h[ti][kp*ch+k])*H1[i][kp]+T(W2m[kp*ch+k])*M[kp];
            for (int u=0;u<16;++u) { T a(0); for (int k=0;k<ch;++k) a+=T(R2a[u*ch+k])*H2[k]; if (val(a)<-500) continue; en[i]+=T(R2b[u]*act)*a/(T(1)+exp(-a)); } }
        return en; }
};
struct Graph { int n=0; std::vector<int> ty,nn,idx; std::vector<double> xyz;
    std::vector<int> nty() const { std::vector<int> t; for (int i:idx) t.push_back(ty[i]); return t; }
    std::vector<double> r() const { std::vector<double> q; for (size_t e=0;e<idx.size();++e) q.push_back(std::sqrt(xyz[3*e]*xyz[3*e]+xyz[3*e+1]*xyz[3*e+1]+xyz[3*e+2]*xyz[3*e+2])); return q; } };
// brute-force neighbour graph of positions in an optional periodic box
inline Graph neighbours(const std::vector<std::array<double,3>>& x,const std::vector<int>& ty,double rc,const std::array<std::array<double,3>,3>* cell=nullptr,std::array<int,3> rep={0,0,0}) {
    Graph g; g.n=x.size(); g.ty=ty;
    for (int i=0;i<g.n;++i) { int c=0; for (int j=0;j<g.n;++j) for (int a=-rep[0];a<=rep[0];++a) for (int b=-rep[1];b<=rep[1];++b) for (int d=-rep[2];d<=rep[2];++d) { if (i==j&&!a&&!b&&!d) continue;
            double v[3],s=0; for (int k=0;k<3;++k) { v[k]=x[j][k]-x[i][k]; if (cell) v[k]+=a*(*cell)[0][k]+b*(*cell)[1][k]+d*(*cell)[2][k]; s+=v[k]*v[k]; }
            if (s>=rc*rc) continue; g.idx.push_back(j); for (double q:v) g.xyz.push_back(q); ++c; } g.nn.push_back(c); }
    return g; }
