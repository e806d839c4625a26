// Stand-in for the external sphericart library (absent in this sandbox), restricted to the interface symmetrix uses.
// Documented behaviour of sphericart >= 1.0: SphericalHarmonics = real orthonormal spherical harmonics of the direction,
// ordered l*l+l+m with m=-l..l, no Condon-Shortley phase; the std::vector interface resizes its outputs, the array
// interface requires them to be large enough; gradients are with respect to the unnormalised xyz, laid out [sample][xyz][lm].
#pragma once
#include <array>
#include <cmath>
#include <cstddef>
#include <stdexcept>
#include <type_traits>
#include <vector>
namespace sphericart {
template<class T> class SphericalHarmonics {
    size_t l_max_; std::vector<double> norm_; mutable double work_[3]={0,0,0};   // like the real one, an instance owns a work buffer that computing writes
    struct D { double v, g[3]; };
    static D mul(const D& a,const D& b) { D c; c.v=a.v*b.v; for (int i=0;i<3;++i) c.g[i]=a.v*b.g[i]+a.g[i]*b.v; return c; }
    static D lin(double s,const D& a,double t,const D& b) { D c; c.v=s*a.v+t*b.v; for (int i=0;i<3;++i) c.g[i]=s*a.g[i]+t*b.g[i]; return c; }
    void one(const T* p,T* sph,T* dsph) const {
        const int L=l_max_, N=(L+1)*(L+1);
        double x=p[0],y=p[1],z=p[2],r=std::sqrt(x*x+y*y+z*z); double u[3]={x/r,y/r,z/r}; for (int i=0;i<3;++i) work_[i]=u[i];
        D X{u[0],{1,0,0}},Y{u[1],{0,1,0}},Z{u[2],{0,0,1}},one{1,{0,0,0}};
        std::vector<D> c(L+1),s(L+1); c[0]=one; s[0]=D{0,{0,0,0}};
        for (int m=1;m<=L;++m) { c[m]=lin(1,mul(X,c[m-1]),-1,mul(Y,s[m-1])); s[m]=lin(1,mul(Y,c[m-1]),1,mul(X,s[m-1])); }
        std::vector<D> Q((L+1)*(L+1));
        for (int m=0;m<=L;++m) {
            double f=1; for (int k=1;k<=m;++k) f*=2*k-1;
            Q[m*(L+1)+m]=D{f,{0,0,0}};
            if (m<L) { D t=mul(Z,Q[m*(L+1)+m]); Q[(m+1)*(L+1)+m]=lin(2*m+1,t,0,t); }
            for (int l=m+2;l<=L;++l) Q[l*(L+1)+m]=lin((2*l-1.0)/(l-m),mul(Z,Q[(l-1)*(L+1)+m]),-(l+m-1.0)/(l-m),Q[(l-2)*(L+1)+m]);
        }
        for (int l=0;l<=L;++l) for (int m=-l;m<=l;++m) {
            int a=m<0?-m:m; D v=mul(Q[l*(L+1)+a],m<0?s[a]:c[a]); double n=norm_[l*(L+1)+a];
            sph[l*l+l+m]=static_cast<T>(n*v.v);
            if (dsph) { double rad=v.g[0]*u[0]+v.g[1]*u[1]+v.g[2]*u[2]; for (int i=0;i<3;++i) dsph[i*N+l*l+l+m]=static_cast<T>(n*(v.g[i]-rad*u[i])/r); }
        }
    }
public:
    explicit SphericalHarmonics(size_t l_max) : l_max_(l_max), norm_((l_max+1)*(l_max+1)) {
        const double pi=3.14159265358979323846;
        for (int l=0;l<=(int)l_max;++l) for (int m=0;m<=l;++m) { double f=(2*l+1)/(4*pi); for (int k=l-m+1;k<=l+m;++k) f/=k; norm_[l*(l_max+1)+m]=std::sqrt(f*(m?2:1)); }
    }
    void compute(const std::vector<T>& xyz,std::vector<T>& sph) { size_t n=xyz.size()/3,N=(l_max_+1)*(l_max_+1); sph.resize(n*N); compute_array(xyz.data(),xyz.size(),sph.data(),sph.size()); }
    void compute_with_gradients(const std::vector<T>& xyz,std::vector<T>& sph,std::vector<T>& dsph) { size_t n=xyz.size()/3,N=(l_max_+1)*(l_max_+1); sph.resize(n*N); dsph.resize(3*n*N);
        compute_array_with_gradients(xyz.data(),xyz.size(),sph.data(),sph.size(),dsph.data(),dsph.size()); }
    void compute_array(const T* xyz,size_t len,T* sph,size_t ns) { chk(len,ns); size_t N=(l_max_+1)*(l_max_+1); for (size_t i=0;i<len/3;++i) one(xyz+3*i,sph+i*N,nullptr); }
    void compute_array_with_gradients(const T* xyz,size_t len,T* sph,size_t ns,T* dsph,size_t nd) { chk(len,ns); size_t N=(l_max_+1)*(l_max_+1);
        if (!dsph||nd<len*N) throw std::runtime_error("SphericalHarmonics: dsph array too small");
        for (size_t i=0;i<len/3;++i) one(xyz+3*i,sph+i*N,dsph+i*3*N); }
    void compute_sample(const T* xyz,size_t len,T* sph,size_t ns) { compute_array(xyz,len,sph,ns); }
    void compute_sample_with_gradients(const T* xyz,size_t len,T* sph,size_t ns,T* dsph,size_t nd) { compute_array_with_gradients(xyz,len,sph,ns,dsph,nd); }
private:
    void chk(size_t len,size_t ns) const { if (len%3) throw std::runtime_error("SphericalHarmonics: xyz length not divisible by 3"); if (ns<len/3*(l_max_+1)*(l_max_+1)) throw std::runtime_error("SphericalHarmonics: sph array too small"); }
};
}
