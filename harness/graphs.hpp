// Enumeration of neighbour graphs, type assignments and displacement patterns shared by the MACE harnesses.
#pragma once
#include "vh.hpp"
#include "maceref.hpp"
static int shard=0,nshards=1; static long counter=0; static bool mine(){ return (counter++%nshards)==shard; }
static std::string gs(const Graph& g){ return "n="+std::to_string(g.n)+" types="+vh::str(g.ty)+" num_neigh="+vh::str(g.nn)+" neigh="+vh::str(g.idx)+" xyz="+vh::str(g.xyz); }
static std::vector<std::array<double,3>> vecs;   // displacement alphabet: axes, negative half-axes, knots, near the cutoff, generic
static void make_vecs(double rc,double h){
    auto dir=[&](double x,double y,double z,double r){ double s=std::sqrt(x*x+y*y+z*z); vecs.push_back({x/s*r,y/s*r,z/s*r}); };
    dir(1,0.3,-0.2,0.37*rc); dir(0,0,1,0.5*rc); dir(-1,0,0,0.3*rc); dir(0.2,-0.7,0.4,0.71*rc); dir(0,-1,0,3*h); dir(0,0,-1,0.15*rc); dir(-0.6,-0.5,0.9,0.9*rc); dir(1,1,0,2*h);
    dir(0.1,0.9,0.3,rc*(1-1e-9)); dir(1,-1,1,0.22*rc); dir(0.5,0.1,-0.8,0.62*rc); dir(-1,1e-7,0,0.44*rc); dir(-0.3,0.8,-0.5,0.08*rc); dir(1,0,0,5*h-1e-13); dir(0.7,0.7,0.7,rc-1e-12); }
// patterns 0..3: different vectors on consecutive edges; 4..8: coincidences (equal vectors, equal lengths in different directions, repeats)
static void setv(Graph& g,int pat){ g.xyz.clear(); static const double ax[6][3]={{1,0,0},{0,1,0},{0,0,-1},{-1,0,0},{0,-1,0},{0,0,1}};
    for (size_t e=0;e<g.idx.size();++e) { std::array<double,3> v=vecs[(e*7+pat*4)%vecs.size()];
        if (pat==4) v=vecs[0]; else if (pat==5) { v=vecs[3]; if (e%2) for (double& c:v) c=-c; } else if (pat==6) { double d=vecs[1][2]; v={ax[e%6][0]*d,ax[e%6][1]*d,ax[e%6][2]*d}; } else if (pat==7) v=vecs[((e/2)*7+3)%vecs.size()]; else if (pat==8) { double d=e%2?vecs[1][2]:0.3*vecs[1][2]; v={ax[e%6][0]*d,ax[e%6][1]*d,ax[e%6][2]*d}; }
        g.xyz.insert(g.xyz.end(),v.begin(),v.end()); } }
// all graphs: n nodes, each with 0..K neighbours (ordered), every neighbour any node including itself
template<class F> void graphs(int n,int K,int na,F f){
    std::vector<std::vector<int>> opts={{}}; size_t b=0; for (int k=0;k<K;++k) { size_t e=opts.size(); for (size_t i=b;i<e;++i) for (int j=0;j<n;++j) { auto o=opts[i]; o.push_back(j); opts.push_back(o); } b=e; }
    std::vector<size_t> c(n,0); for (;;) { std::vector<int> t(n,0); for (;;) {
            if (mine()) { Graph g; g.n=n; g.ty=t; for (int i=0;i<n;++i) { g.nn.push_back(opts[c[i]].size()); g.idx.insert(g.idx.end(),opts[c[i]].begin(),opts[c[i]].end()); } f(g); }
            int i=n-1; while (i>=0&&++t[i]==na) t[i--]=0; if (i<0) break; }
        int i=n-1; while (i>=0&&++c[i]==opts.size()) c[i--]=0; if (i<0) break; } }
// numbers of nodes and of neighbours beyond the usual block sizes
template<class F> void large(int na,F f){ for (int kind=0;kind<4;++kind) { if (!mine()) continue; Graph g; g.n=kind==0?70:kind==1?2:kind==2?34:19; for (int i=0;i<g.n;++i) { g.ty.push_back((i*5+i/3)%na); std::vector<int> o; if (kind==0) o={(i+1)%g.n,(i*7+3)%g.n}; else if (kind==1) { for (int k=0;k<(i?1:131);++k) o.push_back((k+i+1)%2); } else if (kind==2) { if (i==33) o={0,5,31}; else if (i==7) o={33}; } else for (int k=0;k<i;++k) o.push_back((k*i)%g.n); g.nn.push_back(o.size()); g.idx.insert(g.idx.end(),o.begin(),o.end()); } f(g); } }
template<class F> void larger(int na,F f){   // rings, complete graphs, stars with many neighbours, atoms without neighbours in every position
    for (int n=4;n<=7;++n) for (int kind=0;kind<4+n;++kind) for (int ts=0;ts<3;++ts) { if (!mine()) continue; Graph g; g.n=n; for (int i=0;i<n;++i) g.ty.push_back((i*(ts+1)+ts)%na);
        for (int i=0;i<n;++i) { std::vector<int> o; if (kind==0) o={(i+1)%n,(i+n-1)%n}; else if (kind==1) { for (int j=0;j<n;++j) if (j!=i) o.push_back(j); } else if (kind==2) { if (i==0) for (int k=0;k<40;++k) o.push_back(k%n); else o={0}; } else if (kind==3) { if (i==n-1) for (int k=0;k<23;++k) o.push_back((k*3)%n); }
            else { int iso=kind-4; if (i!=iso) for (int j=0;j<n;++j) if (j!=i&&j!=iso) o.push_back(j); } g.nn.push_back(o.size()); g.idx.insert(g.idx.end(),o.begin(),o.end()); } f(g); } }
