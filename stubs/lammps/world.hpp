// The simulated machine: ranks, spatial decomposition, ghost exchange, neighbour lists, communication, force collection.
#pragma once
#ifdef MINI_KOKKOS
#include "mini_lammps_kokkos.h"
#else
#include "mini_lammps.h"
#endif
#include <algorithm>
#include <semaphore>
#include <thread>
namespace LAMMPS_NS {
struct Violation : std::runtime_error { std::string key; Violation(std::string k,std::string t) : std::runtime_error(t), key(std::move(k)) {} };
struct Abandon {};
struct Sys { std::array<double,3> box{10,10,10}, lo{0,0,0}; std::array<int,3> per{1,1,1}; std::vector<std::array<double,3>> x; std::vector<int> type; };
struct Opt { std::array<int,3> grid{1,1,1}; double skin=0.4, cutuser=0; int order=0, norder=0, bits=0, map=1, newton=1, sched=0, ntypes=2, classic=0, tags=0; };
struct Rank { LAMMPS lmp; Error error; std::unique_ptr<Atom> atom; std::unique_ptr<Update> update; std::unique_ptr<Modify> modify; std::unique_ptr<Domain> domain; std::unique_ptr<Force> force; std::unique_ptr<Neighbor> neighbor; std::unique_ptr<Comm> comm; std::unique_ptr<Pair> pair; std::unique_ptr<NeighList> list;
#ifdef MINI_KOKKOS
    MemoryKokkos memory; std::unique_ptr<KokkosLMP> kokkos; std::vector<DAT::tdual_int_1d> ksend;
#else
    Memory memory;
#endif
    struct Swap { int sendproc,recvproc,pbcf,pbc[3]; double lo,hi; std::vector<int> send; int nrecv=0,first=0; }; std::vector<Swap> swaps; int maxneed[3],sendneed[3][2]; int maxforward=3,maxreverse=3; std::vector<double> preset;
    std::vector<int> ilist,numneigh; std::vector<int*> first; ~Rank() { pair.reset(); for (int* p:first) delete[] p;
#ifndef MINI_KOKKOS
        if (atom) { memory.destroy(atom->x); memory.destroy(atom->f); memory.destroy(atom->tag); memory.destroy(atom->type); }
#endif
    } };
struct Out { double e=0; std::vector<std::array<double,3>> f; std::array<double,6> v{}; std::vector<double> ea; bool has_ea=false; std::string error; };
struct World {
    Opt o; Sys s; int n; std::vector<std::unique_ptr<Rank>> R; std::function<Pair*(LAMMPS*)> make; std::string pending; long forwards=0,reverses=0,builds=0;
    World(const Sys& sys,const Opt& opt,std::function<Pair*(LAMMPS*)> mk_) : o(opt), s(sys), n(opt.grid[0]*opt.grid[1]*opt.grid[2]), make(std::move(mk_)) {
        for (int r=0;r<n;++r) { R.push_back(std::make_unique<Rank>()); Rank& k=*R.back(); k.lmp.mini=this; k.lmp.memory=&k.memory; k.lmp.error=&k.error; k.error.lmp=&k.lmp;
#ifdef MINI_KOKKOS
            k.lmp.memoryKK=&k.memory; k.atom=std::make_unique<AtomKokkos>(&k.lmp); k.kokkos=std::make_unique<KokkosLMP>(&k.lmp); k.lmp.kokkos=k.kokkos.get(); k.neighbor=std::make_unique<NeighborKokkos>(&k.lmp);
#else
            k.atom=std::make_unique<Atom>(&k.lmp); k.neighbor=std::make_unique<Neighbor>(&k.lmp);
#endif
            k.lmp.atom=k.atom.get(); auto set=[&](auto& u,auto*& p){ u=std::make_unique<std::remove_reference_t<decltype(*u)>>(&k.lmp); p=u.get(); };
            k.lmp.neighbor=k.neighbor.get(); set(k.update,k.lmp.update); set(k.modify,k.lmp.modify); set(k.domain,k.lmp.domain); set(k.force,k.lmp.force); set(k.comm,k.lmp.comm);
            k.atom->ntypes=o.ntypes; k.atom->map_user=o.map; k.atom->map_style= o.map==Atom::MAP_YES?Atom::MAP_ARRAY:o.map; k.force->newton=k.force->newton_pair=o.newton; k.neighbor->skin=o.skin; k.comm->cutghostuser=o.cutuser; k.comm->me=r; k.comm->nprocs=n;
            int l[3]={r%o.grid[0],r/o.grid[0]%o.grid[1],r/o.grid[0]/o.grid[1]}; for (int d=0;d<3;++d) { k.comm->procgrid[d]=o.grid[d]; k.comm->myloc[d]=l[d]; int a[3]={l[0],l[1],l[2]}; a[d]=(l[d]+o.grid[d]-1)%o.grid[d]; k.comm->procneigh[d][0]=id(a); a[d]=(l[d]+1)%o.grid[d]; k.comm->procneigh[d][1]=id(a); }
            setbox(k); k.pair.reset(make(&k.lmp)); k.force->pair=k.pair.get(); } }
    int tag_(size_t i) const { return o.tags?4+3*(int)i:(int)i+1; } int of(int t) const { return o.tags?(t-4)/3:t-1; }   // atom ids need not be consecutive
    int id(const int* a) const { return a[0]+o.grid[0]*(a[1]+o.grid[1]*a[2]); }
    void setbox(Rank& k) { auto& D=*k.domain; for (int d=0;d<3;++d) { D.prd[d]=s.box[d]; D.prd_half[d]=s.box[d]/2; D.boxlo[d]=s.lo[d]; D.boxhi[d]=s.lo[d]+s.box[d]; D.periodicity[d]=s.per[d]; int g=o.grid[d],l=k.comm->myloc[d]; D.sublo[d]=s.lo[d]+s.box[d]*l/g; D.subhi[d]= l==g-1? D.boxhi[d] : s.lo[d]+s.box[d]*(l+1)/g; } D.xprd=D.prd[0]; D.yprd=D.prd[1]; D.zprd=D.prd[2]; D.xperiodic=s.per[0]; D.yperiodic=s.per[1]; D.zperiodic=s.per[2]; D.nonperiodic=!(s.per[0]&&s.per[1]&&s.per[2]); }
    // ---- input commands (executed by every rank; heap copies with exact bounds) --------------------------------------
    static void with_args(const std::vector<std::string>& a,const std::function<void(int,char**)>& f) { char** v=new char*[a.size()]; for (size_t i=0;i<a.size();++i) { v[i]=new char[a[i].size()+1]; strcpy(v[i],a[i].c_str()); } struct G { char** v; size_t n; ~G() { for (size_t i=0;i<n;++i) delete[] v[i]; delete[] v; } } g{v,a.size()}; f((int)a.size(),v); }
    void settings(const std::vector<std::string>& a) { for (auto& k:R) with_args(a,[&](int c,char** v){ k->pair->settings(c,v); }); }
    void coeff(const std::vector<std::string>& a) { if (a.size()<2) throw LAMMPSException("ERROR: Illegal pair_coeff command"); for (auto& k:R) { if (k->pair->one_coeff&&(a[0]!="*"||a[1]!="*")) throw LAMMPSException("ERROR: Pair_coeff must start with * * for this pair style"); with_args(a,[&](int c,char** v){ k->pair->coeff(c,v); }); } }
    void init() { for (auto& q:R) { Rank& k=*q; k.neighbor->requests.clear(); k.pair->init(); k.neighbor->cutneighmax=k.pair->cutforce+(k.pair->cutforce>0?k.neighbor->skin:0); k.maxforward=std::max(3,k.pair->comm_forward); k.maxreverse=std::max(3,k.pair->comm_reverse); } commsetup(); }
    void commsetup() { for (auto& q:R) { Rank& k=*q; k.swaps.clear(); double cut=k.comm->get_comm_cutoff(); int gy=0; for (auto& r:k.neighbor->requests) gy|=r->flags; (void)gy;
            for (int d=0;d<3;++d) { k.comm->cutghost[d]=cut; int g=o.grid[d],l=k.comm->myloc[d]; int mn=(int)(cut*g/s.box[d])+1; if (!s.per[d]) mn=std::min(mn,g-1); k.maxneed[d]=mn; int left=(l+g-1)%g,right=(l+1)%g; if (!s.per[d]) { k.sendneed[d][0]=std::min(mn,g-left-1); k.sendneed[d][1]=std::min(mn,right); } else k.sendneed[d][0]=k.sendneed[d][1]=mn;
                for (int q=0;q<2*mn;++q) { Rank::Swap w{}; double mid=0.5*(k.domain->sublo[d]+k.domain->subhi[d]); if (q%2==0) { w.sendproc=k.comm->procneigh[d][0]; w.recvproc=k.comm->procneigh[d][1]; w.lo= q<2?-1e20:mid; w.hi=k.domain->sublo[d]+cut; if (l==0) { w.pbcf=1; w.pbc[d]=1; } } else { w.sendproc=k.comm->procneigh[d][1]; w.recvproc=k.comm->procneigh[d][0]; w.lo=k.domain->subhi[d]-cut; w.hi= q<2?1e20:mid; if (l==g-1) { w.pbcf=1; w.pbc[d]=-1; } } k.swaps.push_back(w); } } } }
    void alloc(Rank& k,int nall) { if (nall<=k.atom->nmax) return; k.atom->nmax=nall;
#ifdef MINI_KOKKOS
        ((AtomKokkos*)k.atom.get())->grow(nall);
#else
        k.memory.grow(k.atom->x,nall,3,"x"); k.memory.grow(k.atom->f,nall,3,"f"); k.memory.grow(k.atom->tag,nall,"tag"); k.memory.grow(k.atom->type,nall,"type");
#endif
    }
    // ---- migration, ghosts, neighbour lists -------------------------------------------------------------------------
    void reneighbor() { ++builds; for (auto& k:R) { k->neighbor->ago=0; k->neighbor->lastcall=++k->update->ntimestep; } struct P { int tag,type; std::array<double,3> x; }; std::vector<std::vector<P>> loc(n);
        for (size_t i=0;i<s.x.size();++i) { P p{tag_(i),s.type[i],s.x[i]}; int a[3]; for (int d=0;d<3;++d) { if (s.per[d]) { while (p.x[d]<s.lo[d]) p.x[d]+=s.box[d]; while (p.x[d]>=s.lo[d]+s.box[d]) p.x[d]-=s.box[d]; if (p.x[d]<s.lo[d]) p.x[d]=s.lo[d]; } s.x[i][d]=p.x[d]; int g=o.grid[d]; a[d]=0; while (a[d]<g-1&&p.x[d]>=s.lo[d]+s.box[d]*(a[d]+1)/g) ++a[d]; } loc[id(a)].push_back(p); }
        for (auto& l:loc) { if (o.order==1) std::reverse(l.begin(),l.end()); else if (o.order==2&&l.size()>1) std::rotate(l.begin(),l.begin()+1,l.end()); else if (o.order==3) std::stable_sort(l.begin(),l.end(),[](const P& a,const P& b){ return a.x[0]<b.x[0]; }); }
        std::vector<std::vector<P>> all=loc; for (int r=0;r<n;++r) { R[r]->atom->nlocal=(int)loc[r].size(); R[r]->atom->nghost=0; R[r]->atom->natoms=s.x.size(); }
        size_t ns=R[0]->swaps.size(); std::vector<int> nlast(n,0),nfirst(n,0); size_t sw=0;
        for (int d=0;d<3;++d) { std::fill(nlast.begin(),nlast.end(),0); for (int q=0;q<2*R[0]->maxneed[d];++q,++sw) { if (sw>=ns) throw Violation("machine","swap count"); std::vector<std::vector<P>> msg(n);
                for (int r=0;r<n;++r) { Rank& k=*R[r]; auto& w=k.swaps[sw]; if (q%2==0) { nfirst[r]=nlast[r]; nlast[r]=(int)all[r].size(); } w.send.clear(); if (q/2<k.sendneed[d][q%2]) for (int i=nfirst[r];i<nlast[r];++i) if (all[r][i].x[d]>=w.lo&&all[r][i].x[d]<=w.hi) w.send.push_back(i); for (int i:w.send) { P p=all[r][i]; if (w.pbcf) for (int c=0;c<3;++c) p.x[c]+=w.pbc[c]*s.box[c]; msg[r].push_back(p); } }
                for (int r=0;r<n;++r) { auto& w=R[r]->swaps[sw]; auto& m=msg[w.recvproc]; w.nrecv=(int)m.size(); w.first=(int)all[r].size(); all[r].insert(all[r].end(),m.begin(),m.end()); R[r]->atom->nghost+=(int)m.size(); } } }
        for (int r=0;r<n;++r) { Rank& k=*R[r]; alloc(k,std::max(1,(int)all[r].size())); hostside(k); for (size_t i=0;i<all[r].size();++i) { k.atom->tag[i]=all[r][i].tag; k.atom->type[i]=all[r][i].type; for (int c=0;c<3;++c) k.atom->x[i][c]=all[r][i].x[c]; } touched(k,true); if (k.atom->map_style!=Atom::MAP_NONE) k.atom->map_set();
#ifdef MINI_KOKKOS
            k.ksend.clear(); for (auto& w:k.swaps) { k.ksend.emplace_back("comm:sendlist",w.send.size()); for (size_t i=0;i<w.send.size();++i) k.ksend.back().h_view.data()[i]=w.send[i]; k.ksend.back().modify_host(); }
#endif
            build(k); } }
    // another structure (or box) for the same machine, pair style objects kept
    void change(const Sys& sys) { s=sys; for (auto& k:R) setbox(*k); commsetup(); }
    void hostside(Rank& k) {
#ifdef MINI_KOKKOS
        ((AtomKokkos*)k.atom.get())->sync(Host,ALL_MASK);
#endif
    }
    void touched(Rank& k,bool all) {
#ifdef MINI_KOKKOS
        ((AtomKokkos*)k.atom.get())->modified(Host,all?(X_MASK|TAG_MASK|TYPE_MASK):X_MASK);
#endif
    }
    void build(Rank& k) { if (k.neighbor->requests.size()!=1) throw Violation("requests","the pair style made "+std::to_string(k.neighbor->requests.size())+" neighbour list requests"); auto& q=*k.neighbor->requests[0]; int nl=k.atom->nlocal,na=nl+k.atom->nghost; bool gh=q.flags&NeighConst::REQ_GHOST, full=q.flags&NeighConst::REQ_FULL; int ni=gh?na:nl; double cut=k.neighbor->cutneighmax; std::vector<std::vector<int>> nb(ni);
        for (int i=0;i<ni;++i) { for (int j=0;j<na;++j) if (i!=j&&(full||j>i)) { double t=0; for (int c=0;c<3;++c) t+=(k.atom->x[j][c]-k.atom->x[i][c])*(k.atom->x[j][c]-k.atom->x[i][c]); if (t<=cut*cut) nb[i].push_back(o.bits? j|(((i+2*j)%4)<<SBBITS) : j); } if (o.norder==1) std::reverse(nb[i].begin(),nb[i].end()); else if (o.norder==2&&nb[i].size()>1) std::rotate(nb[i].begin(),nb[i].begin()+nb[i].size()/2,nb[i].end()); }
#ifdef MINI_KOKKOS
        if (q.kokkos_device) { kklist<LMPDeviceType>(k,nb,nl,gh?na-nl:0); return; } if (q.kokkos_host) { kklist<LMPHostType>(k,nb,nl,gh?na-nl:0); return; }
        if (k.pair->kokkosable) throw Violation("list-kind","a Kokkos pair style asked for a neighbour list that is not a Kokkos list");
#endif
        auto L=std::make_unique<NeighList>(&k.lmp); for (int* p:k.first) delete[] p; k.first.clear(); k.ilist.clear(); k.numneigh.clear(); for (int i=0;i<ni;++i) { k.ilist.push_back(i); k.numneigh.push_back((int)nb[i].size()); int* p=new int[nb[i].size()]; std::copy(nb[i].begin(),nb[i].end(),p); k.first.push_back(p); }
        L->inum=nl; L->gnum=gh?na-nl:0; L->ghost=gh; L->ilist=k.ilist.data(); L->numneigh=k.numneigh.data(); L->firstneigh=k.first.data(); L->request=&q; k.pair->init_list(q.id,L.get()); k.list=std::move(L); }
#ifdef MINI_KOKKOS
    template<class D> void kklist(Rank& k,const std::vector<std::vector<int>>& nb,int nl,int ng) { auto L=std::make_unique<NeighListKokkos<D>>(&k.lmp); int ni=(int)nb.size(),mx=0; for (auto& v:nb) mx=std::max(mx,(int)v.size()); L->inum=nl; L->gnum=ng; L->maxneighs=mx; L->d_neighbors=Kokkos::View<int**,D>("neighlist:neighbors",ni,mx); L->d_ilist=Kokkos::View<int*,D>("neighlist:ilist",ni); L->d_numneigh=Kokkos::View<int*,D>("neighlist:numneigh",ni);
        auto a=Kokkos::create_mirror_view(L->d_neighbors); auto b=Kokkos::create_mirror_view(L->d_ilist); auto c=Kokkos::create_mirror_view(L->d_numneigh); for (int i=0;i<ni;++i) { b(i)=i; c(i)=(int)nb[i].size(); for (int j=0;j<mx;++j) a(i,j)= j<c(i)?nb[i][j]:0x7ffffff; } Kokkos::deep_copy(L->d_neighbors,a); Kokkos::deep_copy(L->d_ilist,b); Kokkos::deep_copy(L->d_numneigh,c); k.pair->init_list(0,L.get()); k.list=std::move(L); }
#endif
    // atoms move without migration: owners update, ghosts follow by forward communication of positions
    void move(const std::vector<std::array<double,3>>& d) { for (auto& k:R) { ++k->neighbor->ago; ++k->update->ntimestep; } for (size_t i=0;i<s.x.size();++i) for (int c=0;c<3;++c) s.x[i][c]+=d[i][c]; for (auto& k:R) { hostside(*k); for (int i=0;i<k->atom->nlocal;++i) for (int c=0;c<3;++c) k->atom->x[i][c]+=d[of(k->atom->tag[i])][c]; }
        for (size_t w=0;w<R[0]->swaps.size();++w) { std::vector<std::vector<double>> m(n); for (int r=0;r<n;++r) { auto& S=R[r]->swaps[w]; for (int i:S.send) for (int c=0;c<3;++c) m[r].push_back(R[r]->atom->x[i][c]+(S.pbcf?S.pbc[c]*s.box[c]:0)); } for (int r=0;r<n;++r) { auto& S=R[r]->swaps[w]; for (int i=0;i<S.nrecv;++i) for (int c=0;c<3;++c) R[r]->atom->x[S.first+i][c]=m[S.recvproc][3*i+c]; } } for (auto& k:R) touched(*k,false); }
    // ---- pair communication -----------------------------------------------------------------------------------------
    struct Req { int kind=0,size=0; Pair* p=nullptr; }; 
    struct Buf { std::unique_ptr<double[]> b; size_t n; explicit Buf(size_t n_) : b(new double[n_+1]), n(n_) { for (size_t i=0;i<=n;++i) b[i]=nan_(); } static double nan_() { unsigned long long u=0x7ff4dead00000001ull; double d; memcpy(&d,&u,8); return d; } bool spill() const { double x=nan_(); return memcmp(&b[n],&x,8)!=0; } };
    void exchange(const std::vector<Req>& q) { bool fwd=q[0].kind==1; for (auto& r:q) if (r.kind!=q[0].kind) throw Violation("deadlock","ranks wait in different collective operations"); fwd?++forwards:++reverses; int ns=(int)R[0]->swaps.size();
        for (int t=0;t<ns;++t) { int w=fwd?t:ns-1-t; std::vector<Buf> buf; std::vector<int> len(n);
            for (int r=0;r<n;++r) { Rank& k=*R[r]; auto& S=k.swaps[w]; int nsz=q[r].size?q[r].size:fwd?q[r].p->comm_forward:q[r].p->comm_reverse, cnt=fwd?(int)S.send.size():S.nrecv; int cap=std::max(nsz,0); int lim=fwd?k.maxforward:k.maxreverse; if (cap>lim) throw Violation("message-size","message of "+std::to_string(cap)+" values per atom, LAMMPS reserved "+std::to_string(lim));
                buf.emplace_back((size_t)cap*cnt); pre(k); int got= device(k,fwd)? packdev(k,S,w,fwd,buf.back(),cap*cnt) : packhost(k,S,fwd,buf.back()); if (got<0||got>cap*cnt||buf.back().spill()) throw Violation("message-size","packed "+std::to_string(got)+" values into a buffer of "+std::to_string(cap*cnt)); len[r]=got; }
            for (int r=0;r<n;++r) { Rank& k=*R[r]; auto& S=k.swaps[w]; int from=fwd?S.recvproc:S.sendproc; int nsz=q[r].size?q[r].size:fwd?q[r].p->comm_forward:q[r].p->comm_reverse, cnt=fwd?S.nrecv:(int)S.send.size(); if (len[from]>nsz*cnt) throw Violation("message-size","message of "+std::to_string(len[from])+" values truncated to "+std::to_string(nsz*cnt)); Buf in((size_t)nsz*cnt); memcpy(in.b.get(),buf[from].b.get(),sizeof(double)*len[from]);
                if (device(k,fwd)) unpackdev(k,S,w,fwd,in); else if (fwd) k.pair->unpack_forward_comm(S.nrecv,S.first,in.b.get()); else k.pair->unpack_reverse_comm((int)S.send.size(),S.send.data(),in.b.get()); if (in.spill()) throw Violation("message-size","unpacking wrote past the receive buffer"); } } }
    void pre(Rank&) {}
    int packhost(Rank& k,Rank::Swap& S,bool fwd,Buf& b) { return fwd? k.pair->pack_forward_comm((int)S.send.size(),S.send.data(),b.b.get(),S.pbcf,S.pbc) : k.pair->pack_reverse_comm(S.nrecv,S.first,b.b.get()); }
#ifdef MINI_KOKKOS
    bool device(Rank& k,bool fwd) { if (k.pair->execution_space==Host||o.classic) return false; return fwd||k.pair->reverse_comm_device; }
    int packdev(Rank& k,Rank::Swap& S,int w,bool fwd,Buf& b,int cap) { auto* kb=dynamic_cast<KokkosBase*>(k.pair.get()); DAT::tdual_double_1d d("comm:buf_send_pair",cap); int got; if (fwd) { k.ksend[w].sync_device(); got=kb->pack_forward_comm_kokkos((int)S.send.size(),k.ksend[w],d,S.pbcf,S.pbc); } else got=kb->pack_reverse_comm_kokkos(S.nrecv,S.first,d); if (got<0||got>cap) return got; auto h=Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(),d.d_view); for (int i=0;i<got;++i) b.b[i]=h(i); return got; }
    void unpackdev(Rank& k,Rank::Swap& S,int w,bool fwd,Buf& b) { auto* kb=dynamic_cast<KokkosBase*>(k.pair.get()); DAT::tdual_double_1d d("comm:buf_recv_pair",b.n); { auto h=Kokkos::create_mirror_view(d.d_view); for (size_t i=0;i<b.n;++i) h(i)=b.b[i]; Kokkos::deep_copy(d.d_view,h); } if (fwd) kb->unpack_forward_comm_kokkos(S.nrecv,S.first,d); else { k.ksend[w].sync_device(); kb->unpack_reverse_comm_kokkos((int)S.send.size(),k.ksend[w],d); } }
#else
    bool device(Rank&,bool) { return false; } int packdev(Rank&,Rank::Swap&,int,bool,Buf&,int) { return 0; } void unpackdev(Rank&,Rank::Swap&,int,bool,Buf&) {}
#endif
    // ---- ranks as coroutines: one runs at a time, each until its next collective operation -----------------------------
    struct Co { std::binary_semaphore go{0}; int state=0; Req req; std::exception_ptr err; std::thread th; }; std::vector<std::unique_ptr<Co>> co; std::binary_semaphore back{0}; bool abandon=false;
    void collective(int me,int kind,Pair* p,int size) { if (n==1) { exchange({Req{kind,size,p}}); return; } Co& c=*co[me]; c.req={kind,size,p}; c.state=1; back.release(); c.go.acquire(); if (abandon) throw Abandon(); }
    void all_ranks(const std::function<void(int)>& f) {
        if (n==1) { f(0); return; } abandon=false; co.clear(); for (int r=0;r<n;++r) { co.push_back(std::make_unique<Co>()); Co* c=co.back().get(); c->th=std::thread([this,c,r,&f]{ c->go.acquire(); try { if (!abandon) f(r); } catch (const Abandon&) {} catch (...) { c->err=std::current_exception(); } c->state=2; back.release(); }); }
        std::exception_ptr err; for (;;) { int done=0; std::vector<int> ord; for (int r=0;r<n;++r) ord.push_back(o.sched%2? n-1-r : r); if (o.sched>=2&&n>1) std::rotate(ord.begin(),ord.begin()+1,ord.end());
            for (int r:ord) { Co& c=*co[r]; if (c.state==2) continue; c.state=0; c.go.release(); back.acquire(); if (c.err&&!err) err=c.err; } for (auto& c:co) done+=c->state==2;
            if (done==n) break; if (!err&&done) err=std::make_exception_ptr(Violation("deadlock",std::to_string(done)+" of "+std::to_string(n)+" ranks finished while the others wait in a collective operation"));
            if (!err) { std::vector<Req> q; for (auto& c:co) q.push_back(c->req); try { exchange(q); } catch (...) { err=std::current_exception(); } } if (err) abandon=true; }
        for (auto& c:co) c->th.join(); co.clear(); if (err) std::rethrow_exception(err); }
    // ---- one force evaluation: pair->compute on every rank, newton reverse communication, collection --------------------
    void reverse_forces(std::vector<std::vector<double>>& F) { for (int w=(int)R[0]->swaps.size()-1;w>=0;--w) { std::vector<std::vector<double>> m(n); for (int r=0;r<n;++r) { auto& S=R[r]->swaps[w]; m[r].assign(F[r].begin()+3*S.first,F[r].begin()+3*(S.first+S.nrecv)); } for (int r=0;r<n;++r) { auto& S=R[r]->swaps[w]; auto& b=m[S.sendproc]; for (size_t i=0;i<S.send.size();++i) for (int c=0;c<3;++c) F[r][3*S.send[i]+c]+=b[3*i+c]; } } }
    // Note: several swaps may connect the same two ranks; message w of rank r is answered by message w of its partner.
    Out compute(int eflag,int vflag,int preset=0) { Out out; std::vector<std::vector<double>> P(n); 
        for (int r=0;r<n;++r) { Rank& k=*R[r]; hostside(k); int na=k.atom->nlocal+k.atom->nghost; P[r].assign(3*(size_t)na,0); if (preset) for (int i=0;i<na;++i) for (int c=0;c<3;++c) P[r][3*i+c]=0.5+0.25*c+0.125*(i%7)+(r?1:0); for (int i=0;i<na;++i) for (int c=0;c<3;++c) k.atom->f[i][c]=P[r][3*i+c];
#ifdef MINI_KOKKOS
            auto* A=(AtomKokkos*)k.atom.get(); A->modified(Host,F_MASK);
#endif
            k.pair->eng_vdwl=12345; for (double& q:k.pair->virial) q=54321; }
        all_ranks([&](int r){ Rank& k=*R[r];
#ifdef MINI_KOKKOS
            auto* A=(AtomKokkos*)k.atom.get(); A->sync(k.pair->execution_space,k.pair->datamask_read); k.pair->compute(eflag,vflag); A->modified(k.pair->execution_space,k.pair->datamask_modify);
#else
            k.pair->compute(eflag,vflag);
#endif
        });
        std::vector<std::vector<double>> F(n); for (int r=0;r<n;++r) { Rank& k=*R[r]; hostside(k); int na=k.atom->nlocal+k.atom->nghost; F[r].resize(3*(size_t)na); for (int i=0;i<na;++i) for (int c=0;c<3;++c) F[r][3*i+c]=k.atom->f[i][c]-P[r][3*i+c]; } reverse_forces(F);
        out.f.assign(s.x.size(),{0,0,0}); out.ea.assign(s.x.size(),0); out.has_ea=eflag&ENERGY_ATOM;
        for (int r=0;r<n;++r) { Rank& k=*R[r]; out.e+=k.pair->eng_vdwl; for (int q=0;q<6;++q) out.v[q]+=k.pair->virial[q]; for (int i=0;i<k.atom->nlocal;++i) { int t=of(k.atom->tag[i]); for (int c=0;c<3;++c) out.f[t][c]=F[r][3*i+c]; } if (out.has_ea) { if (!k.pair->eatom) throw Violation("eatom","per-atom energies requested but not provided"); for (int i=0;i<k.atom->nlocal+k.atom->nghost;++i) out.ea[of(k.atom->tag[i])]+=k.pair->eatom[i]; }
            if (k.pair->eng_coul!=0&&(eflag&1)) throw Violation("tally","eng_coul is not zero"); if (!(eflag&1)&&k.pair->eng_vdwl!=12345) throw Violation("tally","energy tallied although not requested"); if (!(vflag&3)&&std::any_of(k.pair->virial,k.pair->virial+6,[](double q){ return q!=54321; })) throw Violation("tally","virial tallied although not requested"); }
        return out; }
};
inline void Comm::forward_comm(Pair* p,int size) { lmp->mini->collective(me,1,p,size); }
inline void Comm::reverse_comm(Pair* p,int size) { lmp->mini->collective(me,2,p,size); }
}
