// Stand-in for LAMMPS (absent in this sandbox): the documented interface a pair style sees, with spatial decomposition,
// ghost exchange (CommBrick's swap scheme), neighbour lists and newton reverse communication executed under the control of
// the harness.  Every MPI rank is a LAMMPS instance; the instances meet in World (world.hpp).
#pragma once
#include <algorithm>
#include <array>
#include <cctype>
#include <climits>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>
#define FLERR __FILE__,__LINE__
#define LMP_LAMMPS_H
#ifndef MIN
#define MIN(A,B) ((A) < (B) ? (A) : (B))
#define MAX(A,B) ((A) > (B) ? (A) : (B))
#endif
namespace LAMMPS_NS { namespace MathConst { constexpr double MY_PI=3.14159265358979323846, MY_2PI=2*MY_PI, MY_4PI=4*MY_PI; } namespace MathExtra {
inline double dot3(const double* a,const double* b) { return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; } inline double lensq3(const double* a) { return dot3(a,a); } inline double len3(const double* a) { return std::sqrt(dot3(a,a)); }
inline void sub3(const double* a,const double* b,double* c) { for (int i=0;i<3;++i) c[i]=a[i]-b[i]; } inline void add3(const double* a,const double* b,double* c) { for (int i=0;i<3;++i) c[i]=a[i]+b[i]; } } namespace MathSpecial { inline double square(double x) { return x*x; } inline double cube(double x) { return x*x*x; } } }
typedef int MPI_Comm;
namespace LAMMPS_NS {
typedef int smallint; typedef int imageint; typedef int tagint; typedef int64_t bigint;
#define MAXSMALLINT INT_MAX
enum ExecutionSpace { Host, Device, HostKK };
constexpr int SBBITS=30; constexpr int NEIGHMASK=0x1FFFFFFF; constexpr int HISTMASK=0xDFFFFFFF; constexpr int SPECIALMASK=0x3FFFFFFF;
inline int sbmask(int j) { return j>>SBBITS & 3; }
struct LAMMPSException : std::exception { std::string m; explicit LAMMPSException(std::string s) : m(std::move(s)) {} const char* what() const noexcept override { return m.c_str(); } };
struct LAMMPSAbortException : LAMMPSException { using LAMMPSException::LAMMPSException; };
}
namespace fmt {
inline void put(std::ostringstream& o,const char*& f) { while (*f&&!(f[0]=='{'&&f[1]!='{')) { if ((f[0]=='{'&&f[1]=='{')||(f[0]=='}'&&f[1]=='}')) ++f; o<<*f++; } }
template<class T> void item(std::ostringstream& o,const char*& f,const T& a) { put(o,f); if (!*f) throw std::runtime_error("argument without placeholder in a message"); while (*f&&*f!='}') ++f; if (*f) ++f; o<<a; }
template<class... A> std::string format(const std::string& s,const A&... a) { std::ostringstream o; const char* f=s.c_str(); (item(o,f,a),...); put(o,f); if (*f) throw std::runtime_error("placeholder without argument in a message"); return o.str(); }
template<class... A> void print(const std::string& s,const A&... a) { format(s,a...); }
template<class... A> void print(FILE*,const std::string& s,const A&... a) { format(s,a...); }
}
namespace LAMMPS_NS {
class LAMMPS; class Atom; class Comm; class Domain; class Error; class Force; class Memory; class Neighbor; class Update; class Modify; class Output; class Input; class Group; class Universe; class KokkosLMP; class AtomKokkos; class MemoryKokkos; class Pair; class NeighList; class NeighRequest; class Suffix; class Timer;
struct World;
class LAMMPS { public: Memory* memory=nullptr; Error* error=nullptr; Universe* universe=nullptr; Input* input=nullptr; Atom* atom=nullptr; Update* update=nullptr; Neighbor* neighbor=nullptr; Comm* comm=nullptr; Domain* domain=nullptr; Force* force=nullptr; Modify* modify=nullptr; Group* group=nullptr; Output* output=nullptr; Timer* timer=nullptr;
    MPI_Comm world=0; FILE *infile=nullptr,*screen=nullptr,*logfile=nullptr; KokkosLMP* kokkos=nullptr; AtomKokkos* atomKK=nullptr; MemoryKokkos* memoryKK=nullptr; char *suffix=nullptr,*suffix2=nullptr; int suffix_enable=0; World* mini=nullptr; std::vector<std::string> log, warnings; };
class Pointers { public: explicit Pointers(LAMMPS* p) : lmp(p), memory(p->memory), error(p->error), universe(p->universe), input(p->input), atom(p->atom), update(p->update), neighbor(p->neighbor), comm(p->comm), domain(p->domain), force(p->force), modify(p->modify), group(p->group), output(p->output), timer(p->timer), world(p->world), infile(p->infile), screen(p->screen), logfile(p->logfile), atomKK(p->atomKK), memoryKK(p->memoryKK) {}
    virtual ~Pointers()=default; Pointers(const Pointers&)=delete;
  protected: LAMMPS* lmp; Memory*& memory; Error*& error; Universe*& universe; Input*& input; Atom*& atom; Update*& update; Neighbor*& neighbor; Comm*& comm; Domain*& domain; Force*& force; Modify*& modify; Group*& group; Output*& output; Timer*& timer; MPI_Comm& world; FILE*& infile; FILE*& screen; FILE*& logfile; AtomKokkos*& atomKK; MemoryKokkos*& memoryKK; };
class Error { public: LAMMPS* lmp=nullptr; enum { NOLASTLINE=-1, ARGZERO=-2, NOPOINTER=-3 };
    template<class... A> [[noreturn]] void all(const std::string&,int,const std::string& s,const A&... a) { throw LAMMPSException("ERROR: "+fmt::format(s,a...)); }
    template<class... A> [[noreturn]] void all(const std::string&,int,int,const std::string& s,const A&... a) { throw LAMMPSException("ERROR: "+fmt::format(s,a...)); }
    template<class... A> [[noreturn]] void one(const std::string&,int,const std::string& s,const A&... a) { throw LAMMPSAbortException("ERROR on proc: "+fmt::format(s,a...)); }
    template<class... A> [[noreturn]] void one(const std::string&,int,int,const std::string& s,const A&... a) { throw LAMMPSAbortException("ERROR on proc: "+fmt::format(s,a...)); }
    template<class... A> void warning(const std::string&,int,const std::string& s,const A&... a) { lmp->warnings.push_back(fmt::format(s,a...)); }
    template<class... A> void message(const std::string&,int,const std::string& s,const A&... a) { lmp->log.push_back(fmt::format(s,a...)); } };
namespace utils {
template<class... A> void logmesg(LAMMPS* lmp,const std::string& s,const A&... a) { if (lmp->log.size()<200) lmp->log.push_back(fmt::format(s,a...)); else fmt::format(s,a...); }
inline double numeric(const char* file,int line,const std::string& s,bool,LAMMPS* lmp) { char* e; double v=strtod(s.c_str(),&e); if (s.empty()||*e) lmp->error->all(file,line,"Expected floating point parameter instead of '{}'",s); return v; }
inline int inumeric(const char* file,int line,const std::string& s,bool,LAMMPS* lmp) { char* e; long v=strtol(s.c_str(),&e,10); if (s.empty()||*e) lmp->error->all(file,line,"Expected integer parameter instead of '{}'",s); return (int)v; }
[[noreturn]] inline void missing_cmd_args(const std::string& file,int line,const std::string& cmd,Error* error) { error->all(file,line,"Illegal {} command: missing argument(s)",cmd); }
inline char* strdup(const std::string& s) { char* t=new char[s.size()+1]; strcpy(t,s.c_str()); return t; }
inline std::string getsyserror() { return "error"; }
inline std::string lowercase(std::string s) { for (char& c:s) c=tolower(c); return s; } inline std::string uppercase(std::string s) { for (char& c:s) c=toupper(c); return s; }
inline bool strsame(const std::string& a,const std::string& b) { return a==b; }
inline bool file_is_readable(const std::string& p) { FILE* f=fopen(p.c_str(),"r"); if (f) fclose(f); return f; }
}
class Memory { public:   // arrays as LAMMPS lays them out: one block of data plus row pointers
    template<class T> T* create(T*& a,int n,const char*) { a= n>0? (T*)malloc(sizeof(T)*n) : nullptr; return a; }
    template<class T> T* grow(T*& a,int n,const char* s) { if (!a) return create(a,n,s); a=(T*)realloc(a,sizeof(T)*n); return a; }
    template<class T> void destroy(T*& a) { free(a); a=nullptr; }
    template<class T> T** create(T**& a,int n1,int n2,const char*) { if (n1<=0||n2<=0) { a=nullptr; return a; } T* d=(T*)malloc(sizeof(T)*n1*n2); a=(T**)malloc(sizeof(T*)*n1); for (int i=0;i<n1;++i) a[i]=d+(size_t)i*n2; return a; }
    template<class T> T** grow(T**& a,int n1,int n2,const char* s) { if (!a) return create(a,n1,n2,s); T* d=(T*)realloc(a[0],sizeof(T)*n1*n2); a=(T**)realloc(a,sizeof(T*)*n1); for (int i=0;i<n1;++i) a[i]=d+(size_t)i*n2; return a; }
    template<class T> void destroy(T**& a) { if (a) { free(a[0]); free(a); } a=nullptr; }
    template<class T> T*** create(T***& a,int n1,int n2,int n3,const char*) { T* d=(T*)malloc(sizeof(T)*n1*n2*n3); T** p=(T**)malloc(sizeof(T*)*n1*n2); a=(T***)malloc(sizeof(T**)*n1); for (int i=0;i<n1;++i) { a[i]=p+(size_t)i*n2; for (int j=0;j<n2;++j) a[i][j]=d+((size_t)i*n2+j)*n3; } return a; }
    template<class T> void destroy(T***& a) { if (a) { free(a[0][0]); free(a[0]); free(a); } a=nullptr; }
    template<class T> void sfree(T* a) { free((void*)a); } void* smalloc(bigint n,const char*) { return n?malloc(n):nullptr; } void* srealloc(void* p,bigint n,const char*) { return realloc(p,n); } };
class Atom : public Pointers { public: enum { ATOMIC=0, MOLECULAR=1, TEMPLATE=2 }; enum { MAP_NONE=0, MAP_ARRAY=1, MAP_HASH=2, MAP_YES=3 };
    explicit Atom(LAMMPS* l) : Pointers(l) {} 
    bigint natoms=0; int nlocal=0,nghost=0,nmax=0,ntypes=1; int tag_enable=1,molecular=0; tagint* tag=nullptr; int* type=nullptr; int* mask=nullptr; imageint* image=nullptr; double **x=nullptr,**v=nullptr,**f=nullptr; double* mass=nullptr;
    int map_style=MAP_NONE,map_user=MAP_NONE; tagint map_tag_max=-1; std::map<tagint,int> themap; const char* atom_style="atomic"; int nfirst=0;
    int map(tagint g) const { if (map_style==MAP_NONE) error->all(FLERR,"Cannot map atoms without an atom map"); auto it=themap.find(g); return it==themap.end()?-1:it->second; }
    virtual void map_set() { themap.clear(); for (int i=nlocal+nghost-1;i>=0;--i) themap[tag[i]]=i; } int map_find_hash(tagint g) const { return map(g); } };
class Update : public Pointers { public: explicit Update(LAMMPS* l) : Pointers(l) {} bigint ntimestep=0; double dt=0.001; int eflag_global=0,vflag_global=0; const char* unit_style="metal"; };
class Modify : public Pointers { public: explicit Modify(LAMMPS* l) : Pointers(l) {} };
class Domain : public Pointers { public: explicit Domain(LAMMPS* l) : Pointers(l) {} int box_exist=1,dimension=3,nonperiodic=0,xperiodic=1,yperiodic=1,zperiodic=1,triclinic=0; int periodicity[3]={1,1,1}; double xprd=0,yprd=0,zprd=0,prd[3],prd_half[3],boxlo[3],boxhi[3],sublo[3],subhi[3],h[6],xy=0,xz=0,yz=0;
    void minimum_image(double& dx,double& dy,double& dz) const { double* d[3]={&dx,&dy,&dz}; for (int k=0;k<3;++k) if (periodicity[k]) { while (*d[k]>prd[k]/2) *d[k]-=prd[k]; while (*d[k]<-prd[k]/2) *d[k]+=prd[k]; } }
    int closest_image(int i,int j) const { int b=j; double best=1e300; for (int k=0;k<atom->nlocal+atom->nghost;++k) if (atom->tag[k]==atom->tag[j]) { double s=0; for (int c=0;c<3;++c) s+=(atom->x[k][c]-atom->x[i][c])*(atom->x[k][c]-atom->x[i][c]); if (s<best) { best=s; b=k; } } return b; } };
class Force : public Pointers { public: explicit Force(LAMMPS* l) : Pointers(l) {} double boltz=1,qqrd2e=1,ftm2v=1,nktv2p=1; int newton=1,newton_pair=1,newton_bond=1; Pair* pair=nullptr; char* pair_style=nullptr; double special_lj[4]={1,0,0,0},special_coul[4]={1,0,0,0};
    Pair* pair_match(const std::string&,int,int=0) { return pair; } double numeric(const char* f,int l,const char* s) { return utils::numeric(f,l,s,false,lmp); } };
class NeighList : public Pointers { public: explicit NeighList(LAMMPS* l) : Pointers(l) {} int index=0,inum=0,gnum=0,maxatom=0,ghost=0,kokkos=0; int* ilist=nullptr; int* numneigh=nullptr; int** firstneigh=nullptr; NeighRequest* request=nullptr; };
namespace NeighConst { enum { REQ_DEFAULT=0, REQ_FULL=1, REQ_GHOST=2, REQ_SIZE=4, REQ_HISTORY=8, REQ_OCCASIONAL=16, REQ_RESPA_INOUT=32, REQ_RESPA_ALL=64, REQ_NEWTON_ON=256, REQ_NEWTON_OFF=512, REQ_SSA=1024 }; }
class NeighRequest : public Pointers { public: explicit NeighRequest(LAMMPS* l) : Pointers(l) {} int flags=0,id=0,kokkos_host=0,kokkos_device=0; double cut=-1; void* requestor=nullptr; void set_kokkos_host(int v) { kokkos_host=v; } void set_kokkos_device(int v) { kokkos_device=v; } void set_id(int v) { id=v; } void set_cutoff(double c) { cut=c; } void enable_full() { flags|=NeighConst::REQ_FULL; } void enable_ghost() { flags|=NeighConst::REQ_GHOST; } };
class Neighbor : public Pointers { public: explicit Neighbor(LAMMPS* l) : Pointers(l) {} double skin=0.3,cutneighmin=0,cutneighmax=0; int every=1,delay=0,dist_check=1,ago=-1; bigint lastcall=0; std::vector<std::unique_ptr<NeighRequest>> requests;
    NeighRequest* add_request(Pair* p,int flags=0) { requests.push_back(std::make_unique<NeighRequest>(lmp)); requests.back()->flags=flags; requests.back()->requestor=p; return requests.back().get(); } };
class Comm : public Pointers { public: explicit Comm(LAMMPS* l) : Pointers(l) {} enum { SINGLE, MULTI }; int me=0,nprocs=1,nthreads=1,mode=SINGLE,style=0,layout=0; double cutghost[3]={0,0,0},cutghostuser=0; int procgrid[3]={1,1,1},myloc[3]={0,0,0},procneigh[3][2]; int ghost_velocity=0,size_forward=3,maxexchange=0;
    double get_comm_cutoff() { return std::max(cutghostuser,neighbor->cutneighmax); }
    void modify_params(int narg,char** arg) { if (narg<1) utils::missing_cmd_args(FLERR,"comm_modify",error); for (int i=0;i<narg;i+=2) { if (i+2>narg) utils::missing_cmd_args(FLERR,"comm_modify",error); if (!strcmp(arg[i],"cutoff")) { cutghostuser=utils::numeric(FLERR,arg[i+1],false,lmp); if (cutghostuser<0) error->all(FLERR,"Invalid cutoff {} in comm_modify command",arg[i+1]); } else if (!strcmp(arg[i],"mode")||!strcmp(arg[i],"vel")||!strcmp(arg[i],"group")) {} else error->all(FLERR,"Unknown comm_modify keyword: {}",arg[i]); } }
    virtual void forward_comm(Pair*,int=0); virtual void reverse_comm(Pair*,int=0); };
enum { ENERGY_NONE=0x00, ENERGY_GLOBAL=0x01, ENERGY_ATOM=0x02 }; enum { VIRIAL_NONE=0x00, VIRIAL_PAIR=0x01, VIRIAL_FDOTR=0x02, VIRIAL_ATOM=0x04, VIRIAL_CENTROID=0x08 }; enum { CENTROID_SAME=0, CENTROID_AVAIL=1, CENTROID_NOTAVAIL=2 };
class Pair : public Pointers { public:
    static int instance_total; double eng_vdwl=0,eng_coul=0,virial[6]={0,0,0,0,0,0}; double *eatom=nullptr,**vatom=nullptr,**cvatom=nullptr; double cutforce=0,**cutsq=nullptr; int** setflag=nullptr; int comm_forward=0,comm_reverse=0,comm_reverse_off=0; int single_enable=1,born_matrix_enable=0,single_hessian_enable=0,restartinfo=1,respa_enable=0,one_coeff=0,no_virial_fdotr_compute=0,writedata=0,finitecutflag=0,ghostneigh=0,unit_convert_flag=0,suffix_flag=0,manybody_flag=0,tail_flag=0,offset_flag=0,mix_flag=0,allocated=0,did_mix=0,nondefault_history_request=0,beyond_contact=0,trim_flag=1; double** cutghost=nullptr;
    int ewaldflag=0,pppmflag=0,msmflag=0,dispersionflag=0,tip4pflag=0,dipoleflag=0,spinflag=0,reinitflag=1,centroidstressflag=CENTROID_SAME; int compute_flag=1; NeighList *list=nullptr,*listhalf=nullptr,*listfull=nullptr; int kokkosable=0,copymode=0,reverse_comm_device=0,fuse_force_clear_flag=0; ExecutionSpace execution_space=Host; unsigned datamask_read=0xffffffffu,datamask_modify=0xffffffffu; int num_tally_compute=0;
    int evflag=0,eflag_either=0,eflag_global=0,eflag_atom=0,vflag_either=0,vflag_global=0,vflag_atom=0,cvflag_atom=0,vflag_fdotr=0,maxeatom=0,maxvatom=0,maxcvatom=0;
    explicit Pair(LAMMPS* l) : Pointers(l) {}
    ~Pair() override { if (copymode) return; memory->destroy(eatom); memory->destroy(vatom); }
    void ev_init(int e,int v,int alloc=1) { if (e||v) ev_setup(e,v,alloc); else ev_unset(); }
    void ev_unset() { evflag=eflag_either=eflag_global=eflag_atom=vflag_either=vflag_global=vflag_atom=cvflag_atom=vflag_fdotr=0; }
    void ev_setup(int eflag,int vflag,int alloc=1) { eflag_either=eflag; eflag_global=eflag&ENERGY_GLOBAL; eflag_atom=eflag&ENERGY_ATOM; vflag_global=vflag&(VIRIAL_PAIR|VIRIAL_FDOTR); vflag_atom=vflag&VIRIAL_ATOM; if (vflag&VIRIAL_CENTROID&&centroidstressflag!=CENTROID_AVAIL) vflag_atom=1; cvflag_atom=vflag&VIRIAL_CENTROID&&centroidstressflag==CENTROID_AVAIL; vflag_either=vflag_global||vflag_atom||cvflag_atom; evflag=eflag_either||vflag_either;
        if (eflag_atom&&atom->nmax>maxeatom) { maxeatom=atom->nmax; if (alloc) { memory->destroy(eatom); memory->create(eatom,comm->nthreads*maxeatom,"pair:eatom"); } }
        if (vflag_atom&&atom->nmax>maxvatom) { maxvatom=atom->nmax; if (alloc) { memory->destroy(vatom); memory->create(vatom,comm->nthreads*maxvatom,6,"pair:vatom"); } }
        if (eflag_global) eng_vdwl=eng_coul=0; if (vflag_global) for (double& q:virial) q=0;
        if (eflag_atom&&alloc) for (int i=0;i<atom->nlocal+(force->newton?atom->nghost:0);++i) eatom[i]=0;
        if (vflag_atom&&alloc) for (int i=0;i<atom->nlocal+(force->newton?atom->nghost:0);++i) for (int k=0;k<6;++k) vatom[i][k]=0;
        if (vflag_global==VIRIAL_FDOTR&&no_virial_fdotr_compute==0) { vflag_fdotr=1; vflag_global=0; if (vflag_atom==0&&cvflag_atom==0) vflag_either=0; if (vflag_either==0&&eflag_either==0) evflag=0; } else vflag_fdotr=0; }
    void virial_fdotr_compute() { int n=atom->nlocal+(force->newton_pair?atom->nghost:0); for (int i=0;i<n;++i) { const double *x=atom->x[i],*f=atom->f[i]; virial[0]+=f[0]*x[0]; virial[1]+=f[1]*x[1]; virial[2]+=f[2]*x[2]; virial[3]+=f[1]*x[0]; virial[4]+=f[2]*x[0]; virial[5]+=f[2]*x[1]; } vflag_fdotr=0; }
    void v_tally(int i,double* f,double* x) { double v[6]={x[0]*f[0],x[1]*f[1],x[2]*f[2],x[0]*f[1],x[0]*f[2],x[1]*f[2]}; if (vflag_global) for (int k=0;k<6;++k) virial[k]+=v[k]; if (vflag_atom) for (int k=0;k<6;++k) vatom[i][k]+=v[k]; }
    virtual void init() { if (!allocated) error->all(FLERR,"All pair coeffs are not set"); for (int i=1;i<=atom->ntypes;++i) if (setflag[i][i]==0) error->all(FLERR,"All pair coeffs are not set"); init_style(); cutforce=0; did_mix=false; for (int i=1;i<=atom->ntypes;++i) for (int j=i;j<=atom->ntypes;++j) { double c=init_one(i,j); cutsq[i][j]=cutsq[j][i]=c*c; cutforce=std::max(cutforce,c); } }
    virtual void compute(int,int)=0; virtual void settings(int,char**)=0; virtual void coeff(int,char**)=0; virtual void init_style() { neighbor->add_request(this); } virtual void init_list(int,NeighList* p) { list=p; } virtual double init_one(int,int) { return 0; } virtual void setup() {} virtual double memory_usage() { return 0; } virtual void* extract(const char*,int&) { return nullptr; }
    virtual int pack_forward_comm(int,int*,double*,int,int*) { return 0; } virtual void unpack_forward_comm(int,int,double*) {} virtual int pack_reverse_comm(int,int,double*) { return 0; } virtual void unpack_reverse_comm(int,int*,double*) {}
    virtual void reset_dt() {} virtual void write_restart(FILE*) {} virtual void read_restart(FILE*) {} };
inline int Pair::instance_total=0;
}
