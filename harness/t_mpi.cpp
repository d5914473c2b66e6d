/* Distributed runs: the same case on several processes and on one, and the exchange of face values between subdomains */
#include "flowcase.hpp"
#include "spatial/diffusion.hpp"
#include "spatial/aoutput.hpp"
#include "ode/aodesolver.hpp"
#include "utilities/casesolvers.hpp"
#include "utilities/aerrorhandling.hpp"
#include "linalg/tracevector.hpp"
#include "mesh/ameshutils.hpp"
#include "mesh/meshpartitioning.hpp"
#include <mpi.h>
#include <unistd.h>
#include <sched.h>
#undef MPI_Bcast
#undef MPI_Comm_rank
#undef MPI_Comm_size
#undef MPI_Allreduce
#undef MPI_Barrier
#undef MPI_Reduce
#undef MPI_Isend
#undef MPI_Wait
#undef MPI_Waitall
#undef MPI_Waitany
#undef MPI_Waitsome
#undef MPI_Test
#undef MPI_Testall
#undef MPI_Testany
#undef MPI_Testsome

using namespace vc;
using namespace fvens;
using ref::LD; using ref::L4;
using pbt::Src;
typedef UMesh<freal,2> Mesh;

// ---------------------------------------------------------------- one process among several, working alone
/* While g_solo is set, this process answers for a world of its own: everything the library does then is a single-process
 * run, computed by the same code in the same process, against which the distributed run is compared. */
static bool g_solo=false;
static MPI_Comm eff(MPI_Comm c) { return g_solo && c==MPI_COMM_WORLD ? MPI_COMM_SELF : c; }
extern "C" int MPI_Comm_rank(MPI_Comm c, int *r) { return PMPI_Comm_rank(eff(c),r); }
extern "C" int MPI_Comm_size(MPI_Comm c, int *r) { return PMPI_Comm_size(eff(c),r); }
extern "C" int MPI_Allreduce(const void *a, void *b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { return PMPI_Allreduce(a,b,n,t,o,eff(c)); }
extern "C" int MPI_Reduce(const void *a, void *b, int n, MPI_Datatype t, MPI_Op o, int r, MPI_Comm c) { return PMPI_Reduce(a,b,n,t,o,r,eff(c)); }
extern "C" int MPI_Bcast(void *b, int n, MPI_Datatype t, int r, MPI_Comm c) { return PMPI_Bcast(b,n,t,r,eff(c)); }
extern "C" int MPI_Barrier(MPI_Comm c) { return PMPI_Barrier(eff(c)); }

// ---------------------------------------------------------------- the history of messages
/* While g_watch is set, every MPI_Isend is followed until a wait or test reports it complete. Until then MPI may still be
 * reading the buffer, so it must hold what was handed over. */
static bool g_watch=false, g_touched=false;
struct Sent { MPI_Request r; const unsigned char *b; std::vector<unsigned char> copy; };
static std::vector<Sent> g_sent;
static void completed(MPI_Request r) { if(!g_watch||r==MPI_REQUEST_NULL) return; for(size_t k=0;k<g_sent.size();k++) if(g_sent[k].r==r) { if(!g_sent[k].copy.empty()&&memcmp(g_sent[k].b,g_sent[k].copy.data(),g_sent[k].copy.size())!=0) g_touched=true; g_sent.erase(g_sent.begin()+k); return; } }
extern "C" int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) {
	const int e=PMPI_Isend(b,n,t,d,tag,c,r); if(g_watch) { int sz=0; PMPI_Type_size(t,&sz); bool same=false; /* a handle shared by several finished sends tells nothing of which is meant */ const unsigned char *q=(const unsigned char*)b; for(Sent& o : g_sent) if(o.r==*r) { same=true; o.copy.clear(); } g_sent.push_back({*r,q,same?std::vector<unsigned char>():std::vector<unsigned char>(q,q+(size_t)sz*n)}); } return e; }
extern "C" int MPI_Wait(MPI_Request *r, MPI_Status *st) { completed(*r); return PMPI_Wait(r,st); }
extern "C" int MPI_Waitall(int n, MPI_Request r[], MPI_Status st[]) { for(int i=0;i<n;i++) completed(r[i]); return PMPI_Waitall(n,r,st); }
extern "C" int MPI_Waitany(int n, MPI_Request r[], int *k, MPI_Status *st) { const std::vector<MPI_Request> o(r,r+n); const int e=PMPI_Waitany(n,r,k,st); if(*k!=MPI_UNDEFINED) completed(o[*k]); return e; }
extern "C" int MPI_Waitsome(int n, MPI_Request r[], int *m, int *k, MPI_Status *st) { const std::vector<MPI_Request> o(r,r+n); const int e=PMPI_Waitsome(n,r,m,k,st); if(*m!=MPI_UNDEFINED) for(int i=0;i<*m;i++) completed(o[k[i]]); return e; }
extern "C" int MPI_Test(MPI_Request *r, int *f, MPI_Status *st) { const MPI_Request o=*r; const int e=PMPI_Test(r,f,st); if(*f) completed(o); return e; }
extern "C" int MPI_Testall(int n, MPI_Request r[], int *f, MPI_Status st[]) { const std::vector<MPI_Request> o(r,r+n); const int e=PMPI_Testall(n,r,f,st); if(*f) for(MPI_Request x : o) completed(x); return e; }
extern "C" int MPI_Testany(int n, MPI_Request r[], int *k, int *f, MPI_Status *st) { const std::vector<MPI_Request> o(r,r+n); const int e=PMPI_Testany(n,r,k,f,st); if(*f&&*k!=MPI_UNDEFINED) completed(o[*k]); return e; }
extern "C" int MPI_Testsome(int n, MPI_Request r[], int *m, int *k, MPI_Status *st) { const std::vector<MPI_Request> o(r,r+n); const int e=PMPI_Testsome(n,r,m,k,st); if(*m!=MPI_UNDEFINED) for(int i=0;i<*m;i++) completed(o[k[i]]); return e; }
struct Watch { Watch() { g_sent.clear(); g_touched=false; g_watch=true; } ~Watch() { g_watch=false; g_sent.clear(); } };
struct Solo { MPI_Comm w; Solo() : w(PETSC_COMM_WORLD) { PETSC_COMM_WORLD=PETSC_COMM_SELF; g_solo=true; } ~Solo() { PETSC_COMM_WORLD=w; g_solo=false; } };

namespace {
int worldSize() { int n; PMPI_Comm_size(MPI_COMM_WORLD,&n); return n; }
int worldRank() { int n; PMPI_Comm_rank(MPI_COMM_WORLD,&n); return n; }
GenOpts meshOpts(Src& s, int maxn) { GenOpts o; o.maxn=maxn; o.tail=maxn>4?20:8; o.tailodds=120; o.mincells=worldSize(); o.maxstretch=s.chance(1,6)?10:2; o.ndtagmax=1; o.nbtagmax=1; return o; }

/// A discretisation over the processes of the current world
struct World {
	Mesh m; std::unique_ptr<const FlowFV_base<freal>> sp; Vec u=NULL, r=NULL, dt=NULL;
	World(const GenMesh& g, const ref::Cfg& c) : m(buildMesh(g)) {
		Quiet q; sp.reset(create_const_flowSpatialDiscretization(&m,physConf(c),numConf(c)));
		createGhostedSystemVector(&m,NVARS,&u); createGhostedSystemVector(&m,NVARS,&r); createSystemVector(&m,1,&dt); }
	~World() { VecDestroy(&u); VecDestroy(&r); VecDestroy(&dt); }
	int G(int i) const { return m.gglobalElemIndex(i); }
	void set(const std::vector<V4>& x) { PetscScalar *a; VecGetArray(u,&a); for(int i=0;i<m.gnelem();i++) for(int v=0;v<4;v++) a[i*4+v]=x[G(i)][v]; VecRestoreArray(u,&a); VecGhostUpdateBegin(u,INSERT_VALUES,SCATTER_FORWARD); VecGhostUpdateEnd(u,INSERT_VALUES,SCATTER_FORWARD); }
	std::vector<V4> get(Vec w) const { std::vector<V4> o(m.gnelem()); const PetscScalar *a; VecGetArrayRead(w,&a); for(int i=0;i<m.gnelem();i++) for(int v=0;v<4;v++) o[i][v]=a[i*4+v]; VecRestoreArrayRead(w,&a); return o; }
	void residual(bool steps) { VecSet(r,0); Vec l; VecGhostGetLocalForm(r,&l); VecSet(l,0); VecGhostRestoreLocalForm(r,&l); VecSet(dt,-1);
		const int e=sp->compute_residual(u,r,steps,dt); PBT_CHECK(e==0,"residual-error","compute_residual returned "<<e);
		VecGhostUpdateBegin(r,ADD_VALUES,SCATTER_REVERSE); VecGhostUpdateEnd(r,ADD_VALUES,SCATTER_REVERSE); }
	std::vector<double> steps() const { std::vector<double> o(m.gnelem()); const PetscScalar *a; VecGetArrayRead(dt,&a); for(int i=0;i<m.gnelem();i++) o[i]=a[i]; VecRestoreArrayRead(dt,&a); return o; }
};
void sameState(const std::vector<V4>& a, const Mesh& m, const std::vector<V4>& b, const V4& scale, double tol, const char *tag, const std::string& what) {
	for(int i=0;i<m.gnelem();i++) for(int v=0;v<4;v++) { const double w=b[m.gglobalElemIndex(i)][v]; PBT_CHECK(std::fabs(a[i][v]-w)<=tol*(scale[v]+std::fabs(w)),tag,what<<": rank "<<worldRank()<<" of "<<worldSize()<<", cell "<<m.gglobalElemIndex(i)<<" variable "<<v<<": "<<a[i][v]<<" but one process gets "<<w); }
}
V4 stateScale(const std::vector<V4>& u) { V4 s{{0,0,0,0}}; for(const auto& x : u) { const double c=std::sqrt(x[0]*x[3]); s[0]=std::max(s[0],x[0]); s[1]=s[2]=std::max(s[1],c); s[3]=std::max(s[3],x[3]); } return s; }
int connFaces(const Mesh& m) { int n=m.gnConnFace(), t=0; PMPI_Allreduce(&n,&t,1,MPI_INT,MPI_SUM,MPI_COMM_WORLD); return t; }
/// some process has a cell with two or more neighbours elsewhere
bool corners(const Mesh& m) { std::map<int,int> k; int f=0; for(int i=0;i<m.gnConnFace();i++) if(++k[m.gconnface(i,0)]>1) f=1; int t=0; PMPI_Allreduce(&f,&t,1,MPI_INT,MPI_MAX,MPI_COMM_WORLD); return t; }
void labels(Src& s, const ref::Cfg& c, const Mesh& m) { s.label(std::to_string(worldSize())+" processes"); s.label(c.flux); s.label(c.order2?c.rec+"/"+c.grad:"order1"); s.label(c.visc?(c.cvisc?"viscous-const":"viscous-sutherland"):"inviscid"); if(corners(m)) s.label("cell with several remote neighbours"); s.nontrivial(connFaces(m)>1); }
bool agree(bool b) { int x=b, y; PMPI_Allreduce(&x,&y,1,MPI_INT,MPI_MIN,MPI_COMM_WORLD); return y; }
void delay(int k) { for(int i=0;i<k;i++) sched_yield(); if(k>20) usleep(k*10); }
}

MPI_RELATION(D01,residual_and_steps,5000,120000,"more than one face lies between subdomains",2,3,4,5,7) {
	const GenMesh g=genMesh(s,meshOpts(s,6)); const ref::RMesh R=ref::rmesh(g); FlowOpts fo; const ref::Cfg c=genCfg(s,g,fo); const auto u=genField(s,g,c,fo); s.desc<<str(c)<<" "<<g.summary();
	const auto E=ref::residual(c,R,toL(u)); if(!E.ok) { s.label("skipped: "+E.why); return; }
	World D(g,c); labels(s,c,D.m); const bool st=s.chance(2,3); const int rounds=1+s.irange(0,1);
	for(int k=0;k<rounds;k++) { D.set(u); delay(s.irange(0,40)*(worldRank()==s.irange(0,worldSize()-1))); D.residual(st); }
	const auto r=D.get(D.r); const auto t=D.steps(); const double tol=c.order2?3e-9:1e-10;
	for(int i=0;i<D.m.gnelem();i++) { const int G=D.G(i);
		for(int v=0;v<4;v++) PBT_CHECK(std::fabs(r[i][v]-(double)E.r[G][v])<=tol*(double)E.scale[G][v],"residual","rank "<<worldRank()<<" of "<<worldSize()<<", cell "<<G<<" variable "<<v<<": residual "<<r[i][v]<<" instead of "<<(double)E.r[G][v]<<" (magnitude of the terms "<<(double)E.scale[G][v]<<")");
		if(st) PBT_CHECK(std::fabs(t[i]-(double)E.dt[G])<=1e-8*(double)E.dt[G],"time-step","rank "<<worldRank()<<" of "<<worldSize()<<", cell "<<G<<": time step "<<t[i]<<" instead of "<<(double)E.dt[G]); }
	// and the same code on one process
	std::vector<V4> rs; std::vector<double> ts; { Solo solo; World W(g,c); W.set(u); W.residual(st); rs=W.get(W.r); ts=W.steps(); }
	for(int i=0;i<D.m.gnelem();i++) { const int G=D.G(i); for(int v=0;v<4;v++) PBT_CHECK(std::fabs(r[i][v]-rs[G][v])<=tol*(double)E.scale[G][v],"residual-solo","cell "<<G<<" variable "<<v<<": residual "<<r[i][v]<<" but one process gets "<<rs[G][v]); if(st) PBT_CHECK(std::fabs(t[i]-ts[G])<=1e-8*ts[G],"time-step-solo","cell "<<G<<": time step "<<t[i]<<" but one process gets "<<ts[G]); }
}

MPI_RELATION(D01,gradients_and_surfaces,3500,80000,"more than one face lies between subdomains",2,3,4) {
	const GenMesh g=genMesh(s,meshOpts(s,6)); const ref::RMesh R=ref::rmesh(g); FlowOpts fo; const ref::Cfg c=genCfg(s,g,fo); const auto u=genField(s,g,c,fo); s.desc<<str(c)<<" "<<g.summary();
	const auto E=ref::residual(c,R,toL(u)); if(!E.ok) { s.label("skipped: "+E.why); return; }
	World D(g,c); labels(s,c,D.m); D.set(u);
	const IdealGasPhysics<freal> phy(c.g,c.M,c.Tinf,c.Re,c.Pr); std::set<int> tags; for(const auto& b : g.bfs) tags.insert(b.tags[0]);
	struct Out { std::vector<GradBlock_t<freal,NDIM,NVARS>> gr; std::map<int,std::array<double,3>> f; double ent; };
	auto all=[&](World& W) { Out o; o.gr.resize(W.m.gnelem()); W.sp->getGradients(W.u,&o.gr[0]); ConstVecHandler<freal> uh(W.u); const amat::Array2dView<freal> ua(uh.getArray(),W.m.gnelem(),NVARS);
		for(int t : tags) { MVector<freal> out(W.m.gnbface(),4); const auto f=W.sp->computeSurfaceData(ua,&o.gr[0],t,out); o.f[t]={std::get<0>(f),std::get<1>(f),std::get<2>(f)}; }
		Quiet q; FlowOutput fo(W.sp.get(),&phy,c.aoa); o.ent=fo.compute_entropy_cell(W.u); return o; };
	const Out d=all(D); Out w; { Solo solo; World W(g,c); W.set(u); w=all(W); }
	double gs[4]={0,0,0,0}; for(const auto& x : w.gr) for(int v=0;v<4;v++) for(int k=0;k<2;k++) gs[v]=std::max(gs[v],std::fabs(x(k,v)));
	const V4 us=stateScale(u);
	for(int i=0;i<D.m.gnelem();i++) { const int G=D.G(i); double nb=0; for(int k : R.ce[G]) { const auto o=R.other(k,G); nb=std::max(nb,(double)(1/std::hypot(o[0]-R.c[G][0],o[1]-R.c[G][1]))); }
		for(int v=0;v<4;v++) for(int k=0;k<2;k++) PBT_CHECK(std::fabs(d.gr[i](k,v)-w.gr[G](k,v))<=1e-9*(gs[v]+us[v]*nb),"gradient","rank "<<worldRank()<<" of "<<worldSize()<<", cell "<<G<<" variable "<<v<<" direction "<<k<<": gradient "<<d.gr[i](k,v)<<" but one process gets "<<w.gr[G](k,v)); }
	const double fs=2*us[3]*10+std::sqrt(gs[1]*gs[1]+gs[2]*gs[2]+gs[0]*gs[0])*100;
	for(int t : tags) for(int k=0;k<3;k++) PBT_CHECK(std::fabs(d.f.at(t)[k]-w.f.at(t)[k])<=1e-9*fs,"surface-integral","marker "<<t<<" functional "<<k<<": "<<d.f.at(t)[k]<<" but one process gets "<<w.f.at(t)[k]);
	PBT_CHECK(std::fabs(d.ent-w.ent)<=1e-9*(std::fabs(w.ent)+1e-6),"entropy","entropy error "<<d.ent<<" but one process gets "<<w.ent);
}

MPI_RELATION(D01,jacobian,3500,80000,"more than one face lies between subdomains",2,3,4) {
	const GenMesh g=genMesh(s,meshOpts(s,5)); FlowOpts fo; const ref::Cfg c=genCfg(s,g,fo); const auto u=genField(s,g,c,fo); s.desc<<str(c)<<" "<<g.summary();
	World D(g,c); labels(s,c,D.m); D.set(u); const int n=g.cells.size()*4;
	auto jac=[&](World& W, Mat *A) { PBT_CHECK(setupSystemMatrix<NVARS>(&W.m,A)==0,"setup","setupSystemMatrix failed"); MatZeroEntries(*A); PBT_CHECK(W.sp->assemble_jacobian(W.u,*A)==0,"assemble","assemble_jacobian failed"); PBT_CHECK(MatAssemblyBegin(*A,MAT_FINAL_ASSEMBLY)==0&&MatAssemblyEnd(*A,MAT_FINAL_ASSEMBLY)==0,"assemble","assembly failed"); };
	struct MatH { Mat A=NULL; ~MatH() { MatDestroy(&A); } }; MatH d; 
	const bool aij=s.chance(1,2); if(aij) PetscOptionsSetValue(NULL,"-mat_type","aij"); else PetscOptionsSetValue(NULL,"-mat_type","baij"); s.label(aij?"aij":"baij");
	jac(D,&d.A); std::vector<PetscInt> cols(n); for(int i=0;i<n;i++) cols[i]=i;
	{ Solo solo; World W(g,c); W.set(u); MatH w; jac(W,&w.A); double sc=0; MatNorm(w.A,NORM_INFINITY,&sc);
		for(int i=0;i<D.m.gnelem();i++) for(int v=0;v<4;v++) { PetscInt I=D.G(i)*4+v; std::vector<PetscScalar> a(n),b(n); MatGetValues(d.A,1,&I,n,cols.data(),a.data()); MatGetValues(w.A,1,&I,n,cols.data(),b.data()); double rs=0; for(double x : b) rs=std::max(rs,std::fabs(x));
			for(int j=0;j<n;j++) PBT_CHECK(a[j]==b[j]||std::fabs(a[j]-b[j])<=1e-9*rs+1e-13*sc||!std::isfinite(b[j]),"jacobian","rank "<<worldRank()<<" of "<<worldSize()<<": entry ("<<I<<","<<j<<") is "<<a[j]<<" but one process gets "<<b[j]); } }
	PetscOptionsClearValue(NULL,"-mat_type");
}

MPI_RELATION(D01,diffusion,2500,50000,"more than one face lies between subdomains",2,3,4) {
	const GenMesh g=genMesh(s,meshOpts(s,5)); const double nu=s.logreal(0.01,10), b=s.realz(-1,1,0), k=s.real(-2,2); const std::string gr=s.pick<const char*>({"LEASTSQUARES","GREENGAUSS","NONE"}); std::vector<double> u(g.cells.size()); for(double& x : u) x=s.realz(-2,2,0);
	s.desc<<"diffusion nu "<<nu<<" b "<<b<<" source "<<k<<" "<<gr<<" "<<g.summary(); s.label(gr);
	struct P { Mesh m; std::unique_ptr<DiffusionMA<1>> sp; Vec u=NULL,r=NULL,dt=NULL; Mat A=NULL; ~P() { VecDestroy(&u); VecDestroy(&r); VecDestroy(&dt); MatDestroy(&A); } P(const GenMesh& g) : m(buildMesh(g)) {} };
	auto make=[&]() { std::unique_ptr<P> p(new P(g)); Quiet q; p->sp.reset(new DiffusionMA<1>(&p->m,nu,b,[k](const freal *const x,const freal,const freal *const w,freal *const o){ o[0]=k*std::cos(x[0])+x[1]*w[0]; },gr));
		createGhostedSystemVector(&p->m,1,&p->u); createGhostedSystemVector(&p->m,1,&p->r); createSystemVector(&p->m,1,&p->dt); PetscScalar *a; VecGetArray(p->u,&a); for(int i=0;i<p->m.gnelem();i++) a[i]=u[p->m.gglobalElemIndex(i)]; VecRestoreArray(p->u,&a);
		VecGhostUpdateBegin(p->u,INSERT_VALUES,SCATTER_FORWARD); VecGhostUpdateEnd(p->u,INSERT_VALUES,SCATTER_FORWARD); Vec l; VecGhostGetLocalForm(p->r,&l); VecSet(l,0); VecGhostRestoreLocalForm(p->r,&l);
		PBT_CHECK(p->sp->compute_residual(p->u,p->r,true,p->dt)==0,"residual-error","compute_residual failed"); VecGhostUpdateBegin(p->r,ADD_VALUES,SCATTER_REVERSE); VecGhostUpdateEnd(p->r,ADD_VALUES,SCATTER_REVERSE);
		PBT_CHECK(setupSystemMatrix<1>(&p->m,&p->A)==0,"setup","setupSystemMatrix failed"); MatZeroEntries(p->A); PBT_CHECK(p->sp->assemble_jacobian(p->u,p->A)==0,"assemble","assemble_jacobian failed"); MatAssemblyBegin(p->A,MAT_FINAL_ASSEMBLY); MatAssemblyEnd(p->A,MAT_FINAL_ASSEMBLY); return p; };
	const auto d=make(); s.nontrivial(connFaces(d->m)>1); std::unique_ptr<P> w; { Solo solo; w=make(); }
	const int n=g.cells.size(); const PetscScalar *dr,*wr,*dd,*wd; VecGetArrayRead(d->r,&dr); VecGetArrayRead(w->r,&wr); VecGetArrayRead(d->dt,&dd); VecGetArrayRead(w->dt,&wd); double sc=0, js=0; for(int i=0;i<n;i++) sc=std::max(sc,std::fabs(wr[i])); MatNorm(w->A,NORM_INFINITY,&js); sc+=4*js;
	std::vector<PetscInt> cols(n); for(int i=0;i<n;i++) cols[i]=i; std::vector<PetscScalar> a(n),e(n);
	for(int i=0;i<d->m.gnelem();i++) { PetscInt G=d->m.gglobalElemIndex(i); PBT_CHECK(std::fabs(dr[i]-wr[G])<=1e-9*sc,"diffusion-residual","cell "<<G<<": "<<dr[i]<<" but one process gets "<<wr[G]); PBT_CHECK(std::fabs(dd[i]-wd[G])<=1e-10*wd[G],"diffusion-step","cell "<<G<<": "<<dd[i]<<" but one process gets "<<wd[G]);
		MatGetValues(d->A,1,&G,n,cols.data(),a.data()); MatGetValues(w->A,1,&G,n,cols.data(),e.data()); for(int j=0;j<n;j++) PBT_CHECK(std::fabs(a[j]-e[j])<=1e-10*js,"diffusion-jacobian","entry ("<<G<<","<<j<<") is "<<a[j]<<" but one process gets "<<e[j]); }
	VecRestoreArrayRead(d->r,&dr); VecRestoreArrayRead(w->r,&wr); VecRestoreArrayRead(d->dt,&dd); VecRestoreArrayRead(w->dt,&wd);
}

namespace {
struct SolveOut { std::string exc; std::vector<V4> u; TimingData td; FlowSolutionFunctionals F{}; double normtot=0; };
struct PO { std::vector<std::string> k; void set(const char *a, const char *b) { PetscOptionsSetValue(NULL,a,b); k.push_back(a); } ~PO() { for(auto& x : k) PetscOptionsClearValue(NULL,x.c_str()); } };
}

MPI_RELATION(D03,solves,1600,20000,"more than one face lies between subdomains and at least one step is taken",2,3,4) {
	const MatStorage st(s);
	const GenMesh g=genMesh(s,meshOpts(s,4)); FlowOpts fo; fo.amp=0.1; fo.Relo=50; fo.Mlo=0.3; fo.Mhi=1.5; fo.fluxes={"LLF","HLL","HLLC","ROE","VANLEER"}; const ref::Cfg c=genCfg(s,g,fo); const auto u=genField(s,g,c,fo); s.desc<<str(c)<<" "<<g.summary();
	const int kind=s.irange(0,4); static const char *const K[]={"explicit","implicit","matrix-free","tvdrk","program"}; s.label(K[kind]); const bool imp=kind==1||kind==2||(kind==4&&s.chance(1,2));
	FlowParserOptions o{}; const auto P=physConf(c); o.gamma=c.g; o.Minf=c.M; o.Tinf=c.Tinf; o.Reinf=c.Re; o.Pr=c.Pr; o.alpha=c.aoa; o.viscsim=c.visc; o.useconstvisc=c.cvisc; o.flowtype=c.visc?"NAVIERSTOKES":"EULER"; o.bcconf=P.bcconf;
	o.invflux=c.flux; o.invfluxjac=c.jflux; o.gradientmethod=c.grad; o.limiter=c.rec; o.limiter_param=c.lim; o.order2=c.order2; o.pseudotimetype=imp?"IMPLICIT":"EXPLICIT"; o.usestarter=kind==4&&s.chance(1,2)?1:0;
	o.initcfl=imp?s.logreal(0.5,50):s.real(0.1,0.5); o.endcfl=o.initcfl*s.logreal(1,10); o.firstinitcfl=o.initcfl; o.firstendcfl=o.endcfl; o.tolerance=s.logreal(1e-3,2); o.firsttolerance=0.3; o.maxiter=s.irange(0,kind==2?2:imp?4:10); o.firstmaxiter=2; o.lognres=false; o.nl_update_scheme=s.pick<const char*>({"FULL","ROBUST_FLOW"}); o.min_nl_update=s.real(0.1,0.9); o.vol_output_reqd="NO";
	for(const auto& b : g.bfs) if(o.lwalls.empty()&&s.chance(1,3)) o.lwalls.push_back(b.tags[0]); const int tvo=s.irange(1,3); const double ft=s.real(0.3,3.5);
	const std::string pc=s.pick<const char*>({"jacobi","none","bjacobi"}); PO po; po.set("-ksp_type","gmres"); po.set("-ksp_rtol",kind==2?"1e-9":"1e-11"); po.set("-ksp_max_it","800"); po.set("-ksp_gmres_restart","400"); po.set("-pc_type",pc.c_str()); po.set("-mat_type",s.pick<const char*>({"baij","aij"}));
	const std::string log=pbt::scratchDir()+"/mpi"+std::to_string(worldRank()); double tvdt=0; { Solo solo; World W(g,c); W.set(u); W.residual(true); for(double x : W.steps()) tvdt=tvdt==0?x:std::min(tvdt,x); }
	s.desc<<" "<<K[kind]<<" "<<o.pseudotimetype<<" pc "<<pc<<" cfl "<<o.initcfl<<" "<<o.endcfl<<" tol "<<o.tolerance<<" it "<<o.maxiter<<" starter "<<o.usestarter;
	const V4 us=stateScale(u); // rounding moves every component, those that are zero too
	auto noise=[](int i, double p) { unsigned h=(unsigned)(i*2654435761u+(unsigned)(int)(std::log2(std::fabs(p)))*40503u); h^=h>>13; h*=2246822519u; return (int)((h>>8)%5)-2.0; };
	auto run=[&](double pert) { SolveOut r; World W(g,c); std::vector<V4> x=u; if(pert) for(size_t i=0;i<x.size();i++) for(int v=0;v<4;v++) x[i][v]+=pert*us[v]*noise(i*4+v,pert); W.set(x); Quiet q;
		try {
			if(kind==3) { TVDRKSolver<4> sv(W.sp.get(),W.u,tvo,log,0.4); if(sv.solve(ft*0.4*tvdt)!=0) r.exc="error"; }
			else if(kind==4) { SteadyFlowCase fc(o); r.F=fc.run_output(false,false,W.m,W.u); }
			else { SteadySolverConfig sc; sc.lognres=true; sc.logfile="none"; sc.write_final_lin_sys=false; sc.cflinit=o.initcfl; sc.cflfin=o.endcfl; sc.rampstart=sc.rampend=0; sc.tol=o.tolerance; sc.maxiter=o.maxiter;
				struct Ksp { KSP k=NULL; Mat M=NULL,A=NULL; ~Ksp() { KSPDestroy(&k); MatDestroy(&M); MatDestroy(&A); } } S; std::unique_ptr<const NonlinearUpdate<4>> nl(create_const_nonlinearUpdateScheme<4>(o)); std::unique_ptr<SteadySolver<4>> sv;
				if(imp) { setupSystemMatrix<4>(&W.m,&S.M); if(kind==2) create_matrixfree_jacobian<4>(W.sp.get(),&S.A); KSPCreate(PETSC_COMM_WORLD,&S.k); KSPSetOperators(S.k,kind==2?S.A:S.M,S.M); KSPSetFromOptions(S.k); sv.reset(new SteadyBackwardEulerSolver<4>(W.sp.get(),sc,S.k,nl.get())); }
				else sv.reset(new SteadyForwardEulerSolver<4>(W.sp.get(),W.u,sc));
				int e=0; try { e=sv->solve(W.u); } catch(...) { r.td=sv->getTimingData(); if(imp) { KSPConvergedReason why; KSPGetConvergedReason(S.k,&why); if(why<0) r.exc="linear "; } throw; } r.td=sv->getTimingData(); if(e) r.exc="error";
				if(imp&&o.maxiter>0) { KSPConvergedReason why; KSPGetConvergedReason(S.k,&why); if(why<0) r.exc="linear "; } }
		} catch(const Tolerance_error&) { r.exc+="tolerance"; } catch(const Numerical_error&) { r.exc+="numerical"; }
		r.u=W.get(W.u); return r; };
	SolveOut w; double amp=0; bool chaos=false;
	{ Solo solo; w=run(0); for(const auto& x : w.u) for(double v : x) if(!std::isfinite(v)||std::fabs(v)>1e6) chaos=true; for(const auto& x : w.u) if(!(x[0]>1e-3)||!(pressure(c.g,x)>1e-4)) chaos=true;
		if(!chaos) for(double p : {1e-14,-1e-13,1e-11}) { const SolveOut z=run(p); if(z.exc!=w.exc||z.td.num_timesteps!=w.td.num_timesteps) chaos=true; for(size_t i=0;i<u.size();i++) for(int v=0;v<4;v++) amp=std::max(amp,std::fabs(z.u[i][v]-w.u[i][v])/us[v]); } }
	if(w.exc.find("numerical")!=std::string::npos||w.exc.find("linear")!=std::string::npos) chaos=true;
	if(!(amp<1e-7)) chaos=true;
	if(!agree(!chaos)) { s.label("amplifies rounding, diverges or is not solved"); return; }
	SolveOut d=run(0); { Mesh m=buildMesh(g); labels(s,c,m); s.nontriv=s.nontriv&&(kind==3||o.maxiter>0);
		if(!agree(d.exc.find("linear")==std::string::npos)) { s.label("linear solver stalls"); return; }
		PBT_CHECK(d.exc==w.exc,"outcome",K[kind]<<" run on "<<worldSize()<<" processes ended with '"<<d.exc<<"' but on one with '"<<w.exc<<"'");
		const double tol=(kind==2?3e-5:imp?1e-7:1e-9)+100*amp;
		sameState(d.u,m,w.u,us,tol,"solution",K[kind]);
		if(kind<3) { PBT_CHECK(d.td.num_timesteps==w.td.num_timesteps&&d.td.converged==w.td.converged,"history",K[kind]<<": "<<d.td.num_timesteps<<" steps (converged "<<d.td.converged<<") but "<<w.td.num_timesteps<<" (converged "<<w.td.converged<<") on one process");
			PBT_CHECK(d.td.convhis.size()==w.td.convhis.size(),"history","history of "<<d.td.convhis.size()<<" steps instead of "<<w.td.convhis.size());
			for(size_t k=0;k<w.td.convhis.size();k++) { const auto &a=d.td.convhis[k], &b=w.td.convhis[k]; const double rt=(kind==2?2e-3:imp?1e-3:1e-5); const double r0=w.td.convhis[0].absrmsres;
				PBT_CHECK(std::fabs(a.absrmsres-b.absrmsres)<=rt*b.absrmsres+(amp+1e-9)*1e3*r0,"history","step "<<k+1<<": residual "<<a.absrmsres<<" but one process has "<<b.absrmsres); } }
		if(kind==4) { PBT_CHECK(std::fabs(d.F.meshSizeParameter-w.F.meshSizeParameter)<=1e-12,"mesh-size","mesh size parameter "<<d.F.meshSizeParameter<<" but "<<w.F.meshSizeParameter<<" on one process");
			const double fs=us[3]*20*(1+1/c.Re)*1e3; PBT_CHECK(std::fabs(d.F.entropy-w.F.entropy)<=tol*100*(1+w.F.entropy),"entropy","entropy error "<<d.F.entropy<<" but "<<w.F.entropy<<" on one process");
			PBT_CHECK(std::fabs(d.F.CL-w.F.CL)<=tol*fs&&std::fabs(d.F.CDp-w.F.CDp)<=tol*fs&&std::fabs(d.F.CDsf-w.F.CDsf)<=tol*fs*100,"functionals","coefficients "<<d.F.CL<<" "<<d.F.CDp<<" "<<d.F.CDsf<<" but "<<w.F.CL<<" "<<w.F.CDp<<" "<<w.F.CDsf<<" on one process"); } }
}

MPI_RELATION(D01,mesh_from_file,3000,40000,"more than one face lies between subdomains",2,3,4) {
	GenOpts go=meshOpts(s,6); const GenMesh g=genMesh(s,go); s.desc<<g.summary(); const std::string fn=pbt::scratchDir()+"/d"+std::to_string(worldRank())+".msh"; putGmsh(s,g,fn);
	std::unique_ptr<Mesh> m; { Quiet q; m.reset(new Mesh(constructMesh(fn))); } unlink(fn.c_str()); s.nontrivial(connFaces(*m)>1);
	int n=m->gnelem(), t=0; PMPI_Allreduce(&n,&t,1,MPI_INT,MPI_SUM,MPI_COMM_WORLD); PBT_CHECK(t==(int)g.cells.size(),"cells","the processes hold "<<t<<" cells of "<<g.cells.size());
	std::vector<int> own(g.cells.size(),0), tot(own.size()); for(int i=0;i<n;i++) { const int G=m->gglobalElemIndex(i); PBT_CHECK(G>=0&&G<(int)own.size(),"cells","global index "<<G); own[G]=1;
		PBT_CHECK(m->gnnode(i)==(int)g.cells[G].size()&&pbt::close(m->garea(i),g.area(G),1e-9,1e-13),"cell-shape","cell "<<G<<": area "<<m->garea(i)<<" instead of "<<g.area(G)); }
	PMPI_Allreduce(own.data(),tot.data(),own.size(),MPI_INT,MPI_SUM,MPI_COMM_WORLD); for(size_t i=0;i<tot.size();i++) PBT_CHECK(tot[i]==1,"cells","cell "<<i<<" is held by "<<tot[i]<<" processes");
	// vectors over the mesh: ghost entries are the values of the cells across each subdomain face
	Vec v; PBT_CHECK(createGhostedSystemVector(m.get(),NVARS,&v)==0,"vector","createGhostedSystemVector failed"); PetscInt lo,ls,gs; VecGetOwnershipRange(v,&lo,NULL); VecGetLocalSize(v,&ls); VecGetSize(v,&gs);
	PBT_CHECK(ls==n*4&&gs==(PetscInt)g.cells.size()*4&&(n==0||lo==m->gglobalElemIndex(0)*4),"vector","vector layout "<<lo<<" "<<ls<<" "<<gs);
	{ PetscScalar *a; VecGetArray(v,&a); for(int i=0;i<n;i++) for(int k=0;k<4;k++) a[i*4+k]=m->gglobalElemIndex(i)*10+k; VecRestoreArray(v,&a); }
	VecGhostUpdateBegin(v,INSERT_VALUES,SCATTER_FORWARD); VecGhostUpdateEnd(v,INSERT_VALUES,SCATTER_FORWARD);
	{ ConstGhostedVecHandler<freal> h(v); const freal *a=h.getArray(); const EdgeMap em=edgeMap(g);
	for(int f=0;f<m->gnConnFace();f++) { const int me=m->gglobalElemIndex(m->gconnface(f,0)), i=m->gconnface(f,1); const auto& cl=g.cells[me]; const int x=cl[i], y=cl[(i+1)%cl.size()]; const auto& two=em.at({std::min(x,y),std::max(x,y)}); PBT_CHECK(two.size()==2,"conn-face","a connectivity face on the boundary");
		const int other=two[0].first==me?two[1].first:two[0].first; for(int k=0;k<4;k++) PBT_CHECK(a[(n+f)*4+k]==other*10+k,"ghost-values","ghost of face "<<f<<" holds "<<a[(n+f)*4+k]<<" instead of cell "<<other<<"'s "<<other*10+k); } }
	VecDestroy(&v);
}

namespace {
template <int N> void traceCase(Src& s) {
	GenOpts o; o.maxn = s.chance(1,12) ? 24 : 7; o.tail = 40; o.tailodds = 100; o.mincells=worldSize(); o.ndtagmax=1; o.nbtagmax=1; const GenMesh g=genMesh(s,o); const bool scotch=s.chance(1,3); s.label(scotch?"scotch":"blocks"); s.label(std::to_string(N)+" variables"); s.label(std::to_string(worldSize())+" processes"); s.desc<<g.summary()<<(scotch?" by Scotch":" blocks");
	Mesh gm(g.data()); gm.correctBoundaryFaceOrientation(); gm.compute_topological();
	std::unique_ptr<ReplicatedGlobalMeshPartitioner> p; if(scotch) p.reset(new ScotchRGMPartitioner(gm)); else p.reset(new TrivialReplicatedGlobalMeshPartitioner(gm)); p->compute_partition(); Mesh m=p->restrictMeshToPartitions();
	if(!agree(m.gnelem()>0)) { s.label("a process without cells"); return; }
	m.compute_topological(); m.compute_areas(); m.compute_face_data(); const EdgeMap em=edgeMap(g);
	const int tot=connFaces(m); s.nontrivial(tot>2); s.desc<<" shared faces "<<tot/2; if(m.gnConnFace()==0) s.label("a process without shared faces");
	Watch watch; { // the messages of the whole life of the object
	L2TraceVector<freal,N> t(m); freal *l=t.getLocalArrayLeft(), *r=t.getLocalArrayRight(); PBT_CHECK(((const L2TraceVector<freal,N>&)t).getLocalArrayLeft()==l&&((const L2TraceVector<freal,N>&)t).getLocalArrayRight()==r,"trace-access","accessors disagree");
	// the value a process puts on its side of a face in a round
	auto val=[&](int cell, int nbr, int round, int v) { return cell*1000.25+nbr*1.125+round*1e6+v*0.0625; };
	std::vector<std::array<int,2>> cc(m.gnConnFace()); for(int f=0;f<m.gnConnFace();f++) { const int me=m.gglobalElemIndex(m.gconnface(f,0)), i=m.gconnface(f,1); const auto& cl=g.cells[me]; const int x=cl[i], y=cl[(i+1)%cl.size()]; const auto& two=em.at({std::min(x,y),std::max(x,y)}); PBT_CHECK(two.size()==2,"conn-face","a connectivity face on the boundary"); cc[f]={me,two[0].first==me?two[1].first:two[0].first}; }
	const int rounds=s.irange(1,4), nf=m.gnaface(); std::vector<int> dl; for(int k=0;k<rounds*3;k++) dl.push_back(s.irange(0,60)); const int slow=s.irange(0,worldSize()-1); const bool work=s.chance(1,2);
	for(int k=0;k<rounds;k++) {
		for(int f=0;f<nf;f++) for(int v=0;v<N;v++) { l[f*N+v]=-f-v*0.5-k; r[f*N+v]=-7*f-v*0.25-k; }
		for(int f=0;f<m.gnConnFace();f++) for(int v=0;v<N;v++) l[(m.gConnBFaceStart()+f)*N+v]=val(cc[f][0],cc[f][1],k,v);
		if(worldRank()==slow) delay(dl[3*k]); t.updateSharedFacesBegin(); if(worldRank()==slow) delay(dl[3*k+1]);
		// other faces may be worked on meanwhile
		if(work) for(int f=0;f<nf;f++) if(f<m.gConnBFaceStart()||f>=m.gConnBFaceEnd()) for(int v=0;v<N;v++) r[f*N+v]-=1;
		t.updateSharedFacesEnd(); if(worldRank()==slow) delay(dl[3*k+2]);
		for(int f=0;f<nf;f++) { const int ic=f-m.gConnBFaceStart(); const bool cf=ic>=0&&ic<m.gnConnFace(); for(int v=0;v<N;v++) {
			const double wl=cf?val(cc[ic][0],cc[ic][1],k,v):-f-v*0.5-k, wr=cf?val(cc[ic][1],cc[ic][0],k,v):-7*f-v*0.25-k-(work?1:0);
			PBT_CHECK(l[f*N+v]==wl,"trace-left","round "<<k<<", rank "<<worldRank()<<", face "<<f<<": own side changed to "<<l[f*N+v]<<" from "<<wl);
			PBT_CHECK(r[f*N+v]==wr,cf?"trace-right":"trace-other","round "<<k<<", rank "<<worldRank()<<" of "<<worldSize()<<", face "<<f<<" variable "<<v<<": received "<<r[f*N+v]<<" instead of "<<wr); } }
		PBT_CHECK(!g_touched,"send-buffer","round "<<k<<", rank "<<worldRank()<<" of "<<worldSize()<<": the buffer of a message was changed before its sending was complete");
	} }
	PBT_CHECK(g_sent.empty()&&!g_touched,"send-incomplete","rank "<<worldRank()<<" of "<<worldSize()<<": after the exchange object is gone, "<<g_sent.size()<<" messages were never waited for");
}
}
MPI_RELATION(D02,trace_exchange,9000,200000,"more than two sides of faces lie between subdomains",2,3,4,6,8) { if(s.chance(1,3)) traceCase<1>(s); else traceCase<4>(s); }

int main(int argc, char *argv[]) { return pbt::engineMain(argc,argv); }
