/* Threads: the same numbers for any number of threads and any schedule, and no unordered conflicting accesses.
 * Built with ThreadSanitizer on the runtime in minigomp.cpp; a report aborts the case. */
#include "flowcase.hpp"
#include "minigomp.hpp"
#include "spatial/diffusion.hpp"
#include "spatial/aoutput.hpp"
#include "mesh/ameshutils.hpp"
#include "mesh/meshordering.hpp"
#include "ode/aodesolver.hpp"
#include "utilities/casesolvers.hpp"
#include "utilities/aerrorhandling.hpp"
#include <memory>
#include <omp.h>

using namespace vc;
using namespace fvens;
using pbt::Src;

namespace {
typedef std::vector<double> D;
struct Team { int n; uint64_t seed; int jitter; };
Team genTeam(Src& s) { Team t; t.n=s.chance(1,16)?s.irange(9,24):s.irange(2,8); t.seed=s.draw(1u<<30); t.jitter=s.pick<int>({0,2,6,12}); s.desc<<" threads "<<t.n<<" schedule "<<t.seed<<" jitter "<<t.jitter<<" "; s.label("threads "+std::to_string(t.n)); return t; }
/// runs f with a team of one, then with the team; returns the number of parallel regions entered
template <class F> long teamed(const Team& t, int n, F f) { omp_set_num_threads(n); minigomp_seed(t.seed,n>1?t.jitter:0); const long r=minigomp_regions(); f(); omp_set_num_threads(1); return minigomp_regions()-r; }
GenOpts mOpts(Src& s, int maxn) { GenOpts o; o.maxn=maxn; o.tail=16; o.tailodds=100; o.maxstretch=s.chance(1,6)?10:2; o.ndtagmax=1; o.nbtagmax=1; return o; }
D vecOf(Vec v) { PetscInt n; VecGetLocalSize(v,&n); const PetscScalar *a; VecGetArrayRead(v,&a); D o(a,a+n); VecRestoreArrayRead(v,&a); return o; }
D ghostedOf(Vec v, int n) { const PetscScalar *a; VecGetArrayRead(v,&a); D o(a,a+n); VecRestoreArrayRead(v,&a); return o; }
D dense(Mat M, int n) { D o; std::vector<PetscInt> c(n); for(int i=0;i<n;i++) c[i]=i; o.resize((size_t)n*n); MatGetValues(M,n,c.data(),n,c.data(),o.data()); return o; }
double maxabs(const D& a) { double m=0; for(double x : a) m=std::max(m,std::fabs(x)); return m; }
void same(const D& a, const D& b, double tol, const D& sc, const char *tag, const char *what) {
	PBT_CHECK(a.size()==b.size(),tag,what<<": "<<a.size()<<" values against "<<b.size());
	for(size_t i=0;i<a.size();i++) { if(!std::isfinite(a[i])&&!std::isfinite(b[i])) continue; PBT_CHECK(std::fabs(a[i]-b[i])<=tol*sc[sc.size()==1?0:i],tag,what<<" value "<<i<<": "<<b[i]<<" with several threads, "<<a[i]<<" with one"); }
}
void sameRel(const D& a, const D& b, double tol, const char *tag, const char *what) { D sc(a.size()); for(size_t i=0;i<a.size();i++) sc[i]=std::max(std::fabs(a[i]),std::fabs(b[i])); if(!a.empty()) same(a,b,tol,sc,tag,what); }
struct MatH { Mat A=NULL; ~MatH() { MatDestroy(&A); } };
}

RELATION(P01,flow_residual,1600,40000,"more cells than threads") {
	const GenMesh g=genMesh(s,mOpts(s,7)); const auto R=ref::rmesh(g); FlowOpts fo; fo.order=0; const ref::Cfg c=genCfg(s,g,fo); const auto u=genField(s,g,c,fo);
	s.desc<<str(c)<<" "<<g.summary(); const auto E=ref::residual(c,R,toL(u)); if(!E.ok) { s.label("skipped: "+E.why); return; }
	const Team t=genTeam(s); s.nontrivial((int)u.size()>t.n); s.label(c.order2?c.rec+"/"+c.grad:"order1"); s.label(c.visc?"viscous":"inviscid"); s.label(c.flux);
	// the team also constructs what it works with (least-squares matrices)
	std::unique_ptr<LibFlow> LP; teamed(t,t.n,[&]{ LP.reset(new LibFlow(g,c)); }); LibFlow& L=*LP; LibFlow L1(g,c); std::vector<double> d1,dn; std::vector<V4> r1,rn; std::vector<GradBlock_t<freal,NDIM,NVARS>> g1(L.m.gnelem()), gn(L.m.gnelem());
	teamed(t,1,[&]{ r1=L1.residual(u,&d1); L1.sp->getGradients(L1.u,&g1[0]); });
	const long k=teamed(t,t.n,[&]{ rn=L.residual(u,&dn); L.sp->getGradients(L.u,&gn[0]); }); PBT_CHECK(k>0,"not-parallel","no parallel region was entered");
	for(size_t i=0;i<u.size();i++) { for(int v=0;v<4;v++) PBT_CHECK(std::fabs(r1[i][v]-rn[i][v])<=(c.order2?3e-9:1e-10)*(double)E.scale[i][v],"residual","cell "<<i<<" variable "<<v<<": "<<rn[i][v]<<" with several threads, "<<r1[i][v]<<" with one");
		PBT_CHECK(std::fabs(d1[i]-dn[i])<=1e-8*d1[i],"time-step","cell "<<i<<": time step "<<dn[i]<<" with several threads, "<<d1[i]<<" with one"); }
	D a,b; for(auto& x : g1) for(int j=0;j<NDIM;j++) for(int v=0;v<4;v++) a.push_back(x(j,v)); for(auto& x : gn) for(int j=0;j<NDIM;j++) for(int v=0;v<4;v++) b.push_back(x(j,v));
	double um=0; for(auto& x : u) for(double y : x) um=std::max(um,std::fabs(y)); const double h=g.hmin(); double cm=1; for(size_t i=0;i<u.size();i++) { double P=0; for(int e : R.ce[i]) P+=(double)R.e[e].len; cm=std::max(cm,P*P/(double)R.area[i]); }
	same(a,b,1e-9*cm*cm,D{um/h},"gradient","gradient");
}
RELATION(P01,flow_jacobian,900,20000,"more cells than threads") {
	const GenMesh g=genMesh(s,mOpts(s,4)); FlowOpts fo; const ref::Cfg c=genCfg(s,g,fo); const auto u=genField(s,g,c,fo); s.desc<<str(c)<<" "<<g.summary();
	const Team t=genTeam(s); s.nontrivial((int)u.size()>t.n); s.label("jacobian-"+c.jflux); s.label(c.visc?"viscous":"inviscid"); const int n=u.size()*4;
	LibFlow L(g,c); L.setState(u); MatH M; setupSystemMatrix<NVARS>(&L.m,&M.A); D J[2];
	for(int k=0;k<2;k++) { MatZeroEntries(M.A); teamed(t,k?t.n:1,[&]{ PBT_CHECK(L.sp->assemble_jacobian(L.u,M.A)==0,"assemble","assemble_jacobian failed"); }); MatAssemblyBegin(M.A,MAT_FINAL_ASSEMBLY); MatAssemblyEnd(M.A,MAT_FINAL_ASSEMBLY); J[k]=dense(M.A,n); }
	// face lengths times wave speeds bound what is added up, even where it cancels
	double len=0, lam=1; for(int f=0;f<L.m.gnaface();f++) len=std::max(len,(double)L.m.gfacemetric(f,2));
	for(auto& x : u) { const double p=pressure((double)c.g,x); lam=std::max(lam,std::hypot(x[1],x[2])/x[0]+std::sqrt((double)c.g*p/x[0])+x[3]+1/x[0]); }
	D sc(J[0].size()); for(int i=0;i<n;i++) { double m=len*lam*lam; for(int b=0;b<4;b++) for(int j=0;j<n;j++) m=std::max(m,std::fabs(J[0][(size_t)(i/4*4+b)*n+j])); for(int j=0;j<n;j++) sc[(size_t)i*n+j]=m; }
	same(J[0],J[1],1e-11,sc,"jacobian","Jacobian entry");
}
RELATION(P01,diffusion,900,20000,"more cells than threads") {
	const GenMesh g=genMesh(s,mOpts(s,6)); const double k=s.real(-2,2), b=s.realz(-1,1,0), nu=s.logreal(0.01,10); const std::string gr=s.pick<const char*>({"LEASTSQUARES","GREENGAUSS","NONE"});
	s.desc<<"diffusion nu "<<nu<<" b "<<b<<" "<<gr<<" "<<g.summary(); const Team t=genTeam(s); s.nontrivial((int)g.cells.size()>t.n); s.label(gr);
	UMesh<freal,2> m=buildMesh(g); std::unique_ptr<DiffusionMA<1>> sp; { Quiet q; sp.reset(new DiffusionMA<1>(&m,nu,b,[k](const freal *const x,const freal,const freal *const u,freal *const o){ o[0]=k*std::cos(x[0])+u[0]; },gr)); }
	Vec u,r,dt; createGhostedSystemVector(&m,1,&u); createGhostedSystemVector(&m,1,&r); createSystemVector(&m,1,&dt); const int n=m.gnelem();
	{ PetscScalar *a; VecGetArray(u,&a); for(int i=0;i<n;i++) a[i]=s.real(-2,2); VecRestoreArray(u,&a); }
	D rr[2],tt[2],J[2],G[2]; MatH M; setupSystemMatrix<1>(&m,&M.A);
	for(int w=0;w<2;w++) { VecSet(r,0); MatZeroEntries(M.A); std::vector<GradBlock_t<freal,NDIM,1>> gb(n);
		teamed(t,w?t.n:1,[&]{ sp->compute_residual(u,r,true,dt); sp->assemble_jacobian(u,M.A); sp->getGradients(u,&gb[0]); });
		MatAssemblyBegin(M.A,MAT_FINAL_ASSEMBLY); MatAssemblyEnd(M.A,MAT_FINAL_ASSEMBLY); rr[w]=ghostedOf(r,n); tt[w]=vecOf(dt); J[w]=dense(M.A,n); for(auto& x : gb) { G[w].push_back(x(0,0)); G[w].push_back(x(1,0)); } }
	sameRel(tt[0],tt[1],1e-13,"diffusion-dt","time step");
	// a face's flux is at most the largest gradient times its length
	const double gm=std::max(maxabs(G[0]),4/g.hmin()); double len=0; for(int f=0;f<m.gnaface(); f++) len=std::max(len,(double)m.gfacemetric(f,2));
	same(rr[0],rr[1],1e-9,D{4*gm*len*nu+1},"diffusion-residual","residual"); same(J[0],J[1],1e-11,D{maxabs(J[0])},"diffusion-jacobian","Jacobian entry"); same(G[0],G[1],1e-8,D{gm},"diffusion-gradient","gradient");
	VecDestroy(&u); VecDestroy(&r); VecDestroy(&dt);
}
RELATION(P01,solves,500,10000,"more cells than threads and at least one step") {
	const GenMesh g=genMesh(s,mOpts(s,4)); FlowOpts fo; fo.amp=0.05; fo.Relo=50; fo.Mlo=0.3; fo.Mhi=0.9; const int how=s.irange(0,3);
	if(how==3) { fo.order=1; fo.fluxes={"VANLEER","HLLC","ROE","LLF"}; }
	const ref::Cfg c=genCfg(s,g,fo); const auto u=genField(s,g,c,fo); const char *nm[]={"forward Euler","Runge-Kutta","backward Euler","matrix-free backward Euler"}; s.desc<<nm[how]<<" "<<str(c)<<" "<<g.summary(); s.label(nm[how]);
	const double cfl = how<2 ? s.real(0.05,0.4) : s.logreal(0.2,20); const int it=s.irange(1,how<2?4:2), order=s.irange(1,3); const bool robust=s.chance(1,2);
	const Team t=genTeam(s); s.nontrivial((int)u.size()>t.n);
	FlowParserOptions o{}; o.gamma=c.g; o.Minf=c.M; o.Tinf=c.Tinf; o.Reinf=c.Re; o.Pr=c.Pr; o.min_nl_update=0.3; o.nl_update_scheme=robust?"ROBUST_FLOW":"FULL";
	LibFlow L(g,c); const int n=u.size()*4; double dtmin=0; { std::vector<double> d; L.residual(u,&d); dtmin=*std::min_element(d.begin(),d.end()); }
	double us[4]={0,0,0,0}; for(const auto& x : u) for(int v=0;v<4;v++) us[v]=std::max(us[v],std::fabs(x[v])); us[1]=us[2]=std::sqrt(us[0]*us[3]);
	auto run=[&](int threads, double pert) { auto w=u; if(pert>0) for(size_t i=0;i<w.size();i++) for(int v=0;v<4;v++) w[i][v]+=pert*us[v]*((i*7+v*3+(pert<5e-14?i*v:0))%5-2.0); L.setState(w); VecSet(L.r,0); std::string exc; float rms=0; TimingData td; const std::string lf=pbt::scratchDir()+"/tvd.log";
		teamed(t,threads,[&]{ Quiet q; try {
			if(how==1) { TVDRKSolver<4> sv(L.sp.get(),L.u,order,lf,cfl); sv.solve(dtmin*cfl*(it-0.5)); }
			else { SteadySolverConfig sc; sc.lognres=true; sc.logfile="none"; sc.write_final_lin_sys=false; sc.cflinit=cfl; sc.cflfin=cfl*3; sc.rampstart=sc.rampend=0; sc.tol=1e-30; sc.maxiter=it; std::unique_ptr<SteadySolver<4>> sv;
				MatH M,A; KSP ks=NULL; std::unique_ptr<const NonlinearUpdate<4>> nl(create_const_nonlinearUpdateScheme<4>(o));
				if(how==0) sv.reset(new SteadyForwardEulerSolver<4>(L.sp.get(),L.u,sc));
				else { setupSystemMatrix<4>(&L.m,&M.A); if(how==3) create_matrixfree_jacobian<4>(L.sp.get(),&A.A); KSPCreate(PETSC_COMM_WORLD,&ks); KSPSetOperators(ks,how==3?A.A:M.A,M.A); KSPSetType(ks,KSPGMRES); KSPGMRESSetRestart(ks,200); KSPSetTolerances(ks,how==3?1e-9:1e-11,1e-300,1e10,1000); PC pc; KSPGetPC(ks,&pc); PCSetType(pc,PCJACOBI); sv.reset(new SteadyBackwardEulerSolver<4>(L.sp.get(),sc,ks,nl.get())); }
				try { sv->solve(L.u); } catch(const Tolerance_error&) {} td=sv->getTimingData(); sv.reset(); KSPDestroy(&ks); } }
			catch(const Numerical_error&) { exc="numerical"; } });
		D x=ghostedOf(L.u,n); if(!exc.empty()) x.assign(n,NAN); x.push_back(td.convhis.empty()?0:td.convhis.back().absrmsres); return x; };
	// problems that magnify rounding say nothing: see what a perturbation of 1e-13 does
	const D a=run(1,0), p=run(1,1e-13), q=run(1,1e-14); if(a.size()!=p.size()||a.size()!=q.size()) { s.label("unstable"); return; }
	double amp=0,mag=0; for(int i=0;i<n;i++) { if(!std::isfinite(a[i])||!std::isfinite(p[i])||!std::isfinite(q[i])||std::fabs(a[i])>1e6) { s.label("diverges"); run(t.n,0); return; } amp=std::max({amp,std::fabs(a[i]-p[i]),std::fabs(a[i]-q[i])}); mag=std::max(mag,std::fabs(a[i])); }
	const D b=run(t.n,0);
	if(amp>1e-9*mag) { s.label("magnifies rounding"); return; }
	const double tol = how==3 ? 2e-4 : how==2 ? 1e-6 : 1e-9;
	same(D(a.begin(),a.end()-1),D(b.begin(),b.end()-1),tol+1e3*amp/mag,D{mag},"solve-state",nm[how]);
	if(a[n]>1e-6) PBT_CHECK(std::fabs(a[n]-b[n])<=(how==3?1e-3:1e-4)*a[n]+1e-7,"solve-residual",nm[how]<<": final residual "<<b[n]<<" with several threads, "<<a[n]<<" with one");
}
RELATION(P01,output,500,10000,"more cells than threads") {
	const GenMesh g=genMesh(s,mOpts(s,6)); FlowOpts fo; const ref::Cfg c=genCfg(s,g,fo); const auto u=genField(s,g,c,fo); s.desc<<str(c)<<" "<<g.summary(); const Team t=genTeam(s); s.nontrivial((int)u.size()>t.n);
	LibFlow L(g,c); L.setState(u); const IdealGasPhysics<freal> phy(c.g,c.M,c.Tinf,c.Re,c.Pr); D e[2],f[2];
	std::set<int> tags; for(const auto& b : g.bfs) tags.insert(b.tags[0]);
	for(int w=0;w<2;w++) teamed(t,w?t.n:1,[&]{ Quiet q; FlowOutput out(L.sp.get(),&phy,c.aoa); e[w].push_back(out.compute_entropy_cell(L.u)); amat::Array2d<freal> sc,ve; out.postprocess_point(L.u,sc,ve); for(int i=0;i<sc.rows();i++) { for(int j=0;j<4;j++) f[w].push_back(sc(i,j)); for(int j=0;j<2;j++) f[w].push_back(ve(i,j)); }
		if(c.visc||c.order2) { std::vector<GradBlock_t<freal,NDIM,NVARS>> gr(L.m.gnelem()); L.sp->getGradients(L.u,&gr[0]); } });
	PBT_CHECK(std::fabs(e[0][0]-e[1][0])<=1e-9*(1+e[0][0])*std::fabs(e[0][0])+1e-12,"entropy","entropy error "<<e[1][0]<<" with several threads, "<<e[0][0]<<" with one"); sameRel(f[0],f[1],1e-13,"nodal","nodal value");
}
MPI_RELATION(P01,processes_and_threads,500,10000,"more than one face lies between subdomains",2,3) {
	int size; MPI_Comm_size(MPI_COMM_WORLD,&size);
	GenOpts mo=mOpts(s,6); mo.mincells=2*size; const GenMesh g=genMesh(s,mo); FlowOpts fo; const ref::Cfg c=genCfg(s,g,fo); const auto u=genField(s,g,c,fo); s.desc<<str(c)<<" "<<g.summary();
	const auto R=ref::rmesh(g); const auto E=ref::residual(c,R,toL(u)); if(!E.ok) { s.label("skipped: "+E.why); return; }
	const Team t=genTeam(s); D r[2],d[2],gr[2],J[2]; s.label(std::to_string(size)+" processes"); s.label(c.order2?c.rec+"/"+c.grad:"order1"); std::vector<int> G; int nconn=0;
	for(int w=0;w<2;w++) teamed(t,w?t.n:1,[&]{
		UMesh<freal,2> m=buildMesh(g); nconn=m.gnConnFace(); std::unique_ptr<const FlowFV_base<freal>> sp; { Quiet q; sp.reset(create_const_flowSpatialDiscretization(&m,physConf(c),numConf(c))); }
		Vec x,y,dt; createGhostedSystemVector(&m,NVARS,&x); createGhostedSystemVector(&m,NVARS,&y); createSystemVector(&m,1,&dt); const int n=m.gnelem(); G.resize(n); for(int i=0;i<n;i++) G[i]=m.gglobalElemIndex(i);
		{ PetscScalar *a; VecGetArray(x,&a); for(int i=0;i<n;i++) for(int v=0;v<4;v++) a[i*4+v]=u[G[i]][v]; VecRestoreArray(x,&a); VecGhostUpdateBegin(x,INSERT_VALUES,SCATTER_FORWARD); VecGhostUpdateEnd(x,INSERT_VALUES,SCATTER_FORWARD); }
		{ Vec l; VecGhostGetLocalForm(y,&l); VecSet(l,0); VecGhostRestoreLocalForm(y,&l); }
		sp->compute_residual(x,y,true,dt); VecGhostUpdateBegin(y,ADD_VALUES,SCATTER_REVERSE); VecGhostUpdateEnd(y,ADD_VALUES,SCATTER_REVERSE);
		std::vector<GradBlock_t<freal,NDIM,NVARS>> gb(n); sp->getGradients(x,&gb[0]); MatH M; setupSystemMatrix<NVARS>(&m,&M.A); MatZeroEntries(M.A); sp->assemble_jacobian(x,M.A); MatAssemblyBegin(M.A,MAT_FINAL_ASSEMBLY); MatAssemblyEnd(M.A,MAT_FINAL_ASSEMBLY);
		r[w]=ghostedOf(y,4*n); d[w]=vecOf(dt); for(auto& b : gb) for(int j=0;j<NDIM;j++) for(int v=0;v<4;v++) gr[w].push_back(b(j,v));
		const int N=4*g.cells.size(); std::vector<PetscInt> cl(N); for(int i=0;i<N;i++) cl[i]=i; for(int i=0;i<n;i++) for(int v=0;v<4;v++) { PetscInt I=4*G[i]+v; D row(N); MatGetValues(M.A,1,&I,N,cl.data(),row.data()); J[w].insert(J[w].end(),row.begin(),row.end()); }
		VecDestroy(&x); VecDestroy(&y); VecDestroy(&dt); });
	s.nontrivial(nconn>1);
	for(size_t i=0;i<G.size();i++) for(int v=0;v<4;v++) PBT_CHECK(std::fabs(r[0][4*i+v]-r[1][4*i+v])<=(c.order2?3e-9:1e-10)*(double)E.scale[G[i]][v],"residual","cell "<<G[i]<<" variable "<<v<<": "<<r[1][4*i+v]<<" with several threads per process, "<<r[0][4*i+v]<<" with one");
	sameRel(d[0],d[1],1e-8,"time-step","time step");
	double um=0; for(auto& x : u) for(double y : x) um=std::max(um,std::fabs(y)); double cm=1; for(size_t i=0;i<u.size();i++) { double P=0; for(int e : R.ce[i]) P+=(double)R.e[e].len; cm=std::max(cm,P*P/(double)R.area[i]); }
	same(gr[0],gr[1],1e-9*cm*cm,D{um/g.hmin()},"gradient","gradient");
	double len=0, lam=1; for(auto& e : R.e) len=std::max(len,(double)e.len); for(auto& x : u) { const double p=pressure((double)c.g,x); lam=std::max(lam,std::hypot(x[1],x[2])/x[0]+std::sqrt((double)c.g*p/x[0])+x[3]+1/x[0]); }
	same(J[0],J[1],1e-11,D{maxabs(J[0])+len*lam*lam},"jacobian","Jacobian entry");
}
RELATION(P01,ordering,1500,30000,"more cells than threads") {
	GenOpts o; o.maxn=8; o.maxstretch=12; o.mincells=4; const GenMesh g=genMesh(s,o); const double thr=s.real(1.05,8); const int how=s.irange(0,1); s.desc<<g.summary()<<" threshold "<<thr; const Team t=genTeam(s); s.nontrivial((int)g.cells.size()>t.n);
	std::vector<std::vector<int>> nodes[2];
	for(int w=0;w<2;w++) { UMesh<freal,2> m=buildRaw(g); teamed(t,w?t.n:1,[&]{ Quiet q; if(how) hybridLineReorder(m,thr,"natural"); else lineReorder(m,thr); });
		for(int i=0;i<m.gnelem();i++) { std::vector<int> q; for(int j=0;j<m.gnnode(i);j++) q.push_back(m.ginpoel(i,j)); nodes[w].push_back(q); } }
	PBT_CHECK(nodes[0]==nodes[1],"ordering","the numbering of the cells depends on the number of threads");
}

extern "C" int pbt_late_init=1;
int main(int argc, char *argv[]) { return pbt::engineMain(argc,argv); }
