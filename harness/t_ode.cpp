/* Pseudo-time and time integration: step histories, stopping, CFL ramp, nonlinear update, TVD Runge-Kutta, case drivers */
#include "flowcase.hpp"
#include "spatial/diffusion.hpp"
#include "ode/aodesolver.hpp"
#include "utilities/casesolvers.hpp"
#include "utilities/aerrorhandling.hpp"
#include <eigen3/Eigen/LU>
#include <memory>

using namespace vc;
using namespace fvens;
using ref::LD; using ref::L4;
using pbt::Src;

namespace {
typedef Eigen::VectorXd VX; typedef Eigen::MatrixXd MX;

/// A discretisation under integration, flow or diffusion
template <int N> struct Prob {
	const UMesh<freal,2> *m=nullptr; const Spatial<freal,N> *sp=nullptr;
	Vec u=NULL;
	int nc() const { return m->gnelem(); }
	void set(const VX& x) { PetscScalar *a; VecGetArray(u,&a); for(int i=0;i<x.size();i++) a[i]=x[i]; VecRestoreArray(u,&a); }
	VX get() const { VX x(nc()*N); const PetscScalar *a; VecGetArrayRead(u,&a); for(int i=0;i<x.size();i++) x[i]=a[i]; VecRestoreArrayRead(u,&a); return x; }
	VX res(const VX& x, VX *dt) const {
		Vec v,r,d; VecDuplicate(u,&v); VecDuplicate(u,&r); VecSet(r,0); createSystemVector(m,1,&d); VecSet(d,0);
		{ PetscScalar *a; VecGetArray(v,&a); for(int i=0;i<x.size();i++) a[i]=x[i]; VecRestoreArray(v,&a); }
		sp->compute_residual(v,r,true,d);
		VX o(x.size()); const PetscScalar *a; VecGetArrayRead(r,&a); for(int i=0;i<x.size();i++) o[i]=a[i]; VecRestoreArrayRead(r,&a);
		if(dt) { dt->resize(nc()); VecGetArrayRead(d,&a); for(int i=0;i<nc();i++) (*dt)[i]=a[i]; VecRestoreArrayRead(d,&a); }
		VecDestroy(&v); VecDestroy(&r); VecDestroy(&d); return o;
	}
	MX jac(const VX& x) const {
		Mat M; setupSystemMatrix<N>(m,&M); MatZeroEntries(M); Vec v; VecDuplicate(u,&v);
		{ PetscScalar *a; VecGetArray(v,&a); for(int i=0;i<x.size();i++) a[i]=x[i]; VecRestoreArray(v,&a); }
		sp->assemble_jacobian(v,M); MatAssemblyBegin(M,MAT_FINAL_ASSEMBLY); MatAssemblyEnd(M,MAT_FINAL_ASSEMBLY);
		const int n=x.size(); MX J(n,n); std::vector<PetscInt> c(n); for(int i=0;i<n;i++) c[i]=i; std::vector<PetscScalar> row(n);
		for(int i=0;i<n;i++) { PetscInt I=i; MatGetValues(M,1,&I,n,c.data(),row.data()); for(int j=0;j<n;j++) J(i,j)=row[j]; }
		MatDestroy(&M); VecDestroy(&v); return J;
	}
	double norm(const VX& r) const { double s=0; for(int i=0;i<nc();i++) s+=r[i*N+N-1]*r[i*N+N-1]*m->garea(i); return std::sqrt(s); }
};

struct FlowProb { LibFlow L; Prob<4> p; VX u0;
	FlowProb(const GenMesh& g, const ref::Cfg& c, const std::vector<V4>& u) : L(g,c) { p.m=&L.m; p.sp=L.sp.get(); p.u=L.u; u0.resize(u.size()*4); for(size_t i=0;i<u.size();i++) for(int v=0;v<4;v++) u0[i*4+v]=u[i][v]; p.set(u0); } };
struct DiffProb { UMesh<freal,2> m; std::unique_ptr<DiffusionMA<1>> sp; Prob<1> p; VX u0;
	DiffProb(Src& s, const GenMesh& g) : m(buildMesh(g)) {
		Quiet q; const double k=s.real(-2,2), b=s.realz(-1,1,0), nu=s.logreal(0.01,10);
		sp.reset(new DiffusionMA<1>(&m,nu,b,[k](const freal *const x,const freal,const freal *const,freal *const o){ o[0]=k*std::cos(x[0])+x[1]; },s.pick<const char*>({"NONE","LEASTSQUARES"})));
		p.m=&m; p.sp=sp.get(); createGhostedSystemVector(&m,1,&p.u); u0.resize(m.gnelem()); for(int i=0;i<u0.size();i++) u0[i]=s.real(-2,2); p.set(u0);
		s.desc<<"diffusion nu="<<nu<<" b="<<b<<" k="<<k<<" "; }
	~DiffProb() { VecDestroy(&p.u); } };

struct Outcome { int ierr=-1; std::string exc; TimingData td; VX u; };
template <class F> void guarded(Outcome& o, F f) {
	try { o.ierr=f(); } catch(const Tolerance_error&) { o.exc="tolerance"; } catch(const Numerical_error&) { o.exc="numerical"; } catch(const std::exception& e) { o.exc=std::string("other: ")+e.what(); }
}

struct Model { VX u; std::vector<double> norms, cfl; std::string exc; bool close=false; int steps=0; bool linfail=false; double dumag=0; };
double ramp(double lo, double hi, double prev, double ratio, double up, double down) { const double n=prev*std::pow(ratio, ratio>1?up:down); return n<lo?lo:n>hi?hi:n; }

/// Forward Euler, as documented: constant CFL, local time steps
template <int N> Model modelExplicit(const Prob<N>& p, const VX& u0, double cfl, double tol, int maxiter) {
	Model M; M.u=u0; double r0=1, resi=1;
	while(M.steps<maxiter && resi/r0>tol) {
		VX dt; const VX r=p.res(M.u,&dt);
		for(int i=0;i<p.nc();i++) for(int v=0;v<N;v++) M.u[i*N+v]+=cfl*dt[i]/p.m->garea(i)*r[i*N+v];
		resi=p.norm(r); if(M.steps==0) r0=resi; M.steps++; M.norms.push_back(resi);
		if(!std::isfinite(resi)) { M.exc="numerical"; return M; }
		if(std::fabs(resi/r0/tol-1)<1e-7) M.close=true;
	}
	if(maxiter>0 && resi/r0>tol) M.exc="tolerance";
	return M;
}
/// Backward Euler: (V/(cfl dt) + J) du = r, u += omega du, CFL by residual ratio
template <int N> Model modelImplicit(const Prob<N>& p, const VX& u0, double c0, double c1, double tol, int maxiter, const NonlinearUpdate<N> *nl, bool matfree) {
	Model M; M.u=u0; double r0=1, resi=1, resold=1, cfl=0;
	while(M.steps<maxiter && resi/r0>tol) {
		VX dt; const VX r=p.res(M.u,&dt); if(!std::isfinite(p.norm(r))) { M.close=true; return M; }
		if(M.steps==0) { VX sc(r.size()); for(int i=0;i<p.nc();i++) for(int v=0;v<N;v++) sc[i*N+v]=p.m->garea(i)/dt[i]*M.u[i*N+v]; if(p.norm(r)>0 && p.norm(r)<1e-7*p.norm(sc)) { M.close=true; return M; } } // nothing but rounding to start with
		MX A;
		if(!matfree) A=p.jac(M.u);
		else { const int n=M.u.size(); A.resize(n,n); for(int j=0;j<n;j++) { const double h=1e-6*std::max(0.1,std::fabs(M.u[j])); VX a=M.u,b=M.u; a[j]+=h; b[j]-=h; const VX ra=p.res(a,nullptr), rb=p.res(b,nullptr); A.col(j)=-(ra-rb)/(2*h);
			if(!((ra+rb-2*r).template lpNorm<Eigen::Infinity>()<=1e-3*h*A.col(j).template lpNorm<Eigen::Infinity>()+1e-12*r.template lpNorm<Eigen::Infinity>())) { M.close=true; return M; } } } // no derivative here
		cfl=ramp(c0,c1,cfl,resold/resi,0.25,0.3);
		for(int i=0;i<p.nc();i++) for(int v=0;v<N;v++) A(i*N+v,i*N+v)+=p.m->garea(i)/(cfl*dt[i]);
		Eigen::PartialPivLU<MX> lu(A); const VX du=lu.solve(r);
		if(!((A*du-r).norm()<=1e-9*r.norm())) { M.linfail=true; return M; }
		if(!(lu.rcond()>1e-9)) { M.linfail=true; return M; }
		for(int i=0;i<p.nc();i++) { const double om=nl->getLocalRelaxationFactor(&du[i*N],&M.u[i*N]); for(int v=0;v<N;v++) { M.u[i*N+v]+=om*du[i*N+v]; M.dumag=std::max(M.dumag,std::fabs(du[i*N+v])); } }
		resold=resi; resi=p.norm(r); if(M.steps==0) r0=resi; M.steps++; M.norms.push_back(resi); M.cfl.push_back(cfl);
		if(std::fabs(resi/r0/tol-1)<1e-3) M.close=true;
		if(resi/r0<1e-7 && resi/r0>tol) { M.close=true; return M; } // what follows is driven by rounding
		for(int i=0;i<M.u.size();i++) if(!std::isfinite(M.u[i])||std::fabs(M.u[i])>1e6) { M.close=true; return M; }
	}
	if(maxiter>0 && resi/r0>tol) M.exc="tolerance";
	return M;
}
/// chooses a tolerance that is met at some step of the history, or never
double pickTol(Src& s, const std::vector<double>& n) {
	if(n.empty()||!(n[0]>0)) return 1e-3;
	const int k=s.irange(0,(int)n.size()); if(k==(int)n.size()) return 1e-14;
	const double t=n[k]/n[0]*s.pick<double>({1.001,1.3}); return std::isfinite(t)&&t>0 ? t : 1e-14;
}
/// what the solver prints as it goes is what happened
void checkConsole(const std::string& out, const Model& M, double tolv) {
	std::istringstream in(out); std::string line; int last=0;
	while(std::getline(in,line)) { std::istringstream ls(line); std::vector<std::string> t; std::string x; while(ls>>x) t.push_back(x); if(t.size()<5) continue;
		char *e; const long k=strtol(t[0].c_str(),&e,10); if(*e) continue; double v[4]; bool num=true; for(int j=0;j<4;j++) { v[j]=strtod(t[j+1].c_str(),&e); num=num&&!*e; } if(!num) continue;
		PBT_CHECK(k>=1&&k<=M.steps,"console-step","prints a line for step "<<k<<" of a solve of "<<M.steps<<" steps: "<<line); last=k; const double n=M.norms[k-1];
		if(!(n>1e-30&&n<1e30&&n/M.norms[0]<1e30&&n>1e-6*M.norms[0])) continue;
		PBT_CHECK(std::fabs(v[1]-std::log10(n))<=tolv+2e-5*std::fabs(v[1])&&std::fabs(v[0]-std::log10(n/M.norms[0]))<=tolv+2e-5*std::fabs(v[0]),"console-residual","prints "<<line<<" for a residual of "<<n<<", "<<n/M.norms[0]<<" of the first"); }
	PBT_CHECK(last==M.steps,"console-last","the last step printed is "<<last<<" of "<<M.steps);
}
void checkHistory(const TimingData& td, const Model& M, bool lognres, bool implicit, double tolv) {
	PBT_CHECK(td.num_timesteps==M.steps,"steps","reports "<<td.num_timesteps<<" steps instead of "<<M.steps);
	if(!lognres) return;
	PBT_CHECK((int)td.convhis.size()==M.steps,"history-length","history has "<<td.convhis.size()<<" entries for "<<M.steps<<" steps");
	for(int k=0;k<M.steps;k++) { const auto& h=td.convhis[k];
		PBT_CHECK(h.step==k+1,"history-step","entry "<<k<<" has step "<<h.step);
		if(!(M.norms[k]<1e30 && M.norms[k]/M.norms[0]<1e30)) continue; // the history is in single precision
		PBT_CHECK(std::fabs(h.absrmsres-M.norms[k])<=tolv*M.norms[k]+(implicit?1e-9*M.norms[0]:0)+1e-30,"history-residual","step "<<k+1<<": residual "<<h.absrmsres<<" expected "<<M.norms[k]);
		if(M.norms[0]>0) PBT_CHECK(std::fabs(h.rmsres-M.norms[k]/M.norms[0])<=tolv*M.norms[k]/M.norms[0]+(implicit?1e-9:0)+1e-30,"history-ratio","step "<<k+1<<": relative residual "<<h.rmsres<<" expected "<<M.norms[k]/M.norms[0]);
		if(k) PBT_CHECK(h.linits>=td.convhis[k-1].linits && h.odewalltime>=td.convhis[k-1].odewalltime && h.linwalltime>=td.convhis[k-1].linwalltime,"history-cumulative","cumulative quantities decrease at step "<<k+1);
	}
}

/* Problems that magnify rounding (a start at an equilibrium, a face along the flow where in- and outflow conditions meet) say
 * nothing about the solver. Asked only when the solver and its model part. */
template <int N> bool amplifies(const VX& u0, const std::function<Model(const VX&)>& run, const std::function<double(const VX&,int)>& allowed) {
	double sc[N]; for(int v=0;v<N;v++) sc[v]=1e-300; for(int i=0;i<u0.size();i++) sc[i%N]=std::max(sc[i%N],std::fabs(u0[i])); if(N==4) sc[1]=sc[2]=std::sqrt(sc[0]*sc[3]);
	const Model a=run(u0);
	for(int k=0;k<8;k++) { VX w=u0; for(int i=0;i<w.size();i++) { unsigned h=(unsigned)(i*2654435761u+k*40503u); h^=h>>13; h*=2246822519u; w[i]+=(k<3?1e-15:k<6?1e-14:1e-13)*sc[i%N]*((int)((h>>8)%5)-2); }
		const Model b=run(w); if(b.steps!=a.steps||b.exc!=a.exc||b.close||b.linfail) return true;
		for(int i=0;i<a.u.size();i++) if(!(std::fabs(a.u[i]-b.u[i])<=allowed(a.u,i))) return true; }
	return false;
}
template <int N> void explicitCase(Src& s, Prob<N>& p, const VX& u0) {
	const double cfl = s.chance(1,10) ? s.logreal(1,100) : s.real(0.05,0.9); const bool lng=p.nc()<20&&s.chance(1,40); if(lng) s.label("many steps"); const int maxiter=s.chance(1,20)?0:lng?s.irange(13,300):s.irange(1,12); const bool log=s.chance(1,2);
	Model probe=modelExplicit(p,u0,cfl,0,maxiter); const double tol=lng&&s.chance(1,2)?1e-30:pickTol(s,probe.norms);
	const Model M=modelExplicit(p,u0,cfl,tol,maxiter); if(M.close) { s.label("ratio at the tolerance"); return; }
	s.desc<<" forward Euler cfl "<<cfl<<" tol "<<tol<<" maxiter "<<maxiter<<" model steps "<<M.steps<<(M.exc.empty()?" converges":" "+M.exc);
	s.label(M.exc.empty()?"converges":M.exc); s.nontrivial(M.steps>1);
	if(M.steps==maxiter&&M.exc.empty()) s.label("met on the last step");
	SteadySolverConfig c; c.lognres=log; c.logfile="none"; c.write_final_lin_sys=false; c.cflinit=cfl; c.cflfin=cfl*s.pick<double>({1,10}); c.rampstart=0; c.rampend=1; c.tol=tol; c.maxiter=maxiter;
	const bool again=!lng&&s.chance(1,6); Outcome o; std::unique_ptr<SteadyForwardEulerSolver<N>> sv;
	std::string said; { Quiet q; sv.reset(new SteadyForwardEulerSolver<N>(p.sp,p.u,c)); guarded(o,[&]{ return sv->solve(p.u); }); said=q.sink.str(); }
	o.td=sv->getTimingData(); o.u=p.get();
	try {
	PBT_CHECK(o.exc==M.exc,"outcome","forward Euler ended with '"<<o.exc<<"', expected '"<<M.exc<<"' after "<<M.steps<<" steps");
	if(M.exc.empty()) PBT_CHECK(o.ierr==0,"error-code","returned "<<o.ierr);
	if(maxiter==0) { PBT_CHECK(o.u==u0,"no-iterations","the state changed although no iterations were to be done"); return; }
	if(M.exc=="numerical") return;
	PBT_CHECK(o.td.converged==M.exc.empty(),"converged-flag","converged flag is "<<o.td.converged);
	PBT_CHECK(o.td.nelem==p.nc(),"nelem","problem size "<<o.td.nelem);
	checkHistory(o.td,M,log,false,1e-6); checkConsole(said,M,1e-4);
	for(int i=0;i<o.u.size();i++) if(std::isfinite(M.u[i])) PBT_CHECK(std::fabs(o.u[i]-M.u[i])<=1e-9*(std::fabs(M.u[i])+std::fabs(M.u[i]-u0[i])),"explicit-state","unknown "<<i<<" is "<<o.u[i]<<" instead of "<<M.u[i]<<" after "<<M.steps<<" steps");
	if(again) { s.label("solved again"); p.set(u0); Outcome b; { Quiet q; guarded(b,[&]{ return sv->solve(p.u); }); } b.u=p.get();
		PBT_CHECK(b.exc==M.exc&&sv->getTimingData().converged==M.exc.empty()&&sv->getTimingData().num_timesteps==M.steps,"again-outcome","solving again from the same state ended with '"<<b.exc<<"' after "<<sv->getTimingData().num_timesteps<<" steps, expected '"<<M.exc<<"' after "<<M.steps);
		for(int i=0;i<b.u.size();i++) if(std::isfinite(M.u[i])) PBT_CHECK(std::fabs(b.u[i]-M.u[i])<=1e-9*(std::fabs(M.u[i])+std::fabs(M.u[i]-u0[i])),"explicit-again","solved again, unknown "<<i<<" is "<<b.u[i]<<" instead of "<<M.u[i]); }
	} catch(const pbt::Fail&) { if(maxiter>0&&amplifies<N>(u0,[&](const VX& w) { return modelExplicit(p,w,cfl,tol,maxiter); },[&](const VX& m, int i) { return 1e-9*(std::fabs(m[i])+std::fabs(m[i]-u0[i])); })) { s.label("amplifies rounding"); return; } throw; }
}
struct Ksp { KSP k=NULL; Mat M=NULL,A=NULL; bool exact=false; ~Ksp() { KSPDestroy(&k); MatDestroy(&M); MatDestroy(&A); } };
template <int N> void setKsp(Src& s, Ksp& K, const Prob<N>& p, bool mf) {
	setupSystemMatrix<N>(p.m,&K.M); if(mf) create_matrixfree_jacobian<N>(p.sp,&K.A);
	KSPCreate(PETSC_COMM_WORLD,&K.k); KSPSetOperators(K.k,mf?K.A:K.M,K.M); KSPSetType(K.k,KSPGMRES); KSPGMRESSetRestart(K.k,200); KSPSetTolerances(K.k,mf?1e-9:1e-11,1e-300,1e10,1000);
	PC pc; KSPGetPC(K.k,&pc);
	// mostly solved exactly, so that the outcome is decided by the nonlinear iteration alone
	K.exact=!s.chance(1,4);
	if(K.exact) { PCSetType(pc,PCBJACOBI); KSPSetOptionsPrefix(K.k,"vx_"); PetscOptionsSetValue(NULL,"-vx_sub_pc_type","lu"); KSPSetFromOptions(K.k); }
	else PCSetType(pc,s.pick<const char*>({PCBJACOBI,PCJACOBI,PCNONE}));
}
template <int N> void implicitCase(Src& s, Prob<N>& p, const VX& u0, const NonlinearUpdate<N> *nl, bool mf, const std::string& lin) {
	const bool lng=!mf&&p.nc()<10&&s.chance(1,15); if(lng) s.label("many steps"); const double c0=lng?s.logreal(0.02,1):s.logreal(0.2,50), c1=c0*(lng?s.logreal(1,4):s.logreal(1,1000)); const int maxiter=s.chance(1,20)?0:lng?s.irange(6,s.chance(1,2)?200:50):s.irange(1,mf?2:5); const bool log=s.chance(2,3);
	Model probe=modelImplicit(p,u0,c0,c1,0,maxiter,nl,mf); if(probe.linfail||probe.norms.empty()&&maxiter) { s.label("skipped"); return; }
	const double tol=lng&&s.chance(1,2)?1e-30:pickTol(s,probe.norms);
	const Model M=modelImplicit(p,u0,c0,c1,tol,maxiter,nl,mf); if(M.close||M.linfail) { s.label("ratio at the tolerance"); return; }
	s.desc<<" backward Euler cfl "<<c0<<".."<<c1<<" tol "<<tol<<" maxiter "<<maxiter<<(mf?" matrix-free":"")<<" model steps "<<M.steps<<(M.exc.empty()?" converges":" "+M.exc);
	s.label(M.exc.empty()?"converges":M.exc); s.label(mf?"matrix-free":"assembled"); s.nontrivial(M.steps>(mf?0:1)); if(M.steps==maxiter&&M.exc.empty()&&maxiter) s.label("met on the last step");
	SteadySolverConfig c; c.lognres=log; c.logfile=lin; c.write_final_lin_sys=!lin.empty(); c.cflinit=c0; c.cflfin=c1; c.rampstart=0; c.rampend=1; c.tol=tol; c.maxiter=maxiter;
	Ksp K; setKsp(s,K,p,mf);
	const bool again=!lng&&s.chance(1,6); Outcome o; std::unique_ptr<SteadyBackwardEulerSolver<N>> sv;
	std::string said; { Quiet q; sv.reset(new SteadyBackwardEulerSolver<N>(p.sp,c,K.k,nl)); guarded(o,[&]{ return sv->solve(p.u); }); said=q.sink.str(); }
	o.td=sv->getTimingData(); o.u=p.get();
	if(M.steps>0) { KSPConvergedReason why; KSPGetConvergedReason(K.k,&why); if(why<=0) { s.label("linear solver failed "+std::to_string((int)why)); s.nontriv=false; return; } }
	try {
	PBT_CHECK(o.exc==M.exc,"outcome","backward Euler ended with '"<<o.exc<<"', expected '"<<M.exc<<"' after "<<M.steps<<" steps");
	if(M.exc.empty()) PBT_CHECK(o.ierr==0,"error-code","returned "<<o.ierr);
	if(maxiter==0) { PBT_CHECK(o.u==u0,"no-iterations","the state changed although no iterations were to be done"); return; }
	PBT_CHECK(o.td.converged==M.exc.empty(),"converged-flag","converged flag is "<<o.td.converged);
	const double tr=mf?1e-3:K.exact?1e-6:1e-4, tolu=tr*(M.dumag+1e-6), th=std::max(tr,1e-4); 
	checkHistory(o.td,M,log,true,th); checkConsole(said,M,th);
	if(M.steps==0) PBT_CHECK(o.td.avg_lin_iters==0&&o.td.total_lin_iters==0,"linear-iterations","reports "<<o.td.avg_lin_iters<<" linear iterations on average, "<<o.td.total_lin_iters<<" in all, though it took no steps");
	else PBT_CHECK(std::abs(o.td.avg_lin_iters-o.td.total_lin_iters/(double)M.steps)<=1,"linear-iterations","reports "<<o.td.avg_lin_iters<<" linear iterations on average, "<<o.td.total_lin_iters<<" in all, in "<<M.steps<<" steps");
	if(log) for(int k=0;k<M.steps;k++) {
		const double f=o.td.convhis[k].cfl;
		PBT_CHECK(std::fabs(f-M.cfl[k])<=2*th*M.cfl[k],"cfl","step "<<k+1<<": CFL "<<f<<" expected "<<M.cfl[k]);
	}
	for(int i=0;i<o.u.size();i++) PBT_CHECK(std::fabs(o.u[i]-M.u[i])<=tolu,"implicit-state","unknown "<<i<<" is "<<o.u[i]<<" instead of "<<M.u[i]<<" after "<<M.steps<<" steps (largest update "<<M.dumag<<")");
	if(again) { s.label("solved again"); p.set(u0); Outcome b; { Quiet q; guarded(b,[&]{ return sv->solve(p.u); }); } b.u=p.get(); bool lin=true; if(M.steps>0) { KSPConvergedReason why; KSPGetConvergedReason(K.k,&why); lin=why>0; }
		if(lin) { PBT_CHECK(b.exc==M.exc&&sv->getTimingData().converged==M.exc.empty()&&sv->getTimingData().num_timesteps==M.steps,"again-outcome","solving again from the same state ended with '"<<b.exc<<"' after "<<sv->getTimingData().num_timesteps<<" steps, expected '"<<M.exc<<"' after "<<M.steps);
			for(int i=0;i<b.u.size();i++) PBT_CHECK(std::fabs(b.u[i]-M.u[i])<=tolu,"implicit-again","solved again, unknown "<<i<<" is "<<b.u[i]<<" instead of "<<M.u[i]<<" (largest update "<<M.dumag<<")"); } }
	} catch(const pbt::Fail&) { if(maxiter>0&&amplifies<N>(u0,[&](const VX& w) { return modelImplicit(p,w,c0,c1,tol,maxiter,nl,mf); },[&](const VX&, int) { return (mf?1e-3:K.exact?1e-6:1e-4)*(M.dumag+1e-6); })) { s.label("amplifies rounding"); return; } throw; }
	if(!lin.empty()&&!mf&&M.steps>0) {
		// the last linear system, as written
		Mat A; Vec b,x,y; PetscViewer v; MatCreate(PETSC_COMM_SELF,&A); MatSetType(A,MATAIJ);
		auto open=[&](const std::string& f) { PetscErrorCode e=PetscViewerBinaryOpen(PETSC_COMM_SELF,f.c_str(),FILE_MODE_READ,&v); PBT_CHECK(!e,"linear-system-file","cannot read "<<f); };
		open(lin+"_lhs.pmat"); MatLoad(A,v); PetscViewerDestroy(&v); VecCreate(PETSC_COMM_SELF,&b); VecCreate(PETSC_COMM_SELF,&x);
		open(lin+"_b.pmat"); VecLoad(b,v); PetscViewerDestroy(&v); open(lin+"_x.pmat"); VecLoad(x,v); PetscViewerDestroy(&v);
		PetscInt nr; MatGetSize(A,&nr,NULL); PBT_CHECK(nr==o.u.size(),"linear-system-size","the matrix written has "<<nr<<" rows for "<<o.u.size()<<" unknowns");
		double bn,e; VecDuplicate(b,&y); MatMult(A,x,y); VecAXPY(y,-1,b); VecNorm(b,NORM_2,&bn); VecNorm(y,NORM_2,&e);
		PBT_CHECK(e<=1e-8*bn,"linear-system","the system written is not solved by the solution written: residual "<<e<<", right hand side "<<bn);
		VecDestroy(&b); VecDestroy(&x); VecDestroy(&y); MatDestroy(&A); s.label("linear system written");
	}
}
GenOpts meshOpts(Src& s, int maxn, int tail=0) { GenOpts o; o.maxn=maxn; o.tail=tail; o.tailodds=400; o.maxstretch=s.chance(1,6)?10:2; o.ndtagmax=1; o.nbtagmax=1; return o; }
std::unique_ptr<const NonlinearUpdate<4>> genUpdate(Src& s, const ref::Cfg& c) {
	FlowParserOptions o{}; o.gamma=c.g; o.Minf=c.M; o.Tinf=c.Tinf; o.Reinf=c.Re; o.Pr=c.Pr; o.min_nl_update=s.chance(1,8)?1:s.real(0.05,0.99); o.nl_update_scheme=s.pick<const char*>({"FULL","ROBUST_FLOW"}); s.label(o.nl_update_scheme);
	return std::unique_ptr<const NonlinearUpdate<4>>(create_const_nonlinearUpdateScheme<4>(o));
}
}

RELATION(T01,forward_euler,15000,150000,"more than one step is taken") {
	if(s.chance(1,4)) { const GenMesh g=genMesh(s,meshOpts(s,4,20)); DiffProb d(s,g); s.label("diffusion"); explicitCase<1>(s,d.p,d.u0); s.desc<<g.summary(); }
	else { const GenMesh g=genMesh(s,meshOpts(s,4,20)); FlowOpts fo; fo.amp=0.1; const ref::Cfg c=genCfg(s,g,fo); const auto u=genField(s,g,c,fo); s.label("flow"); s.desc<<str(c)<<" "<<g.summary(); FlowProb P(g,c,u); explicitCase<4>(s,P.p,P.u0); }
}
RELATION(T02,backward_euler,10000,100000,"more than one step is taken, or a matrix-free one") {
	const MatStorage st(s);
	const bool wr=s.chance(1,8); const std::string f = wr ? pbt::scratchDir()+"/lin" : "";
	if(s.chance(1,4)) { const GenMesh g=genMesh(s,meshOpts(s,3,7)); DiffProb d(s,g); s.label("diffusion"); FullUpdate<1> nl; implicitCase<1>(s,d.p,d.u0,&nl,false,f); s.desc<<g.summary(); }
	else { const GenMesh g=genMesh(s,meshOpts(s,3,7)); FlowOpts fo; fo.amp=0.1; fo.Relo=50; fo.Mlo=0.3; fo.Mhi=1.5; const bool mf=s.chance(1,4);
		if(mf) { fo.order=1; fo.fluxes={"VANLEER","HLLC","ROE","LLF"}; }
		const ref::Cfg c=genCfg(s,g,fo); const auto u=genField(s,g,c,fo); s.label("flow"); s.desc<<str(c)<<" "<<g.summary(); FlowProb P(g,c,u); const auto nl=genUpdate(s,c); implicitCase<4>(s,P.p,P.u0,nl.get(),mf,f); }
}

RELATION(T03,update_factor,60000,2000000,"a ROBUST_FLOW factor strictly between its bounds or limited by the minimum") {
	const double g=s.chance(1,3)?s.real(1.05,2.5):1.4, mf=s.chance(1,10)?1.0:s.logreal(1e-3,1);
	ref::Cfg c; c.g=g; c.M=s.logreal(0.05,5); c.Tinf=288; c.Re=100; c.Pr=0.7;
	const IdealGasPhysics<freal> phy((freal)c.g,(freal)c.M,288,100,0.7);
	const V4 u=fromPrim(g,s.logreal(0.01,100),s.realz(-3,3,0),s.realz(-3,3,0),s.logreal(0.01,100)); V4 du; const double a=s.logreal(1e-6,10);
	const int which=s.irange(0,2); for(int v=0;v<4;v++) du[v]=a*s.realz(-1,1,0)*(v==0?u[0]:v==3?u[3]:std::sqrt(u[0]*u[3])); if(which==1) du[1]=du[2]=du[3]=0; if(which==2) du[0]=0;
	FlowParserOptions o{}; o.gamma=g; o.Minf=c.M; o.Tinf=288; o.Reinf=100; o.Pr=0.7; o.min_nl_update=mf; o.nl_update_scheme="ROBUST_FLOW";
	std::unique_ptr<const NonlinearUpdate<4>> nl(create_const_nonlinearUpdateScheme<4>(o)); FlowParserOptions of=o; of.nl_update_scheme="FULL"; std::unique_ptr<const NonlinearUpdate<4>> full(create_const_nonlinearUpdateScheme<4>(of));
	const double om=nl->getLocalRelaxationFactor(du.data(),u.data());
	s.desc<<"gamma "<<g<<" min "<<mf<<" u "<<str(u)<<" du "<<str(du)<<" factor "<<om;
	PBT_CHECK(full->getLocalRelaxationFactor(du.data(),u.data())==1,"full","the full update is relaxed");
	PBT_CHECK(om>=mf*(1-1e-14)&&om<=1,"update-range","factor "<<om<<" outside ["<<mf<<",1]");
	// the change of pressure is judged by the library's linearisation, which property G01 covers
	const double p=(double)ref::pres(LD(g),ref::cast<LD>(u)), dp=std::fabs(phy.getDeltaPressureFromConserved(u.data(),du.data()))/p, dr=std::fabs(du[0])/u[0], d=std::max(dp,dr);
	const double want=std::max(1-d,mf); s.nontrivial(d>1e-9); s.label(want>mf?"proportional":"minimum");
	PBT_CHECK(std::fabs(om-want)<=1e-10*(1+d),"update-factor","factor "<<om<<" expected "<<want);
	// never lets the density vanish or change by more than the relative change asked for times the factor
	if(d<1) PBT_CHECK(u[0]+om*du[0]>0,"update-density","relaxed update makes the density "<<u[0]+om*du[0]);
}
RELATION(T03,update_factor_refused,500,5000,"always") {
	FlowParserOptions o{}; o.gamma=1.4; o.Minf=0.5; o.Tinf=288; o.Reinf=100; o.Pr=0.7; const bool bad=s.chance(1,2);
	o.min_nl_update = bad ? s.pick<double>({0,-1,1.0000001,2,-1e-9,1e9}) : s.real(1e-6,1); o.nl_update_scheme=s.pick<const char*>({"ROBUST_FLOW","FULL","NONE","full",""}); const bool known=o.nl_update_scheme=="ROBUST_FLOW"||o.nl_update_scheme=="FULL";
	s.desc<<o.nl_update_scheme<<" "<<o.min_nl_update; s.nontrivial();
	bool threw=false; try { std::unique_ptr<const NonlinearUpdate<4>> n(create_const_nonlinearUpdateScheme<4>(o)); } catch(const std::exception&) { threw=true; }
	PBT_CHECK(threw==(!known||(bad&&o.nl_update_scheme=="ROBUST_FLOW")),"update-refused",(threw?"refused ":"accepted ")<<o.nl_update_scheme<<" with minimum "<<o.min_nl_update);
}

RELATION(T04,tvdrk,8000,120000,"at least two steps of order two or three") {
	const GenMesh g=genMesh(s,meshOpts(s,4,20)); FlowOpts fo; fo.amp=0.1; const ref::Cfg c=genCfg(s,g,fo); const auto u=genField(s,g,c,fo); const int order=s.irange(1,3); const double cfl=s.real(0.05,0.6);
	s.desc<<str(c)<<" order "<<order<<" cfl "<<cfl<<" "<<g.summary(); s.label("order"+std::to_string(order));
	FlowProb P(g,c,u); const bool lng=g.cells.size()<20&&s.chance(1,60); if(lng) s.label("many steps"); const int want=lng?s.irange(5,160):s.irange(0,4);
	static const double C[3][3][3]={{{1,0,1}},{{1,0,1},{.5,.5,.5}},{{1,0,1},{.75,.25,.25},{1./3,2./3,2./3}}};
	VX x=P.u0; double t=0; std::vector<double> times; const int nc=P.p.nc();
	auto step=[&](VX& x) { VX st=x; double h=0; for(int k=0;k<order;k++) { VX dt; const VX r=P.p.res(st,&dt); if(!k) h=dt.allFinite()?dt.minCoeff()*cfl:NAN; for(int i=0;i<nc;i++) for(int v=0;v<4;v++) st[i*4+v]=C[order-1][k][0]*x[i*4+v]+C[order-1][k][1]*st[i*4+v]+C[order-1][k][2]*h/P.p.m->garea(i)*r[i*4+v]; } x=st; return h; };
	double h=0; for(int k=0;k<want;k++) { h=step(x); t+=h; if(!std::isfinite(t)||!x.allFinite()) { s.label("diverges"); return; } }
	const double fin = want==0 ? 0 : t-h*s.real(0.05,0.95); if(want&&fin<=0) return;
	if(want&&h<1e-9) { s.label("steps near the solver's time tolerance of 1e-12"); return; }
	s.nontrivial(want>=2&&order>=2);
	Outcome o; const std::string log=pbt::scratchDir()+"/tvd.log";
	const bool again=!lng&&s.chance(1,6); if(again) s.label("solved again");
	{ Quiet q; TVDRKSolver<4> sv(P.p.sp,P.p.u,order,log,cfl); if(again) { Outcome b; guarded(b,[&]{ return sv.solve(fin); }); P.p.set(P.u0); } guarded(o,[&]{ return sv.solve(fin); }); }
	PBT_CHECK(o.exc.empty()&&o.ierr==0,"tvdrk-outcome","ended with "<<o.exc<<" "<<o.ierr);
	o.u=P.p.get(); const auto run=[&](const VX& w) { Model M; M.u=w; for(int k=0;k<want;k++) step(M.u); return M; };
	for(int i=0;i<x.size();i++) if(!(std::fabs(o.u[i]-x[i])<=1e-9*(std::fabs(x[i])+std::fabs(x[i]-P.u0[i])))&&amplifies<4>(P.u0,run,[&](const VX& m, int j) { return 1e-9*(std::fabs(m[j])+std::fabs(m[j]-P.u0[j])); })) { s.label("amplifies rounding"); return; }
	for(int i=0;i<x.size();i++) PBT_CHECK(std::fabs(o.u[i]-x[i])<=1e-9*(std::fabs(x[i])+std::fabs(x[i]-P.u0[i])),"tvdrk-state","unknown "<<i<<" is "<<o.u[i]<<" instead of "<<x[i]<<" after "<<want<<" steps to time "<<fin);
}

RELATION(T05,case_driver,3000,40000,"the case was run with a starter or converged") {
	const MatStorage st(s);
	const GenMesh g=genMesh(s,meshOpts(s,3)); FlowOpts fo; fo.amp=0.05; fo.Relo=50; fo.Mlo=0.3; fo.Mhi=0.9; fo.bcs={FARFIELD_BC,SLIP_WALL_BC,INFLOW_OUTFLOW_BC}; fo.fluxes={"LLF","ROE","HLLC","VANLEER","HLL"};
	const ref::Cfg c=genCfg(s,g,fo); const auto u=genField(s,g,c,fo); s.desc<<str(c)<<" "<<g.summary();
	FlowParserOptions o{}; const auto P=physConf(c); const auto Nn=numConf(c);
	o.gamma=c.g; o.Minf=c.M; o.Tinf=c.Tinf; o.Reinf=c.Re; o.Pr=c.Pr; o.alpha=c.aoa; o.viscsim=c.visc; o.useconstvisc=c.cvisc; o.flowtype=c.visc?"NAVIERSTOKES":"EULER"; o.bcconf=P.bcconf;
	o.invflux=c.flux; o.invfluxjac=c.jflux; o.gradientmethod=c.grad; o.limiter=c.rec; o.limiter_param=c.lim; o.order2=c.order2;
	const bool imp=s.chance(2,3), mf=imp&&s.chance(1,6); o.pseudotimetype=imp?"IMPLICIT":"EXPLICIT"; o.usestarter=s.chance(1,2)?1:0;
	o.initcfl=imp?s.logreal(1,100):s.real(0.1,0.5); o.endcfl=o.initcfl*s.logreal(1,100); o.firstinitcfl=imp?s.logreal(1,100):s.real(0.1,0.5); o.firstendcfl=o.firstinitcfl*s.logreal(1,100);
	o.tolerance=s.logreal(1e-6,0.5); o.firsttolerance=s.logreal(1e-3,0.5); o.maxiter=s.irange(1,imp?10:40); o.firstmaxiter=s.irange(1,imp?5:20);
	o.rampstart=o.rampend=o.firstrampstart=o.firstrampend=0; o.lognres=s.chance(1,2); o.write_final_lin_sys=false; o.logfile=pbt::scratchDir()+"/case"; o.nl_update_scheme=s.pick<const char*>({"FULL","ROBUST_FLOW"}); o.min_nl_update=s.real(0.1,0.9);
	s.desc<<" "<<o.pseudotimetype<<(mf?" matrix-free":"")<<" starter "<<o.usestarter<<" cfl "<<o.initcfl<<" "<<o.endcfl<<" / "<<o.firstinitcfl<<" "<<o.firstendcfl<<" tol "<<o.tolerance<<" / "<<o.firsttolerance<<" maxiter "<<o.maxiter<<" / "<<o.firstmaxiter;
	struct PO { std::vector<std::string> k; void set(const char *a, const char *b) { PetscOptionsSetValue(NULL,a,b); k.push_back(a); } ~PO() { for(auto& x : k) PetscOptionsClearValue(NULL,x.c_str()); } } po;
	po.set("-ksp_type","gmres"); po.set("-ksp_rtol","1e-10"); po.set("-ksp_max_it","500"); po.set("-pc_type","jacobi"); po.set("-ksp_gmres_restart","200"); if(mf) po.set("-matrix_free_jacobian","");
	FlowProb A(g,c,u), B(g,c,u);
	ref::Cfg c1=c; c1.order2=false; FlowProb S(g,c1,u);
	// expected: the starter problem (first order) from u, then the main problem from its result
	VX x=B.u0; std::string expStart, expMain; TimingData td; bool numfail=false;
	auto solve=[&](Prob<4>& p, VX& x, double c0, double c1, double tol, int it, std::string& why) {
		SteadySolverConfig sc; sc.lognres=o.lognres; sc.logfile="none"; sc.write_final_lin_sys=false; sc.cflinit=c0; sc.cflfin=c1; sc.rampstart=sc.rampend=0; sc.tol=tol; sc.maxiter=it;
		p.set(x); Outcome r; Quiet q; std::unique_ptr<const NonlinearUpdate<4>> nl(create_const_nonlinearUpdateScheme<4>(o)); Ksp K;
		std::unique_ptr<SteadySolver<4>> sv;
		if(imp) { setupSystemMatrix<4>(p.m,&K.M); if(mf) create_matrixfree_jacobian<4>(p.sp,&K.A); KSPCreate(PETSC_COMM_WORLD,&K.k); KSPSetOperators(K.k,mf?K.A:K.M,K.M); KSPSetFromOptions(K.k); sv.reset(new SteadyBackwardEulerSolver<4>(p.sp,sc,K.k,nl.get())); }
		else sv.reset(new SteadyForwardEulerSolver<4>(p.sp,p.u,sc));
		guarded(r,[&]{ return sv->solve(p.u); }); why=r.exc; td=sv->getTimingData(); x=p.get(); };
	if(o.usestarter) solve(S.p,x,o.firstinitcfl,o.firstendcfl,o.firsttolerance,o.firstmaxiter,expStart);
	if(expStart=="numerical") { s.label("starter diverges"); Outcome r; SteadyFlowCase fc(o); Quiet q; guarded(r,[&]{ return fc.run(A.L.m,A.p.u); });
		PBT_CHECK(!r.exc.empty()||r.ierr!=0,"diverged-starter","the starter diverges and the case reports success"); return; }
	const VX xs=x;
	solve(B.p,x,o.initcfl,o.endcfl,o.tolerance,o.maxiter,expMain);
	numfail=expMain=="numerical"; s.label(expMain.empty()?"converges":expMain); s.label(imp?"implicit":"explicit"); s.nontrivial(o.usestarter||expMain.empty());
	Outcome r; const int how=s.irange(0,1);
	SteadyFlowCase fc(o);
	if(how==0) { Quiet q; guarded(r,[&]{ return fc.run(A.L.m,A.p.u); }); r.u=A.p.get();
		PBT_CHECK(r.exc==(expMain.empty()?"":"tolerance"),"case-outcome","run() ended with '"<<r.exc<<"', the main solve with '"<<expMain<<"'"); }
	else { Quiet q; guarded(r,[&]{ return fc.execute_starter(A.p.sp,A.p.u); }); PBT_CHECK(r.exc.empty()&&r.ierr==0,"starter-outcome","the starter ended with '"<<r.exc<<"'");
		r.u=A.p.get(); for(int i=0;i<x.size();i++) PBT_CHECK(std::fabs(r.u[i]-xs[i])<=1e-9*(1+std::fabs(xs[i])),"starter-state","after the starter unknown "<<i<<" is "<<r.u[i]<<" instead of "<<xs[i]);
		TimingData t2; guarded(r,[&]{ t2=fc.execute_main(A.p.sp,A.p.u); return 0; }); r.u=A.p.get();
		PBT_CHECK(r.exc.empty(),"main-outcome","the main solve ended with '"<<r.exc<<"' although it reports failure to converge in its result");
		if(r.exc.empty()) { PBT_CHECK(t2.converged==expMain.empty(),"main-converged","reported converged "<<t2.converged<<" although it ended with '"<<expMain<<"'"); PBT_CHECK(t2.num_timesteps==td.num_timesteps||numfail,"main-steps",t2.num_timesteps<<" steps reported instead of "<<td.num_timesteps); } }
	if(!numfail) for(int i=0;i<x.size();i++) PBT_CHECK((std::isnan(r.u[i])&&std::isnan(x[i]))||std::fabs(r.u[i]-x[i])<=1e-9*(1+std::fabs(x[i])),"case-state","unknown "<<i<<" is "<<r.u[i]<<" instead of "<<x[i]);
	if(expMain.empty()) { // what converged is a solution of the discrete equations, by the reference discretisation
		std::vector<L4> U(u.size()), U0(u.size()); for(size_t i=0;i<u.size();i++) for(int v=0;v<4;v++) { U[i][v]=r.u[i*4+v]; U0[i][v]=xs[i*4+v]; }
		const ref::RMesh R=ref::rmesh(g); const auto e1=ref::residual(c,R,U), e0=ref::residual(c,R,U0);
		if(e1.ok&&e0.ok) { LD n1=0,n0=0,sc=0; for(size_t i=0;i<u.size();i++) { n1+=e1.r[i][3]*e1.r[i][3]*R.area[i]; n0+=e0.r[i][3]*e0.r[i][3]*R.area[i]; sc+=e0.scale[i][3]*e0.scale[i][3]*R.area[i]; }
			if(!c.order2) PBT_CHECK(std::sqrt(n1)<=100*o.tolerance*std::sqrt(n0)+1e-10L*std::sqrt(sc),"not-steady","said to have converged, but the residual fell from "<<(double)std::sqrt(n0)<<" to "<<(double)std::sqrt(n1)<<" for a tolerance of "<<o.tolerance); } }
}

int main(int argc, char *argv[]) { return pbt::engineMain(argc,argv); }
