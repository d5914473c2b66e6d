#include "flowcase.hpp"
namespace vc {
using namespace fvens;
using pbt::Src;

ref::Cfg genCfg(Src& s, const GenMesh& g, const FlowOpts& o) {
	ref::Cfg c;
	c.g = s.chance(1,4) ? s.real(1.1,2.0) : 1.4;
	c.M = s.chance(1,3) ? s.real(o.Mlo,o.Mhi) : s.pick<double>({0.5,0.2,1.5});
	if(c.M<o.Mlo||c.M>o.Mhi) c.M=(o.Mlo+o.Mhi)/2;
	c.Tinf=s.real(150,450); c.Re=s.logreal(o.Relo,o.Rehi); c.Pr=s.real(0.5,1);
	c.aoa=s.realz(-3.1,3.1,0);
	c.visc = o.visc>=0 ? o.visc : s.chance(1,2);
	c.cvisc = o.cviscOnly || s.chance(1,2);
	c.order2 = o.order ? o.order==2 : s.chance(2,3);
	c.flux=s.pickv(o.fluxes); c.jflux=s.pickv(o.jfluxes);
	c.grad = s.chance(1,12) ? "NONE" : s.chance(1,2) ? "GREENGAUSS" : "LEASTSQUARES";
	c.rec = s.pick<const char*>({"NONE","WENO","VANALBADA","BARTHJESPERSEN","VENKATAKRISHNAN"});
	c.lim = c.rec=="WENO" ? s.logreal(1,1000) : s.logreal(0.1,30);
	std::set<int> tags; for(const auto& b : g.bfs) tags.insert(b.tags[0]);
	for(int t=1;t<=8;t++) tags.insert(t);
	for(int t : tags) { ref::BSpec b; b.type=s.pickv(o.bcs);
		if(b.type==ADIABATIC_WALL_BC) b.v0=s.realz(-1,1,0);
		if(b.type==ISOTHERMAL_WALL_BC) { b.v0=s.realz(-1,1,0); b.v1=s.logreal(0.75,2); }
		if(b.type==SUBSONIC_INFLOW_BC) { const double M2=(double)(c.M*c.M); const double f=1+(double)(c.g-1)/2*M2; b.v1=f*s.logreal(0.95,1.05); b.v0=1/((double)c.g*M2)*std::pow(f,(double)(c.g/(c.g-1)))*s.logreal(0.95,1.05); }
		// bring the values to what the library's doubles hold
		b.v0=(double)b.v0; b.v1=(double)b.v1;
		c.bc[t]=b; }
	return c;
}

std::vector<V4> genField(Src& s, const GenMesh& g, const ref::Cfg& c, const FlowOpts& o) {
	const int nc=g.cells.size(); std::vector<V4> u;
	const double pi=(double)(1/(c.g*c.M*c.M));
	const int mode = o.uniform ? 0 : s.irange(1,3);
	const bool strong=o.strong&&s.chance(1,6); if(strong) s.label("strong jumps");
	const double amp=strong ? s.logreal(o.amp,10*o.amp) : s.logreal(1e-3,o.amp);
	double k[4][3]; for(auto& r : k) for(double& x : r) x=s.real(-3,3);
	double L=0; for(const auto& p : g.pts) L=std::max({L,std::fabs(p[0]-g.pts[0][0]),std::fabs(p[1]-g.pts[0][1])}); if(!(L>0)) L=1;
	for(int i=0;i<nc;i++) {
		const P2 x=g.centre(i); double d[4]={0,0,0,0};
		if(mode&1) for(int v=0;v<4;v++) d[v]+=amp*std::sin(k[v][0]*(x[0]-g.pts[0][0])/L+k[v][1]*(x[1]-g.pts[0][1])/L+k[v][2]);
		if(mode&2) for(int v=0;v<4;v++) d[v]+=amp*(mode==3?0.3:1)*s.realz(-1,1,0);
		u.push_back(fromPrim((double)c.g,std::exp(d[0]),(double)std::cos(c.aoa)+d[1],(double)std::sin(c.aoa)+d[2],pi*std::exp(d[3])));
	}
	return u;
}

FlowPhysicsConfig physConf(const ref::Cfg& c) {
	FlowPhysicsConfig p; p.gamma=c.g; p.Minf=c.M; p.Tinf=c.Tinf; p.Reinf=c.Re; p.Pr=c.Pr; p.aoa=c.aoa; p.viscous_sim=c.visc; p.const_visc=c.cvisc;
	for(const auto& b : c.bc) p.bcconf.push_back({b.first,b.second.type,{(double)b.second.v0,(double)b.second.v1},{}});
	return p;
}
FlowNumericsConfig numConf(const ref::Cfg& c) {
	FlowNumericsConfig n; n.conv_numflux=c.flux; n.conv_numflux_jac=c.jflux; n.gradientscheme=c.grad; n.reconstruction=c.rec; n.limiter_param=c.lim; n.order2=c.order2;
	return n;
}
std::string str(const ref::Cfg& c) {
	static const char *const N[]={"slip","farfield","inoutflow","inflow","extrapolation","periodic","isothermal","adiabatic"};
	std::ostringstream o; o.precision(6);
	o<<"gamma="<<c.g<<" M="<<c.M<<" Tinf="<<c.Tinf<<" Re="<<c.Re<<" Pr="<<c.Pr<<" aoa="<<c.aoa<<(c.visc?(c.cvisc?" viscous(const)":" viscous(Sutherland)"):" inviscid")<<" flux="<<c.flux<<" jflux="<<c.jflux
	 <<(c.order2?" order2 grad="+c.grad+" rec="+c.rec:std::string(" order1"))<<" lim="<<c.lim<<" bc:";
	for(const auto& b : c.bc) o<<" "<<b.first<<"="<<N[b.second.type]<<"("<<b.second.v0<<","<<b.second.v1<<")";
	return o.str();
}
std::vector<ref::L4> toL(const std::vector<V4>& u) { std::vector<ref::L4> o; for(const auto& x : u) o.push_back(ref::cast<ref::LD>(x)); return o; }

LibFlow::LibFlow(const GenMesh& g, const ref::Cfg& c) : m(buildMesh(g)) {
	Quiet q;
	sp.reset(create_const_flowSpatialDiscretization(&m,physConf(c),numConf(c)));
	createGhostedSystemVector(&m,NVARS,&u); createGhostedSystemVector(&m,NVARS,&r); createSystemVector(&m,1,&dt);
}
LibFlow::~LibFlow() { VecDestroy(&u); VecDestroy(&r); VecDestroy(&dt); }
void LibFlow::setState(const std::vector<V4>& s) {
	PetscScalar *a; VecGetArray(u,&a); for(size_t i=0;i<s.size();i++) for(int v=0;v<4;v++) a[i*4+v]=s[i][v]; VecRestoreArray(u,&a);
}
void LibFlow::warm(pbt::Src& s, const std::vector<V4>& u, bool jac) {
	const int k=s.irange(0,15); if(k<12) return;
	s.label("used before"); const int n=u.size(); const double f=s.logreal(0.2,5); std::vector<V4> w(n);
	for(int i=0;i<n;i++) { w[i]=u[n-1-i]; for(double& x : w[i]) x*=f; w[i][1]=-w[i][1]; }
	Quiet q; const int what=1+(k-12);
	try {
		if(what!=2) { setState(w); VecSet(r,0); sp->compute_residual(this->u,r,what&1,dt); }
		if(what>=2) { std::vector<fvens::GradBlock_t<freal,2,4>> gr(n+m.gnConnFace()); setState(w); sp->getGradients(this->u,&gr[0]); }
		if(jac&&what==3&&n<60) { Mat M=NULL; fvens::setupSystemMatrix<NVARS>(&m,&M); setState(w); sp->assemble_jacobian(this->u,M); MatAssemblyBegin(M,MAT_FINAL_ASSEMBLY); MatAssemblyEnd(M,MAT_FINAL_ASSEMBLY); MatDestroy(&M); }
	} catch(const std::exception&) { }
	VecSet(r,0); setState(u);
}
std::vector<V4> LibFlow::residual(const std::vector<V4>& s, std::vector<double> *dts, const std::vector<V4> *init) {
	setState(s);
	PetscScalar *a; VecSet(r,0);
	if(init) { VecGetArray(r,&a); for(size_t i=0;i<s.size();i++) for(int v=0;v<4;v++) a[i*4+v]=(*init)[i][v]; VecRestoreArray(r,&a); }
	if(dts) VecSet(dt,-1);
	const int ierr=sp->compute_residual(u,r,dts!=nullptr,dt);
	PBT_CHECK(ierr==0,"residual-error","compute_residual returned "<<ierr);
	std::vector<V4> o(s.size());
	VecGetArray(r,&a); for(size_t i=0;i<s.size();i++) for(int v=0;v<4;v++) o[i][v]=a[i*4+v]; VecRestoreArray(r,&a);
	if(dts) { dts->resize(s.size()); VecGetArray(dt,&a); for(size_t i=0;i<s.size();i++) (*dts)[i]=a[i]; VecRestoreArray(dt,&a); }
	VecGetArray(u,&a); for(size_t i=0;i<s.size();i++) for(int v=0;v<4;v++) PBT_CHECK(a[i*4+v]==s[i][v],"state-changed","compute_residual changed the state of cell "<<i); VecRestoreArray(u,&a);
	return o;
}
}
