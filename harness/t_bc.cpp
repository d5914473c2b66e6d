/* Boundary conditions: ghost states and their derivatives */
#include "common.hpp"
#include "refgas.hpp"
#include "refbc.hpp"
#include "spatial/abc.hpp"
#include "spatial/anumericalflux.hpp"
#include "utilities/afactory.hpp"
#include <memory>
#include <iostream>

using namespace vc;
using namespace fvens;
using ref::LD;
using pbt::Src;

namespace {
struct Quiet {
	std::streambuf *o; std::ostringstream sink;
	Quiet() : o(std::cout.rdbuf(sink.rdbuf())) {}
	~Quiet() { std::cout.rdbuf(o); }
};
const char *const FLUXES[] = {"LLF","VANLEER","AUSM","AUSMPLUS","ROE","HLL","HLLC"};

typedef ref::A4<LD> L4;

/// One marker's boundary condition with everything needed to evaluate it independently
struct BCase {
	double g, M; double Tinf, Re, Pr; std::array<freal,4> uinf;
	BCType type; int tag; double v0, v1;
	P2 n; V4 u;
	std::string cls;
	bool cart=false; double w[2]={0,0};
};

const BCType TYPES[] = {SLIP_WALL_BC, FARFIELD_BC, INFLOW_OUTFLOW_BC, EXTRAPOLATION_BC, ADIABATIC_WALL_BC, ISOTHERMAL_WALL_BC, SUBSONIC_INFLOW_BC};
const char *const NAMES[] = {"slipwall","farfield","inflowoutflow","extrapolation","adiabaticwall","isothermalwall","subsonicinflow"};

/// Ghost state by the definition of each condition
bool refGhost(const BCase& b, const L4& u, L4& gs) {
	ref::BSpec sp; sp.type=b.type; sp.v0=b.v0; sp.v1=b.v1; sp.cart=b.cart; sp.w[0]=b.w[0]; sp.w[1]=b.w[1];
	return ref::ghost(LD(b.g),LD(b.M),L4{b.uinf[0],b.uinf[1],b.uinf[2],b.uinf[3]},sp,u,ref::cast<LD>(b.n),gs);
}

BCase genB(Src& s, int ntypes) {
	BCase b; b.g = s.chance(1,3) ? s.real(1.1,2.2) : s.pick<double>({1.4,5.0/3,1.3});
	b.M=s.chance(1,4)?s.real(1,4):s.real(0.05,1); b.Tinf=s.real(100,500); b.Re=s.logreal(1,1e6); b.Pr=s.real(0.5,1);
	const int k=s.irange(0,ntypes-1); b.type=TYPES[k]; b.cls=NAMES[k]; b.tag=s.irange(1,9);
	b.n=genNormal(s);
	const double aoa=s.realz(-M_PI,M_PI,0);
	{ Quiet q; const IdealGasPhysics<freal> ph(b.g,b.M,b.Tinf,b.Re,b.Pr); b.uinf=ph.compute_freestream_state(aoa); }
	// the interior: around the free stream scale, or anything admissible
	if(s.chance(1,3)) { StateOpts so; so.machmax=4; b.u=genState(s,b.g,so); }
	else {
		const double pi=1/(b.g*b.M*b.M), r=s.logreal(0.3,3), p=pi*s.logreal(0.3,3), c=std::sqrt(b.g*p/r), m=s.realz(-2.5,2.5,0.5), t=s.realz(-2,2,0);
		b.u=fromPrim(b.g,r,c*(m*b.n[0]-t*b.n[1]),c*(m*b.n[1]+t*b.n[0]),p);
	}
	b.v0=b.v1=0;
	if(b.type==ADIABATIC_WALL_BC) { b.v0=s.realz(-3,3,0); if(s.chance(1,3)) { b.cart=true; b.cls="adiabaticwall-cartesian"; b.w[0]=s.realz(-2,2,0); b.w[1]=s.realz(-2,2,0); } }
	if(b.type==ISOTHERMAL_WALL_BC) { const double T=b.g*b.M*b.M*pressure(b.g,b.u)/b.u[0]; b.v0=s.realz(-3,3,0); b.v1=T*s.logreal(0.501,3); }
	if(b.type==SUBSONIC_INFLOW_BC) {
		// subsonic flow into the domain, mostly along the normal
		const double pi=1/(b.g*b.M*b.M), r=s.logreal(0.3,3), p=pi*s.logreal(0.3,3), c=std::sqrt(b.g*p/r), m=-s.real(0.02,0.95);
		const double t=s.chance(1,3)?0:s.realz(-0.3,0.3,0);
		b.u=fromPrim(b.g,r,c*(m*b.n[0]-t*b.n[1]),c*(m*b.n[1]+t*b.n[0]),p);
		const double V2=c*c*(m*m+t*t), T=b.g*b.M*b.M*p/r, f=1+(b.g-1)/2*V2/(c*c);
		const bool consistent=s.chance(1,2);
		b.v1=T*f; b.v0=p*std::pow(f,b.g/(b.g-1));
		if(!consistent) { b.v1*=s.logreal(0.7,1.4); b.v0*=s.logreal(0.7,1.4); }
	}
	s.label(b.cls);
	s.desc<<b.cls<<" gamma="<<b.g<<" Minf="<<b.M<<" vals="<<b.v0<<","<<b.v1<<(b.cart?" wall velocity "+str(P2{b.w[0],b.w[1]}):std::string())<<" n="<<str(b.n)<<" u="<<str(b.u)<<" uinf="<<str(V4{b.uinf[0],b.uinf[1],b.uinf[2],b.uinf[3]});
	return b;
}

/// The library's object for the condition, obtained the way the flow solver obtains it
struct Obj {
	std::map<int,const FlowBC<freal>*> m; std::unique_ptr<const FlowBC<freal>> own; const FlowBC<freal> *p;
	Obj(Src& s, const BCase& b, const IdealGasPhysics<freal>& ph) {
		Quiet q;
		if(b.cart) { own.reset(new Adiabaticwall<freal>(b.tag,ph,std::array<freal,2>{{b.w[0],b.w[1]}})); p=own.get(); return; }
		std::vector<FlowBCConfig> cf;
		// other markers of other kinds before and after
		const int pre=s.irange(0,2);
		for(int i=0;i<pre;i++) cf.push_back({20+i,TYPES[s.irange(0,6)],{7.0,11.0},{}});
		cf.push_back({b.tag,b.type,{b.v0,b.v1},{}});
		if(s.chance(1,2)) cf.push_back({30,TYPES[s.irange(0,6)],{7.0,11.0},{}});
		m=create_const_flowBCs<freal>(cf,ph,b.uinf);
		PBT_CHECK(m.size()==cf.size(),"bc-map-size","asked for "<<cf.size()<<" conditions, got "<<m.size());
		for(const auto& c : cf) PBT_CHECK(m.count(c.bc_tag)==1 && m.at(c.bc_tag)->bctag()==c.bc_tag,"bc-map","marker "<<c.bc_tag<<" is not given its condition");
		p=m.at(b.tag);
	}
	~Obj() { for(auto& x : m) delete x.second; }
};

V4 scaleOf(double g, const V4& u, const BCase& b) {
	const double c=std::sqrt(g*pressure(g,u)/u[0]), w=c+std::sqrt(u[1]*u[1]+u[2]*u[2])/u[0]+2*std::fabs(b.v0*(b.type!=SUBSONIC_INFLOW_BC))+2*std::hypot(b.w[0],b.w[1]);
	return V4{u[0],u[0]*w,u[0]*w,u[0]*w*w+u[3]};
}
}

RELATION(B01,ghost_state,120000,1500000,"the condition is not plain copying of the interior or far field") {
	const BCase b=genB(s,7);
	const IdealGasPhysics<freal> ph(b.g,b.M,b.Tinf,b.Re,b.Pr);
	const Obj o(s,b,ph);
	const auto q=ref::prim<LD>(b.g,ref::cast<LD>(b.u),ref::cast<LD>(b.n));
	// the far-field switch is a discontinuity: stay off it
	if(b.type==INFLOW_OUTFLOW_BC) {
		if(std::fabs(q.vn/q.c)<1e-9 || std::fabs(q.vn/q.c-1)<1e-9) return;
		s.label(q.vn<=0?(q.vn<-q.c?"supersonic-in":"subsonic-in"):(q.vn<q.c?"subsonic-out":"supersonic-out"));
	}
	L4 e; if(!refGhost(b,ref::cast<LD>(b.u),e)) { s.label("no-subsonic-inflow-solution"); return; }
	s.nontrivial(b.type!=FARFIELD_BC && b.type!=EXTRAPOLATION_BC);
	V4 gs; for(double& x : gs) x=1e30;
	const V4 u0=b.u;
	o.p->computeGhostState(&u0[0],&b.n[0],&gs[0]);
	PBT_CHECK(u0==b.u,"interior-changed","the interior state was modified");
	V4 sc=scaleOf(b.g,b.u,b); for(int i=0;i<4;i++) sc[i]=std::max(sc[i],(double)std::fabs(e[i]));
	if(b.type==INFLOW_OUTFLOW_BC||b.type==FARFIELD_BC) for(int i=0;i<4;i++) sc[i]=std::max(sc[i],1+1/(b.g*b.M*b.M*(b.g-1)));
	const double tol = b.type==SUBSONIC_INFLOW_BC ? 1e-7 : 1e-11;
	for(int i=0;i<4;i++)
		PBT_CHECK(std::fabs(gs[i]-(double)e[i])<=tol*sc[i],b.cls+"-ghost","ghost state "<<str(gs)<<" expected "<<str(V4{(double)e[0],(double)e[1],(double)e[2],(double)e[3]}));
	// consequences a user relies on, stated on the pair of states
	const double r=gs[0]; const P2 va={0.5*(gs[1]/r+b.u[1]/b.u[0]),0.5*(gs[2]/r+b.u[2]/b.u[0])};
	const double w=sc[1]/sc[0];
	if(b.type==SLIP_WALL_BC) PBT_CHECK(std::fabs(va[0]*b.n[0]+va[1]*b.n[1])<1e-11*w,"slipwall-through","flow through the wall: "<<str(va));
	if(b.type==ADIABATIC_WALL_BC) {
		const P2 wv = b.cart ? P2{b.w[0],b.w[1]} : P2{b.v0*b.n[1],-b.v0*b.n[0]};
		const double p0=pressure(b.g,b.u), p1=pressure(b.g,gs);
		PBT_CHECK(std::fabs(p0-p1)<1e-10*sc[3],"adiabatic-temperature","temperature jumps across an adiabatic wall: pressures "<<p0<<" and "<<p1<<" at the same density");
		PBT_CHECK(std::fabs(va[0]-wv[0])<1e-11*w && std::fabs(va[1]-wv[1])<1e-11*w,"adiabatic-noslip","velocity at the wall "<<str(va)<<" wall's "<<str(wv));
	}
	if(b.type==ISOTHERMAL_WALL_BC) {
		const double T=0.5*b.g*b.M*b.M*(pressure(b.g,gs)/gs[0]+pressure(b.g,b.u)/b.u[0]);
		PBT_CHECK(std::fabs(T-b.v1)<1e-9*b.g*b.M*b.M*sc[3]/sc[0],"isothermal-temperature","temperature at the wall "<<T<<" imposed "<<b.v1);
	}
	if(b.type==SUBSONIC_INFLOW_BC) {
		PBT_CHECK(gs[1]*b.n[0]+gs[2]*b.n[1]<0,"inflow-direction","gas leaves the domain through an inflow boundary: ghost momentum "<<str(P2{gs[1],gs[2]}));
		const auto qg=ref::prim<LD>(b.g,ref::cast<LD>(gs),ref::cast<LD>(b.n));
		PBT_CHECK(qg.p>0 && gs[0]>0,"inflow-admissible","ghost state "<<str(gs));
	}
}

RELATION(B01,walls_are_impermeable,60000,500000,"the gas moves relative to the wall") {
	const double g = s.chance(1,3) ? s.real(1.1,2.2) : 1.4; const double M=s.real(0.05,2);
	Quiet qq; const IdealGasPhysics<freal> ph(g,M,288.15,1000,0.72);
	const P2 n=genNormal(s); StateOpts so; so.machmax=3; const V4 u=genState(s,g,so);
	const double tv=s.realz(-2,2,0);
	s.desc<<"gamma="<<g<<" n="<<str(n)<<" u="<<str(u)<<" tangential velocity "<<tv;
	s.nontrivial(std::hypot(u[1],u[2])/u[0]>0.01);
	const std::array<freal,4> uinf=ph.compute_freestream_state(0);
	auto m=create_const_flowBCs<freal>({{1,SLIP_WALL_BC,{},{}},{2,ADIABATIC_WALL_BC,{tv},{}}},ph,uinf);
	const double c=std::sqrt(g*pressure(g,u)/u[0]), w=c+std::hypot(u[1],u[2])/u[0]+2*std::fabs(tv);
	for(int tag=1;tag<=2;tag++) {
		V4 gs; m.at(tag)->computeGhostState(&u[0],&n[0],&gs[0]);
		for(const char *f : FLUXES) {
			std::unique_ptr<const InviscidFlux<freal>> fl(create_const_inviscidflux<freal>(f,&ph));
			V4 F; fl->get_flux(&u[0],&gs[0],&n[0],&F[0]);
			PBT_CHECK(std::fabs(F[0])<1e-9*u[0]*w,std::string(f)+"-wall-mass","mass flux "<<F[0]<<" through wall "<<(tag==1?"slip":"no-slip"));
			if(tag==1) PBT_CHECK(std::fabs(F[3])<1e-10*(u[3]+u[0]*w*w)*w,std::string(f)+"-wall-energy","energy flux "<<F[3]<<" through a slip wall");
		}
	}
	for(auto& x : m) delete x.second;
}

RELATION(B02,ghost_jacobian,120000,1500000,"the Jacobian is neither zero nor the identity") {
	const BCase b=genB(s,6);      // total-condition inflow documents no Jacobian
	const IdealGasPhysics<freal> ph(b.g,b.M,b.Tinf,b.Re,b.Pr);
	const Obj o(s,b,ph);
	const auto q=ref::prim<LD>(b.g,ref::cast<LD>(b.u),ref::cast<LD>(b.n));
	if(b.type==INFLOW_OUTFLOW_BC && (std::fabs(q.vn/q.c)<1e-4 || std::fabs(q.vn/q.c-1)<1e-4)) { s.label("at-switch"); return; }
	V4 gs, g2; double J[16]; for(double& x : gs) x=1e30; for(double& x : g2) x=-1e30; for(double& x : J) x=1e30;
	o.p->computeGhostState(&b.u[0],&b.n[0],&gs[0]);
	o.p->computeGhostStateAndJacobian(&b.u[0],&b.n[0],&g2[0],J);
	V4 sc=scaleOf(b.g,b.u,b);
	V4 so=sc; for(int i=0;i<4;i++) so[i]=std::max(so[i],1+1/(b.g*b.M*b.M*(b.g-1)));
	for(int i=0;i<4;i++) PBT_CHECK(std::fabs(gs[i]-g2[i])<=1e-11*so[i],b.cls+"-ghost-agree","ghost state "<<str(gs)<<", with Jacobian "<<str(g2));
	bool id=true, ze=true; for(int i=0;i<16;i++) { id&=J[i]==(i%5==0); ze&=J[i]==0; }
	s.nontrivial(!id&&!ze);
	const L4 u=ref::cast<LD>(b.u);
	for(int k=0;k<4;k++) {
		const LD h=1e-6L*sc[k]*(pressure(b.g,b.u)/((b.g-1)*sc[3])); L4 a=u,c=u,A,C; a[k]+=h; c[k]-=h;
		if(!refGhost(b,a,A)||!refGhost(b,c,C)) return;
		for(int i=0;i<4;i++) {
			const double d=(double)((A[i]-C[i])/(2*h)), tol=1e-7*sc[i]/sc[k];
			PBT_CHECK(std::fabs(J[i*4+k]-d)<=tol,b.cls+"-ghost-jacobian","d ghost["<<i<<"]/d u["<<k<<"] = "<<J[i*4+k]<<" but the derivative is "<<d);
		}
	}
}

RELATION(B01,unsupported_condition_refused,2000,20000,"the condition is periodic") {
	Quiet q; const IdealGasPhysics<freal> ph(1.4,0.5,288.15,1000,0.72);
	const std::array<freal,4> uinf=ph.compute_freestream_state(0);
	std::vector<FlowBCConfig> cf; const int n=s.irange(0,3);
	for(int i=0;i<n;i++) cf.push_back({i+1,TYPES[s.irange(0,6)],{1,1},{}});
	cf.push_back({n+1,PERIODIC_BC,{1,1},{2}});
	s.desc<<n<<" conditions, then a periodic one"; s.nontrivial();
	bool thrown=false;
	try { create_const_flowBCs<freal>(cf,ph,uinf); } catch(const std::exception&) { thrown=true; }
	PBT_CHECK(thrown,"periodic-accepted","a periodic boundary was accepted although it is not implemented");
}

int main(int argc, char *argv[]) { return pbt::engineMain(argc,argv); }
