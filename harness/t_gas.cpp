/* Point-wise gas physics: numerical fluxes, their Jacobians, gas relations, viscous fluxes */
#include "common.hpp"
#include "refgas.hpp"
#include "spatial/anumericalflux.hpp"
#include "physics/aphysics_defs.hpp"
#include "physics/viscousphysics.hpp"
#include "utilities/afactory.hpp"
#include <memory>
#include <iostream>

using namespace vc;
using fvens::IdealGasPhysics;
using fvens::InviscidFlux;
using ref::LD;
using pbt::Src;

namespace {

const char *const FLUXES[] = {"LLF","VANLEER","AUSM","AUSMPLUS","ROE","HLL","HLLC"};
typedef std::unique_ptr<const InviscidFlux<freal>> FluxP;

// silences the factories' chatter
struct Quiet {
	std::streambuf *o; std::ostringstream sink;
	Quiet() : o(std::cout.rdbuf(sink.rdbuf())) {}
	~Quiet() { std::cout.rdbuf(o); }
};
FluxP mkflux(const std::string& t, const IdealGasPhysics<freal>& ph) {
	Quiet q; return FluxP(fvens::create_const_inviscidflux<freal>(t,&ph));
}

double genGamma(Src& s) { return s.chance(1,3) ? s.real(1.05,2.5) : s.pick<double>({1.4, 5.0/3, 1.33}); }

V4 stateNT(double g, double r, double vn, double vt, double p, const P2& n) {
	return fromPrim(g,r,vn*n[0]-vt*n[1],vn*n[1]+vt*n[0],p);
}

/// Pairs of admissible states of many kinds: unrelated, close, shocks, contacts, sonic, supersonic, almost at rest
std::string genPair(Src& s, double g, const P2& n, V4& ul, V4& ur) {
	const int k = s.irange(0,8);
	StateOpts so;
	switch(k) {
		case 1: { ul=genState(s,g); ur=ul; const double e=s.logreal(1e-8,0.3);
			V4 w=genState(s,g); for(int i=0;i<4;i++) ur[i]=(1-e)*ul[i]+e*w[i];
			return "close"; }
		case 2: { so.rlo=1e-2; so.rhi=1e2; so.plo=1e-3; so.phi=1e3; so.machmax=6; ul=genState(s,g,so); ur=genState(s,g,so); return "strong"; }
		case 3: { // stationary or moving contact/shear
			const double p=s.logreal(0.1,10), vn=s.realz(-3,3,0);
			ul=stateNT(g,s.logreal(0.1,10),vn,s.realz(-3,3,0),p,n); ur=stateNT(g,s.logreal(0.1,10),vn,s.realz(-3,3,0),p,n); return "contact"; }
		case 4: { // near-sonic on one or both sides
			const double r=s.logreal(0.1,10),p=s.logreal(0.1,10),c=std::sqrt(g*p/r), e=s.logreal(1e-9,1e-1)*(s.chance(1,2)?-1:1);
			const double sg=s.chance(1,2)?-1:1;
			ul=stateNT(g,r,sg*c*(1+e),s.realz(-2,2,0),p,n);
			ur=s.chance(1,2)? genState(s,g) : stateNT(g,r,sg*c*(1-2*e),s.realz(-2,2,0),p,n); return "sonic"; }
		case 5: { // hardly moving across the face
			const double e=s.logreal(1e-7,1e-3)*(s.chance(1,2)?-1:1);
			ul=stateNT(g,s.logreal(0.1,10),e,s.realz(-2,2,0),s.logreal(0.1,10),n);
			ur=stateNT(g,s.logreal(0.1,10),e*s.real(-2,2),s.realz(-2,2,0),s.logreal(0.1,10),n); return "slow"; }
		case 6: { // supersonic
			const double sg=s.chance(1,2)?-1:1;
			const double rl=s.logreal(0.1,10),pl=s.logreal(0.1,10),rr=s.logreal(0.1,10),pr=s.logreal(0.1,10);
			ul=stateNT(g,rl,sg*s.real(1.02,6)*std::sqrt(g*pl/rl),s.realz(-2,2,0),pl,n);
			ur=stateNT(g,rr,sg*s.real(1.02,6)*std::sqrt(g*pr/rr),s.realz(-2,2,0),pr,n); return "supersonic"; }
		case 7: { // Roe average in, or just outside, the entropy-fix band of one of the waves
			const double r=s.logreal(0.1,10),p=s.logreal(0.1,10),c=std::sqrt(g*p/r), e=s.real(-3e-4,3e-4);
			const int w=s.irange(-1,1);
			ul=stateNT(g,r,c*(e+w),s.realz(-2,2,0),p,n);
			// perturbation that keeps the averages close
			const double d=s.realz(-1e-4,1e-4,0);
			ur=stateNT(g,r*(1+s.realz(-1e-4,1e-4,0)),c*(e+w+d),s.realz(-2,2,0)*0+(ul[2]*n[0]-ul[1]*n[1])/r,p*(1+s.realz(-1e-4,1e-4,0)),n); return "fixband"; }
		case 8: { so.machmax=0.1; ul=genState(s,g,so); ur=genState(s,g,so); return "lowmach"; }
		default: ul=genState(s,g); ur=genState(s,g); return "any";
	}
}

V4 scaleU(double g, const V4& a, const V4& b) {
	double r=std::max(a[0],b[0]), w=0;
	for(const V4 *q : {&a,&b}) { const V4& u=*q; const double p=std::max(pressure(g,u),0.0);
		w=std::max(w,std::sqrt(u[1]*u[1]+u[2]*u[2])/u[0]+std::sqrt(g*p/u[0])); }
	const double e=std::max(a[3],b[3]);
	return V4{r,r*w,r*w,std::max(e,r*w*w)};
}
V4 scaleF(double g, const V4& a, const V4& b) {
	V4 u=scaleU(g,a,b); const double w=u[1]/u[0]*(2+1/(g-1)); V4 f; for(int i=0;i<4;i++) f[i]=u[i]*w; return f;
}

struct FCase { double g; P2 n; V4 ul, ur; std::string kind; V4 sf, su; };
FCase genF(Src& s) {
	FCase c; c.g=genGamma(s); c.n=genNormal(s); c.kind=genPair(s,c.g,c.n,c.ul,c.ur);
	c.sf=scaleF(c.g,c.ul,c.ur); c.su=scaleU(c.g,c.ul,c.ur);
	s.label(c.kind);
	s.desc<<"gamma="<<c.g<<" n="<<str(c.n)<<" ul="<<str(c.ul)<<" ur="<<str(c.ur)<<" ("<<c.kind<<")";
	return c;
}
double worst(const V4& a, const V4& b, const V4& sc) { double m=0; for(int i=0;i<4;i++) { const double d=std::fabs(a[i]-b[i])/sc[i]; if(!(d<=m)) m=d; } return m; }
V4 call(const FluxP& f, const V4& l, const V4& r, const P2& n) { V4 o{{1e30,-1e30,1e30,-1e30}}; f->get_flux(&l[0],&r[0],&n[0],&o[0]); return o; }
V4 todbl(const ref::A4<LD>& a) { return V4{(double)a[0],(double)a[1],(double)a[2],(double)a[3]}; }
}

RELATION(F01,flux_symmetries,160000,1500000,"the two states differ by more than 1 percent in some variable") {
	FCase c=genF(s);
	double d=0; for(int i=0;i<4;i++) d=std::max(d,std::fabs(c.ul[i]-c.ur[i])/c.su[i]);
	s.nontrivial(d>0.01);
	const IdealGasPhysics<freal> ph(c.g,s.real(0.1,2),288.15,1000,0.72);
	const double th=s.real(-M_PI,M_PI), co=std::cos(th), si=std::sin(th);
	const double al=s.logreal(1e-3,1e3), be=s.logreal(1e-3,1e3);
	auto rot=[&](const V4& u){ return V4{u[0],co*u[1]-si*u[2],si*u[1]+co*u[2],u[3]}; };
	auto mir=[&](const V4& u){ return V4{u[0],u[2],u[1],u[3]}; };
	auto scl=[&](const V4& u){ return V4{al*u[0],al*be*u[1],al*be*u[2],al*be*be*u[3]}; };
	for(const char *t : FLUXES) {
		const FluxP f=mkflux(t,ph);
		const V4 F=call(f,c.ul,c.ur,c.n);
		for(int i=0;i<4;i++) PBT_CHECK(std::isfinite(F[i]),std::string(t)+"-finite","flux "<<str(F));
		// consistency on both states
		for(const V4 *u : {&c.ul,&c.ur}) {
			const V4 a=call(f,*u,*u,c.n), b=eulerFlux(c.g,*u,c.n);
			const bool roe=std::string(t)=="ROE"; (void)roe;
			PBT_CHECK(worst(a,b,scaleF(c.g,*u,*u))<1e-11,std::string(t)+"-consistency","f(u,u,n)="<<str(a)<<" but F(u).n="<<str(b)<<" for u="<<str(*u));
		}
		// conservation: both cells see the same flux
		const P2 mn={-c.n[0],-c.n[1]};
		V4 B=call(f,c.ur,c.ul,mn); for(double& x : B) x=-x;
		PBT_CHECK(worst(F,B,c.sf)<1e-10,std::string(t)+"-conservation","f(l,r,n)="<<str(F)<<" but -f(r,l,-n)="<<str(B));
		// rotation and mirror image
		const P2 rn={co*c.n[0]-si*c.n[1],si*c.n[0]+co*c.n[1]};
		const V4 R=call(f,rot(c.ul),rot(c.ur),rn);
		PBT_CHECK(worst(rot(F),R,c.sf)<1e-9,std::string(t)+"-rotation","rotated flux "<<str(rot(F))<<" flux of rotated "<<str(R));
		const V4 M=call(f,mir(c.ul),mir(c.ur),P2{c.n[1],c.n[0]});
		PBT_CHECK(worst(mir(F),M,c.sf)<1e-9,std::string(t)+"-mirror","mirrored flux "<<str(mir(F))<<" flux of mirrored "<<str(M));
		// change of units of mass and velocity
		const V4 S=call(f,scl(c.ul),scl(c.ur),c.n);
		const V4 E={al*be*F[0],al*be*be*F[1],al*be*be*F[2],al*be*be*be*F[3]};
		const V4 ss={al*be*c.sf[0],al*be*be*c.sf[1],al*be*be*c.sf[2],al*be*be*be*c.sf[3]};
		PBT_CHECK(worst(S,E,ss)<1e-9,std::string(t)+"-units","flux in other units "<<str(S)<<" expected "<<str(E));
	}
}

RELATION(F01,upwinding_and_contacts,160000,1000000,"the two states differ, and the case is supersonic or a stationary contact") {
	const double g=genGamma(s); const P2 n=genNormal(s);
	const IdealGasPhysics<freal> ph(g,s.real(0.1,2),288.15,1000,0.72);
	if(s.chance(1,2)) {
		// everything crosses the face in one direction
		const double sg=s.chance(1,2)?-1:1;
		const double rl=s.logreal(0.1,10),pl=s.logreal(0.1,10),rr=s.logreal(0.1,10),pr=s.logreal(0.1,10);
		const V4 ul=stateNT(g,rl,sg*s.real(1.01,8)*std::sqrt(g*pl/rl),s.realz(-2,2,0),pl,n);
		const V4 ur=stateNT(g,rr,sg*s.real(1.01,8)*std::sqrt(g*pr/rr),s.realz(-2,2,0),pr,n);
		s.desc<<"supersonic gamma="<<g<<" n="<<str(n)<<" ul="<<str(ul)<<" ur="<<str(ur);
		s.label("supersonic");
		const auto L=ref::prim<LD>(g,ref::cast<LD>(ul),ref::cast<LD>(n)), R=ref::prim<LD>(g,ref::cast<LD>(ur),ref::cast<LD>(n));
		const auto m=ref::roeAvg<LD>(g,L,R,ref::cast<LD>(n));
		const V4& up = sg>0?ul:ur; const V4 E=eulerFlux(g,up,n); const V4 sc=scaleF(g,ul,ur);
		for(const char *t : FLUXES) {
			const std::string T=t;
			if(T=="LLF") continue;
			if(T=="AUSMPLUS" && !(sg*L.vn>1.001*ref::cstar<LD>(g,L) && sg*R.vn>1.001*ref::cstar<LD>(g,R))) continue;
			if((T=="ROE"||T=="HLL"||T=="HLLC") && !(sg*m.vn>1.001*m.c)) continue;
			if(sg<0 && (T=="HLL"||T=="HLLC") && !(m.vn+m.c<0)) continue;
			s.nontrivial();
			s.label("supersonic-"+T);
			const V4 F=call(mkflux(t,ph),ul,ur,n);
			PBT_CHECK(worst(F,E,sc)<1e-9,T+"-upwind","flux "<<str(F)<<" is not the upstream physical flux "<<str(E));
		}
	} else {
		const double p=s.logreal(0.1,10);
		const V4 ul=stateNT(g,s.logreal(0.1,10),0,s.realz(-3,3,0),p,n), ur=stateNT(g,s.logreal(0.1,10),0,s.realz(-3,3,0),p,n);
		s.desc<<"contact gamma="<<g<<" n="<<str(n)<<" ul="<<str(ul)<<" ur="<<str(ur);
		s.label("contact"); s.nontrivial(std::fabs(ul[0]-ur[0])>1e-3);
		const V4 E={0,p*n[0],p*n[1],0}, sc=scaleF(g,ul,ur);
		for(const char *t : {"AUSM","AUSMPLUS","HLLC","ROE"}) {
			const std::string T=t;
			const double tol = T=="ROE" ? 3e-4 : 1e-11;
			const V4 F=call(mkflux(t,ph),ul,ur,n);
			PBT_CHECK(worst(F,E,sc)<tol,T+"-contact","flux "<<str(F)<<" across a stationary contact, expected "<<str(E));
		}
	}
}

RELATION(F02,flux_vs_reference,240000,2000000,"the two states differ by more than 1 percent in some variable") {
	FCase c=genF(s);
	double d=0; for(int i=0;i<4;i++) d=std::max(d,std::fabs(c.ul[i]-c.ur[i])/c.su[i]);
	s.nontrivial(d>0.01);
	const IdealGasPhysics<freal> ph(c.g,s.real(0.1,2),s.real(100,500),s.logreal(1,1e6),s.real(0.5,1));
	for(const char *t : FLUXES) {
		const V4 F=call(mkflux(t,ph),c.ul,c.ur,c.n);
		const V4 E=todbl(ref::flux<LD>(t,c.g,ref::cast<LD>(c.ul),ref::cast<LD>(c.ur),ref::cast<LD>(c.n)));
		PBT_CHECK(worst(F,E,c.sf)<1e-10,std::string(t)+"-formula","flux "<<str(F)<<" reference "<<str(E));
	}
}

namespace {
template <typename Fun> void fdjac(const Fun& fun, const ref::A4<LD>& u, const V4& su, LD J[4][4], LD h0=1e-6L) {
	for(int k=0;k<4;k++) {
		const LD h=h0*su[k];
		ref::A4<LD> a=u,b=u; a[k]+=h; b[k]-=h;
		const auto fa=fun(a), fb=fun(b);
		for(int i=0;i<4;i++) J[i][k]=(fa[i]-fb[i])/(2*h);
	}
}
bool jacOK(const double *J, const LD R[4][4], double sg, const V4& sf, const V4& su, double tol) {
	for(int i=0;i<4;i++) for(int k=0;k<4;k++) if(!(std::fabs(J[i*4+k]-sg*(double)R[i][k])<=tol*sf[i]/su[k])) return false;
	return true;
}
void cmpJac(const std::string& tag, const char *which, const double *J, const LD R[4][4], double sg, const V4& sf, const V4& su, double tol) {
	for(int i=0;i<4;i++) for(int k=0;k<4;k++) {
		const double a=J[i*4+k], b=sg*(double)R[i][k], sc=sf[i]/su[k];
		PBT_CHECK(std::fabs(a-b)<=tol*sc,tag,which<<"["<<i<<"]["<<k<<"] = "<<a<<", derivative of the flux is "<<b<<" (scale "<<sc<<")");
	}
}
}

RELATION(F03,flux_jacobian,160000,1500000,"states differ by more than 1 percent and at least one flux's derivative exists there") {
	FCase c=genF(s);
	const IdealGasPhysics<freal> ph(c.g,s.real(0.1,2),288.15,1000,0.72);
	const auto ul=ref::cast<LD>(c.ul), ur=ref::cast<LD>(c.ur); const auto n=ref::cast<LD>(c.n); const LD g=c.g;
	double d=0; for(int i=0;i<4;i++) d=std::max(d,std::fabs(c.ul[i]-c.ur[i])/c.su[i]);
	const LD h0=1e-6L;
	// steps must keep both states well inside the admissible set
	V4 sul, sur; { sul=scaleU(c.g,c.ul,c.ul); sur=scaleU(c.g,c.ur,c.ur);
		const double rl=pressure(c.g,c.ul)/((c.g-1)*sul[3]), rr=pressure(c.g,c.ur)/((c.g-1)*sur[3]);
		if(rl<1e-3||rr<1e-3) { s.label("skipped-hypersonic"); return; } }
	for(const std::string t : {"LLF","HLL","HLLC","ROE"}) {
		// the formula must not switch between the finite-difference points
		const int b0=ref::branch<LD>(t,g,ul,ur,n); bool same=true;
		for(int k=0;k<4&&same;k++) for(int sg=-1;sg<=1;sg+=2) {
			auto a=ul; a[k]+=2*sg*h0*sul[k]; auto b=ur; b[k]+=2*sg*h0*sur[k];
			if(ref::branch<LD>(t,g,a,ur,n)!=b0||ref::branch<LD>(t,g,ul,b,n)!=b0) same=false;
		}
		if(!same) { s.label("skipped-kink-"+t); continue; }
		s.nontrivial(d>0.01); s.label("checked-"+t);
		const FluxP f=mkflux(t,ph);
		double dl[16], dr[16]; for(int i=0;i<16;i++) dl[i]=dr[i]=1e30;
		f->get_jacobian(&c.ul[0],&c.ur[0],&c.n[0],dl,dr);
		ref::Frozen<LD> fz; LD L[4][4], R[4][4];
		if(t=="LLF") {
			ref::fluxLLF<LD>(g,ul,ur,n,&fz); fz.on=true;
			fdjac([&](const ref::A4<LD>& u){ return ref::fluxLLF<LD>(g,u,ur,n,&fz); },ul,sul,L,h0);
			fdjac([&](const ref::A4<LD>& u){ return ref::fluxLLF<LD>(g,ul,u,n,&fz); },ur,sur,R,h0);
		} else if(t=="HLL") {
			ref::fluxHLL<LD>(g,ul,ur,n,&fz); fz.on=true;
			fdjac([&](const ref::A4<LD>& u){ return ref::fluxHLL<LD>(g,u,ur,n,&fz); },ul,sul,L,h0);
			fdjac([&](const ref::A4<LD>& u){ return ref::fluxHLL<LD>(g,ul,u,n,&fz); },ur,sur,R,h0);
		} else {
			fdjac([&](const ref::A4<LD>& u){ return ref::flux<LD>(t,g,u,ur,n); },ul,sul,L,h0);
			fdjac([&](const ref::A4<LD>& u){ return ref::flux<LD>(t,g,ul,u,n); },ur,sur,R,h0);
		}
		const double tol=1e-6;
		if(t=="ROE" && !(jacOK(dl,L,-1,c.sf,sul,tol)&&jacOK(dr,R,1,c.sf,sur,tol))) {
			// recorded defect: inside the entropy fix, the fixed eigenvalue stands where the raw one should in the fix's derivative
			ref::FixLin<LD> ln; ref::fluxROE<LD>(g,ul,ur,n,1e-4L,&ln);
			if(ln.act[0]||ln.act[1]||ln.act[2]) {
				ln.on=true; LD KL[4][4], KR[4][4]; bool known=false;
				// of an eigenvalue that is zero to rounding, either sign may have been taken
				for(int flip=0;flip<8&&!known;flip++) {
					ref::FixLin<LD> lf=ln; bool may=true; for(int i=0;i<3;i++) if(flip>>i&1) { if(ln.raw[i]<1e-7L*ln.d) lf.sg[i]=-lf.sg[i]; else may=false; }
					if(!may) continue;
					fdjac([&](const ref::A4<LD>& u){ return ref::fluxROE<LD>(g,u,ur,n,1e-4L,&lf); },ul,sul,KL,h0);
					fdjac([&](const ref::A4<LD>& u){ return ref::fluxROE<LD>(g,ul,u,n,1e-4L,&lf); },ur,sur,KR,h0);
					known=jacOK(dl,KL,-1,c.sf,sul,tol)&&jacOK(dr,KR,1,c.sf,sur,tol);
				}
				if(known) { pbt::finding(s,"ROE-entropy-fix-derivative","in the entropy-fix band the Jacobian uses the fixed eigenvalue in the derivative of the fix"); continue; }
			}
		}
		cmpJac(t+"-left","-dF/dul: dfdl",dl,L,-1,c.sf,sul,tol);
		cmpJac(t+"-right","dF/dur: dfdr",dr,R,1,c.sf,sur,tol);
		if(t=="LLF") {
			const fvens::LocalLaxFriedrichsFlux<freal> lf(&ph);
			for(int i=0;i<16;i++) dl[i]=dr[i]=1e30;
			lf.get_jacobian_2(&c.ul[0],&c.ur[0],&c.n[0],dl,dr);
			fdjac([&](const ref::A4<LD>& u){ return ref::fluxLLF<LD>(g,u,ur,n); },ul,sul,L,h0);
			fdjac([&](const ref::A4<LD>& u){ return ref::fluxLLF<LD>(g,ul,u,n); },ur,sur,R,h0);
			cmpJac("LLF-exact-left","-dF/dul: dfdl",dl,L,-1,c.sf,sul,tol);
			cmpJac("LLF-exact-right","dF/dur: dfdr",dr,R,1,c.sf,sur,tol);
		}
	}
}

// ---------------------------------------------------------------------------------------------------------
// gas relations

namespace {
bool same(double a, double b, double scale) { return std::fabs(a-b)<=1e-12*scale+1e-300 || a==b; }
struct GCase { double g,M,T,Re,Pr; V4 u; P2 n; };
GCase genG(Src& s) {
	GCase c; c.g=genGamma(s); c.M=s.logreal(0.05,5); c.T=s.real(100,600); c.Re=s.logreal(1,1e7); c.Pr=s.real(0.3,1.5);
	StateOpts so; so.rlo=0.05; so.rhi=20; so.plo=0.02; so.phi=50; so.machmax=5; c.u=genState(s,c.g,so); c.n=genNormal(s);
	s.desc<<"gamma="<<c.g<<" Minf="<<c.M<<" Tinf="<<c.T<<" Re="<<c.Re<<" Pr="<<c.Pr<<" u="<<str(c.u)<<" n="<<str(c.n);
	return c;
}
bool rel(double a, double b, double tol=1e-11) { return pbt::close(a,b,tol,0); }
}

#define EQ(got,want,tag) do { const double _g=(got), _w=(double)(want); PBT_CHECK(std::fabs(_g-_w)<=1e-10*(std::fabs(_w)+(tag##_scale)),#tag,#got<<" = "<<_g<<", expected "<<_w); } while(0)

RELATION(G01,gas_relations,240000,1500000,"the gas moves (Mach number above 0.01) in a direction not along an axis") {
	GCase c=genG(s); const IdealGasPhysics<freal> ph(c.g,c.M,c.T,c.Re,c.Pr);
	const double g=c.g; const V4& u=c.u;
	s.nontrivial(std::fabs(u[1])>0.01*u[0] && std::fabs(u[2])>0.01*u[0]);
	const auto q=ref::prim<LD>(g,ref::cast<LD>(u),ref::cast<LD>(c.n));
	const double es=(g-1)*u[3], vs=std::sqrt((double)q.V2);   // scales of the terms that cancel in the pressure
	const LD T=ref::temp<LD>(g,c.M,ref::cast<LD>(u));
	const double Ts=g*c.M*c.M*es/u[0];
	#define NEAR(tag,got,want,scale) do { const double _g=(got), _w=(double)(want); PBT_CHECK(std::fabs(_g-_w)<=1e-11*(scale),tag,#got<<" = "<<_g<<", expected "<<_w); } while(0)
	NEAR("pressure",ph.getPressureFromConserved(&u[0]),q.p,es);
	NEAR("pressure-internal",ph.getPressure((double)(q.p/(g-1))),q.p,q.p);
	NEAR("soundspeed",ph.getSoundSpeed((double)q.r,(double)q.p),q.c,q.c);
	NEAR("soundspeed-cons",ph.getSoundSpeedFromConserved(&u[0]),q.c,q.c*es/q.p);
	NEAR("temperature",ph.getTemperature((double)q.r,(double)q.p),T,T);
	NEAR("temperature-cons",ph.getTemperatureFromConserved(&u[0]),T,Ts);
	NEAR("entropy",ph.getEntropyFromConserved(&u[0]),q.p/std::pow(q.r,(LD)g),es/std::pow(u[0],g));
	NEAR("energy-pressure",ph.getEnergyFromPressure((double)q.p,u[0],(double)q.V2),u[3],u[3]);
	NEAR("energy-temperature",ph.getEnergyFromTemperature((double)T,u[0],(double)q.V2),u[3],u[3]);
	NEAR("density-pT",ph.getDensityFromPressureTemperature((double)q.p,(double)T),u[0],u[0]);
	// conversions, in place and out of place
	double up[4]={u[0],u[1],u[2],u[3]}, uo[4]={9,9,9,9};
	ph.getPrimitiveFromConserved(up,up); ph.getPrimitiveFromConserved(&u[0],uo);
	const double pw[4]={(double)q.r,(double)q.u,(double)q.v,(double)q.p}, sc[4]={u[0],vs,vs,es};
	for(int i=0;i<4;i++) { NEAR("primitive",uo[i],pw[i],sc[i]+1e-300); PBT_CHECK(same(up[i],uo[i],sc[i]),"primitive-alias","variable "<<i<<" differs in place: "<<up[i]<<" vs "<<uo[i]); }
	NEAR("temperature-prim",ph.getTemperatureFromPrimitive(uo),T,Ts);
	NEAR("energy-prim",ph.getEnergyFromPrimitive(uo),u[3],u[3]);
	double back[4]={9,9,9,9}; ph.getConservedFromPrimitive(uo,back); ph.getConservedFromPrimitive(up,up);
	const double usc[4]={u[0],u[0]*vs,u[0]*vs,u[3]};
	for(int i=0;i<4;i++) { NEAR("roundtrip",back[i],u[i],usc[i]+1e-300); PBT_CHECK(same(up[i],back[i],usc[i]),"conserved-alias","variable "<<i<<" differs in place: "<<up[i]<<" vs "<<back[i]); }
	double u2[4]={u[0],u[1],u[2],u[3]}, uo2[4]={9,9,9,9};
	ph.getPrimitive2FromConserved(u2,u2); ph.getPrimitive2FromConserved(&u[0],uo2);
	for(int i=0;i<3;i++) NEAR("primitive2",uo2[i],pw[i],sc[i]+1e-300);
	NEAR("primitive2",uo2[3],T,Ts);
	for(int i=0;i<4;i++) PBT_CHECK(same(u2[i],uo2[i],i<3?sc[i]:Ts),"primitive2-alias","variable "<<i<<" differs in place");
	NEAR("energy-prim2",ph.getEnergyFromPrimitive2(uo2),u[3],u[3]);
	double v[2],vn,p,H; ph.getVarsFromConserved(&u[0],&c.n[0],v,vn,p,H);
	NEAR("vars",v[0],q.u,vs+1e-300); NEAR("vars",v[1],q.v,vs+1e-300); NEAR("vars",vn,q.vn,vs+1e-300); NEAR("vars",p,q.p,es); NEAR("vars",H,q.H,u[3]/u[0]*g);
	// flux
	double f[4], f2[4]; ph.getDirectionalFluxFromConserved(&u[0],&c.n[0],f); ph.getDirectionalFlux(&u[0],&c.n[0],vn,p,f2);
	const auto fw=ref::euler<LD>(g,ref::cast<LD>(u),ref::cast<LD>(c.n)); const V4 fs=scaleF(g,u,u);
	for(int i=0;i<4;i++) { NEAR("directional-flux",f[i],fw[i],fs[i]); NEAR("directional-flux2",f2[i],fw[i],fs[i]); }
	// viscosity and conductivity
	NEAR("sutherland",ph.getViscosityCoeffFromTemperature((double)T),ref::sutherland<LD>(T,c.T,c.Re),1e1*ref::sutherland<LD>(T,c.T,c.Re));
	NEAR("sutherland-cons",ph.getViscosityCoeffFromConserved(&u[0]),ref::sutherland<LD>(T,c.T,c.Re),ref::sutherland<LD>(T,c.T,c.Re)*10*es/q.p);
	NEAR("sutherland-ref",ph.getViscosityCoeffFromTemperature(1.0),1/c.Re,10/c.Re);
	NEAR("const-visc",ph.getConstantViscosityCoeff(),1/c.Re,1/c.Re);
	{ const double mu=s.logreal(1e-6,1); NEAR("conductivity",ph.getThermalConductivityFromViscosity(mu),mu/(c.M*c.M*(g-1)*c.Pr),mu/(c.M*c.M*(g-1)*c.Pr)); }
	// free stream
	const double aoa=s.real(-M_PI,M_PI);
	const std::array<double,4> ui=ph.compute_freestream_state(aoa);
	const V4 uu={ui[0],ui[1],ui[2],ui[3]};
	NEAR("freestream-density",ui[0],1,1);
	NEAR("freestream-direction",ui[1],std::cos(aoa),1); NEAR("freestream-direction",ui[2],std::sin(aoa),1);
	const double pinf=1/(g*c.M*c.M);
	NEAR("freestream-pressure",ph.getFreestreamPressure(),pinf,pinf);
	NEAR("freestream-energy",ui[3],pinf/(g-1)+0.5,pinf/(g-1)+0.5);
	NEAR("freestream-temperature",ph.getTemperatureFromConserved(&ui[0]),1,g*c.M*c.M*ui[3]);
	NEAR("freestream-mach",1/ph.getSoundSpeedFromConserved(&ui[0]),c.M,c.M*ui[3]/pinf);
}

RELATION(G01,pressure_change,160000,1000000,"the state changes by more than 1 percent in more than one variable") {
	GCase c=genG(s); const IdealGasPhysics<freal> ph(c.g,c.M,c.T,c.Re,c.Pr);
	StateOpts so; V4 w=genState(s,c.g,so), du;
	const double e=s.chance(1,3)?s.logreal(1e-6,1):1.0;
	int nch=0;
	for(int i=0;i<4;i++) { du[i]=e*(w[i]-c.u[i]); if(std::fabs(du[i])>0.01*std::fabs(c.u[i])) nch++; }
	s.desc<<" du="<<str(du); s.nontrivial(nch>1);
	V4 un; for(int i=0;i<4;i++) un[i]=c.u[i]+du[i];
	const LD want=ref::pres<LD>(c.g,ref::cast<LD>(un))-ref::pres<LD>(c.g,ref::cast<LD>(c.u));
	const double sc=(c.g-1)*(c.u[3]+un[3]);
	// the formula multiplies squares of both states: its rounding scale
	const double m2=(un[1]*un[1]+un[2]*un[2]+c.u[1]*c.u[1]+c.u[2]*c.u[2])*(std::fabs(du[0])+c.u[0]+un[0])/(c.u[0]*un[0]);
	const double got=ph.getDeltaPressureFromConserved(&c.u[0],&du[0]);
	if(!(std::fabs(got-(double)want)<=1e-11*(sc+m2))) {
		// recorded defect: the sum runs over the y-momentum and the energy instead of the momenta, with the opposite sign
		LD k=0, ks=0; for(int i=2;i<4;i++) { const LD a=c.u[i], b=(LD)c.u[i]+du[i], r0=c.u[0], r1=r0+du[0]; const LD x=(a+b)*(r0+r1)/2*du[i], y=(a*a+b*b)/2*du[0]; k-=x-y; ks+=std::abs(x)+std::abs(y); }
		const LD kn=(c.g-1)*((LD)du[3]-k/(2*(LD)c.u[0]*un[0]));
		if(std::fabs(got-(double)kn)<=1e-11*(sc+(double)(ks/(c.u[0]*un[0])))) {
			pbt::finding(s,"delta-pressure-wrong-terms","getDeltaPressureFromConserved sums over the wrong variables with the wrong sign"); return; }
	}
	PBT_CHECK(std::fabs(got-(double)want)<=1e-11*(sc+m2),"delta-pressure","getDeltaPressureFromConserved = "<<got<<", pressure changes by "<<(double)want);
}

namespace {
/// recorded defect: d(mu)/dT with T^-1.5 in place of T^0.5
double wrongSutherlandDerivative(double T, double S, double Re) { return (1+S)/Re*(1.5*std::pow(T,-1.5)*(T+S)-std::pow(T,1.5))/((T+S)*(T+S)); }
/// derivative of a scalar function of the conserved state
template <typename Fun> std::array<LD,4> grad4(const Fun& f, const ref::A4<LD>& u, const V4& su, LD h0=1e-6L) {
	std::array<LD,4> d;
	for(int k=0;k<4;k++) { const LD h=h0*su[k]; auto a=u,b=u; a[k]+=h; b[k]-=h; d[k]=(f(a)-f(b))/(2*h); }
	return d;
}
void cmp4(const char *tag, const double *got, const std::array<LD,4>& want, double scale, const V4& su, double tol=1e-7, const double *init=nullptr) {
	for(int k=0;k<4;k++) { const double gv=got[k]-(init?init[k]:0);
		PBT_CHECK(std::fabs(gv-(double)want[k])<=tol*scale/su[k],tag,"component "<<k<<" is "<<gv<<", derivative is "<<(double)want[k]); }
}
}

RELATION(G02,gas_derivatives,160000,1000000,"the gas moves in a direction not along an axis") {
	GCase c=genG(s); const IdealGasPhysics<freal> ph(c.g,c.M,c.T,c.Re,c.Pr);
	const double g=c.g; const V4& u=c.u; const auto U=ref::cast<LD>(u); const auto N=ref::cast<LD>(c.n);
	s.nontrivial(std::fabs(u[1])>0.01*u[0] && std::fabs(u[2])>0.01*u[0]);
	const V4 su=scaleU(g,u,u); const double a=su[1]/su[0];
	const auto q=ref::prim<LD>(g,U,N); const double p=q.p, cc=q.c, T=ref::temp<LD>(g,c.M,U);
	if(p<1e-3*(g-1)*u[3]) { s.label("skipped-hypersonic"); return; }
	auto fp=[&](const ref::A4<LD>& x){ return ref::pres<LD>(g,x); };
	auto fT=[&](const ref::A4<LD>& x){ return ref::temp<LD>(g,c.M,x); };
	auto fc=[&](const ref::A4<LD>& x){ return std::sqrt(g*ref::pres<LD>(g,x)/x[0]); };
	auto fn=[&](const ref::A4<LD>& x){ return (x[1]*N[0]+x[2]*N[1])/x[0]; };
	auto fv=[&](const ref::A4<LD>& x){ return (x[1]*x[1]+x[2]*x[2])/(x[0]*x[0]); };
	auto fH=[&](const ref::A4<LD>& x){ return (x[3]+fp(x))/x[0]; };
	auto fm=[&](const ref::A4<LD>& x){ return ref::sutherland<LD>(fT(x),c.T,c.Re); };
	const double eps=p/((g-1)*u[3]);    // how much cancellation there is in the pressure
	double dp[4]={0,0,0,0}, dp2[4]={0,0,0,0};
	ph.getJacobianPressureWrtConserved(&u[0],dp); cmp4("dp",dp,grad4(fp,U,su),su[3],su);
	ph.getJacobianPressureWrtConserved(&u[0],u[1]*u[1]+u[2]*u[2],dp2); cmp4("dp2",dp2,grad4(fp,U,su),su[3],su);
	// results that accumulate do so on top of what was there
	double in[4]; for(double& x : in) x=s.chance(1,2)?0.0:s.real(-1,1);
	double o[4];
	auto start=[&]{ for(int i=0;i<4;i++) o[i]=in[i]; };
	start(); ph.getJacobianVmag2WrtConserved(&u[0],o); cmp4("dvmag2",o,grad4(fv,U,su),a*a+1,su,1e-7,in);
	const double Tsc=(1+T)*(1/eps)+g*c.M*c.M*su[3]/su[0];
	start(); ph.getJacobianTemperature(u[0],p,dp,o); cmp4("dT",o,grad4(fT,U,su),Tsc+1,su,1e-7,in);
	start(); ph.getJacobianTemperatureWrtConserved(&u[0],o); cmp4("dT-cons",o,grad4(fT,U,su),Tsc+1,su,1e-7,in);
	const double csc=a/std::sqrt(eps)/eps+1;
	start(); ph.getJacobianSoundSpeed(u[0],p,dp,cc,o); cmp4("dc",o,grad4(fc,U,su),csc,su,1e-7,in);
	start(); ph.getJacobianSoundSpeedWrtConserved(&u[0],o); cmp4("dc-cons",o,grad4(fc,U,su),csc,su,1e-7,in);
	{ double z[4]={0,0,0,0}; ph.getJacobianMachNormalWrtConserved(&u[0],&c.n[0],z);
	  cmp4("dMn",z,grad4([&](const ref::A4<LD>& x){ return fn(x)/fc(x); },U,su),(a/cc)*(1+csc/cc),su); }
	bool knownmu=false;
	{ double z[4]={0,0,0,0}; ph.getJacobianSutherlandViscosityWrtConserved(&u[0],z); const double mu=fm(U);
	  const auto want=grad4(fm,U,su); const auto gT=grad4(fT,U,su);
	  const double Sh=110.5/c.T, kf=wrongSutherlandDerivative(T,Sh,c.Re);
	  bool right=true, wrong=true;
	  for(int i=0;i<4;i++) { right=right&&std::fabs(z[i]-(double)want[i])<=1e-7*mu*(1+Tsc/T)*(1+1/T)/su[i];
	    wrong=wrong&&std::fabs(z[i]-kf*(double)gT[i])<=1e-7*std::fabs(kf)*(Tsc+1)/su[i]; }
	  knownmu=!right&&wrong;
	  if(!knownmu) cmp4("dmu",z,want,mu*(1+Tsc/T)*(1+1/T),su);
	  double k[4]={7,7,7,7}; ph.getJacobianThermCondWrtConservedFromJacobianSutherViscWrtConserved(z,k);
	  for(int i=0;i<4;i++) PBT_CHECK(pbt::close(k[i],z[i]/(c.M*c.M*(g-1)*c.Pr),1e-12,1e-300),"dk","conductivity derivative "<<i<<" is "<<k[i]); }
	{ double dv[8],dvn[4],dpp[4],dH[4]; for(int i=0;i<8;i++) dv[i]=0; for(int i=0;i<4;i++) dvn[i]=dpp[i]=dH[i]=0;
	  ph.getJacobianVarsWrtConserved(&u[0],&c.n[0],dv,dvn,dpp,dH);
	  cmp4("dvars-u",dv,grad4([&](const ref::A4<LD>& x){ return x[1]/x[0]; },U,su),a,su);
	  cmp4("dvars-v",dv+4,grad4([&](const ref::A4<LD>& x){ return x[2]/x[0]; },U,su),a,su);
	  cmp4("dvars-vn",dvn,grad4(fn,U,su),a,su); cmp4("dvars-p",dpp,grad4(fp,U,su),su[3],su); cmp4("dvars-H",dH,grad4(fH,U,su),su[3]/su[0]*g,su); }
	{ double J[16]; for(double& x : J) x=0; ph.getJacobianPrimitive2WrtConserved(&u[0],J);
	  cmp4("dprim2-rho",J,grad4([&](const ref::A4<LD>& x){ return x[0]; },U,su),su[0],su);
	  cmp4("dprim2-u",J+4,grad4([&](const ref::A4<LD>& x){ return x[1]/x[0]; },U,su),a,su);
	  cmp4("dprim2-v",J+8,grad4([&](const ref::A4<LD>& x){ return x[2]/x[0]; },U,su),a,su);
	  cmp4("dprim2-T",J+12,grad4(fT,U,su),Tsc,su); }
	{ double J[16]; for(double& x : J) x=1e30; ph.getJacobianDirectionalFluxWrtConserved(&u[0],&c.n[0],J);
	  LD R[4][4]; fdjac([&](const ref::A4<LD>& x){ return ref::euler<LD>(g,x,N); },U,su,R); cmpJac("dflux","dF/du",J,R,1,scaleF(g,u,u),su,1e-7); }
	{ // energy from arbitrary temperature and velocity functions of the state: d(rho*(T/(g(g-1)M^2)+V^2/2))
	  double dT[4], dV[4]; for(int i=0;i<4;i++) { dT[i]=s.real(-1,1); dV[i]=s.real(-1,1); }
	  const double T0=s.logreal(0.1,10), V0=s.logreal(0.1,10);
	  start(); ph.getJacobianEnergyFromJacobiansTemperatureVmag2(T0,u[0],V0,dT,dV,o);
	  const double k=1/(g*(g-1)*c.M*c.M);
	  for(int i=0;i<4;i++) { const double w=u[0]*(k*dT[i]+0.5*dV[i])+(i==0?k*T0+0.5*V0:0.0);
	    PBT_CHECK(std::fabs(o[i]-in[i]-w)<=1e-11*(1+u[0])*(1+k)*(1+T0+V0),"denergy","component "<<i<<" is "<<o[i]-in[i]<<" expected "<<w); }
	  double dP[4]; for(double& x : dP) x=s.real(-1,1); const double P0=s.logreal(0.1,10);
	  start(); ph.getJacobianDensityFromJacobiansPressureTemperature(P0,T0,dP,dT,o);
	  for(int i=0;i<4;i++) { const double w=g*c.M*c.M*(dP[i]/T0-P0*dT[i]/(T0*T0));
	    PBT_CHECK(std::fabs(o[i]-in[i]-w)<=1e-10*(1+g*c.M*c.M*(1/T0+P0/(T0*T0))),"ddensity","component "<<i<<" is "<<o[i]-in[i]<<" expected "<<w); } }
	// spatial derivatives by the chain rule, along a direction in state space
	{ V4 gu; for(int i=0;i<4;i++) gu[i]=s.realz(-1,1,0)*su[i];
	  const LD h=1e-6L*(LD)std::min(1.0,eps);
	  auto dir=[&](auto f){ auto x=U,y=U; for(int i=0;i<4;i++) { x[i]+=h*gu[i]; y[i]-=h*gu[i]; } return (double)((f(x)-f(y))/(2*h)); };
	  const double dps=dir(fp), dTs=dir(fT);
	  PBT_CHECK(std::fabs(ph.getGradPressureFromConservedAndGradConserved(&u[0],&gu[0])-dps)<=1e-7*su[3]*4,"gradp","pressure gradient "<<ph.getGradPressureFromConservedAndGradConserved(&u[0],&gu[0])<<" expected "<<dps);
	  const double gT=ph.getGradTemperatureFromConservedAndGradConserved(&u[0],&gu[0]);
	  PBT_CHECK(std::fabs(gT-dTs)<=1e-7*Tsc*4,"gradT-cons","temperature gradient "<<gT<<" expected "<<dTs);
	  const double gup[4]={gu[0],dir([&](const ref::A4<LD>& x){ return x[1]/x[0]; }),dir([&](const ref::A4<LD>& x){ return x[2]/x[0]; }),dps};
	  const double gT2=ph.getGradTemperatureFromConservedAndGradPrimitive(&u[0],gup);
	  PBT_CHECK(std::fabs(gT2-dTs)<=1e-7*Tsc*4,"gradT-prim","temperature gradient "<<gT2<<" expected "<<dTs);
	  const double gT3=ph.getGradTemperature(u[0],gu[0],p,dps);
	  PBT_CHECK(std::fabs(gT3-dTs)<=1e-7*Tsc*4,"gradT","temperature gradient "<<gT3<<" expected "<<dTs);
	  double out[4]={9,9,9,9}, al[4]={gu[0],gu[1],gu[2],gu[3]};
	  ph.getGradPrimitive2FromConservedAndGradConserved(&u[0],&gu[0],out); ph.getGradPrimitive2FromConservedAndGradConserved(&u[0],al,al);
	  const double w[4]={gup[0],gup[1],gup[2],dTs}, sc[4]={su[0],a*3,a*3,Tsc*4};
	  for(int i=0;i<4;i++) { PBT_CHECK(std::fabs(out[i]-w[i])<=1e-7*sc[i],"gradprim2","variable "<<i<<" gradient "<<out[i]<<" expected "<<w[i]);
	    PBT_CHECK(same(out[i],al[i],sc[i]),"gradprim2-alias","variable "<<i<<" in place "<<al[i]<<" vs "<<out[i]); } }
	if(knownmu) pbt::finding(s,"dmu-wrong-exponent","the derivative of Sutherland's law has T^-1.5 in place of T^0.5");
}

// ---------------------------------------------------------------------------------------------------------
// viscous fluxes

namespace {
struct VCase { GCase c; V4 ul, ur; double grad[2][4]; LD gl[2][4]; bool cv; };
VCase genV(Src& s) {
	VCase v; v.c=genG(s); StateOpts so; so.machmax=2; so.rlo=0.3; so.rhi=3; so.plo=0.3/v.c.M/v.c.M; so.phi=3/v.c.M/v.c.M;
	v.ul=genState(s,v.c.g,so); v.ur=s.chance(1,4)?v.ul:genState(s,v.c.g,so);
	for(int i=0;i<2;i++) for(int j=0;j<4;j++) { v.grad[i][j]=s.realz(-5,5,0); v.gl[i][j]=v.grad[i][j]; }
	v.cv=s.chance(1,2);
	s.label(v.cv?"constant-viscosity":"sutherland");
	s.desc<<" ul="<<str(v.ul)<<" ur="<<str(v.ur)<<" grad=";
	for(int i=0;i<2;i++) for(int j=0;j<4;j++) s.desc<<v.grad[i][j]<<" ";
	s.desc<<(v.cv?"constant":"sutherland");
	return v;
}
double maxgrad(const VCase& v) { double m=0; for(int i=0;i<2;i++) for(int j=1;j<4;j++) m=std::max(m,std::fabs(v.grad[i][j])); return m; }
}

RELATION(G03,viscous_flux,160000,1000000,"all velocity and temperature gradient components are nonzero") {
	VCase v=genV(s); const GCase& c=v.c; const IdealGasPhysics<freal> ph(c.g,c.M,c.T,c.Re,c.Pr);
	bool nz=true; for(int i=0;i<2;i++) for(int j=1;j<4;j++) nz=nz&&std::fabs(v.grad[i][j])>1e-3; s.nontrivial(nz);
	double f[4]={9,9,9,9};
	if(v.cv) fvens::computeViscousFlux<freal,2,4,true>(ph,&c.n[0],v.grad,&v.ul[0],&v.ur[0],f);
	else fvens::computeViscousFlux<freal,2,4,false>(ph,&c.n[0],v.grad,&v.ul[0],&v.ur[0],f);
	const auto w=ref::viscous<LD>(c.g,c.M,c.T,c.Re,c.Pr,v.cv,ref::cast<LD>(v.ul),ref::cast<LD>(v.ur),ref::cast<LD>(c.n),v.gl);
	const double mu=(v.cv?1/c.Re:(double)(ref::sutherland<LD>(ref::temp<LD>(c.g,c.M,ref::cast<LD>(v.ul)),c.T,c.Re)+ref::sutherland<LD>(ref::temp<LD>(c.g,c.M,ref::cast<LD>(v.ur)),c.T,c.Re)));
	const double mg=maxgrad(v), k=mu/(c.M*c.M*(c.g-1)*c.Pr), vv=std::hypot(v.ul[1],v.ul[2])/v.ul[0]+std::hypot(v.ur[1],v.ur[2])/v.ur[0];
	const double sc[4]={1e-300,10*mu*mg,10*mu*mg,10*mg*(mu*vv+k)};
	for(int i=0;i<4;i++) PBT_CHECK(std::fabs(f[i]-(double)w[i])<=1e-10*sc[i],"viscous-flux","component "<<i<<" is "<<f[i]<<" expected "<<(double)w[i]);
	// no dissipation of a rigid-body motion, whatever its rate
	const double om=s.real(-5,5); double rg[2][4]={{s.real(-1,1),0,om,0},{s.real(-1,1),-om,0,0}};
	double r[4]={9,9,9,9};
	if(v.cv) fvens::computeViscousFlux<freal,2,4,true>(ph,&c.n[0],rg,&v.ul[0],&v.ur[0],r);
	else fvens::computeViscousFlux<freal,2,4,false>(ph,&c.n[0],rg,&v.ul[0],&v.ur[0],r);
	for(int i=0;i<4;i++) PBT_CHECK(std::fabs(r[i])<=1e-12*mu*(1+vv)*5,"rigid-rotation","component "<<i<<" is "<<r[i]);
	// stress tensor
	double st[2][2]={{9,9},{9,9}}; const double m=s.logreal(1e-4,1); ph.getStressTensor(m,v.grad,st);
	const double div=v.grad[0][1]+v.grad[1][2];
	const double e[2][2]={{m*(2*v.grad[0][1]-2.0/3*div),m*(v.grad[1][1]+v.grad[0][2])},{m*(v.grad[1][1]+v.grad[0][2]),m*(2*v.grad[1][2]-2.0/3*div)}};
	for(int i=0;i<2;i++) for(int j=0;j<2;j++) PBT_CHECK(std::fabs(st[i][j]-e[i][j])<=1e-12*m*(1+mg)*4,"stress","component "<<i<<","<<j<<" is "<<st[i][j]<<" expected "<<e[i][j]);
}

RELATION(G03,viscous_jacobian,120000,800000,"all velocity and temperature gradient components are nonzero and states differ") {
	VCase v=genV(s); const GCase& c=v.c; const IdealGasPhysics<freal> ph(c.g,c.M,c.T,c.Re,c.Pr);
	bool nz=true; for(int i=0;i<2;i++) for(int j=1;j<4;j++) nz=nz&&std::fabs(v.grad[i][j])>1e-3; s.nontrivial(nz&&v.ul!=v.ur);
	double dgl[2][4][4], dgr[2][4][4], dl[16], dr[16], il[16], ir[16];
	for(int i=0;i<2;i++) for(int j=0;j<4;j++) for(int k=0;k<4;k++) { dgl[i][j][k]=s.realz(-3,3,0); dgr[i][j][k]=s.realz(-3,3,0); }
	// the result is added to what the caller has there
	for(int i=0;i<16;i++) { il[i]=dl[i]=s.chance(1,2)?0.0:s.real(-1,1)/c.Re; ir[i]=dr[i]=s.chance(1,2)?0.0:s.real(-1,1)/c.Re; }
	if(v.cv) fvens::computeViscousFluxJacobian<freal,2,4,true>(ph,&c.n[0],&v.ul[0],&v.ur[0],v.grad,dgl,dgr,dl,dr);
	else fvens::computeViscousFluxJacobian<freal,2,4,false>(ph,&c.n[0],&v.ul[0],&v.ur[0],v.grad,dgl,dgr,dl,dr);
	const auto L=ref::cast<LD>(v.ul), R=ref::cast<LD>(v.ur);
	auto val=[&](const ref::A4<LD>& a, const ref::A4<LD>& b) {
		LD gr[2][4];
		for(int i=0;i<2;i++) for(int j=0;j<4;j++) { gr[i][j]=v.gl[i][j]; for(int k=0;k<4;k++) gr[i][j]+=dgl[i][j][k]*(a[k]-L[k])+dgr[i][j][k]*(b[k]-R[k]); }
		return ref::viscous<LD>(c.g,c.M,c.T,c.Re,c.Pr,v.cv,a,b,ref::cast<LD>(c.n),gr);
	};
	V4 su=scaleU(c.g,v.ul,v.ul), sr=scaleU(c.g,v.ur,v.ur);
	LD JL[4][4], JR[4][4];
	fdjac([&](const ref::A4<LD>& x){ return val(x,R); },L,su,JL); fdjac([&](const ref::A4<LD>& x){ return val(L,x); },R,sr,JR);
	auto matches=[&](const LD A[4][4], const LD B[4][4]) {
		for(int i=0;i<4;i++) { double ml=1/c.Re, mr=1/c.Re;
			for(int k=0;k<4;k++) { ml=std::max(ml,std::fabs((double)A[i][k])); mr=std::max(mr,std::fabs((double)B[i][k])); }
			for(int k=0;k<4;k++) if(!(std::fabs(dl[i*4+k]-il[i*4+k]+(double)A[i][k])<=2e-7*ml && std::fabs(dr[i*4+k]-ir[i*4+k]-(double)B[i][k])<=2e-7*mr)) return false; }
		return true;
	};
	if(!v.cv && !matches(JL,JR)) {
		// does everything but the recorded wrong derivative of Sutherland's law fit?
		LD KL[4][4], KR[4][4];
		auto fix=[&](LD K[4][4], const LD J[4][4], const ref::A4<LD>& u, const V4& sc) {
			const LD T=ref::temp<LD>(c.g,c.M,u), Sh=110.5L/c.T;
			const LD good=(1+Sh)/c.Re*(1.5L*std::sqrt(T)*(T+Sh)-std::pow(T,1.5L))/((T+Sh)*(T+Sh)), bad=wrongSutherlandDerivative(T,Sh,c.Re);
			const auto gT=grad4([&](const ref::A4<LD>& x){ return ref::temp<LD>(c.g,c.M,x); },u,sc);
			// derivative of the flux with respect to viscosity: the flux is proportional to it
			const auto V=ref::viscous<LD>(c.g,c.M,c.T,1.0L,c.Pr,true,L,R,ref::cast<LD>(c.n),v.gl);
			for(int i=0;i<4;i++) for(int k=0;k<4;k++) K[i][k]=J[i][k]+0.5L*V[i]*(bad-good)*gT[k];
		};
		fix(KL,JL,L,su); fix(KR,JR,R,sr);
		if(matches(KL,KR)) { pbt::finding(s,"viscous-jacobian-sutherland-derivative","wrong only by the derivative of Sutherland's law"); return; }
	}
	for(int i=0;i<4;i++) { double ml=1/c.Re, mr=1/c.Re;
		// rows are compared relative to the largest scaled derivative in the row block
		for(int k=0;k<4;k++) { ml=std::max(ml,std::fabs((double)JL[i][k])); mr=std::max(mr,std::fabs((double)JR[i][k])); }
		for(int k=0;k<4;k++) {
			const double a=dl[i*4+k]-il[i*4+k], b=dr[i*4+k]-ir[i*4+k];
			PBT_CHECK(std::fabs(a+(double)JL[i][k])<=2e-7*ml,"viscous-jacobian-left","-dV/dul["<<i<<"]["<<k<<"] given as "<<a<<", is "<<-(double)JL[i][k]);
			PBT_CHECK(std::fabs(b-(double)JR[i][k])<=2e-7*mr,"viscous-jacobian-right","dV/dur["<<i<<"]["<<k<<"] given as "<<b<<", is "<<(double)JR[i][k]);
		} }
}

RELATION(G03,face_variables,120000,600000,"gradients nonzero and the two states differ") {
	VCase v=genV(s); const GCase& c=v.c; const IdealGasPhysics<freal> ph(c.g,c.M,c.T,c.Re,c.Pr);
	double gl[8], gr[8], ol[8], orr[8], tl[4]={9,9,9,9}, tr[4]={9,9,9,9};
	for(int i=0;i<8;i++) { gl[i]=s.realz(-4,4,0); gr[i]=s.realz(-4,4,0); ol[i]=orr[i]=77; }
	s.nontrivial(v.ul!=v.ur && gl[0]!=0 && gl[7]!=0);
	const bool second=s.chance(2,3);
	double al[4],ar[4],agl[8],agr[8]; for(int i=0;i<4;i++) { al[i]=v.ul[i]; ar[i]=v.ur[i]; } for(int i=0;i<8;i++) { agl[i]=gl[i]; agr[i]=gr[i]; }
	if(second) {
		fvens::getPrimitive2StatesAndGradients<freal,2,true>(ph,&v.ul[0],&v.ur[0],gl,gr,tl,tr,ol,orr);
		fvens::getPrimitive2StatesAndGradients<freal,2,true>(ph,al,ar,agl,agr,al,ar,agl,agr);
	} else {
		fvens::getPrimitive2StatesAndGradients<freal,2,false>(ph,&v.ul[0],&v.ur[0],nullptr,nullptr,tl,tr,ol,orr);
		fvens::getPrimitive2StatesAndGradients<freal,2,false>(ph,al,ar,nullptr,nullptr,al,ar,nullptr,nullptr);
	}
	s.label(second?"second-order":"first-order");
	for(int side=0;side<2;side++) {
		const V4& u=side?v.ur:v.ul; const double *t=side?tr:tl, *a=side?ar:al, *g0=side?gr:gl, *o=side?orr:ol, *ag=side?agr:agl;
		const auto q=ref::prim<LD>(c.g,ref::cast<LD>(u),ref::cast<LD>(c.n)); const double T=ref::temp<LD>(c.g,c.M,ref::cast<LD>(u));
		const double w[4]={(double)q.r,(double)q.u,(double)q.v,T}, vs=std::sqrt((double)q.V2), Ts=c.g*c.M*c.M*(c.g-1)*u[3]/u[0]; const double sc[4]={u[0],vs,vs,Ts};
		for(int i=0;i<4;i++) { PBT_CHECK(std::fabs(t[i]-w[i])<=1e-11*sc[i]+1e-300,"face-state","side "<<side<<" variable "<<i<<" is "<<t[i]<<" expected "<<w[i]);
			PBT_CHECK(same(t[i],a[i],sc[i]),"face-state-alias","side "<<side<<" variable "<<i<<" in place "<<a[i]<<" vs "<<t[i]); }
		for(int d=0;d<2;d++) for(int i=0;i<4;i++) {
			if(!second) { PBT_CHECK(o[d*4+i]==77,"face-grad-untouched","gradient touched"); continue; }
			// T = g M^2 p / rho
			const double wg = i<3 ? g0[d*4+i] : c.g*c.M*c.M*(g0[d*4+3]-(double)(q.p/q.r)*g0[d*4])/u[0];
			const double gs = i<3 ? 1 : c.g*c.M*c.M*(4+4*(c.g-1)*u[3]/u[0])/u[0];
			PBT_CHECK(std::fabs(o[d*4+i]-wg)<=1e-11*gs,"face-gradient","side "<<side<<" direction "<<d<<" variable "<<i<<" is "<<o[d*4+i]<<" expected "<<wg);
			PBT_CHECK(same(o[d*4+i],ag[d*4+i],gs),"face-gradient-alias","side "<<side<<" in place "<<ag[d*4+i]<<" vs "<<o[d*4+i]);
		}
	}
}

int main(int argc, char **argv) { return pbt::engineMain(argc,argv); }
