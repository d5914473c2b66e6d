/* Ghost states by the definition of each boundary condition, independent of the library */
#ifndef VERIF_REFBC_HPP
#define VERIF_REFBC_HPP
#include "refgas.hpp"
#include "spatial/abctypes.hpp"

namespace ref {
struct BSpec { fvens::BCType type; LD v0=0, v1=0; bool cart=false; LD w[2]={0,0}; };
inline bool ghost(const LD g, const LD M, const A4<LD>& uinf, const BSpec& b, const A4<LD>& u, const A2<LD>& n, A4<LD>& gs) {
	using namespace fvens;
	const auto q=ref::prim<LD>(g,u,n);
	switch(b.type) {
		case SLIP_WALL_BC: gs={u[0],u[0]*(q.u-2*q.vn*n[0]),u[0]*(q.v-2*q.vn*n[1]),u[3]}; return true;
		case FARFIELD_BC: for(int i=0;i<4;i++) gs[i]=uinf[i]; return true;
		case EXTRAPOLATION_BC: gs=u; return true;
		case INFLOW_OUTFLOW_BC:
			if(q.vn<=0) { for(int i=0;i<4;i++) gs[i]=uinf[i]; }
			else if(q.vn<q.c) gs={u[0],u[1],u[2],1/(g*M*M)/(g-1)+u[0]*q.V2/2};
			else gs=u;
			return true;
		case ADIABATIC_WALL_BC: {
			const LD wx = b.cart ? b.w[0] : b.v0*n[1], wy = b.cart ? b.w[1] : -b.v0*n[0];
			const LD vx=2*wx-q.u, vy=2*wy-q.v;
			gs={u[0],u[0]*vx,u[0]*vy,q.p/(g-1)+u[0]*(vx*vx+vy*vy)/2}; return true; }
		case ISOTHERMAL_WALL_BC: {
			const LD vx=2*b.v0*n[1]-q.u, vy=-2*b.v0*n[0]-q.v, T=g*M*M*q.p/q.r, Tg=2*b.v1-T;
			gs={u[0],u[0]*vx,u[0]*vy,u[0]*Tg/(g*M*M)/(g-1)+u[0]*(vx*vx+vy*vy)/2}; return true; }
		default: {
			// isentropic inflow: the outgoing invariant and the stagnation speed of sound come from the interior,
			// stagnation pressure and temperature are imposed, the flow enters along the normal
			const LD Rm=q.vn-2*q.c/(g-1), c02=q.c*q.c+(g-1)/2*q.V2;
			// -V - 2c/(g-1) = Rm,  c^2 + (g-1)/2 V^2 = c0^2: solve for c
			// c = -(g-1)/2 (Rm+V):  (g-1)^2/4 (Rm+V)^2 + (g-1)/2 V^2 = c0^2
			const LD A=(g-1)*(g-1)/4+(g-1)/2, B=(g-1)*(g-1)/2*Rm, C=(g-1)*(g-1)/4*Rm*Rm-c02;
			const LD D=B*B-4*A*C; if(D<0) return false;
			const LD V=(-B-std::sqrt(D))/(2*A);           // smaller root: larger sound speed
			const LD c=-(g-1)/2*(Rm+V);
			if(!(V>0.001L*c) || !(c>0)) return false;
			const LD T=b.v1*c*c/c02, p=b.v0*std::pow(T/b.v1,g/(g-1)), r=g*M*M*p/T;
			gs={r,-r*V*n[0],-r*V*n[1],p/(g-1)+r*V*V/2}; return true; }
	}
}
}
#endif
