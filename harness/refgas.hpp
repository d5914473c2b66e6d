/* Reference gas dynamics, written independently of the library from the published formulas.
 * T is double or long double.  State u = (rho, rho v, rho E), normal n of unit length.
 */
#ifndef VERIF_REFGAS_HPP
#define VERIF_REFGAS_HPP
#include <cmath>
#include <string>
#include <array>
#include <algorithm>

namespace ref {

typedef long double LD;
template <typename T> using A4 = std::array<T,4>;
template <typename T> using A2 = std::array<T,2>;

template <typename T> T pres(T g, const A4<T>& u) { return (g-1)*(u[3] - (u[1]*u[1]+u[2]*u[2])/(2*u[0])); }

template <typename T> struct Prim { T r,u,v,p,c,vn,H,V2; };
template <typename T> Prim<T> prim(T g, const A4<T>& u, const A2<T>& n) {
	Prim<T> q; q.r=u[0]; q.u=u[1]/u[0]; q.v=u[2]/u[0]; q.p=pres(g,u); q.c=std::sqrt(g*q.p/q.r);
	q.vn=q.u*n[0]+q.v*n[1]; q.H=(u[3]+q.p)/q.r; q.V2=q.u*q.u+q.v*q.v; return q;
}
template <typename T> A4<T> euler(T g, const A4<T>& u, const A2<T>& n) {
	const Prim<T> q = prim(g,u,n);
	return {q.r*q.vn, u[1]*q.vn+q.p*n[0], u[2]*q.vn+q.p*n[1], (u[3]+q.p)*q.vn};
}

template <typename T> struct Roe { T u,v,H,c,vn,V2,r; };
template <typename T> Roe<T> roeAvg(T g, const Prim<T>& l, const Prim<T>& r, const A2<T>& n) {
	const T a=std::sqrt(l.r), b=std::sqrt(r.r);
	Roe<T> m; m.u=(a*l.u+b*r.u)/(a+b); m.v=(a*l.v+b*r.v)/(a+b); m.H=(a*l.H+b*r.H)/(a+b);
	m.V2=m.u*m.u+m.v*m.v; m.vn=m.u*n[0]+m.v*n[1]; m.c=std::sqrt((g-1)*(m.H-m.V2/2)); m.r=a*b; return m;
}

/// Quantities held fixed when an approximate Jacobian freezes them
template <typename T> struct Frozen { bool on=false; T a=0, b=0; };

template <typename T> A4<T> fluxLLF(T g, const A4<T>& ul, const A4<T>& ur, const A2<T>& n, Frozen<T> *f=nullptr) {
	const Prim<T> l=prim(g,ul,n), r=prim(g,ur,n);
	T lam=std::max(std::abs(l.vn)+l.c, std::abs(r.vn)+r.c);
	if(f) { if(f->on) lam=f->a; else f->a=lam; }
	const A4<T> fl=euler(g,ul,n), fr=euler(g,ur,n); A4<T> o;
	for(int i=0;i<4;i++) o[i]=(fl[i]+fr[i]-lam*(ur[i]-ul[i]))/2;
	return o;
}

template <typename T> A4<T> vlSplit(T g, const A4<T>& u, const A2<T>& n, T sgn) {
	// van Leer (1982); sgn=+1 forward, -1 backward
	const Prim<T> q=prim(g,u,n); const T M=q.vn/q.c;
	if(sgn*M>=1) return euler(g,u,n);
	if(sgn*M<=-1) return {0,0,0,0};
	const T fm = sgn*q.r*q.c*(M+sgn)*(M+sgn)/4;
	const T k = (-q.vn+2*sgn*q.c)/g;
	const T en = ((g-1)*q.vn+2*sgn*q.c);
	// tangential kinetic energy
	const T vt2 = q.V2-q.vn*q.vn;
	return {fm, fm*(q.u+n[0]*k), fm*(q.v+n[1]*k), fm*(en*en/(2*(g*g-1)) + vt2/2)};
}
template <typename T> A4<T> fluxVL(T g, const A4<T>& ul, const A4<T>& ur, const A2<T>& n) {
	const A4<T> a=vlSplit(g,ul,n,T(1)), b=vlSplit(g,ur,n,T(-1));
	return {a[0]+b[0],a[1]+b[1],a[2]+b[2],a[3]+b[3]};
}

template <typename T> A4<T> ausmLike(const Prim<T>& l, const Prim<T>& r, const A4<T>& ul, const A4<T>& ur,
                                     const A2<T>& n, T cl, T cr, T alpha, T beta) {
	auto Mp=[&](T M){ return std::abs(M)>=1 ? (M+std::abs(M))/2 : (M+1)*(M+1)/4+beta*(M*M-1)*(M*M-1); };
	auto Mm=[&](T M){ return std::abs(M)>=1 ? (M-std::abs(M))/2 : -(M-1)*(M-1)/4-beta*(M*M-1)*(M*M-1); };
	auto Pp=[&](T M){ return std::abs(M)>=1 ? T(M>0?1:0) : (M+1)*(M+1)*(2-M)/4+alpha*M*(M*M-1)*(M*M-1); };
	auto Pm=[&](T M){ return std::abs(M)>=1 ? T(M>0?0:1) : (M-1)*(M-1)*(2+M)/4-alpha*M*(M*M-1)*(M*M-1); };
	const T m = Mp(l.vn/cl)+Mm(r.vn/cr);
	const T p = Pp(l.vn/cl)*l.p+Pm(r.vn/cr)*r.p;
	A4<T> o;
	if(m>=0) o = {m*cl*ul[0], m*cl*ul[1], m*cl*ul[2], m*cl*(ul[3]+l.p)};
	else o = {m*cr*ur[0], m*cr*ur[1], m*cr*ur[2], m*cr*(ur[3]+r.p)};
	o[1]+=p*n[0]; o[2]+=p*n[1];
	return o;
}
template <typename T> A4<T> fluxAUSM(T g, const A4<T>& ul, const A4<T>& ur, const A2<T>& n) {
	const Prim<T> l=prim(g,ul,n), r=prim(g,ur,n);
	return ausmLike(l,r,ul,ur,n,l.c,r.c,T(0),T(0));
}
/// Critical speed of sound
template <typename T> T cstar(T g, const Prim<T>& q) { return std::sqrt(2*(g-1)/(g+1)*q.H); }
template <typename T> A4<T> fluxAUSMP(T g, const A4<T>& ul, const A4<T>& ur, const A2<T>& n) {
	const Prim<T> l=prim(g,ul,n), r=prim(g,ur,n);
	const T sl=cstar(g,l), sr=cstar(g,r);
	const T c=std::min(sl*sl/std::max(sl,l.vn), sr*sr/std::max(sr,-r.vn));
	return ausmLike(l,r,ul,ur,n,c,c,T(3)/16,T(1)/8);
}

/// Eigenvalues about which the entropy fix is expanded (used only to recognise a recorded defect)
template <typename T> struct FixLin { bool on=false; T raw[3], fixed[3], sg[3], d; bool act[3]; };
template <typename T> A4<T> fluxROE(T g, const A4<T>& ul, const A4<T>& ur, const A2<T>& n, T eps=T(1.0e-4L), FixLin<T> *lin=nullptr) {
	const Prim<T> l=prim(g,ul,n), r=prim(g,ur,n); const Roe<T> m=roeAvg(g,l,r,n);
	const T tx=-n[1], ty=n[0];
	const T mt=m.u*tx+m.v*ty;
	T lam[3]={m.vn-m.c,m.vn,m.vn+m.c};
	for(int i=0;i<3;i++) {
		const T d=eps*m.c, x=std::abs(lam[i]); const bool act=x<d;
		const T y=lam[i];
		lam[i] = act ? (x*x+d*d)/(2*d) : x;
		if(lin && !lin->on) { lin->raw[i]=x; lin->sg[i]=y>=0?1:-1; lin->fixed[i]=lam[i]; lin->d=d; lin->act[i]=act; }
		if(lin && lin->on && lin->act[i]) {
			const T L=lin->fixed[i], D=lin->d;
			lam[i] = L + (2*(L*(lin->sg[i]*y-lin->raw[i])+D*(d-D))*2*D - (L*L+D*D)*2*(d-D))/(4*D*D);
		}
	}
	// wave strengths from the conserved jumps, via projection on the left eigenvectors
	A4<T> d; for(int i=0;i<4;i++) d[i]=ur[i]-ul[i];
	const T dn=d[1]*n[0]+d[2]*n[1], dt=d[1]*tx+d[2]*ty;
	const T a3=dt-mt*d[0];                                        // shear
	const T a2=(g-1)/(m.c*m.c)*((m.H-m.V2)*d[0]+m.u*d[1]+m.v*d[2]-d[3]);   // entropy
	const T a1=(d[0]*(m.vn+m.c)-dn-m.c*a2)/(2*m.c);
	const T a4=d[0]-a1-a2;
	A4<T> D;
	D[0]=lam[0]*a1+lam[1]*a2+lam[2]*a4;
	D[1]=lam[0]*a1*(m.u-m.c*n[0])+lam[1]*(a2*m.u+a3*tx)+lam[2]*a4*(m.u+m.c*n[0]);
	D[2]=lam[0]*a1*(m.v-m.c*n[1])+lam[1]*(a2*m.v+a3*ty)+lam[2]*a4*(m.v+m.c*n[1]);
	D[3]=lam[0]*a1*(m.H-m.c*m.vn)+lam[1]*(a2*m.V2/2+a3*mt)+lam[2]*a4*(m.H+m.c*m.vn);
	const A4<T> fl=euler(g,ul,n), fr=euler(g,ur,n); A4<T> o;
	for(int i=0;i<4;i++) o[i]=(fl[i]+fr[i]-D[i])/2;
	return o;
}

template <typename T> void waveSpeeds(T g, const A4<T>& ul, const A4<T>& ur, const A2<T>& n, T& sl, T& sr) {
	const Prim<T> l=prim(g,ul,n), r=prim(g,ur,n); const Roe<T> m=roeAvg(g,l,r,n);
	sl=std::min(l.vn-l.c,m.vn-m.c); sr=std::max(r.vn+r.c,m.vn+m.c);
}
template <typename T> A4<T> fluxHLL(T g, const A4<T>& ul, const A4<T>& ur, const A2<T>& n, Frozen<T> *f=nullptr) {
	T sl,sr; waveSpeeds(g,ul,ur,n,sl,sr);
	if(f) { if(f->on) { sl=f->a; sr=f->b; } else { f->a=sl; f->b=sr; } }
	const A4<T> fl=euler(g,ul,n), fr=euler(g,ur,n);
	if(sl>=0) return fl;
	if(sr<=0) return fr;
	A4<T> o; for(int i=0;i<4;i++) o[i]=(sr*fl[i]-sl*fr[i]+sl*sr*(ur[i]-ul[i]))/(sr-sl);
	return o;
}
template <typename T> A4<T> fluxHLLC(T g, const A4<T>& ul, const A4<T>& ur, const A2<T>& n) {
	const Prim<T> l=prim(g,ul,n), r=prim(g,ur,n); T sl,sr; waveSpeeds(g,ul,ur,n,sl,sr);
	const T sm=(r.p-l.p+l.r*l.vn*(sl-l.vn)-r.r*r.vn*(sr-r.vn))/(l.r*(sl-l.vn)-r.r*(sr-r.vn));
	if(sl>=0) return euler(g,ul,n);
	if(sr<=0) return euler(g,ur,n);
	const bool left = sm>0;
	const Prim<T>& q=left?l:r; const A4<T>& u=left?ul:ur; const T s=left?sl:sr;
	// Toro's form of the star state
	const T k=q.r*(s-q.vn)/(s-sm);
	const A4<T> us={k, k*(q.u+(sm-q.vn)*n[0]), k*(q.v+(sm-q.vn)*n[1]),
		k*(u[3]/q.r+(sm-q.vn)*(sm+q.p/(q.r*(s-q.vn))))};
	A4<T> o=euler(g,u,n);
	for(int i=0;i<4;i++) o[i]+=s*(us[i]-u[i]);
	return o;
}

template <typename T> A4<T> flux(const std::string& t, T g, const A4<T>& ul, const A4<T>& ur, const A2<T>& n) {
	if(t=="LLF") return fluxLLF(g,ul,ur,n);
	if(t=="VANLEER") return fluxVL(g,ul,ur,n);
	if(t=="AUSM") return fluxAUSM(g,ul,ur,n);
	if(t=="AUSMPLUS") return fluxAUSMP(g,ul,ur,n);
	if(t=="ROE") return fluxROE(g,ul,ur,n);
	if(t=="HLL") return fluxHLL(g,ul,ur,n);
	return fluxHLLC(g,ul,ur,n);
}

/// Which formula branch a state pair is in (for the fluxes with analytic Jacobians)
template <typename T> int branch(const std::string& t, T g, const A4<T>& ul, const A4<T>& ur, const A2<T>& n) {
	const Prim<T> l=prim(g,ul,n), r=prim(g,ur,n); const Roe<T> m=roeAvg(g,l,r,n);
	int b=0;
	auto bit=[&](bool x){ b=2*b+(x?1:0); };
	if(t=="LLF") { bit(std::abs(l.vn)+l.c>=std::abs(r.vn)+r.c); bit(l.vn>0); bit(r.vn>0); }
	else if(t=="ROE") for(int i=-1;i<2;i++) { const T x=m.vn+i*m.c; const bool fix=std::abs(x)<T(1e-4L)*m.c; bit(fix); bit(!fix&&x>0); }
	else {
		T sl,sr; waveSpeeds(g,ul,ur,n,sl,sr);
		bit(l.vn-l.c<m.vn-m.c); bit(r.vn+r.c>m.vn+m.c); bit(sl>0); bit(sr>0);
		const T sm=(r.p-l.p+l.r*l.vn*(sl-l.vn)-r.r*r.vn*(sr-r.vn))/(l.r*(sl-l.vn)-r.r*(sr-r.vn));
		bit(sm>0);
	}
	return b;
}

/// Sutherland's law, as (mu(T Tinf)/mu(Tinf))/Re
template <typename T> T sutherland(T Tn, T Tinf, T Re) { const T S=110.5L; return std::pow(Tn,T(1.5))*(Tinf+S)/(Tn*Tinf+S)/Re; }
/// Nondimensional temperature
template <typename T> T temp(T g, T Minf, const A4<T>& u) { return g*Minf*Minf*pres(g,u)/u[0]; }

/// Outgoing viscous flux (to be added to the inviscid one) given the face gradient grad[dim][rho,u,v,T]
template <typename T> A4<T> viscous(T g, T Minf, T Tinf, T Re, T Pr, bool constv, const A4<T>& ul, const A4<T>& ur,
                                    const A2<T>& n, const T grad[2][4]) {
	const T mu = constv ? 1/Re : (sutherland(temp(g,Minf,ul),Tinf,Re)+sutherland(temp(g,Minf,ur),Tinf,Re))/2;
	const T k = mu/(Minf*Minf*(g-1)*Pr);
	const T div = grad[0][1]+grad[1][2];
	const T txx=2*mu*grad[0][1]-T(2)/3*mu*div, tyy=2*mu*grad[1][2]-T(2)/3*mu*div, txy=mu*(grad[1][1]+grad[0][2]);
	const T ua=(ul[1]/ul[0]+ur[1]/ur[0])/2, va=(ul[2]/ul[0]+ur[2]/ur[0])/2;
	return {T(0), -(txx*n[0]+txy*n[1]), -(txy*n[0]+tyy*n[1]),
		-((ua*txx+va*txy+k*grad[0][3])*n[0]+(ua*txy+va*tyy+k*grad[1][3])*n[1])};
}

template <typename T> A4<T> cast(const std::array<double,4>& a) { return {T(a[0]),T(a[1]),T(a[2]),T(a[3])}; }
template <typename T> A2<T> cast(const std::array<double,2>& a) { return {T(a[0]),T(a[1])}; }
}
#endif
