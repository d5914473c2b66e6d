/* Reference finite-volume discretisation, working from the generated mesh alone */
#ifndef VERIF_REFSPATIAL_HPP
#define VERIF_REFSPATIAL_HPP
#include "common.hpp"
#include "refgas.hpp"
#include "refbc.hpp"
#include <map>

namespace ref {

typedef A4<LD> L4; typedef A2<LD> L2;

struct RMesh {
	struct Edge { int l, r; int a, b; L2 n; LD len; L2 mid; int tag; L2 gc; };   // r=-1 on the boundary, gc: ghost centre there
	std::vector<L2> c; std::vector<LD> area, maxlen;
	std::vector<Edge> e;
	std::vector<std::vector<int>> ce;       // edges of each cell
	L2 other(int k, int cell) const { const Edge& x=e[k]; return x.r<0 ? x.gc : (x.l==cell ? c[x.r] : c[x.l]); }
};
inline RMesh rmesh(const vc::GenMesh& g) {
	RMesh m; const int nc=g.cells.size(); m.ce.resize(nc); m.maxlen.assign(nc,0);
	for(int i=0;i<nc;i++) {
		L2 c={0,0}; LD A=0; const auto& q=g.cells[i]; const int k=q.size();
		for(int j=0;j<k;j++) { c[0]+=g.pts[q[j]][0]; c[1]+=g.pts[q[j]][1];
			const auto& p=g.pts[q[j]]; const auto& r=g.pts[q[(j+1)%k]]; A+=((LD)p[0]*r[1]-(LD)p[1]*r[0])/2; }
		m.c.push_back({c[0]/k,c[1]/k}); m.area.push_back(A);
	}
	std::map<std::pair<int,int>,int> tag;
	for(const auto& b : g.bfs) tag[{std::min(b.a,b.b),std::max(b.a,b.b)}]=b.tags[0];
	for(const auto& k : vc::edgeMap(g)) {
		RMesh::Edge e; const auto& o=k.second[0]; e.l=o.first; e.r=k.second.size()>1?k.second[1].first:-1;
		const auto& q=g.cells[e.l]; const int a=q[o.second], b=q[(o.second+1)%q.size()]; e.a=a; e.b=b;
		const LD dx=(LD)g.pts[b][0]-g.pts[a][0], dy=(LD)g.pts[b][1]-g.pts[a][1];
		e.len=std::sqrt(dx*dx+dy*dy); e.n={dy/e.len,-dx/e.len};
		e.mid={((LD)g.pts[a][0]+g.pts[b][0])/2,((LD)g.pts[a][1]+g.pts[b][1])/2};
		e.tag = e.r<0 ? tag.at(k.first) : 0;
		e.gc={2*e.mid[0]-m.c[e.l][0],2*e.mid[1]-m.c[e.l][1]};
		m.ce[e.l].push_back(m.e.size()); if(e.r>=0) m.ce[e.r].push_back(m.e.size());
		m.maxlen[e.l]=std::max(m.maxlen[e.l],e.len); if(e.r>=0) m.maxlen[e.r]=std::max(m.maxlen[e.r],e.len);
		m.e.push_back(e);
	}
	return m;
}

/// Gradient of every variable in every cell: G[cell][dim][var]
template <size_t N> using GradV = std::vector<std::array<std::array<LD,N>,2>>;
template <size_t N> GradV<N> gradients(const std::string& scheme, const RMesh& m, const std::vector<std::array<LD,N>>& u, const std::vector<std::array<LD,N>>& ug) {
	GradV<N> G(m.c.size()); for(auto& x : G) for(auto& y : x) y.fill(0);
	if(scheme=="GREENGAUSS") {
		for(size_t k=0;k<m.e.size();k++) { const auto& e=m.e[k];
			const L2 o=m.other(k,e.l);
			const LD dl=std::hypot(e.mid[0]-m.c[e.l][0],e.mid[1]-m.c[e.l][1]), dr=std::hypot(e.mid[0]-o[0],e.mid[1]-o[1]);
			for(size_t v=0;v<N;v++) {
				const LD w = e.r<0 ? ug[k][v] : u[e.r][v];
				const LD f=(u[e.l][v]/dl+w/dr)/(1/dl+1/dr)*e.len;
				for(int d=0;d<2;d++) { G[e.l][d][v]+=f*e.n[d]/m.area[e.l]; if(e.r>=0) G[e.r][d][v]-=f*e.n[d]/m.area[e.r]; }
			}
		}
	} else if(scheme=="LEASTSQUARES") {
		for(size_t c=0;c<m.c.size();c++) {
			LD a=0,b=0,d=0; std::array<std::array<LD,N>,2> f; f[0].fill(0); f[1].fill(0);
			for(int k : m.ce[c]) { const auto& e=m.e[k];
				const L2 o=m.other(k,c); const LD x=o[0]-m.c[c][0], y=o[1]-m.c[c][1], w=1/(x*x+y*y);
				a+=w*x*x; b+=w*x*y; d+=w*y*y;
				for(size_t v=0;v<N;v++) { const LD du=(e.r<0?ug[k][v]:u[e.l==(int)c?e.r:e.l][v])-u[c][v]; f[0][v]+=w*x*du; f[1][v]+=w*y*du; }
			}
			const LD det=a*d-b*b;
			for(size_t v=0;v<N;v++) { G[c][0][v]=(d*f[0][v]-b*f[1][v])/det; G[c][1][v]=(a*f[1][v]-b*f[0][v])/det; }
		}
	}
	return G;
}

/// Values on both sides of the faces (left: of cell e.l). fr is untouched on boundary faces.
/// Returns false if the result hinges on roundoff.
template <size_t N> bool reconstruct(const std::string& type, LD param, const RMesh& m, const std::vector<std::array<LD,N>>& u, const std::vector<std::array<LD,N>>& ug,
                                     const GradV<N>& G, std::vector<std::array<LD,N>>& fl, std::vector<std::array<LD,N>>& fr) {
	fl.resize(m.e.size()); fr.resize(m.e.size());
	bool ok=true;
	auto nb=[&](int c, int k, int v) { const auto& e=m.e[k]; return e.r<0 ? ug[k][v] : u[e.l==c?e.r:e.l][v]; };
	for(int c=0;c<(int)m.c.size();c++) for(size_t v=0;v<N;v++) {
		LD L[2]={G[c][0][v],G[c][1][v]}, lim=1;
		auto ext=[&](int k) { return L[0]*(m.e[k].mid[0]-m.c[c][0])+L[1]*(m.e[k].mid[1]-m.c[c][1]); };
		if(type=="WENO") {
			auto w=[&](int q){ return 1/std::pow(G[q][0][v]*G[q][0][v]+G[q][1][v]*G[q][1][v]+1e-5L,LD(4)); };
			LD W=param*w(c), s0=W*G[c][0][v], s1=W*G[c][1][v];
			for(int k : m.ce[c]) { const auto& e=m.e[k]; if(e.r<0) continue; const int o=e.l==c?e.r:e.l; const LD x=w(o); W+=x; s0+=x*G[o][0][v]; s1+=x*G[o][1][v]; }
			L[0]=s0/W; L[1]=s1/W;
		}
		if(type=="BARTHJESPERSEN"||type=="VENKATAKRISHNAN") {
			LD mn=0,mx=0,big=0;
			for(int k : m.ce[c]) { const LD d=nb(c,k,v)-u[c][v]; mn=std::min(mn,d); mx=std::max(mx,d); big=std::max(big,std::abs(ext(k))); }
			big=std::max({big,-mn,mx});
			for(int k : m.ce[c]) {
				const LD d=ext(k), b=d>0?mx:mn;
				if(type=="BARTHJESPERSEN") {
					if(d!=0) lim=std::min(lim,b/d);
					if(std::abs(d)<=1e-7L*big && std::abs(b)<1e-5L*big) ok=false;
					if(std::abs(d)<=1e-13L*std::abs(u[c][v])) { if(std::abs(b)<=1e-11L*std::abs(u[c][v]) && big>1e-10L*std::abs(u[c][v])) ok=false; }
				} else {
					const LD e2=std::pow(param*m.maxlen[c],LD(3));
					const LD dp=d<0?mn:mx;
					lim=std::min(lim,(dp*dp+2*dp*d+e2)/(dp*dp+dp*d+2*d*d+e2));
					// the switch between minimum and maximum at zero increment only matters if roundoff decides it
					if(std::abs(d)<=1e-7L*big && std::abs(dp)<1e-5L*big && e2<1e-10L*big*big) ok=false;
				}
			}
		}
		for(int k : m.ce[c]) { const auto& e=m.e[k]; LD val;
			if(type=="VANALBADA") {
				// MUSCL with kappa=1/3 and the Van Albada limiter, from the cell's own side
				const LD du=nb(c,k,v)-u[c][v]; const L2 o=m.other(k,c);
				const LD dm=2*(G[c][0][v]*(o[0]-m.c[c][0])+G[c][1][v]*(o[1]-m.c[c][1]))-du;
				LD phi=(2*dm*du+1e-8L)/(dm*dm+du*du+1e-8L); if(phi<0) phi=0;
				const LD kk=1.0L/3;
				val=u[c][v]+phi/4*((1-kk*phi)*dm+(1+kk*phi)*du);
			} else val=u[c][v]+lim*ext(k);
			(e.l==c?fl:fr)[k][v]=val;
		}
	}
	return ok;
}

struct Cfg {
	LD g, M, Tinf, Re, Pr, aoa; bool visc, cvisc, order2; std::string flux, jflux, grad, rec; LD lim;
	std::map<int,BSpec> bc;
	L4 uinf() const { return {LD(1),std::cos(aoa),std::sin(aoa),1/(g*M*M)/(g-1)+LD(0.5)}; }
};

inline L4 toPrim(LD g, const L4& u) { return {u[0],u[1]/u[0],u[2]/u[0],pres(g,u)}; }
inline L4 toCons(LD g, const L4& q) { return {q[0],q[0]*q[1],q[0]*q[2],q[3]/(g-1)+q[0]*(q[1]*q[1]+q[2]*q[2])/2}; }

struct Result {
	bool ok=true;                // comparable: admissible, and not decided by roundoff
	std::string why;
	std::vector<L4> r, scale;    // minus the net outflow of each cell; magnitude of the terms
	std::vector<LD> dt;
	std::vector<L4> flux;        // total flux (per unit length, inviscid and viscous) through each edge, l to r
};

inline bool ghostOf(const Cfg& c, const RMesh::Edge& e, const L4& u, L4& g) {
	return ghost(c.g,c.M,c.uinf(),c.bc.at(e.tag),u,e.n,g);
}

inline L4 viscFace(const Cfg& c, const RMesh& m, int k, const L4& ucl, const L4& ucr, const LD gl[2][4], const LD gr[2][4], const L4& ul, const L4& ur, L4 *mag=nullptr) {
	const auto& e=m.e[k]; const L2 o=m.other(k,e.l);
	const LD dx=o[0]-m.c[e.l][0], dy=o[1]-m.c[e.l][1], d=std::sqrt(dx*dx+dy*dy); const L2 t={dx/d,dy/d};
	auto q2=[&](const L4& u){ return L4{u[0],u[1]/u[0],u[2]/u[0],temp(c.g,c.M,u)}; };
	const L4 a=q2(ucl), b=q2(ucr); LD G[2][4];
	for(int v=0;v<4;v++) {
		LD av[2]; for(int j=0;j<2;j++) av[j]=(gl[j][v]+gr[j][v])/2;
		const LD s=av[0]*t[0]+av[1]*t[1];
		for(int j=0;j<2;j++) G[j][v]=av[j]-s*t[j]+(b[v]-a[v])/d*t[j];
	}
	if(mag) {
		const LD mu = c.cvisc ? 1/c.Re : (sutherland(temp(c.g,c.M,ul),c.Tinf,c.Re)+sutherland(temp(c.g,c.M,ur),c.Tinf,c.Re))/2;
		LD gm=0,gt=0; for(int j=0;j<2;j++) { for(int v=1;v<3;v++) gm=std::max({gm,std::abs(gl[j][v]),std::abs(gr[j][v]),(std::abs(a[v])+std::abs(b[v]))/d}); gt=std::max({gt,std::abs(gl[j][3]),std::abs(gr[j][3]),(std::abs(a[3])+std::abs(b[3]))/d}); }
		const LD V=std::hypot(a[1],a[2])+std::hypot(b[1],b[2]);
		*mag={0,mu*gm,mu*gm,mu*gm*V+mu/(c.M*c.M*(c.g-1)*c.Pr)*gt};
	}
	return viscous<LD>(c.g,c.M,c.Tinf,c.Re,c.Pr,c.cvisc,ul,ur,e.n,G);
}

inline Result residual(const Cfg& c, const RMesh& m, const std::vector<L4>& u) {
	Result R; const int nc=m.c.size(), ne=m.e.size(); const LD g=c.g;
	auto bad=[&](const char *w) { R.ok=false; R.why=w; return R; };
	auto adm=[&](const L4& x) { return x[0]>1e-4L && pres(g,x)>1e-6L*x[3]; };
	std::vector<L4> ug(ne), fl(ne), fr(ne), up, ugp(ne);
	for(const auto& x : u) if(!adm(x)) return bad("state");
	for(int k=0;k<ne;k++) if(m.e[k].r<0) { if(!ghostOf(c,m.e[k],u[m.e[k].l],ug[k])) return bad("ghost"); if(!adm(ug[k])) return bad("ghost"); }
	GradV<4> G;
	if(c.order2) {
		for(const auto& x : u) up.push_back(toPrim(g,x));
		for(int k=0;k<ne;k++) if(m.e[k].r<0) ugp[k]=toPrim(g,ug[k]);
		G=gradients<4>(c.grad,m,up,ugp);
		if(!reconstruct<4>(c.rec,c.lim,m,up,ugp,G,fl,fr)) return bad("limiter at roundoff");
		for(int k=0;k<ne;k++) { fl[k]=toCons(g,fl[k]); if(m.e[k].r>=0) fr[k]=toCons(g,fr[k]); }
	} else for(int k=0;k<ne;k++) { fl[k]=u[m.e[k].l]; if(m.e[k].r>=0) fr[k]=u[m.e[k].r]; }
	for(int k=0;k<ne;k++) {
		if(!adm(fl[k])) return bad("face state");
		if(m.e[k].r<0 && !ghostOf(c,m.e[k],fl[k],fr[k])) return bad("face ghost");
		if(!adm(fr[k])) return bad("face state");
		if(m.e[k].r<0 && c.bc.at(m.e[k].tag).type==fvens::INFLOW_OUTFLOW_BC) {
			for(const L4& x : {fl[k],u[m.e[k].l]}) { const auto q=prim<LD>(g,x,m.e[k].n); if(std::abs(q.vn/q.c)<1e-8L||std::abs(q.vn/q.c-1)<1e-8L) return bad("at the switch of inflow-outflow"); }
		}
	}
	R.r.assign(nc,L4{0,0,0,0}); R.scale.assign(nc,L4{0,0,0,0}); R.dt.assign(nc,0); R.flux.resize(ne);
	std::vector<LD> in(nc,0);
	for(int k=0;k<ne;k++) { const auto& e=m.e[k];
		L4 F=ref::flux<LD>(c.flux,g,fl[k],fr[k],e.n), S={0,0,0,0};
		LD w=0,r=0,E=0; for(const L4 *x : {&fl[k],&fr[k]}) { const auto q=prim<LD>(g,*x,e.n); w=std::max(w,std::sqrt(q.V2)+q.c); r=std::max(r,q.r); E=std::max(E,(*x)[3]); }
		S={r*w,r*w*w,r*w*w,(E+r*w*w)*w*(1+1/(g-1))};
		if(c.visc) {
			LD gl[2][4], gr[2][4];
			auto conv=[&](const L4& x, int cell, LD o[2][4]) {
				const L4 q=toPrim(g,x);
				for(int j=0;j<2;j++) { for(int v=0;v<3;v++) o[j][v]=G[cell][j][v];
					o[j][3]=g*c.M*c.M*(G[cell][j][3]*q[0]-q[3]*G[cell][j][0])/(q[0]*q[0]); }
			};
			const L4& ucr = e.r<0 ? ug[k] : u[e.r];
			if(c.order2) { conv(u[e.l],e.l,gl); conv(ucr,e.r<0?e.l:e.r,gr); }
			else for(int j=0;j<2;j++) for(int v=0;v<4;v++) gl[j][v]=gr[j][v]=0;
			L4 mag; const L4 V=viscFace(c,m,k,u[e.l],ucr,gl,gr,fl[k],fr[k],&mag);
			for(int v=0;v<4;v++) { F[v]+=V[v]; S[v]+=mag[v]; }
		}
		R.flux[k]=F;
		for(int v=0;v<4;v++) {
			R.r[e.l][v]-=F[v]*e.len; R.scale[e.l][v]+=S[v]*e.len;
			if(e.r>=0) { R.r[e.r][v]+=F[v]*e.len; R.scale[e.r][v]+=S[v]*e.len; }
		}
		auto spec=[&](const L4& x, int cell) { const auto q=prim<LD>(g,x,e.n); LD s=(std::abs(q.vn)+q.c)*e.len;
			if(c.visc) { const LD mu=c.cvisc?1/c.Re:sutherland(temp(g,c.M,x),c.Tinf,c.Re); s+=std::max(LD(4)/3,g)/x[0]*mu/c.Pr*e.len*e.len/m.area[cell]; } return s; };
		in[e.l]+=spec(fl[k],e.l); if(e.r>=0) in[e.r]+=spec(fr[k],e.r);
	}
	for(int i=0;i<nc;i++) R.dt[i]=m.area[i]/in[i];
	return R;
}
}
#endif
