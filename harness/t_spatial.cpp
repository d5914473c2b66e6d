/* Spatial discretisation: gradients, reconstruction, residual, time steps, Jacobians, diffusion */
#include "flowcase.hpp"
#include "spatial/agradientschemes.hpp"
#include "spatial/areconstruction.hpp"
#include "spatial/diffusion.hpp"

using namespace vc;
using namespace fvens;
using ref::LD; using ref::L4; using ref::RMesh;
using pbt::Src;

namespace {
GenOpts meshOpts(Src& s, int maxn=5) {
	GenOpts o; o.maxn=maxn; o.tail=maxn<=3?6:maxn==4?10:20; o.tailodds=300; o.maxstretch = !s.chance(1,4) ? 3 : s.chance(1,4) ? 2000 : 20; if(o.maxstretch>100) s.label("thin cells allowed"); o.ndtagmax=1; o.nbtagmax=1; return o;
}
LD maxabs(const std::vector<L4>& u, int v) { LD m=0; for(const auto& x : u) m=std::max(m,std::abs(x[v])); return m; }

void cmpRes(const std::vector<V4>& a, const ref::Result& R, double tol, const std::string& tag) {
	for(size_t i=0;i<a.size();i++) for(int v=0;v<4;v++)
		PBT_CHECK(std::fabs(a[i][v]-(double)R.r[i][v])<=tol*(double)R.scale[i][v],tag,"cell "<<i<<" variable "<<v<<": residual "<<a[i][v]<<" reference "<<(double)R.r[i][v]<<" (magnitude of the terms "<<(double)R.scale[i][v]<<")");
}
/// index arrays of centres as the discretisation lays them out
struct Centres { amat::Array2d<freal> rc, rcbp; std::vector<int> bedge; };
Centres centres(const UMesh<freal,2>& m, const RMesh& R, const GenMesh& g) {
	Centres c; c.rc.resize(m.gnelem(),2); for(int i=0;i<m.gnelem();i++) for(int d=0;d<2;d++) c.rc(i,d)=R.c[i][d];
	std::map<std::pair<int,int>,int> byn; for(size_t k=0;k<R.e.size();k++) byn[{std::min(R.e[k].a,R.e[k].b),std::max(R.e[k].a,R.e[k].b)}]=k;
	c.rcbp.resize(m.gnbface(),2);
	for(int f=m.gPhyBFaceStart();f<m.gPhyBFaceEnd();f++) {
		const int a=m.gintfac(f,2), b=m.gintfac(f,3); const int k=byn.at({std::min(a,b),std::max(a,b)});
		c.bedge.push_back(k); for(int d=0;d<2;d++) c.rcbp(f-m.gPhyBFaceStart(),d)=R.e[k].gc[d];
	}
	return c;
}
std::map<std::pair<int,int>,int> edgeByNodes(const RMesh& R) {
	std::map<std::pair<int,int>,int> byn; for(size_t k=0;k<R.e.size();k++) byn[{std::min(R.e[k].a,R.e[k].b),std::max(R.e[k].a,R.e[k].b)}]=k; return byn;
}
/// random cell and ghost values; kind: 0 constant 1 linear 2 smooth 3 random
template <size_t N> void genValues(Src& s, const RMesh& R, int kind, std::vector<std::array<LD,N>>& u, std::vector<std::array<LD,N>>& ug, LD lin[N][3]) {
	u.resize(R.c.size()); ug.resize(R.e.size());
	LD L=1e-30L; for(const auto& c : R.c) L=std::max({L,std::abs(c[0]-R.c[0][0]),std::abs(c[1]-R.c[0][1])}); for(const auto& e : R.e) L=std::max({L,e.len});
	for(size_t v=0;v<N;v++) {
		for(int j=0;j<3;j++) lin[v][j]=s.realz(-2,2,j==2?1:0);
		const double amp=s.logreal(1e-3,10);
		auto f=[&](const ref::L2& x) { const LD a=(x[0]-R.c[0][0])/L, b=(x[1]-R.c[0][1])/L;
			if(kind==0) return lin[v][2];
			if(kind==1) return lin[v][2]+lin[v][0]*a+lin[v][1]*b;
			return lin[v][2]+amp*std::sin(2*lin[v][0]*a+2*lin[v][1]*b+lin[v][2]); };
		for(size_t i=0;i<u.size();i++) u[i][v]=(double)(kind==3 ? LD(amp*s.realz(-1,1,0)) : f(R.c[i]));
		for(size_t k=0;k<ug.size();k++) if(R.e[k].r<0) ug[k][v]=(double)(kind==3 ? LD(amp*s.realz(-1,1,0)) : f(R.e[k].gc));
		for(int j=0;j<2;j++) lin[v][j]/=L;
	}
}
template <size_t N> LD spread(const std::vector<std::array<LD,N>>& u, const std::vector<std::array<LD,N>>& ug, const RMesh& R, size_t v) {
	LD m=0; for(const auto& x : u) m=std::max(m,std::abs(x[v])); for(size_t k=0;k<ug.size();k++) if(R.e[k].r<0) m=std::max(m,std::abs(ug[k][v])); return m;
}

template <size_t N> void gradCase(Src& s) {
	const GenMesh g=genMesh(s,meshOpts(s)); const RMesh R=ref::rmesh(g); const auto m=buildMesh(g);
	const std::string type=s.pick<const char*>({"LEASTSQUARES","GREENGAUSS","NONE"}); const int kind=s.irange(0,3);
	std::vector<std::array<LD,N>> u, ug; LD lin[N][3]; genValues<N>(s,R,kind,u,ug,lin);
	Centres c=centres(m,R,g);
	amat::Array2d<freal> U(m.gnelem(),N), UG(m.gnbface(),N);
	for(int i=0;i<m.gnelem();i++) for(size_t v=0;v<N;v++) U(i,v)=u[i][v];
	for(size_t b=0;b<c.bedge.size();b++) for(size_t v=0;v<N;v++) UG(b,v)=ug[c.bedge[b]][v];
	s.label(type); s.label(kind==0?"constant":kind==1?"linear":kind==2?"smooth":"random"); s.label("nvars"+std::to_string(N));
	s.nontrivial(kind>0 && type!="NONE" && m.gnelem()>1);
	s.desc<<type<<" kind "<<kind<<" "<<g.summary();
	std::unique_ptr<const GradientScheme<freal,N>> gs; { Quiet q; gs.reset(create_const_gradientscheme<freal,N>(type,&m,&c.rc(0,0),m.gnbface()>0?&c.rcbp(0,0):nullptr)); }
	std::vector<double> G((size_t)m.gnelem()*2*N,1e30);
	gs->compute_gradients(amat::Array2dView<freal>(&U(0,0),m.gnelem(),N),amat::Array2dView<freal>(m.gnbface()>0?&UG(0,0):nullptr,m.gnbface(),N),&G[0]);
	const auto E=ref::gradients<N>(type,R,u,ug);
	const auto *gb=reinterpret_cast<const GradBlock_t<freal,NDIM,N>*>(&G[0]);
	for(int i=0;i<m.gnelem();i++) {
		LD dmin=1e300L,P=0; for(int k : R.ce[i]) { const auto o=R.other(k,i); dmin=std::min(dmin,std::hypot(o[0]-R.c[i][0],o[1]-R.c[i][1])); P+=R.e[k].len; }
		// conditioning of the least-squares matrix
		LD a=0,b=0,d=0; for(int k : R.ce[i]) { const auto o=R.other(k,i); const LD x=o[0]-R.c[i][0],y=o[1]-R.c[i][1],w=1/(x*x+y*y); a+=w*x*x;b+=w*x*y;d+=w*y*y; }
		const LD cond=(a+d)*(a+d)/(a*d-b*b);
		for(size_t v=0;v<N;v++) for(int j=0;j<2;j++) {
			const LD sc = (type=="GREENGAUSS" ? P/R.area[i] : cond/dmin)*spread<N>(u,ug,R,v)+1e-12L;
			const double got=gb[i](j,v);
			PBT_CHECK(std::fabs(got-(double)E[i][j][v])<=1e-11*(double)sc,type+"-gradient","cell "<<i<<" variable "<<v<<" direction "<<j<<": "<<got<<" reference "<<(double)E[i][j][v]);
			if(kind==0||type=="NONE") PBT_CHECK(std::fabs(got)<=1e-11*(double)sc,type+"-constant","gradient of a constant is "<<got);
			if(kind==1&&type=="LEASTSQUARES") PBT_CHECK(std::fabs(got-(double)lin[v][j])<=1e-10*(double)sc,type+"-linear-exact","gradient of a linear field: "<<got<<" instead of "<<(double)lin[v][j]);
		}
	}
}
}

RELATION(S01,gradients,24000,480000,"the field is not constant, a gradient scheme is chosen, and the mesh has more than one cell") {
	if(s.chance(1,4)) gradCase<1>(s); else gradCase<4>(s);
}

RELATION(S01,flow_gradients,10000,200000,"the state is not uniform and a gradient scheme is chosen") {
	const GenMesh g=genMesh(s,meshOpts(s)); const RMesh R=ref::rmesh(g); FlowOpts fo; fo.strong=true; ref::Cfg c=genCfg(s,g,fo);
	const auto u=genField(s,g,c,fo); const auto U=toL(u); s.desc<<str(c)<<" "<<g.summary(); s.label(c.grad);
	std::vector<L4> ug(R.e.size());
	for(size_t k=0;k<R.e.size();k++) if(R.e[k].r<0) { if(!ref::ghostOf(c,R.e[k],U[R.e[k].l],ug[k])) { s.label("skipped"); return; }
		if(c.bc.at(R.e[k].tag).type==INFLOW_OUTFLOW_BC) { const auto q=ref::prim<LD>(c.g,U[R.e[k].l],R.e[k].n); if(std::abs(q.vn/q.c)<1e-8L||std::abs(q.vn/q.c-1)<1e-8L) return; } }
	s.nontrivial(c.grad!="NONE");
	LibFlow L(g,c); L.warm(s,u); L.setState(u);
	std::vector<double> G(u.size()*8,1e30); auto *gb=reinterpret_cast<GradBlock_t<freal,NDIM,4>*>(&G[0]);
	L.sp->getGradients(L.u,gb);
	const auto E=ref::gradients<4>(c.grad,R,U,ug);
	for(size_t i=0;i<u.size();i++) {
		LD dmin=1e300L,P=0,a=0,b=0,d=0; for(int k : R.ce[i]) { const auto o=R.other(k,i); P+=R.e[k].len; const LD x=o[0]-R.c[i][0],y=o[1]-R.c[i][1],w=1/(x*x+y*y); dmin=std::min(dmin,std::sqrt(1/w)); a+=w*x*x;b+=w*x*y;d+=w*y*y; }
		const LD cond=(a+d)*(a+d)/(a*d-b*b);
		for(int v=0;v<4;v++) { const double sc=(double)((c.grad=="GREENGAUSS"?P/R.area[i]:cond/dmin)*spread<4>(U,ug,R,v))+1e-12;
			for(int j=0;j<2;j++) PBT_CHECK(std::fabs(gb[i](j,v)-(double)E[i][j][v])<=1e-10*sc,"flow-gradient","cell "<<i<<" conserved variable "<<v<<" direction "<<j<<": "<<gb[i](j,v)<<" reference "<<(double)E[i][j][v]); }
	}
}

namespace {
template <size_t N> void recCase(Src& s) {
	const GenMesh g=genMesh(s,meshOpts(s)); const RMesh R=ref::rmesh(g); const auto m=buildMesh(g);
	const std::string type=s.pick<const char*>({"NONE","WENO","VANALBADA","BARTHJESPERSEN","VENKATAKRISHNAN"});
	const double par = type=="WENO" ? s.logreal(0.5,1000) : s.chance(1,8) ? 1e8 : s.logreal(0.05,50);
	const int kind=s.irange(0,3); const std::string gsch=s.pick<const char*>({"LEASTSQUARES","GREENGAUSS","random"});
	std::vector<std::array<LD,N>> u, ug; LD lin[N][3]; genValues<N>(s,R,kind,u,ug,lin);
	ref::GradV<N> G;
	if(gsch!="random") G=ref::gradients<N>(gsch,R,u,ug);
	else { G.resize(u.size()); for(size_t i=0;i<u.size();i++) for(size_t v=0;v<N;v++) { const LD sc=kind==0?0:spread<N>(u,ug,R,v)/std::sqrt(R.area[i]); for(int j=0;j<2;j++) G[i][j][v]=sc*s.realz(-1,1,0); } }
	for(auto& x : G) for(auto& y : x) for(auto& z : y) z=(double)z;
	s.label(type); s.label(kind==0?"constant":kind==1?"linear":kind==2?"smooth":"random"); s.label(gsch);
	s.desc<<type<<" param "<<par<<" kind "<<kind<<" gradients "<<gsch<<" "<<g.summary();
	s.nontrivial(kind>0 && m.gnelem()>1);
	Centres c=centres(m,R,g);
	MVector<freal> U(m.gnelem(),N); amat::Array2d<freal> UG(m.gnbface(),N);
	for(int i=0;i<m.gnelem();i++) for(size_t v=0;v<N;v++) U(i,v)=u[i][v];
	for(size_t b=0;b<c.bedge.size();b++) for(size_t v=0;v<N;v++) UG(b,v)=ug[c.bedge[b]][v];
	std::vector<double> ga((size_t)m.gnelem()*2*N); auto *gb=reinterpret_cast<GradBlock_t<freal,NDIM,N>*>(&ga[0]);
	for(int i=0;i<m.gnelem();i++) for(int j=0;j<2;j++) for(size_t v=0;v<N;v++) gb[i](j,v)=G[i][j][v];
	const auto byn=edgeByNodes(R);
	amat::Array2d<freal> gr(m.gnaface(),2);
	std::vector<int> fe(m.gnaface());
	for(int f=0;f<m.gnaface();f++) { const int a=m.gintfac(f,2),b=m.gintfac(f,3); fe[f]=byn.at({std::min(a,b),std::max(a,b)}); for(int d=0;d<2;d++) gr(f,d)=R.e[fe[f]].mid[d]; }
	std::unique_ptr<const SolutionReconstruction<freal,N>> rec; { Quiet q; rec.reset(create_const_reconstruction<freal,N>(type,&m,&c.rc(0,0),&c.rcbp(0,0),gr,par)); }
	std::vector<double> fl((size_t)m.gnaface()*N,1e30), fr((size_t)m.gnaface()*N,1e30);
	rec->compute_face_values(U,amat::Array2dView<freal>(&UG(0,0),m.gnbface(),N),&ga[0],amat::Array2dMutableView<freal>(&fl[0],m.gnaface(),N),amat::Array2dMutableView<freal>(&fr[0],m.gnaface(),N));
	std::vector<std::array<LD,N>> EL, ER;
	if(!ref::reconstruct<N>(type,par,R,u,ug,G,EL,ER)) { s.label("roundoff-decides"); s.nontriv=false; return; }
	for(int f=0;f<m.gnaface();f++) { const auto& e=R.e[fe[f]];
		for(int side=0; side<(e.r<0?1:2); side++) for(size_t v=0;v<N;v++) {
			const int cell=m.gintfac(f,side); const double got=(side==0?fl:fr)[(size_t)f*N+v];
			const LD want=(cell==e.l?EL:ER)[fe[f]][v];
			const LD dx=std::hypot(e.mid[0]-R.c[cell][0],e.mid[1]-R.c[cell][1]);
			const LD sc=spread<N>(u,ug,R,v)+dx*(std::abs(G[cell][0][v])+std::abs(G[cell][1][v]))+1e-12L;
			PBT_CHECK(std::fabs(got-(double)want)<=2e-9*(double)sc,type+"-face-value","face "<<f<<" cell "<<cell<<" variable "<<v<<": "<<got<<" reference "<<(double)want);
			if(kind==0&&gsch!="random") PBT_CHECK(std::fabs(got-(double)u[cell][v])<=1e-9*(double)sc,type+"-constant","a constant field is reconstructed as "<<got<<" instead of "<<(double)u[cell][v]);
			if(kind==1&&gsch=="LEASTSQUARES"&&(type=="NONE"||type=="WENO"||(type=="VENKATAKRISHNAN"&&par>=1e8))) {
				// on the face's midpoint the linear field is exact
				const LD ex=u[cell][v]+lin[v][0]*(e.mid[0]-R.c[cell][0])+lin[v][1]*(e.mid[1]-R.c[cell][1]);
				const double tl = type=="VENKATAKRISHNAN"?1e-6:1e-8;
				if(type!="VENKATAKRISHNAN" || std::pow(par*R.maxlen[cell],LD(3))>1e9L*sc*sc)
				PBT_CHECK(std::fabs(got-(double)ex)<=tl*(double)sc,type+"-linear-exact","linear field: "<<got<<" instead of "<<(double)ex); }
			if(type=="BARTHJESPERSEN") {
				LD lo=u[cell][v],hi=lo; for(int k : R.ce[cell]) { const auto& x=R.e[k]; const LD w=x.r<0?ug[k][v]:u[x.l==cell?x.r:x.l][v]; lo=std::min(lo,w); hi=std::max(hi,w); }
				PBT_CHECK(got>=(double)(lo-1e-9L*sc)&&got<=(double)(hi+1e-9L*sc),type+"-bounds","face value "<<got<<" outside the range ["<<(double)lo<<","<<(double)hi<<"] of the neighbouring cells"); }
		}
	}
}
}
RELATION(S02,face_values,24000,480000,"the field is not constant and the mesh has more than one cell") {
	if(s.chance(1,4)) recCase<1>(s); else recCase<4>(s);
}

RELATION(S03,free_stream,10000,200000,"more than one cell, and second order or viscous") {
	const GenMesh g=genMesh(s,meshOpts(s)); const RMesh R=ref::rmesh(g);
	FlowOpts fo; fo.uniform=true; fo.bcs={FARFIELD_BC,EXTRAPOLATION_BC,INFLOW_OUTFLOW_BC}; ref::Cfg c=genCfg(s,g,fo);
	const std::vector<V4> u=genField(s,g,c,fo); s.desc<<str(c)<<" "<<g.summary(); s.nontrivial(g.cells.size()>1&&(c.order2||c.visc));
	s.label(c.flux); s.label(c.order2?c.rec:"order1"); if(c.visc) s.label("viscous");
	LibFlow L(g,c); L.warm(s,u); const auto r=L.residual(u);
	const auto U=toL(u);
	const double w=1+1/(double)c.M, sc[4]={w,w*w,w*w,w*(w*w+1/(double)((c.g-1)*c.g*c.M*c.M))*3};
	for(size_t i=0;i<u.size();i++) { double P=0,vs=0; for(int k : R.ce[i]) { P+=R.e[k].len; vs=std::max(vs,(double)(1/std::hypot(R.other(k,i)[0]-R.c[i][0],R.other(k,i)[1]-R.c[i][1]))); }
		const double vis=c.visc?vs*(1+1/(double)(c.M*c.M*(c.g-1)*c.Pr))*10/(double)c.Re:0;
		for(int v=0;v<4;v++) PBT_CHECK(std::fabs(r[i][v])<=1e-10*P*(sc[v]+vis)*10,"free-stream","cell "<<i<<" variable "<<v<<": residual "<<r[i][v]<<" in a uniform stream (perimeter "<<P<<")"); }
}

RELATION(S03,gas_at_rest,8000,160000,"more than one cell, and second order or viscous") {
	const GenMesh g=genMesh(s,meshOpts(s)); const RMesh R=ref::rmesh(g);
	FlowOpts fo; fo.strong=true; fo.bcs={SLIP_WALL_BC,ADIABATIC_WALL_BC,ISOTHERMAL_WALL_BC,EXTRAPOLATION_BC}; ref::Cfg c=genCfg(s,g,fo);
	const double rho=s.logreal(0.3,3), p=(double)(1/(c.g*c.M*c.M))*s.logreal(0.3,3), T=(double)(c.g*c.M*c.M)*p/rho;
	for(auto& b : c.bc) { b.second.v0=0; b.second.v1=T; }
	const std::vector<V4> u(g.cells.size(),fromPrim((double)c.g,rho,0,0,p)); s.desc<<str(c)<<" rho="<<rho<<" p="<<p<<" "<<g.summary(); s.nontrivial(g.cells.size()>1&&(c.order2||c.visc));
	s.label(c.flux); s.label(c.order2?c.rec:"order1"); if(c.visc) s.label("viscous");
	LibFlow L(g,c); L.warm(s,u); const auto r=L.residual(u);
	const double cs=std::sqrt((double)c.g*p/rho), sc[4]={rho*cs,rho*cs*cs,rho*cs*cs,u[0][3]*cs*2};
	for(size_t i=0;i<u.size();i++) { double P=0,vs=0; for(int k : R.ce[i]) { P+=R.e[k].len; vs=std::max(vs,(double)(1/std::hypot(R.other(k,i)[0]-R.c[i][0],R.other(k,i)[1]-R.c[i][1]))); }
		const double vis=c.visc?vs*T*T*(1+1/(double)(c.M*c.M*(c.g-1)*c.Pr))*10/(double)c.Re:0;
		for(int v=0;v<4;v++) PBT_CHECK(std::fabs(r[i][v])<=1e-10*P*(sc[v]+vis)*10,"gas-at-rest","cell "<<i<<" variable "<<v<<": residual "<<r[i][v]<<" in gas at rest between walls"); }
}

RELATION(S04,residual_vs_reference,16000,480000,"more than one cell, and the state is not uniform") {
	const GenMesh g=genMesh(s,meshOpts(s)); const RMesh R=ref::rmesh(g); FlowOpts fo; fo.strong=true;
	if(s.chance(1,4)) fo.bcs.push_back(SUBSONIC_INFLOW_BC);
	const ref::Cfg c=genCfg(s,g,fo); const auto u=genField(s,g,c,fo);
	s.desc<<str(c)<<" "<<g.summary();
	const auto E=ref::residual(c,R,toL(u)); if(!E.ok) { s.label("skipped: "+E.why); return; }
	s.label(c.flux); s.label(c.order2?c.rec+"/"+c.grad:"order1"); s.label(c.visc?(c.cvisc?"viscous-const":"viscous-sutherland"):"inviscid");
	s.nontrivial(g.cells.size()>1);
	LibFlow L(g,c); L.warm(s,u,false);
	std::vector<V4> init(u.size()); const bool useInit=s.chance(1,3);
	if(useInit) for(size_t i=0;i<u.size();i++) for(int v=0;v<4;v++) init[i][v]=(double)E.scale[i][v]*s.realz(-1,1,0);
	std::vector<double> dt;
	auto r=L.residual(u,s.chance(1,2)?&dt:nullptr,useInit?&init:nullptr);
	if(useInit) for(size_t i=0;i<u.size();i++) for(int v=0;v<4;v++) r[i][v]-=init[i][v];
	cmpRes(r,E,c.order2?3e-9:1e-10,"residual");
	// a second evaluation starts from a clean slate
	if(s.chance(1,4)) cmpRes(L.residual(u),E,c.order2?3e-9:1e-10,"residual-again");
}

RELATION(S04,closed_box_conserves,6000,120000,"more than one cell, and the state is not uniform") {
	const GenMesh g=genMesh(s,meshOpts(s)); const RMesh R=ref::rmesh(g); FlowOpts fo; fo.strong=true; fo.bcs={SLIP_WALL_BC}; fo.visc=0;
	const bool noslip=s.chance(1,3); if(noslip) { fo.bcs={ADIABATIC_WALL_BC}; fo.visc=-1; }
	ref::Cfg c=genCfg(s,g,fo); for(auto& b : c.bc) b.second.v0=0;
	const auto u=genField(s,g,c,fo); s.desc<<str(c)<<" "<<g.summary(); s.nontrivial(g.cells.size()>1); s.label(noslip?"no-slip":"slip"); s.label(c.flux);
	LibFlow L(g,c); L.warm(s,u); const auto r=L.residual(u);
	double sum[4]={0,0,0,0}, sc[4]={0,0,0,0};
	const auto E=ref::residual(c,R,toL(u)); if(!E.ok) { s.label("skipped: "+E.why); s.nontriv=false; return; }
	for(size_t i=0;i<u.size();i++) for(int v=0;v<4;v++) { sum[v]+=r[i][v]; sc[v]+=(double)E.scale[i][v]; }
	PBT_CHECK(std::fabs(sum[0])<=1e-9*sc[0],"box-mass","mass in a closed box changes at rate "<<sum[0]<<" (flux magnitude "<<sc[0]<<")");
	if(!noslip) PBT_CHECK(std::fabs(sum[3])<=1e-9*sc[3],"box-energy","energy in a closed box changes at rate "<<sum[3]<<" (flux magnitude "<<sc[3]<<")");
}

RELATION(S05,time_steps,16000,320000,"more than one cell, and the state is not uniform") {
	const GenMesh g=genMesh(s,meshOpts(s)); const RMesh R=ref::rmesh(g); FlowOpts fo; fo.strong=true; const ref::Cfg c=genCfg(s,g,fo); const auto u=genField(s,g,c,fo);
	s.desc<<str(c)<<" "<<g.summary();
	const auto E=ref::residual(c,R,toL(u)); if(!E.ok) { s.label("skipped: "+E.why); return; }
	s.nontrivial(g.cells.size()>1); s.label(c.order2?"order2":"order1"); s.label(c.visc?(c.cvisc?"viscous-const":"viscous-sutherland"):"inviscid");
	LibFlow L(g,c); L.warm(s,u); std::vector<double> dt; L.residual(u,&dt);
	for(size_t i=0;i<u.size();i++) PBT_CHECK(dt[i]>0 && std::fabs(dt[i]-(double)E.dt[i])<=1e-8*(double)E.dt[i],"time-step","cell "<<i<<": time step "<<dt[i]<<" reference "<<(double)E.dt[i]);
}

namespace {
typedef std::vector<double> Dense;
/// Minus d r/d u, assembled from finite differences of reference face fluxes; blocks (cell,cell)
struct RefJac { bool ok=true; std::string why; std::map<std::pair<int,int>,std::array<LD,16>> blk; std::vector<LD> sc; };

struct MuLin { bool on=false; };
/// Flux of the first-order discretisation through an edge, with what an approximate Jacobian freezes frozen at (a0,b0)
L4 faceFlux(const ref::Cfg& c, const RMesh& R, int k, const L4& ul, const L4& ur, const L4& a0, const L4& b0, bool wrongmu) {
	const auto& e=R.e[k]; L4 F;
	if(c.jflux=="LLF") { ref::Frozen<LD> f; ref::fluxLLF<LD>(c.g,a0,b0,e.n,&f); f.on=true; F=ref::fluxLLF<LD>(c.g,ul,ur,e.n,&f); }
	else if(c.jflux=="HLL") { ref::Frozen<LD> f; ref::fluxHLL<LD>(c.g,a0,b0,e.n,&f); f.on=true; F=ref::fluxHLL<LD>(c.g,ul,ur,e.n,&f); }
	else F=ref::flux<LD>(c.jflux,c.g,ul,ur,e.n);
	if(c.visc) {
		LD z[2][4]; for(auto& x : z) for(LD& y : x) y=0;
		L4 V=ref::viscFace(c,R,k,ul,ur,z,z,ul,ur);
		if(wrongmu && !c.cvisc) {
			// viscosity linearised with the recorded wrong derivative of Sutherland's law
			auto mu=[&](const L4& u, const L4& u0) {
				const LD S=110.5L/c.Tinf, T0=ref::temp(c.g,c.M,u0), co=(1+S)/c.Re;
				const LD dmu=co*(1.5L*std::pow(T0,LD(-1.5))*(T0+S)-std::pow(T0,LD(1.5)))/((T0+S)*(T0+S));
				// dT by the exact chain rule to first order
				return ref::sutherland(T0,c.Tinf,c.Re)+dmu*(ref::temp(c.g,c.M,u)-T0); };
			const LD right=(ref::sutherland(ref::temp(c.g,c.M,ul),c.Tinf,c.Re)+ref::sutherland(ref::temp(c.g,c.M,ur),c.Tinf,c.Re))/2;
			const LD wrong=(mu(ul,a0)+mu(ur,b0))/2;
			for(int v=0;v<4;v++) V[v]*=wrong/right;
		}
		for(int v=0;v<4;v++) F[v]+=V[v];
	}
	return F;
}
RefJac refJac(const ref::Cfg& c, const RMesh& R, const std::vector<L4>& u, bool wrongmu) {
	RefJac J; J.sc.assign(u.size(),0);
	auto bad=[&](const char *w) { J.ok=false; J.why=w; return J; };
	auto scu=[&](const L4& x) { const auto q=ref::prim<LD>(c.g,x,ref::L2{1,0}); const LD w=std::sqrt(q.V2)+q.c; return L4{x[0],x[0]*w,x[0]*w,x[3]}; };
	auto add=[&](int i, int j, int v, int k, LD d) { J.blk[{i,j}][v*4+k]+=d; };
	for(auto& x : u) if(!(ref::pres(c.g,x)>1e-3L*x[3])) return bad("hypersonic");
	for(size_t k=0;k<R.e.size();k++) { const auto& e=R.e[k];
		const L4 a0=u[e.l]; L4 b0;
		if(e.r<0) { if(!ref::ghostOf(c,e,a0,b0)||!(ref::pres(c.g,b0)>1e-3L*b0[3])) return bad("ghost"); } else b0=u[e.r];
		if(e.r<0 && c.bc.at(e.tag).type==INFLOW_OUTFLOW_BC) { const auto q=ref::prim<LD>(c.g,a0,e.n); if(std::abs(q.vn/q.c)<1e-4L||std::abs(q.vn/q.c-1)<1e-4L) return bad("inflow-outflow switch"); }
		const int br=ref::branch<LD>(c.jflux,c.g,a0,b0,e.n);
		if(c.jflux=="ROE") { const auto m=ref::roeAvg<LD>(c.g,ref::prim<LD>(c.g,a0,e.n),ref::prim<LD>(c.g,b0,e.n),e.n); for(int i=-1;i<2;i++) if(std::abs(m.vn+i*m.c)<1.2e-4L*m.c) return bad("entropy fix"); }
		if(c.jflux=="HLLC") { const auto l=ref::prim<LD>(c.g,a0,e.n), r=ref::prim<LD>(c.g,b0,e.n); if(e.r<0 && c.bc.at(e.tag).type==SLIP_WALL_BC) {} (void)l;(void)r; }
		for(int side=0; side<(e.r<0?1:2); side++) for(int q=0;q<4;q++) {
			const L4& x0=side?b0:a0; const LD h=1e-6L*scu(x0)[q]*std::min(LD(1),ref::pres(c.g,x0)/((c.g-1)*x0[3]));
			L4 F[2];
			for(int t=0;t<2;t++) {
				L4 a=a0,b=b0; (side?b:a)[q]+=(t?-h:h);
				if(e.r<0 && !ref::ghostOf(c,e,a,b)) return bad("ghost");
				if(c.jflux!="LLF" && ref::branch<LD>(c.jflux,c.g,a,b,e.n)!=br) return bad("flux branch");
				F[t]=faceFlux(c,R,k,a,b,a0,b0,wrongmu);
			}
			for(int v=0;v<4;v++) { const LD d=(F[0][v]-F[1][v])/(2*h)*e.len; const int col=side?e.r:e.l; add(e.l,col,v,q,d); if(e.r>=0) add(e.r,col,v,q,-d); }
		}
		const auto pa=ref::prim<LD>(c.g,a0,e.n), pb=ref::prim<LD>(c.g,b0,e.n);
		LD w=std::max(std::sqrt(pa.V2)+pa.c,std::sqrt(pb.V2)+pb.c)*e.len;
		if(c.visc) { const LD mu=c.cvisc?1/c.Re:std::max(ref::sutherland(ref::temp(c.g,c.M,a0),c.Tinf,c.Re),ref::sutherland(ref::temp(c.g,c.M,b0),c.Tinf,c.Re));
			const auto o=R.other(k,e.l); w+=mu*(2+c.g/c.Pr)/std::min(a0[0],b0[0])/std::hypot(o[0]-R.c[e.l][0],o[1]-R.c[e.l][1])*e.len; }
		J.sc[e.l]+=w; if(e.r>=0) J.sc[e.r]+=w;
	}
	return J;
}
struct MatH { Mat A=NULL; ~MatH() { MatDestroy(&A); } };
std::string cmpMat(Mat A, const RefJac& J, const ref::Cfg& c, const std::vector<L4>& u, double tol) {
	auto scu=[&](const L4& x) { const auto q=ref::prim<LD>(c.g,x,ref::L2{1,0}); const LD w=std::sqrt(q.V2)+q.c; return L4{x[0],x[0]*w,x[0]*w,x[3]+x[0]*w*w}; };
	const int nc=u.size();
	for(int i=0;i<nc;i++) for(int j=0;j<nc;j++) {
		PetscInt ri[4],cj[4]; PetscScalar v[16]; for(int k=0;k<4;k++) { ri[k]=i*4+k; cj[k]=j*4+k; }
		MatGetValues(A,4,ri,4,cj,v);
		const auto it=J.blk.find({i,j});
		const L4 si=scu(u[i]), sj=scu(u[j]); LD sm[4]; for(int k=0;k<4;k++) sm[k]=std::max(si[k],sj[k]);
		for(int a=0;a<4;a++) for(int b=0;b<4;b++) {
			const double want=it==J.blk.end()?0:(double)it->second[a*4+b];
			const double sc=(double)(std::max(J.sc[i],J.sc[j])*sm[a]/std::min(si[b],sj[b]));
			if(!(std::fabs(v[a*4+b]-want)<=tol*sc+1e-13)) { std::ostringstream o; o.precision(12); o<<"block ("<<i<<","<<j<<") entry ("<<a<<","<<b<<"): "<<v[a*4+b]<<" but the derivative is "<<want<<" (scale "<<sc<<")"; return o.str(); }
		}
	}
	return "";
}
}

RELATION(S06,assembled_jacobian,10000,240000,"more than one cell and the derivative exists at the state") {
	const GenMesh g=genMesh(s,meshOpts(s,3)); const RMesh R=ref::rmesh(g); FlowOpts fo; fo.strong=true; fo.Relo=20; const ref::Cfg c=genCfg(s,g,fo); const auto u=genField(s,g,c,fo); const auto U=toL(u);
	s.desc<<str(c)<<" "<<g.summary();
	const auto J=refJac(c,R,U,false); if(!J.ok) { s.label("skipped: "+J.why); return; }
	s.label("jacobian-"+c.jflux); s.label(c.visc?(c.cvisc?"viscous-const":"viscous-sutherland"):"inviscid"); s.nontrivial(g.cells.size()>1);
	const MatStorage st(s); LibFlow L(g,c); L.warm(s,u); L.setState(u); MatH M;
	PBT_CHECK(setupSystemMatrix<NVARS>(&L.m,&M.A)==0,"setup","setupSystemMatrix failed");
	const int times=1+s.irange(0,1);
	for(int t=0;t<times;t++) {
		MatZeroEntries(M.A);
		PBT_CHECK(L.sp->assemble_jacobian(L.u,M.A)==0,"assemble","assemble_jacobian failed");
		MatAssemblyBegin(M.A,MAT_FINAL_ASSEMBLY); MatAssemblyEnd(M.A,MAT_FINAL_ASSEMBLY);
	}
	const std::string e=cmpMat(M.A,J,c,U,2e-7);
	if(e.empty()) return;
	if(c.visc&&!c.cvisc) { const auto W=refJac(c,R,U,true); if(W.ok&&cmpMat(M.A,W,c,U,2e-7).empty()) { pbt::finding(s,"jacobian-sutherland-derivative",e); return; } }
	pbt::fail("assembled-jacobian",e);
}

RELATION(S07,matrix_free_product,8000,160000,"more than one cell and the derivative exists at the state") {
	const GenMesh g=genMesh(s,meshOpts(s,4)); const RMesh R=ref::rmesh(g); FlowOpts fo; fo.amp=0.1; fo.Relo=50;
	fo.fluxes={"VANLEER","AUSM","HLLC","ROE","LLF","HLL"};
	const ref::Cfg c=genCfg(s,g,fo); const auto u=genField(s,g,c,fo); const auto U=toL(u);
	const double step=s.logreal(1e-7,s.chance(1,3)?1e-2:1e-5); const bool custom=s.chance(2,3);
	s.desc<<str(c)<<" step "<<step<<" "<<g.summary();
	const int nc=u.size();
	std::vector<V4> x(nc), md(nc); std::vector<double> mdt(nc);
	double xn=0; const double scx=s.chance(1,3)?s.logreal(1e-9,1e6):s.logreal(1e-3,1e3);
	for(int i=0;i<nc;i++) { for(int v=0;v<4;v++) { x[i][v]=scx*s.realz(-1,1,0)*u[i][v==1||v==2?0:v]; xn+=x[i][v]*x[i][v]; } mdt[i]=s.logreal(1e-3,10); }
	xn=std::sqrt(xn); if(!(xn>1e-6*scx)) { s.label("zero-vector"); return; }
	const double eps=custom?step:1e-7;
	// the reference product, twice, to see that finite differences mean something here
	auto at=[&](LD t) { auto w=U; for(int i=0;i<nc;i++) for(int v=0;v<4;v++) w[i][v]+=t*x[i][v]; return ref::residual(c,R,w); };
	const LD h=LD(eps)/xn;
	const auto r0=at(0), rp=at(h), rm=at(-h), rh=at(1.001L*h); if(!r0.ok||!rp.ok||!rm.ok||!rh.ok) { s.label("skipped"); return; }
	LibFlow L(g,c); L.warm(s,u);
	struct Opt { bool on; Opt(bool o, double v):on(o) { if(on) { std::ostringstream t; t.precision(17); t<<v; PetscOptionsSetValue(NULL,"-matrix_free_difference_step",t.str().c_str()); } } ~Opt() { if(on) PetscOptionsClearValue(NULL,"-matrix_free_difference_step"); } } opt(custom,step);
	MatH A; PBT_CHECK(create_matrixfree_jacobian<NVARS>(L.sp.get(),&A.A)==0,"create","create_matrixfree_jacobian failed");
	PBT_CHECK(isMatrixFree(A.A),"is-matrix-free","isMatrixFree does not recognise it");
	L.residual(u);
	Vec md1; createSystemVector(&L.m,1,&md1); { PetscScalar *a; VecGetArray(md1,&a); for(int i=0;i<nc;i++) a[i]=mdt[i]; VecRestoreArray(md1,&a); }
	MatrixFreeSpatialJacobian<NVARS> *mf; MatShellGetContext(A.A,(void*)&mf);
	mf->set_state(L.u,L.r,md1);
	Vec X,Y; createSystemVector(&L.m,NVARS,&X); VecDuplicate(X,&Y); VecSet(Y,1e30);
	{ PetscScalar *a; VecGetArray(X,&a); for(int i=0;i<nc;i++) for(int v=0;v<4;v++) a[i*4+v]=x[i][v]; VecRestoreArray(X,&a); }
	MatMult(A.A,X,Y);
	std::vector<V4> y(nc); { const PetscScalar *a; VecGetArrayRead(Y,&a); for(int i=0;i<nc;i++) for(int v=0;v<4;v++) y[i][v]=a[i*4+v]; VecRestoreArrayRead(Y,&a); }
	std::vector<V4> y2(nc); VecSet(Y,-7); MatMult(A.A,X,Y); { const PetscScalar *a; VecGetArrayRead(Y,&a); for(int i=0;i<nc;i++) for(int v=0;v<4;v++) y2[i][v]=a[i*4+v]; VecRestoreArrayRead(Y,&a); }
	VecDestroy(&X); VecDestroy(&Y); VecDestroy(&md1);
	int judged=0;
	for(int i=0;i<nc;i++) for(int v=0;v<4;v++) {
		// r here is minus the residual function
		const double fd=(double)(-(rp.r[i][v]-r0.r[i][v])/h), want=fd+mdt[i]*x[i][v];
		// roundoff of the difference quotient: that of the residual over the step
		const double noise=3e-12*(double)(r0.scale[i][v]/h)*(c.order2?30:1);
		// a larger step shows where the quotient depends on the step by more than its truncation error
		const double kink=3*std::fabs(fd-(double)(-(rh.r[i][v]-r0.r[i][v])/(1.001L*h)));
		const double tol=noise+kink+1e-9*std::fabs(mdt[i]*x[i][v])+1e-6*std::fabs(fd);
		if(tol<0.05*(std::fabs(want)+1e-300)) judged++;
		PBT_CHECK(std::fabs(y[i][v]-want)<=tol,"matrix-free","cell "<<i<<" variable "<<v<<": product "<<y[i][v]<<", finite difference "<<want<<" (tolerance "<<tol<<")");
		PBT_CHECK(std::fabs(y2[i][v]-want)<=tol,"matrix-free-again","cell "<<i<<" variable "<<v<<": second product "<<y2[i][v]<<", finite difference "<<want);
	}
	s.nontrivial(judged>=nc && nc>1); s.label(c.order2?"order2":"order1");
}

namespace {
std::vector<V4> rotField(const std::vector<V4>& u, double co, double si) { std::vector<V4> o; for(const auto& x : u) o.push_back(V4{x[0],co*x[1]-si*x[2],si*x[1]+co*x[2],x[3]}); return o; }
}
RELATION(S08,renumbering,6000,120000,"at least four cells, numbered differently") {
	const GenMesh g=genMesh(s,meshOpts(s)); const RMesh R=ref::rmesh(g); FlowOpts fo; fo.strong=true; const ref::Cfg c=genCfg(s,g,fo); const auto u=genField(s,g,c,fo);
	const auto E=ref::residual(c,R,toL(u)); if(!E.ok) { s.label("skipped: "+E.why); return; }
	GenMesh h=g; const int nc=g.cells.size(), np=g.pts.size();
	const auto cp=s.perm(nc), pp=s.perm(np), bp=s.perm(g.bfs.size());
	for(int i=0;i<np;i++) h.pts[pp[i]]=g.pts[i];
	std::vector<V4> w(nc);
	for(int i=0;i<nc;i++) { auto q=g.cells[i]; std::rotate(q.begin(),q.begin()+s.draw(q.size()),q.end()); for(int& x : q) x=pp[x]; h.cells[cp[i]]=q; h.vtags[cp[i]]=g.vtags[i]; w[cp[i]]=u[i]; }
	for(size_t i=0;i<g.bfs.size();i++) { auto b=g.bfs[i]; b.a=pp[b.a]; b.b=pp[b.b]; if(s.chance(1,2)) std::swap(b.a,b.b); h.bfs[bp[i]]=b; }
	s.desc<<str(c)<<" "<<g.summary(); s.nontrivial(nc>=4); s.label(c.order2?c.rec:"order1"); s.label(c.flux);
	LibFlow A(g,c), B(h,c); A.warm(s,u); std::vector<double> da,db; const auto a=A.residual(u,&da), b=B.residual(w,&db);
	for(int i=0;i<nc;i++) { for(int v=0;v<4;v++) PBT_CHECK(std::fabs(a[i][v]-b[cp[i]][v])<=2e-9*(double)E.scale[i][v],"renumbering","cell "<<i<<" variable "<<v<<": "<<a[i][v]<<", renumbered "<<b[cp[i]][v]);
		PBT_CHECK(std::fabs(da[i]-db[cp[i]])<=1e-8*da[i],"renumbering-dt","cell "<<i<<": time step "<<da[i]<<", renumbered "<<db[cp[i]]); }
}
RELATION(S08,rotation_translation_mirror,6000,120000,"at least two cells, moved") {
	const GenMesh g=genMesh(s,meshOpts(s)); const RMesh R=ref::rmesh(g); FlowOpts fo; fo.strong=true; const ref::Cfg c=genCfg(s,g,fo); const auto u=genField(s,g,c,fo);
	const auto E=ref::residual(c,R,toL(u)); if(!E.ok) { s.label("skipped: "+E.why); return; }
	GenMesh h=g; ref::Cfg d=c; const bool mir=s.chance(1,3); 
	// the limiters act on the Cartesian components of velocity, so limited schemes are invariant under quarter turns only
	const bool quarter = c.order2 && c.rec!="NONE"; const int nq=s.irange(0,3); const double tha=s.realz(-3,3,1);
	const double th=quarter?nq*M_PI/2:tha, co=quarter?(nq==0?1:nq==2?-1:0):std::cos(th), si=quarter?(nq==1?1:nq==3?-1:0):std::sin(th), tx=s.realz(-2,2,0), ty=s.realz(-2,2,0);
	auto w=u; if(mir) { for(auto& p : h.pts) p[1]=-p[1]; for(auto& q : h.cells) std::reverse(q.begin(),q.end()); for(auto& x : w) x[2]=-x[2]; d.aoa=-c.aoa; for(auto& b : d.bc) if(b.second.type!=SUBSONIC_INFLOW_BC) b.second.v0=-b.second.v0; }
	for(auto& p : h.pts) p=P2{co*p[0]-si*p[1]+tx,si*p[0]+co*p[1]+ty};
	w=rotField(w,co,si); d.aoa=(double)(d.aoa+th);
	s.desc<<str(c)<<" angle "<<th<<" shift "<<tx<<","<<ty<<(mir?" mirrored ":" ")<<g.summary(); s.nontrivial(g.cells.size()>1); s.label(c.order2?c.rec:"order1"); s.label(mir?"mirror":"rotation");
	const auto E2=ref::residual(d,ref::rmesh(h),toL(w)); if(!E2.ok) { s.label("skipped: "+E2.why); s.nontriv=false; return; }
	LibFlow A(g,c), B(h,d); B.warm(s,w); std::vector<double> da,db; auto a=A.residual(u,&da); const auto b=B.residual(w,&db);
	if(mir) for(auto& x : a) x[2]=-x[2];
	a=rotField(a,co,si);
	// the least-squares problem and small cells magnify the roundoff of the moved coordinates
	double L=1; for(const auto& p : h.pts) L=std::max({L,std::fabs(p[0]),std::fabs(p[1])}); const double f=std::pow(std::max(1.0,L/h.hmin()),2);
	for(size_t i=0;i<u.size();i++) { const double m=std::max((double)E.scale[i][1],(double)E.scale[i][2]);
		for(int v=0;v<4;v++) { const double sc=(v==1||v==2)?m:(double)E.scale[i][v]; PBT_CHECK(std::fabs(a[i][v]-b[i][v])<=1e-9*f*sc,"frame","cell "<<i<<" variable "<<v<<": moved residual "<<a[i][v]<<", residual of the moved problem "<<b[i][v]); }
		PBT_CHECK(std::fabs(da[i]-db[i])<=1e-8*f*da[i],"frame-dt","cell "<<i<<": time step "<<da[i]<<", moved "<<db[i]); }
}

namespace {
struct DiffCase { GenMesh g; RMesh R; double nu, b; std::string grad; std::vector<std::array<LD,1>> u; double k[4]; std::function<double(double,double,double)> f; };
void refDiff(const DiffCase& d, std::vector<LD>& r, std::vector<LD>& sc) {
	const auto& R=d.R; const int nc=R.c.size(); r.assign(nc,0); sc.assign(nc,0);
	std::vector<std::array<LD,1>> ug(R.e.size()); for(size_t k=0;k<R.e.size();k++) if(R.e[k].r<0) ug[k][0]=2*LD(d.b)-d.u[R.e[k].l][0];
	const auto G=ref::gradients<1>(d.grad,R,d.u,ug);
	for(size_t k=0;k<R.e.size();k++) { const auto& e=R.e[k]; const auto o=R.other(k,e.l);
		const LD dx=o[0]-R.c[e.l][0], dy=o[1]-R.c[e.l][1], D=std::hypot(dx,dy), t[2]={dx/D,dy/D};
		const LD du=(e.r<0?ug[k][0]:d.u[e.r][0])-d.u[e.l][0]; LD gg[2],s=0; const int rr=e.r<0?e.l:e.r;
		for(int j=0;j<2;j++) { gg[j]=(G[e.l][j][0]+G[rr][j][0])/2; s+=gg[j]*t[j]; }
		LD F=0,m=0; for(int j=0;j<2;j++) { F-=(gg[j]-s*t[j]+du/D*t[j])*e.n[j]; m+=std::abs(gg[j]); } m+=(std::abs(d.u[e.l][0])+std::abs(d.u[rr][0])+std::abs(LD(d.b)))/D;
		F*=d.nu*e.len; m*=d.nu*e.len; r[e.l]-=F; sc[e.l]+=m; if(e.r>=0) { r[e.r]+=F; sc[e.r]+=m; }
	}
	LD L2=0; for(const auto& p : d.g.pts) L2=std::max(L2,LD(p[0]*p[0]+p[1]*p[1]));	// areas are differences of products of coordinates
	for(int i=0;i<nc;i++) { const LD q=d.f(R.c[i][0],R.c[i][1],d.u[i][0])*R.area[i]; r[i]+=q; sc[i]+=std::abs(q)*(1+1e-6L*L2/R.area[i])+1e-6L*R.area[i]*std::sqrt(L2)*(2+4*std::abs(R.c[i][1]))+1e-12L; }
	// thin cells magnify the rounding of their centres in least-squares gradients
	if(d.grad=="LEASTSQUARES") {
		std::vector<LD> cond(nc); for(int i=0;i<nc;i++) { LD A=0,B=0,D=0; for(int k : R.ce[i]) { const auto o=R.other(k,i); const LD x=o[0]-R.c[i][0],y=o[1]-R.c[i][1],w=1/(x*x+y*y); A+=w*x*x;B+=w*x*y;D+=w*y*y; } cond[i]=(A+D)*(A+D)/(A*D-B*B); }
		std::vector<LD> mx=cond; for(const auto& e : R.e) if(e.r>=0) { mx[e.l]=std::max(mx[e.l],cond[e.r]); mx[e.r]=std::max(mx[e.r],cond[e.l]); }
		for(int i=0;i<nc;i++) sc[i]*=1+1e-3L*mx[i];
	}
}
DiffCase genDiff(Src& s) {
	DiffCase d; d.g=genMesh(s,meshOpts(s,4)); d.R=ref::rmesh(d.g); d.nu=s.logreal(1e-3,100); d.b=s.realz(-3,3,0); d.grad=s.pick<const char*>({"LEASTSQUARES","GREENGAUSS","NONE"});
	d.u.resize(d.R.c.size()); for(auto& x : d.u) x[0]=d.b+s.realz(-3,3,0); for(double& x : d.k) x=s.realz(-2,2,0); const double k0=d.k[0],k1=d.k[1],k2=d.k[2],k3=d.k[3];
	d.f=[=](double x, double y, double u){ return k0+k1*std::sin(x)+k2*y*y+k3*u; };
	s.desc<<"diffusivity "<<d.nu<<" boundary value "<<d.b<<" gradients "<<d.grad<<" "<<d.g.summary(); s.label(d.grad);
	return d;
}
struct LibDiff {
	UMesh<freal,2> m; std::unique_ptr<DiffusionMA<1>> sp; Vec u=NULL,r=NULL,dt=NULL;
	LibDiff(const DiffCase& d) : m(buildMesh(d.g)) { Quiet q; auto f=d.f;
		sp.reset(new DiffusionMA<1>(&m,d.nu,d.b,[f](const freal *const x,const freal t,const freal *const u,freal *const o){ o[0]=f(x[0],x[1],u[0]); },d.grad));
		createGhostedSystemVector(&m,1,&u); createGhostedSystemVector(&m,1,&r); createSystemVector(&m,1,&dt);
		PetscScalar *a; VecGetArray(u,&a); for(size_t i=0;i<d.u.size();i++) a[i]=d.u[i][0]; VecRestoreArray(u,&a); }
	~LibDiff() { VecDestroy(&u); VecDestroy(&r); VecDestroy(&dt); }
};
}
RELATION(S09,diffusion_residual,12000,240000,"more than one cell") {
	const DiffCase d=genDiff(s); std::vector<LD> r,sc; refDiff(d,r,sc); s.nontrivial(r.size()>1);
	LibDiff L(d); VecSet(L.r,0); VecSet(L.dt,-1);
	PBT_CHECK(L.sp->compute_residual(L.u,L.r,true,L.dt)==0,"residual-error","compute_residual failed");
	const PetscScalar *a,*t; VecGetArrayRead(L.r,&a); VecGetArrayRead(L.dt,&t);
	for(size_t i=0;i<r.size();i++) { PBT_CHECK(std::fabs(a[i]-(double)r[i])<=1e-9*(double)sc[i],"diffusion-residual","cell "<<i<<": "<<a[i]<<" reference "<<(double)r[i]);
		const double h=(double)d.R.maxlen[i]; PBT_CHECK(std::fabs(t[i]-h*h/d.nu)<=1e-10*t[i],"diffusion-dt","cell "<<i<<": time step "<<t[i]<<" expected "<<h*h/d.nu); }
	VecRestoreArrayRead(L.r,&a); VecRestoreArrayRead(L.dt,&t);
	// gradients as reported
	std::vector<double> G(r.size()*2,1e30); auto *gb=reinterpret_cast<GradBlock_t<freal,NDIM,1>*>(&G[0]); L.sp->getGradients(L.u,gb);
	std::vector<std::array<LD,1>> ug(d.R.e.size()); for(size_t k=0;k<d.R.e.size();k++) if(d.R.e[k].r<0) ug[k][0]=2*LD(d.b)-d.u[d.R.e[k].l][0];
	const auto E=ref::gradients<1>(d.grad,d.R,d.u,ug);
	for(size_t i=0;i<r.size();i++) { LD cond=0,dmin=1e300L,P=0; { LD A=0,B=0,D=0; for(int k : d.R.ce[i]) { const auto o=d.R.other(k,i); const LD x=o[0]-d.R.c[i][0],y=o[1]-d.R.c[i][1],w=1/(x*x+y*y); dmin=std::min(dmin,std::sqrt(1/w)); A+=w*x*x;B+=w*x*y;D+=w*y*y; P+=d.R.e[k].len; } cond=(A+D)*(A+D)/(A*D-B*B); }
		for(int j=0;j<2;j++) PBT_CHECK(std::fabs(gb[i](j,0)-(double)E[i][j][0])<=1e-9*(double)((cond/dmin+P/d.R.area[i])*10),"diffusion-gradient","cell "<<i<<": "<<gb[i](j,0)<<" reference "<<(double)E[i][j][0]); }
}
RELATION(S09,diffusion_jacobian,8000,160000,"more than one cell") {
	DiffCase d=genDiff(s); d.grad="NONE"; d.k[3]=0; const auto f0=d.f; d.f=[f0](double x,double y,double){ return f0(x,y,0); };
	const MatStorage st(s); LibDiff L(d); MatH M; PBT_CHECK(setupSystemMatrix<1>(&L.m,&M.A)==0,"setup","setupSystemMatrix failed"); MatZeroEntries(M.A);
	PBT_CHECK(L.sp->assemble_jacobian(L.u,M.A)==0,"assemble","assemble_jacobian failed"); MatAssemblyBegin(M.A,MAT_FINAL_ASSEMBLY); MatAssemblyEnd(M.A,MAT_FINAL_ASSEMBLY);
	const int nc=d.u.size(); s.nontrivial(nc>1);
	std::vector<LD> r0,sc; refDiff(d,r0,sc);
	// the first-order operator is affine: differences are exact
	for(int j=0;j<nc;j++) { DiffCase e=d; e.u[j][0]+=1; std::vector<LD> r1; refDiff(e,r1,sc);
		for(int i=0;i<nc;i++) { PetscScalar v; PetscInt I=i,Jj=j; MatGetValues(M.A,1,&I,1,&Jj,&v); const double want=(double)(r0[i]-r1[i]);
			PBT_CHECK(std::fabs(v-want)<=1e-9*(double)sc[i],"diffusion-jacobian","entry ("<<i<<","<<j<<"): "<<v<<" but the derivative is "<<want); } }
}

int main(int argc, char *argv[]) { return pbt::engineMain(argc,argv); }
