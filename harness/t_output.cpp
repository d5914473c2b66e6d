/* Outputs: surface coefficients, nodal and volume fields, VTU files, logs and functionals of a case */
#include "flowcase.hpp"
#include "spatial/diffusion.hpp"
#include "spatial/aoutput.hpp"
#include "ode/aodesolver.hpp"
#include "utilities/casesolvers.hpp"
#include "utilities/aerrorhandling.hpp"
#include <fstream>
#include <memory>
#include <unistd.h>
#include <sys/stat.h>

using namespace vc;
using namespace fvens;
using ref::LD; using ref::L4; using ref::L2; using ref::RMesh;
using pbt::Src;

namespace {
GenOpts meshOpts(Src& s, int maxn=4) { GenOpts o; o.maxn=maxn; o.tail=20; o.tailodds=400; o.maxstretch=s.chance(1,6)?10:2; o.ndtagmax=1; return o; }
bool nearSwitch(const ref::Cfg& c, const RMesh& R, const std::vector<L4>& U) {
	for(size_t k=0;k<R.e.size();k++) if(R.e[k].r<0 && c.bc.at(R.e[k].tag).type==INFLOW_OUTFLOW_BC) { const auto q=ref::prim<LD>(c.g,U[R.e[k].l],R.e[k].n); if(std::abs(q.vn/q.c)<1e-8L||std::abs(q.vn/q.c-1)<1e-8L) return true; }
	return false;
}
struct Row { L2 x; LD cp, cf, cfs; L2 v; };                    // cfs: magnitude of the terms of cf
struct SurfRef { bool ok=true; std::map<int,std::vector<Row>> rows; std::map<int,std::array<LD,4>> co; std::map<int,LD> cfscale; }; // co: CL CDp CDf area
SurfRef surface(const ref::Cfg& c, const RMesh& R, const std::vector<L4>& U, const UMesh<freal,2>& m) {
	SurfRef S; std::vector<L4> ug(R.e.size());
	for(size_t k=0;k<R.e.size();k++) if(R.e[k].r<0 && !ref::ghostOf(c,R.e[k],U[R.e[k].l],ug[k])) { S.ok=false; return S; }
	const auto G=ref::gradients<4>(c.grad,R,U,ug);
	// the library's order of boundary faces of one marker is that of its face list: identify edges by their points
	std::map<std::pair<int,int>,int> edge; for(size_t k=0;k<R.e.size();k++) edge[{std::min(R.e[k].a,R.e[k].b),std::max(R.e[k].a,R.e[k].b)}]=k;
	const LD pinf=1/(c.g*c.M*c.M);
	for(int f=m.gPhyBFaceStart();f<m.gPhyBFaceEnd();f++) {
		const int a=m.gintfac(f,2), b=m.gintfac(f,3); const int k=edge.at({std::min(a,b),std::max(a,b)}); const auto& e=R.e[k];
		const L4& u=U[e.l]; Row r; r.x=e.mid; r.cp=2*(ref::pres(c.g,u)-pinf); r.v={u[1]/u[0],u[2]/u[0]};
		const LD mu = c.visc && c.cvisc ? 1/c.Re : ref::sutherland(ref::temp(c.g,c.M,u),c.Tinf,c.Re);
		LD D[2][2], mag=0; for(int i=0;i<2;i++) for(int j=0;j<2;j++) { D[i][j]=(G[e.l][j][i+1]-u[i+1]/u[0]*G[e.l][j][0])/u[0]; mag=std::max(mag,(std::abs(G[e.l][j][i+1])+std::abs(u[i+1]/u[0]*G[e.l][j][0]))/u[0]); }
		const L2 t={e.n[1],-e.n[0]}; LD tau=0; for(int i=0;i<2;i++) for(int j=0;j<2;j++) tau+=mu*(D[i][j]+D[j][i])*e.n[j]*t[i];
		LD dmin=1e300L,aa=0,bb=0,dd=0,P=0; for(int q : R.ce[e.l]) { const auto o=R.other(q,e.l); const LD x=o[0]-R.c[e.l][0],y=o[1]-R.c[e.l][1],w=1/(x*x+y*y); dmin=std::min(dmin,std::sqrt(1/w)); aa+=w*x*x;bb+=w*x*y;dd+=w*y*y; P+=R.e[q].len; }
		LD vs=0; for(int q : R.ce[e.l]) for(int v=0;v<3;v++) { const auto& E=R.e[q]; const LD o=E.r<0?ug[q][v]:U[E.l==e.l?E.r:E.l][v]; vs=std::max({vs,std::abs(o),std::abs(u[v])}); }
		r.cf=2*tau; r.cfs=2*mu*((c.grad=="LEASTSQUARES"?(aa+dd)*(aa+dd)/(aa*dd-bb*bb)/dmin:P/R.area[e.l])*vs*(1+std::hypot(r.v[0],r.v[1]))/u[0]+mag);
		S.rows[e.tag].push_back(r);
		const L2 w={std::cos(c.aoa),std::sin(c.aoa)}, up={-w[1],w[0]};
		auto& C=S.co[e.tag];
		C[0]+=r.cp*(e.n[0]*up[0]+e.n[1]*up[1])*e.len; C[1]+=r.cp*(e.n[0]*w[0]+e.n[1]*w[1])*e.len;
		// the fluid drags the wall along: the force on the wall is minus the stress on the outward normal
		C[2]+=-r.cf*(t[0]*w[0]+t[1]*w[1])*e.len; C[3]+=e.len; S.cfscale[e.tag]+=r.cfs*e.len;
	}
	for(auto& x : S.co) { for(int i=0;i<3;i++) x.second[i]/=x.second[3]; S.cfscale[x.first]/=x.second[3]; }
	return S;
}
void checkCoeffs(Src& s, const std::array<double,3>& got, const std::array<LD,4>& e, LD cfs, LD cps, double rt, const std::string& where) {
	const char *N[]={"CL","CDp"};
	for(int i=0;i<2;i++) PBT_CHECK(std::fabs(got[i]-(double)e[i])<=rt*std::fabs((double)e[i])+1e-9*(double)cps,"pressure-coefficients",where<<": "<<N[i]<<" = "<<got[i]<<", expected "<<(double)e[i]);
	const double tol=rt*std::fabs((double)e[2])+1e-9*(double)cfs;
	if(std::fabs(got[2]-(double)e[2])<=tol) return;
	if(std::fabs(got[2]+(double)e[2])<=tol) { std::ostringstream o; o<<where<<": CDf = "<<got[2]<<", the friction drag is "<<(double)e[2]; pbt::finding(s,"friction-drag-sign",o.str()); return; }
	PBT_CHECK(false,"friction-coefficient",where<<": CDf = "<<got[2]<<", expected magnitude "<<(double)e[2]);
}
std::vector<std::string> lines(const std::string& f) { std::ifstream i(f); std::vector<std::string> o; std::string l; PBT_CHECK(i.good(),"missing-file","file "<<f<<" was not written"); while(std::getline(i,l)) o.push_back(l); return o; }
std::vector<double> nums(const std::string& l) { std::istringstream i(l); std::vector<double> o; std::string t; while(i>>t) { if(t=="#") continue; char *e; const double v=strtod(t.c_str(),&e); if(*e) return {}; o.push_back(v); } return o; }

void checkSurfaceFiles(Src& s, const std::string& base, const std::vector<int>& walls, const std::vector<int>& others, const SurfRef& S) {
	for(int t : walls) {
		const auto L=lines(base+"-surf_w"+std::to_string(t)+".out"); std::vector<Row> rows; if(S.rows.count(t)) rows=S.rows.at(t);
		std::vector<std::vector<double>> data; std::vector<double> co; bool head=false;
		for(const auto& l : L) { if(l.empty()) continue; if(l[0]=='#') { const auto n=nums(l); if(n.size()==3) co=n; head=true; } else data.push_back(nums(l)); }
		PBT_CHECK(head,"surface-header","no header");
		PBT_CHECK(data.size()==rows.size(),"surface-rows","wall "<<t<<": "<<data.size()<<" rows for "<<rows.size()<<" faces");
		LD cps=0; std::vector<bool> used(rows.size(),false);
		for(const auto& d : data) { PBT_CHECK(d.size()==4,"surface-columns",d.size()<<" columns");
			bool found=false; double best=1e300; std::string bm; // rows may be in any order: match on position
			for(size_t i=0;i<rows.size()&&!found;i++) if(!used[i]) { const Row& r=rows[i]; auto near=[&](double a, LD b, LD x) { return std::fabs(a-(double)b)<=2e-5*std::fabs((double)b)+1e-9*(double)x+1e-9; };
				const double dist=std::hypot(d[0]-(double)r.x[0],d[1]-(double)r.x[1]);
				if(near(d[0],r.x[0],std::abs(r.x[1]))&&near(d[1],r.x[1],std::abs(r.x[0]))&&near(d[2],r.cp,1)&&near(d[3],r.cf,r.cfs)) { found=true; used[i]=true; cps=std::max(cps,std::abs(r.cp)); }
				else if(dist<best) { best=dist; std::ostringstream o; o<<"nearest face has x "<<(double)r.x[0]<<" y "<<(double)r.x[1]<<" Cp "<<(double)r.cp<<" Cf "<<(double)r.cf; bm=o.str(); } }
			PBT_CHECK(found,"surface-row","wall "<<t<<": row x "<<d[0]<<" y "<<d[1]<<" Cp "<<d[2]<<" Cf "<<d[3]<<" is no face's; "<<bm); }
		if(!rows.empty()) { PBT_CHECK(co.size()==3,"surface-coefficients","no coefficients in the file of wall "<<t); checkCoeffs(s,{co[0],co[1],co[2]},S.co.at(t),S.cfscale.at(t),cps+1,2e-5,"wall file "+std::to_string(t)); }
	}
	for(int t : others) {
		const auto L=lines(base+"-surf_o"+std::to_string(t)+".out"); std::vector<Row> rows; if(S.rows.count(t)) rows=S.rows.at(t);
		std::vector<std::vector<double>> data; for(const auto& l : L) if(!l.empty()&&l[0]!='#') data.push_back(nums(l));
		PBT_CHECK(data.size()==rows.size(),"surface-rows","boundary "<<t<<": "<<data.size()<<" rows for "<<rows.size()<<" faces");
		std::vector<bool> used(rows.size(),false);
		for(const auto& d : data) { PBT_CHECK(d.size()==4,"surface-columns",d.size()<<" columns"); bool found=false;
			for(size_t i=0;i<rows.size()&&!found;i++) if(!used[i]) { const Row& r=rows[i]; auto near=[&](double a, LD b, LD x) { return std::fabs(a-(double)b)<=2e-5*std::fabs((double)b)+1e-9*(double)std::abs(x)+1e-9; };
				if(near(d[0],r.x[0],r.x[1])&&near(d[1],r.x[1],r.x[0])&&near(d[2],r.v[0],r.v[1])&&near(d[3],r.v[1],r.v[0])) found=used[i]=true; }
			PBT_CHECK(found,"other-row","boundary "<<t<<": row "<<d[0]<<" "<<d[1]<<" "<<d[2]<<" "<<d[3]<<" is no face's position and velocity"); }
	}
}

// ---------------------------------------------------------------- VTU
struct Vtu { int np=-1, nc=-1; std::map<std::string,std::vector<double>> pd, cd; std::map<std::string,int> comp; std::string act[2][2]; std::vector<double> pts; std::vector<double> con, off, typ; };
std::string attr(const std::string& t, const std::string& a) { const size_t k=t.find(a+"=\""); if(k==std::string::npos) return ""; const size_t b=k+a.size()+2; return t.substr(b,t.find('"',b)-b); }
Vtu readVtu(const std::string& f) {
	std::ifstream in(f); PBT_CHECK(in.good(),"missing-file","file "<<f<<" was not written"); std::stringstream b; b<<in.rdbuf(); const std::string x=b.str(); Vtu v; std::vector<std::string> stack; size_t p=0;
	while(true) { const size_t q=x.find('<',p); if(q==std::string::npos) { PBT_CHECK(x.find_first_not_of(" \t\r\n",p)==std::string::npos,"vtu-xml","text after the end"); break; }
		const size_t e=x.find('>',q); PBT_CHECK(e!=std::string::npos,"vtu-xml","unclosed tag"); const std::string t=x.substr(q+1,e-q-1); p=e+1;
		if(t[0]=='?'||t[0]=='!') continue;
		if(t[0]=='/') { PBT_CHECK(!stack.empty()&&stack.back()==t.substr(1),"vtu-xml","</"<<t.substr(1)<<"> closes nothing"); stack.pop_back(); continue; }
		const std::string name=t.substr(0,t.find_first_of(" \t\n/")); if(t[t.size()-1]=='/') continue; stack.push_back(name);
		if(name=="PointData"||name=="CellData") { v.act[name=="CellData"][0]=attr(t,"Scalars"); v.act[name=="CellData"][1]=attr(t,"Vectors"); }
		if(name=="Piece") { v.np=atoi(attr(t,"NumberOfPoints").c_str()); v.nc=atoi(attr(t,"NumberOfCells").c_str()); }
		if(name=="DataArray") { const size_t en=x.find('<',p); std::istringstream d(x.substr(p,en-p)); std::vector<double> n; std::string w; while(d>>w) { char *z; n.push_back(strtod(w.c_str(),&z)); PBT_CHECK(!*z,"vtu-number","'"<<w<<"' is no number"); }
			const std::string sec=stack.size()>1?stack[stack.size()-2]:"", nm=attr(t,"Name"); const int nco=atoi(attr(t,"NumberOfComponents").c_str());
			if(sec=="PointData") { v.pd[nm]=n; v.comp[nm]=nco; } else if(sec=="CellData") { v.cd[nm]=n; v.comp[nm]=nco; } else if(sec=="Points") { v.pts=n; PBT_CHECK(nco==3,"vtu-components","points with "<<nco<<" components"); } else if(sec=="Cells") { if(nm=="connectivity") v.con=n; else if(nm=="offsets") v.off=n; else if(nm=="types") v.typ=n; } }
		if(name=="VTKFile") PBT_CHECK(attr(t,"type")=="UnstructuredGrid","vtu-type","file type "<<attr(t,"type"));
	}
	PBT_CHECK(stack.empty(),"vtu-xml",stack.size()<<" unclosed elements");
	// the active scalars and vectors that a viewer will look up must exist and have that shape
	for(int c=0;c<2;c++) for(int k=0;k<2;k++) if(!v.act[c][k].empty()) { const auto& D = c?v.cd:v.pd; PBT_CHECK(D.count(v.act[c][k])&&(v.comp.at(v.act[c][k])==3)==(k==1),"vtu-active",(k?"Vectors":"Scalars")<<" names '"<<v.act[c][k]<<"', which is no such array"); }
	return v;
}
void checkVtuMesh(const Vtu& v, const GenMesh& g) {
	PBT_CHECK(v.np==(int)g.pts.size()&&v.nc==(int)g.cells.size(),"vtu-counts",v.np<<" points "<<v.nc<<" cells instead of "<<g.pts.size()<<" "<<g.cells.size());
	PBT_CHECK(v.pts.size()==3*g.pts.size(),"vtu-points",v.pts.size()<<" coordinates");
	for(size_t i=0;i<g.pts.size();i++) for(int d=0;d<3;d++) PBT_CHECK(std::fabs(v.pts[3*i+d]-(d<2?g.pts[i][d]:0))<=1e-9*std::fabs(d<2?g.pts[i][d]:0),"vtu-point","point "<<i<<" coordinate "<<d<<": "<<v.pts[3*i+d]);
	PBT_CHECK(v.off.size()==g.cells.size()&&v.typ.size()==g.cells.size(),"vtu-cells",v.off.size()<<" offsets, "<<v.typ.size()<<" types for "<<g.cells.size()<<" cells");
	size_t end=0;
	for(size_t c=0;c<g.cells.size();c++) { const auto& q=g.cells[c];
		PBT_CHECK(v.off[c]==end+q.size(),"vtu-offset","cell "<<c<<" ends at "<<v.off[c]<<" instead of "<<end+q.size());
		PBT_CHECK(v.typ[c]==(q.size()==3?5:9),"vtu-celltype","cell "<<c<<" of "<<q.size()<<" points has type "<<v.typ[c]);
		for(size_t j=0;j<q.size();j++) PBT_CHECK(end+j<v.con.size()&&v.con[end+j]==q[j],"vtu-connectivity","corner "<<j<<" of cell "<<c);
		end+=q.size(); }
	PBT_CHECK(v.con.size()==end,"vtu-connectivity",v.con.size()<<" entries for "<<end<<" corners");
}
struct Nodal { std::vector<std::array<LD,4>> sc; std::vector<L2> vel; };
Nodal nodal(const ref::Cfg& c, const GenMesh& g, const RMesh& R, const std::vector<L4>& U) {
	Nodal N; const int np=g.pts.size(); std::vector<L4> u(np,L4{0,0,0,0}); std::vector<LD> w(np,0);
	for(size_t i=0;i<U.size();i++) for(int p : g.cells[i]) { w[p]+=R.area[i]; for(int v=0;v<4;v++) u[p][v]+=R.area[i]*U[i][v]; }
	for(int p=0;p<np;p++) { for(int v=0;v<4;v++) u[p][v]/=w[p]; const LD pr=ref::pres(c.g,u[p]), V=std::hypot(u[p][1],u[p][2])/u[p][0];
		N.sc.push_back({u[p][0],V/std::sqrt(c.g*pr/u[p][0]),pr,c.g*c.M*c.M*pr/u[p][0]}); N.vel.push_back({u[p][1]/u[p][0],u[p][2]/u[p][0]}); }
	return N;
}
bool nearD(double a, LD b, double rt, LD at=0) { return std::fabs(a-(double)b)<=rt*std::fabs((double)b)+(double)at; }
LD entropyRef(const ref::Cfg& c, const RMesh& R, const std::vector<L4>& U) {
	const L4 ui=c.uinf(); const LD si=ref::pres(c.g,ui)/std::pow(ui[0],c.g); LD e=0;
	for(size_t i=0;i<U.size();i++) { const LD x=(ref::pres(c.g,U[i])/std::pow(U[i][0],c.g)-si)/si; e+=x*x*R.area[i]; } return std::sqrt(e);
}
struct Case { GenMesh g; RMesh R; ref::Cfg c; std::vector<V4> u; std::vector<L4> U; };
Case genCase(Src& s, int maxn=4) {
	Case k; k.g=genMesh(s,meshOpts(s,maxn)); k.R=ref::rmesh(k.g); FlowOpts fo; fo.Mlo=0.1; fo.strong=true; k.c=genCfg(s,k.g,fo); if(!k.c.visc) k.c.Re=std::numeric_limits<double>::infinity();
	k.u=genField(s,k.g,k.c,fo); k.U=toL(k.u); s.desc<<str(k.c)<<" "<<k.g.summary(); return k;
}
void genTags(Src& s, const Case& k, std::vector<int>& walls, std::vector<int>& others) {
	std::set<int> tags; for(const auto& b : k.g.bfs) tags.insert(b.tags[0]); if(s.chance(1,6)) tags.insert(99);
	for(int t : tags) { const int w=s.irange(0,3); if(w&1) walls.push_back(t); if(w&2) others.push_back(t); }
	// any order, and now and then the same boundary twice
	for(auto *v : {&walls,&others}) { if(v->size()>1&&s.chance(1,2)) { const std::vector<int> p=s.perm(v->size()), w=*v; for(size_t i=0;i<w.size();i++) (*v)[p[i]]=w[i]; } if(!v->empty()&&s.chance(1,12)) { s.label("a boundary listed twice"); v->push_back((*v)[s.draw(v->size())]); } }
}
}

/// another physical state
static std::vector<V4> other(const std::vector<V4>& u) { std::vector<V4> w(u.rbegin(),u.rend()); for(auto& x : w) { for(double& y : x) y*=1.7; x[2]=-x[2]; } return w; }
RELATION(O01,surface_output,20000,200000,"some wall has faces and the state is not uniform") {
	const Case k=genCase(s); if(nearSwitch(k.c,k.R,k.U)) return;
	LibFlow L(k.g,k.c); L.warm(s,k.u); L.setState(k.u); const SurfRef S=surface(k.c,k.R,k.U,L.m); if(!S.ok) return;
	std::vector<int> walls, others; genTags(s,k,walls,others);
	const IdealGasPhysics<freal> phy(k.c.g,k.c.M,k.c.Tinf,k.c.Re,k.c.Pr); const std::string base=pbt::scratchDir()+"/o";
	bool faces=false; for(int t : walls) faces|=S.rows.count(t); s.nontrivial(faces); s.label(k.c.visc?"viscous":"inviscid");
	{ Quiet q; FlowOutput out(L.sp.get(),&phy,k.c.aoa); if(s.chance(1,6)) { s.label("output used before"); L.setState(other(k.u)); out.exportSurfaceData(L.u,walls,others,base); L.setState(k.u); } out.exportSurfaceData(L.u,walls,others,base); }
	checkSurfaceFiles(s,base,walls,others,S);
	// and the values before they are written
	std::vector<GradBlock_t<freal,NDIM,NVARS>> grad(L.m.gnelem()); L.sp->getGradients(L.u,&grad[0]); ConstVecHandler<freal> uh(L.u);
	for(int t : walls) if(S.rows.count(t)) { MVector<freal> o(S.rows.at(t).size(),4); o.fill(1e30);
		const auto f=L.sp->computeSurfaceData(amat::Array2dView<freal>(uh.getArray(),L.m.gnelem(),NVARS),&grad[0],t,o);
		LD cps=1; for(const auto& r : S.rows.at(t)) cps=std::max(cps,std::abs(r.cp)+2/(k.c.g*k.c.M*k.c.M));
		for(size_t i=0;i<S.rows.at(t).size();i++) { bool found=false; for(const auto& r : S.rows.at(t)) { const LD x=std::abs(r.x[0])+std::abs(r.x[1]); found=found||(nearD(o(i,0),r.x[0],0,1e-13*x)&&nearD(o(i,1),r.x[1],0,1e-13*x)&&nearD(o(i,2),r.cp,1e-11,1e-12*cps)&&nearD(o(i,3),r.cf,1e-11,1e-11*r.cfs)); }
			PBT_CHECK(found,"surface-values","wall "<<t<<" row "<<i<<": x "<<o(i,0)<<" y "<<o(i,1)<<" Cp "<<o(i,2)<<" Cf "<<o(i,3)<<" is no face's"); }
		checkCoeffs(s,{std::get<0>(f),std::get<1>(f),std::get<2>(f)},S.co.at(t),S.cfscale.at(t),cps,1e-10,"wall "+std::to_string(t)); }
}
RELATION(O02,nodal_and_cell_fields,20000,200000,"the state is not uniform and there is more than one cell") {
	const Case k=genCase(s); s.nontrivial(k.u.size()>1);
	LibFlow L(k.g,k.c); L.warm(s,k.u); L.setState(k.u); const IdealGasPhysics<freal> phy(k.c.g,k.c.M,k.c.Tinf,k.c.Re,k.c.Pr);
	amat::Array2d<freal> sc,ve,cs,cv; double ent; const std::string base=pbt::scratchDir()+"/v";
	MVector<freal> um(k.u.size(),4); for(size_t i=0;i<k.u.size();i++) for(int v=0;v<4;v++) um(i,v)=k.u[i][v];
	{ Quiet q; FlowOutput out(L.sp.get(),&phy,k.c.aoa); if(s.chance(1,6)) { s.label("output used before"); L.setState(other(k.u)); out.postprocess_point(L.u,sc,ve); out.postprocess_cell(L.u,cs,cv); out.compute_entropy_cell(L.u); L.setState(k.u); } out.postprocess_point(L.u,sc,ve); out.postprocess_cell(L.u,cs,cv); ent=out.compute_entropy_cell(L.u); out.exportVolumeData(um,base); }
	const Nodal N=nodal(k.c,k.g,k.R,k.U); const char *nm[]={"density","Mach number","pressure","temperature"};
	PBT_CHECK(sc.rows()==(int)k.g.pts.size()&&sc.cols()==4&&ve.rows()==sc.rows()&&ve.cols()==2,"nodal-size","nodal arrays "<<sc.rows()<<"x"<<sc.cols()<<" "<<ve.rows()<<"x"<<ve.cols());
	bool sane=true; for(const auto& x : N.sc) sane=sane&&x[2]>1e-6L*k.U[0][3];
	if(sane) for(size_t p=0;p<k.g.pts.size();p++) {
		for(int v=0;v<4;v++) PBT_CHECK(nearD(sc(p,v),N.sc[p][v],1e-9,1e-11),"nodal-scalar","node "<<p<<" "<<nm[v]<<" "<<sc(p,v)<<" instead of "<<(double)N.sc[p][v]);
		for(int d=0;d<2;d++) PBT_CHECK(nearD(ve(p,d),N.vel[p][d],1e-11,1e-12),"nodal-velocity","node "<<p<<" velocity "<<d<<" "<<ve(p,d)<<" instead of "<<(double)N.vel[p][d]); }
	const auto V=lines(base+"-vol.out"); std::vector<std::vector<double>> rows; for(const auto& l : V) if(!l.empty()&&l[0]!='#') rows.push_back(nums(l));
	PBT_CHECK(rows.size()==k.u.size(),"volume-rows",rows.size()<<" rows for "<<k.u.size()<<" cells");
	for(size_t i=0;i<k.u.size();i++) { const auto q=ref::prim<LD>(k.c.g,k.U[i],L2{1,0}); const LD M=std::sqrt(q.V2)/q.c, T=k.c.g*k.c.M*k.c.M*q.p/q.r;
		const LD cell[3]={q.r,M,q.p}; for(int v=0;v<3;v++) PBT_CHECK(nearD(cs(i,v),cell[v],1e-9,1e-11),"cell-scalar","cell "<<i<<" scalar "<<v<<" "<<cs(i,v)<<" instead of "<<(double)cell[v]);
		PBT_CHECK(nearD(cv(i,0),q.u,1e-12,1e-13)&&nearD(cv(i,1),q.v,1e-12,1e-13),"cell-velocity","cell "<<i);
		const LD w[8]={k.R.c[i][0],k.R.c[i][1],q.r,q.u,q.v,q.p,T,M}; PBT_CHECK(rows[i].size()==8,"volume-columns",rows[i].size()<<" columns");
		const LD xs=std::abs(w[0])+std::abs(w[1]); for(int j=0;j<8;j++) PBT_CHECK(nearD(rows[i][j],w[j],1e-5,1e-9L+(j<2?1e-9L*xs:0)),"volume-value","cell "<<i<<" column "<<j<<": "<<rows[i][j]<<" instead of "<<(double)w[j]); }
	const LD e=entropyRef(k.c,k.R,k.U); LD A=0; for(LD a : k.R.area) A+=a;
	PBT_CHECK(nearD(ent,e,1e-9,1e-10*std::sqrt(A)*(1+e)),"entropy","entropy error "<<ent<<" instead of "<<(double)e);
	unlink((base+"-vol.out").c_str());
}
RELATION(O02,scalar_nodal_field,10000,100000,"more than one cell") {
	const GenMesh g=genMesh(s,meshOpts(s)); const UMesh<freal,2> m=buildMesh(g); const RMesh R=ref::rmesh(g); const int np=g.pts.size(); s.desc<<g.summary(); s.nontrivial(g.cells.size()>1);
	Vec u; createGhostedSystemVector(&m,1,&u); std::vector<double> x(g.cells.size()); for(double& v : x) v=s.realz(-2,2,0);
	{ PetscScalar *a; VecGetArray(u,&a); for(size_t i=0;i<x.size();i++) a[i]=x[i]; VecRestoreArray(u,&a); }
	amat::Array2d<freal> up; { Quiet q; scalar_postprocess_point<1>(&m,u,up); }
	std::vector<LD> a(np,0), w(np,0); for(size_t i=0;i<x.size();i++) for(int p : g.cells[i]) { a[p]+=R.area[i]*x[i]; w[p]+=R.area[i]; }
	PBT_CHECK(up.rows()==np&&up.cols()==1,"nodal-size","nodal array "<<up.rows()<<"x"<<up.cols());
	for(int p=0;p<np;p++) PBT_CHECK(nearD(up(p,0),a[p]/w[p],1e-11,1e-12),"scalar-nodal","node "<<p<<": "<<up(p,0)<<" instead of "<<(double)(a[p]/w[p]));
	VecDestroy(&u);
}
RELATION(O03,vtu_files,30000,300000,"the mesh has both cell shapes, or several cells") {
	GenOpts o=meshOpts(s); o.kind=s.irange(0,3)-1; const GenMesh g=genMesh(s,o); const UMesh<freal,2> m=buildMesh(g); s.desc<<g.summary();
	bool t=false,q4=false; for(const auto& c : g.cells) (c.size()==3?t:q4)=true; s.nontrivial((t&&q4)||g.cells.size()>2); if(t&&q4) s.label("hybrid");
	const int what=s.irange(0,2); const std::string f=pbt::scratchDir()+"/m.vtu"; s.label(what==0?"mesh":what==1?"point data":"cell data");
	if(what==0) { { Quiet q; writeMeshToVtu(f,m); } checkVtuMesh(readVtu(f),g); unlink(f.c_str()); return; }
	const int n = what==1 ? (int)g.pts.size() : (int)g.cells.size(), ns=s.irange(0,4); const bool vec=s.chance(1,2);
	amat::Array2d<double> x, y; std::string names[4]={"a","mach-number","b b","T"}; if(ns) x.resize(n,ns); if(vec) y.resize(n,2);
	for(int i=0;i<n;i++) { for(int j=0;j<ns;j++) x(i,j)=s.realz(-1,1,0)*s.logreal(1e-8,1e8); if(vec) for(int j=0;j<2;j++) y(i,j)=s.realz(-100,100,0); }
	{ Quiet q; if(what==1) writeScalarsVectorToVtu_PointData(f,m,x,names,y,"velocity"); else writeScalarsVectorToVtu_CellData(f,m,x,names,y,"velocity"); }
	const Vtu v=readVtu(f); checkVtuMesh(v,g); const auto& D = what==1?v.pd:v.cd; const auto& other = what==1?v.cd:v.pd;
	PBT_CHECK(other.empty()&&(int)D.size()==ns+(vec?1:0),"vtu-arrays",D.size()<<" data arrays instead of "<<ns+vec);
	if(ns) PBT_CHECK(!v.act[what==2][0].empty(),"vtu-active","no active scalars"); if(vec) PBT_CHECK(v.act[what==2][1]=="velocity","vtu-active","no active vectors");
	for(int j=0;j<ns;j++) { PBT_CHECK(D.count(names[j]),"vtu-array","no array "<<names[j]); const auto& d=D.at(names[j]); PBT_CHECK((int)d.size()==n,"vtu-array-size",names[j]<<" has "<<d.size()<<" values for "<<n);
		for(int i=0;i<n;i++) PBT_CHECK(nearD(d[i],x(i,j),1e-9,0),"vtu-value",names[j]<<"["<<i<<"] = "<<d[i]<<" instead of "<<x(i,j)); }
	if(vec) { const auto& d=D.at("velocity"); PBT_CHECK((int)d.size()==3*n&&v.comp.at("velocity")==3,"vtu-array-size","velocity has "<<d.size()<<" values for "<<n); for(int i=0;i<n;i++) for(int j=0;j<3;j++) PBT_CHECK(nearD(d[3*i+j],j<2?y(i,j):0,1e-9,0),"vtu-value","velocity "<<j<<" ["<<i<<"] = "<<d[3*i+j]); }
	unlink(f.c_str());
}
RELATION(O04,history_lines,20000,200000,"always") {
	const int n=s.irange(1,6); std::ostringstream o; std::vector<SteadyStepMonitor> st; s.nontrivial(); { writeConvergenceHistoryHeader(o); }
	for(int i=0;i<n;i++) { SteadyStepMonitor m; m.step=s.chance(1,3)?s.irange(1,1000000):i+1; m.rmsres=(float)s.logreal(1e-20,1e10); m.absrmsres=(float)s.logreal(1e-20,1e10); m.odewalltime=(float)s.logreal(1e-5,1e5); m.linwalltime=(float)s.logreal(1e-5,1e5); m.linits=s.irange(0,1000000); m.cfl=(float)s.logreal(1e-3,1e6); st.push_back(m); writeStepToConvergenceHistory(m,o); }
	std::istringstream in(o.str()); std::string l; int i=0;
	while(std::getline(in,l)) { if(l.empty()||l[0]=='#') continue; const auto d=nums(l); PBT_CHECK(i<n&&d.size()==7,"history-columns","line '"<<l<<"'"); const auto& m=st[i++];
		PBT_CHECK(d[0]==m.step,"history-line","step "<<d[0]<<" for "<<m.step); const double w[7]={0,std::log10(m.rmsres),std::log10(m.absrmsres),m.odewalltime,m.linwalltime,(double)m.linits,m.cfl};
		for(int c=1;c<7;c++) PBT_CHECK(std::fabs(d[c]-w[c])<=(c<3?1e-5:1e-3)*std::fabs(w[c])+1e-9,"history-line","column "<<c<<" "<<d[c]<<" for "<<w[c]); }
	PBT_CHECK(i==n,"history-lines",i<<" lines for "<<n<<" steps");
}
RELATION(O04,run_output,8000,80000,"more than one cell, and some file was asked for") {
	Case k; k.g=genMesh(s,meshOpts(s,3)); k.R=ref::rmesh(k.g); FlowOpts fo; fo.amp=0.05; fo.Relo=50; fo.Mlo=0.3; fo.Mhi=0.9; fo.bcs={FARFIELD_BC,SLIP_WALL_BC,ADIABATIC_WALL_BC,EXTRAPOLATION_BC}; fo.fluxes={"LLF","HLL","HLLC"};
	k.c=genCfg(s,k.g,fo); if(!k.c.visc) k.c.Re=std::numeric_limits<double>::infinity(); k.u=genField(s,k.g,k.c,fo); const ref::Cfg& c=k.c; s.desc<<str(c)<<" "<<k.g.summary();
	FlowParserOptions o{}; const auto P=physConf(c); genTags(s,k,o.lwalls,o.lothers); o.num_out_walls=o.lwalls.size(); o.num_out_others=o.lothers.size();
	o.gamma=c.g; o.Minf=c.M; o.Tinf=c.Tinf; o.Reinf=c.Re; o.Pr=c.Pr; o.alpha=c.aoa; o.viscsim=c.visc; o.useconstvisc=c.cvisc; o.flowtype=c.visc?"NAVIERSTOKES":"EULER"; o.bcconf=P.bcconf;
	o.invflux=c.flux; o.invfluxjac=c.jflux; o.gradientmethod=c.grad; o.limiter=c.rec; o.limiter_param=c.lim; o.order2=c.order2; o.pseudotimetype="EXPLICIT";
	o.initcfl=o.firstinitcfl=s.real(0.05,0.4); o.endcfl=o.firstendcfl=o.initcfl; o.tolerance=s.logreal(0.05,2); o.firsttolerance=0.5; o.maxiter=s.irange(0,8); o.firstmaxiter=2; const bool lng=k.u.size()<20&&s.chance(1,40); if(lng) { o.maxiter=s.irange(9,200); o.tolerance=s.logreal(1e-3,0.1); s.label("many steps"); } o.lognres=s.chance(1,2); o.nl_update_scheme="FULL"; o.min_nl_update=0.5;
	const std::string d=pbt::scratchDir(); o.logfile=d+"/log"; o.surfnameprefix=d+"/s"; o.vtu_output_file=d+"/f.vtu"; o.volnameprefix=d+"/w"; o.vol_output_reqd=s.chance(1,2)?"YES":"NO"; const bool sf=s.chance(3,4), vt=s.chance(3,4);
	auto clean=[&]() { for(int t=0;t<100;t++) for(const char *w : {"-surf_w","-surf_o"}) unlink((o.surfnameprefix+w+std::to_string(t)+".out").c_str());
		for(const std::string& f : {o.vtu_output_file,o.volnameprefix+"-vol.out",o.logfile+"-residual_history.log",o.logfile+"-prec-timing.log"}) unlink(f.c_str()); };
	clean();
	const UMesh<freal,2> m=buildMesh(k.g); Vec u; createGhostedSystemVector(&m,4,&u);
	{ PetscScalar *a; VecGetArray(u,&a); for(size_t i=0;i<k.u.size();i++) for(int v=0;v<4;v++) a[i*4+v]=k.u[i][v]; VecRestoreArray(u,&a); }
	s.desc<<" walls "<<o.lwalls.size()<<" others "<<o.lothers.size()<<" surf "<<sf<<" vtu "<<vt<<" vol "<<o.vol_output_reqd<<" log "<<o.lognres<<" tol "<<o.tolerance<<" it "<<o.maxiter; if(o.lwalls.empty()) s.label("no output walls");
	FlowSolutionFunctionals F; bool conv=true; std::string exc; std::string said; { Quiet q; SteadyFlowCase fc(o); try { F=fc.run_output(sf,vt,m,u); } catch(const Numerical_error& e) { exc=e.what(); } said=q.sink.str(); }
	conv=said.find("did not converge")==std::string::npos; s.label(conv?"converged":"not converged");
	if(!exc.empty()) { s.label("diverged"); VecDestroy(&u); return; }
	std::vector<L4> U(k.u.size()); bool fin=true; { const PetscScalar *a; VecGetArrayRead(u,&a); for(size_t i=0;i<U.size();i++) for(int v=0;v<4;v++) { U[i][v]=a[i*4+v]; fin=fin&&std::isfinite(a[i*4+v])&&std::fabs(a[i*4+v])<1e6; } VecRestoreArrayRead(u,&a); } VecDestroy(&u);
	for(const auto& x : U) fin=fin&&x[0]>1e-3L&&ref::pres(c.g,x)>1e-4L; if(!fin) { s.label("left the admissible range"); return; }
	s.nontrivial(U.size()>1&&(sf||vt));
	const SurfRef S=surface(c,k.R,U,m); const LD e=entropyRef(c,k.R,U); LD A=0; for(LD a : k.R.area) A+=a;
	PBT_CHECK(nearD(F.meshSizeParameter,1/std::sqrt((LD)U.size()),1e-14),"mesh-size",F.meshSizeParameter<<" for "<<U.size()<<" cells");
	PBT_CHECK(nearD(F.entropy,e,1e-9,1e-10*std::sqrt(A)*(1+e)),"entropy","entropy "<<F.entropy<<" instead of "<<(double)e);
	if(S.ok && !o.lwalls.empty() && S.co.count(o.lwalls[0])) { const int t=o.lwalls[0]; LD cps=1; for(const auto& r : S.rows.at(t)) cps=std::max(cps,std::abs(r.cp)+2/(c.g*c.M*c.M)); checkCoeffs(s,{F.CL,F.CDp,F.CDsf},S.co.at(t),S.cfscale.at(t),cps,1e-9,"functionals"); }
	auto exists=[&](const std::string& f) { struct stat b; return stat(f.c_str(),&b)==0; };
	if(sf && S.ok) checkSurfaceFiles(s,o.surfnameprefix,o.lwalls,o.lothers,S);
	if(!sf) for(int t : o.lwalls) PBT_CHECK(!exists(o.surfnameprefix+"-surf_w"+std::to_string(t)+".out"),"unrequested-file","a surface file was written");
	if(vt) { const Vtu v=readVtu(o.vtu_output_file); checkVtuMesh(v,k.g); const Nodal N=nodal(c,k.g,k.R,U); const char *nm[]={"density","mach-number","pressure","temperature"};
		bool sane=true; for(const auto& x : N.sc) sane=sane&&x[2]>1e-5L;
		if(sane) for(int j=0;j<4;j++) { PBT_CHECK(v.pd.count(nm[j])&&v.pd.at(nm[j]).size()==k.g.pts.size(),"vtu-array","no nodal "<<nm[j]); for(size_t p=0;p<k.g.pts.size();p++) PBT_CHECK(nearD(v.pd.at(nm[j])[p],N.sc[p][j],1e-8,1e-10),"vtu-solution",nm[j]<<" at node "<<p<<": "<<v.pd.at(nm[j])[p]<<" instead of "<<(double)N.sc[p][j]); }
		PBT_CHECK(v.pd.count("velocity"),"vtu-array","no nodal velocity"); for(size_t p=0;p<k.g.pts.size();p++) for(int j=0;j<2;j++) PBT_CHECK(nearD(v.pd.at("velocity")[3*p+j],N.vel[p][j],1e-8,1e-10),"vtu-solution","velocity at node "<<p); }
	else PBT_CHECK(!exists(o.vtu_output_file),"unrequested-file","a VTU file was written");
	PBT_CHECK(exists(o.volnameprefix+"-vol.out")==(o.vol_output_reqd=="YES"),"volume-file","volume file "<<(exists(o.volnameprefix+"-vol.out")?"written":"missing"));
	if(o.lognres&&conv) { int n=0; std::map<int,std::vector<double>> told; { std::istringstream in(said); std::string l; while(std::getline(in,l)) { std::istringstream ls(l); std::vector<std::string> t; std::string y; while(ls>>y) t.push_back(y); bool num=t.size()==7; for(const auto& z : t) { char *e; strtod(z.c_str(),&e); num=num&&!*e; } if(num) told[atoi(t[0].c_str())]=nums(l); } }
		int last=0; for(const auto& l : lines(o.logfile+"-residual_history.log")) if(!l.empty()&&l[0]!='#') { const auto x=nums(l); PBT_CHECK(x.size()==7&&x[0]==n+1,"history-file","line '"<<l<<"' is not step "<<n+1); n++; if(told.count(n)) { last=n; for(int j=0;j<7;j++) PBT_CHECK(nearD(x[j],told.at(n)[j],1e-4,1e-4)||!std::isfinite(x[j]),"history-file","line '"<<l<<"' is not what was reported for step "<<n); } }
		PBT_CHECK(last==n&&(told.empty()||told.rbegin()->first==n),"history-file","the history has "<<n<<" steps, "<<(told.empty()?0:told.rbegin()->first)<<" were reported"); PBT_CHECK(exists(o.logfile+"-prec-timing.log"),"missing-file","no timing log"); s.label("history written"); }
	if(!o.lognres) PBT_CHECK(!exists(o.logfile+"-residual_history.log"),"unrequested-file","a residual history was written");
	clean();
}

int main(int argc, char *argv[]) { return pbt::engineMain(argc,argv); }
