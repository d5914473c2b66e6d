/* Control files, option databases, the command-line programs and small containers */
#include "flowcase.hpp"
#include "utilities/controlparser.hpp"
#include "utilities/aoptionparser.hpp"
#include "utilities/aerrorhandling.hpp"
#include "utilities/casesolvers.hpp"
#include "utilities/aarray2d.hpp"
#include "utilities/helper_algorithms.hpp"
#include "spatial/abctypemap.hpp"
#include <boost/program_options/cmdline.hpp>
#include <boost/program_options/parsers.hpp>
#include <fstream>
#include <iomanip>
#include <algorithm>
#include <memory>
#include <new>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <dirent.h>
#include <cstring>

using namespace vc;
using namespace fvens;
using pbt::Src;
namespace po = boost::program_options;

namespace {
std::string up(std::string s) { for(char& c : s) c=toupper(c); return s; }
std::string recase(Src& s, const std::string& w) { const int k=s.irange(0,3); std::string o=w; for(char& c : o) c = k==0?c : k==1?tolower(c) : k==2?toupper(c) : s.chance(1,2)?toupper(c):tolower(c); return o; }
/// the text of a real number and the value it denotes
std::string realText(Src& s, double& v) {
	std::ostringstream o; switch(s.irange(0,3)) { case 0: o<<v; break; case 1: o<<std::setprecision(17)<<v; break; case 2: o<<std::scientific<<std::setprecision(s.irange(0,9))<<v; break; default: o<<std::setprecision(4)<<v; }
	v=strtod(o.str().c_str(),nullptr); return o.str();
}
struct Node { std::string key, val; std::vector<Node> ch; bool sec=false, list=false; };
Node leaf(const std::string& k, const std::string& v) { Node n; n.key=k; n.val=v; return n; }
Node listLeaf(const std::string& k, const std::string& v) { Node n=leaf(k,v); n.list=true; return n; }
Node sect(const std::string& k) { Node n; n.key=k; n.sec=true; return n; }

/// Prints a tree in the INFO format with varied formatting; the order of entries is shuffled
void print(Src& s, const Node& n, std::ostream& o, const std::string& ind, int style) {
	auto comment=[&]() { if(style>=2 && s.chance(1,4)) o<<" ; "<<s.pick<const char*>({"comment","type bc0 { euler }","42 \"quoted\"",";;"}); };
	auto q=[&](const std::string& v) { const bool need=v.empty()||v.find_first_of(" \t;{}\"")!=std::string::npos; return need||(style>=1&&s.chance(1,3)) ? "\""+v+"\"" : v; };
	std::vector<int> ord(n.ch.size()); for(size_t i=0;i<ord.size();i++) ord[i]=i; if(style>=1) ord=s.perm(n.ch.size());
	for(int i : ord) { const Node& c=n.ch[i];
		if(style>=2&&s.chance(1,6)) { o<<ind<<";; "<<"a comment line { with } \"braces\"\n"; }
		if(style>=2&&s.chance(1,8)) o<<"\n";
		o<<ind<<(style>=1?q(c.key):c.key);
		if(!c.sec) { const bool bare=c.list&&!c.val.empty()&&s.chance(1,2); o<<(style>=1&&s.chance(1,3)?"\t":style>=1&&s.chance(1,3)?"     ":" ")<<(bare?c.val:q(c.val)); comment(); o<<"\n"; continue; }
		if(style>=1&&s.chance(1,2)) { comment(); o<<"\n"<<ind<<"{"; } else o<<" {"; comment(); o<<"\n";
		print(s,c,o,ind+(style>=1&&s.chance(1,3)?"\t":"  "),style); o<<ind<<"}"; comment(); o<<"\n"; }
}
struct BCx { BCType type; int tag; std::vector<double> v; std::vector<int> o; };
/// what a control file says
struct Truth {
	std::string mesh, vtu, log, flow, surf, vol, sim, tint, flux, grad, lim, pt, jac, nlu; bool lognres=false, visc=false, cvisc=false, hasvol=false, starter=false, linsys=false; double gamma=1.4, aoa=0, M=0.5, Tinf=0, Re=0, Pr=0, ft=0, pcfl=0, pdt=0, limp=1, c0=0,c1=0,tol=0,f0=0,f1=0,ftol=0,minnl=0.2; bool haslimp=false; int torder=0,it=0,fit=0; std::vector<BCx> bc; std::vector<int> w, ot;
	Node tree; std::vector<std::vector<std::string>> required;          // paths whose absence must be reported
	std::vector<std::vector<std::string>> numeric, enums;
};
std::string fileName(Src& s) { std::string o; const int n=s.chance(1,12)?s.irange(10,30):s.irange(1,3); for(int i=0;i<n;i++) { if(i) o+=s.pick<const char*>({"/","-","_",".","../"," "}); o+=s.pick<const char*>({"case","Mesh","2dcyl","out.vtu","grid.msh","A"}); } return o; }
std::string listText(Src& s, const std::vector<int>& v) { std::string o; for(size_t i=0;i<v.size();i++) o+=(i?(s.chance(1,4)?"   ":" "):"")+std::to_string(v[i]); return o; }
std::string listTextR(Src& s, std::vector<double>& v) { std::string o; for(size_t i=0;i<v.size();i++) { if(i) o+=s.chance(1,4)?"   ":" "; o+=realText(s,v[i]); } return o; }

Truth genTruth(Src& s) {
	Truth t; auto num=[&](Node& n, const char *k, double& v, const char *sec, const char *sub=nullptr, bool req=true) { n.ch.push_back(leaf(k,realText(s,v))); std::vector<std::string> p; if(*sec) p.push_back(sec); if(sub) p.push_back(sub); p.push_back(k); t.numeric.push_back(p); if(req) t.required.push_back(p); };
	Node io=sect("io"), fc=sect("flow_conditions"), bc=sect("bc"), tm=sect("time"), sp=sect("spatial_discretization"), ps=sect("pseudotime");
	t.mesh=fileName(s); t.vtu=fileName(s); t.log=fileName(s); t.lognres=s.chance(1,2);
	io.ch.push_back(leaf("mesh_file",t.mesh)); io.ch.push_back(leaf("solution_output_file",t.vtu)); io.ch.push_back(leaf("log_file_prefix",t.log)); io.ch.push_back(leaf("convergence_history_required",t.lognres?"true":"false"));
	for(const char *k : {"mesh_file","solution_output_file","log_file_prefix","convergence_history_required"}) t.required.push_back({"io",k}); t.numeric.push_back({"io","convergence_history_required"});
	t.visc=s.chance(1,2); t.flow=t.visc?"NAVIERSTOKES":"EULER"; fc.ch.push_back(leaf("flow_type",recase(s,t.visc?"navierstokes":"euler"))); t.required.push_back({"flow_conditions","flow_type"});
	t.gamma=s.real(1.1,2); t.aoa=s.chance(1,6)?s.realz(-360,360,0):s.realz(-30,30,0); t.M=s.chance(1,8)?s.logreal(1e-5,100):s.logreal(0.05,5); num(fc,"adiabatic_index",t.gamma,"flow_conditions"); num(fc,"angle_of_attack",t.aoa,"flow_conditions"); num(fc,"freestream_Mach_number",t.M,"flow_conditions");
	if(t.visc||s.chance(1,3)) { t.Tinf=s.real(100,500); t.Re=s.chance(1,6)?s.logreal(1e-6,1e12):s.logreal(1,1e7); t.Pr=s.real(0.5,1); num(fc,"freestream_temperature",t.Tinf,"flow_conditions",nullptr,t.visc); num(fc,"freestream_Reynolds_number",t.Re,"flow_conditions",nullptr,t.visc); num(fc,"Prandtl_number",t.Pr,"flow_conditions",nullptr,t.visc);
		if(!t.visc) for(int i=0;i<3;i++) t.numeric.pop_back();
		if(s.chance(1,2)) { t.cvisc=s.chance(1,2); fc.ch.push_back(leaf("use_constant_viscosity",t.cvisc?"true":"false")); } if(!t.visc) t.cvisc=false; }
	static const std::pair<BCType,const char*> N[]={{SLIP_WALL_BC,"slipwall"},{FARFIELD_BC,"farfield"},{INFLOW_OUTFLOW_BC,"inflowoutflow"},{SUBSONIC_INFLOW_BC,"subsonic_inflow"},{EXTRAPOLATION_BC,"extrapolation"},{PERIODIC_BC,"periodic"},{ISOTHERMAL_WALL_BC,"isothermalwall"},{ADIABATIC_WALL_BC,"adiabaticwall"}};
	const int nbc=s.chance(1,10)?s.chance(1,4)?s.irange(14,60):s.irange(9,13):s.irange(0,5); const bool wide=s.chance(1,6); if(wide) s.label("wide values");
	auto marker=[&](int hi) { return wide ? s.pick({-1,0,1000000,2147483647,-2147483647,s.irange(-300,300)}) : s.irange(0,hi); };
	for(int i=0;i<nbc;i++) { const auto& k=N[s.irange(0,7)]; BCx b; b.type=k.first; b.tag=marker(50); const std::string nm="bc"+std::to_string(i); Node n=sect(nm); n.ch.push_back(leaf("type",recase(s,k.second))); n.ch.push_back(leaf("marker",std::to_string(b.tag)));
		for(const char *x : {"type","marker"}) t.required.push_back({"bc",nm,x}); t.enums.push_back({"bc",nm,"type"}); t.numeric.push_back({"bc",nm,"marker"});
		if(b.type==ADIABATIC_WALL_BC) b.v={s.realz(-2,2,0)}; if(b.type==ISOTHERMAL_WALL_BC||b.type==SUBSONIC_INFLOW_BC) { b.v={s.realz(-2,2,0),s.real(200,400)}; }
		if(wide) { for(double& x : b.v) x=s.pick({0.0,-1e-12,1e15,s.logreal(1e-20,1e20),-s.logreal(1e-20,1e20)}); const int more=s.irange(0,4); if(!b.v.empty()) for(int k=0;k<more;k++) b.v.push_back(s.real(-1,1)); }
		if(!b.v.empty()) { n.ch.push_back(listLeaf("boundary_values",listTextR(s,b.v))); t.required.push_back({"bc",nm,"boundary_values"}); }
		if(b.type==PERIODIC_BC) { b.o={wide?marker(0):s.irange(0,20),s.irange(0,1)}; n.ch.push_back(listLeaf("options",listText(s,b.o))); t.required.push_back({"bc",nm,"options"}); }
		t.bc.push_back(b); bc.ch.push_back(n); }
	const int nw=wide?s.irange(0,40):s.irange(0,3), no=wide?s.irange(0,40):s.irange(0,3); for(int i=0;i<nw;i++) t.w.push_back(marker(30)); for(int i=0;i<no;i++) t.ot.push_back(marker(30));
	if(nw) bc.ch.push_back(listLeaf("listof_output_wall_boundaries",listText(s,t.w))); if(no) bc.ch.push_back(listLeaf("listof_output_other_boundaries",listText(s,t.ot)));
	if(nw||no) { t.surf=fileName(s); bc.ch.push_back(leaf("surface_output_file_prefix",t.surf)); t.required.push_back({"bc","surface_output_file_prefix"}); }
	t.hasvol=s.chance(1,3); if(t.hasvol) { t.vol=fileName(s); bc.ch.push_back(leaf("volume_output_file_prefix",t.vol)); }
	const bool un=s.chance(1,3); t.sim=un?"UNSTEADY":"STEADY"; tm.ch.push_back(leaf("simulation_type",recase(s,un?"unsteady":"steady"))); t.required.push_back({"time","simulation_type"});
	if(un) { const bool rk=s.chance(1,2); t.tint=rk?"TVDRK":"BDF"; tm.ch.push_back(leaf("time_integrator",recase(s,t.tint))); t.required.push_back({"time","time_integrator"}); t.ft=s.logreal(0.01,100); num(tm,"final_time",t.ft,"time"); t.torder=s.irange(1,3); tm.ch.push_back(leaf("temporal_order",std::to_string(t.torder))); t.required.push_back({"time","temporal_order"}); t.numeric.push_back({"time","temporal_order"});
		if(rk) { t.pcfl=s.real(0.1,1); num(tm,"physical_cfl",t.pcfl,"time"); } else { t.pdt=s.logreal(1e-5,1); num(tm,"physical_time_step",t.pdt,"time"); } }
	static const char *const F[]={"LLF","VanLeer","HLL","AUSM","Roe","HLLC","AUSMPlus"}; const std::string fx=F[s.irange(0,6)]; t.flux=up(fx); sp.ch.push_back(leaf("inviscid_flux",recase(s,fx)));
	const std::string gr=s.pick<const char*>({"none","leastSquares","greenGauss"}); t.grad=up(gr); sp.ch.push_back(leaf("gradient_method",recase(s,gr)));
	const std::string li=s.pick<const char*>({"none","Venkatakrishnan","VanAlbada","WENO","BarthJespersen"}); t.lim=up(li); sp.ch.push_back(leaf("limiter",recase(s,li)));
	for(const char *k : {"inviscid_flux","gradient_method","limiter"}) t.required.push_back({"spatial_discretization",k});
	t.haslimp=s.chance(1,2); if(t.haslimp) { t.limp=s.logreal(0.01,100); num(sp,"limiter_parameter",t.limp,"spatial_discretization",nullptr,false); t.numeric.pop_back(); }
	const bool im=s.chance(1,2); t.pt=im?"IMPLICIT":"EXPLICIT"; ps.ch.push_back(leaf("pseudotime_stepping_type",recase(s,im?"implicit":"explicit"))); t.required.push_back({"pseudotime","pseudotime_stepping_type"});
	Node mn=sect("main"), in=sect("initialization"); t.c0=s.logreal(0.01,1e3); t.c1=t.c0*s.logreal(1,100); t.tol=s.logreal(1e-14,0.9); t.it=s.chance(1,10)?2147483647:s.irange(0,100000);
	num(mn,"cfl_min",t.c0,"pseudotime","main"); num(mn,"cfl_max",t.c1,"pseudotime","main"); num(mn,"tolerance",t.tol,"pseudotime","main"); mn.ch.push_back(leaf("max_timesteps",std::to_string(t.it))); t.required.push_back({"pseudotime","main","max_timesteps"}); t.numeric.push_back({"pseudotime","main","max_timesteps"}); ps.ch.push_back(mn);
	t.starter=s.chance(1,2); if(t.starter) { t.f0=s.logreal(0.01,1e3); t.f1=t.f0*s.logreal(1,100); t.ftol=s.logreal(1e-14,0.9); t.fit=s.irange(0,100000);
		num(in,"cfl_min",t.f0,"pseudotime","initialization"); num(in,"cfl_max",t.f1,"pseudotime","initialization"); num(in,"tolerance",t.ftol,"pseudotime","initialization"); in.ch.push_back(leaf("max_timesteps",std::to_string(t.fit))); t.required.push_back({"pseudotime","initialization","max_timesteps"}); t.numeric.push_back({"pseudotime","initialization","max_timesteps"}); ps.ch.push_back(in); }
	t.tree.sec=true;
	if(im) { const std::string nl=s.pick<const char*>({"robust_flow","full"}); t.nlu=up(nl); ps.ch.push_back(leaf("nonlinear_update_scheme",recase(s,nl))); t.required.push_back({"pseudotime","nonlinear_update_scheme"});
		if(s.chance(1,2)) { t.minnl=s.real(0.01,1); num(ps,"min_nonlinear_relaxation_factor",t.minnl,"pseudotime",nullptr,false); t.numeric.pop_back(); }
		std::string j=s.pick<const char*>({"consistent","LLF","Roe","HLLC","HLL"}); t.jac = j=="consistent" ? t.flux : up(j); t.tree.ch.push_back(leaf("Jacobian_inviscid_flux",recase(s,j))); t.required.push_back({"Jacobian_inviscid_flux"}); }
	for(const Node& n : {io,fc,bc,tm,sp,ps}) t.tree.ch.push_back(n);
	return t;
}
void writeCtrl(Src& s, const Node& tree, const std::string& f) { std::ofstream o(f); print(s,tree,o,"",s.irange(0,3)); }
Node *find(Node& n, const std::vector<std::string>& p, size_t i=0) { for(Node& c : n.ch) if(c.key==p[i]) return i+1==p.size() ? &c : find(c,p,i+1); return nullptr; }
bool erase(Node& n, const std::vector<std::string>& p, size_t i=0) { for(size_t k=0;k<n.ch.size();k++) if(n.ch[k].key==p[i]) { if(i+1==p.size()) { n.ch.erase(n.ch.begin()+k); return true; } return erase(n.ch[k],p,i+1); } return false; }
std::string join(const std::vector<std::string>& p) { std::string o; for(const auto& x : p) o+=(o.empty()?"":".")+x; return o; }

/// the parsed options in storage filled with garbage, so that a value nobody sets shows
struct Parsed {
	alignas(FlowParserOptions) unsigned char buf[sizeof(FlowParserOptions)]; FlowParserOptions *o=nullptr;
	void parse(int argc, const char *const argv[], const po::variables_map& v) { memset(buf,0xA5,sizeof buf); o=new(buf) FlowParserOptions(parse_flow_controlfile(argc,argv,v)); }
	~Parsed() { if(o) o->~FlowParserOptions(); }
};
bool eqd(double a, double b) { return std::fabs(a-b)<=1e-14*std::fabs(b); }
}

RELATION(C01,control_file,60000,1000000,"the file has a boundary condition or an optional section, in a varied layout") {
	const Truth t=genTruth(s); const std::string f=pbt::scratchDir()+"/c.ctrl"; writeCtrl(s,t.tree,f); s.nontrivial(!t.bc.empty()||t.starter||t.visc);
	// command line: further arguments and options in any order
	std::vector<std::string> args={"fvens_steady",f}; std::string mesh=t.mesh, log=t.log; bool lin=false; std::vector<std::vector<std::string>> extra;
	if(s.chance(1,3)) { mesh=fileName(s); if(s.chance(1,2)) extra.push_back({"--mesh_file",mesh}); else extra.push_back({"--mesh_file="+mesh}); s.label("mesh file overridden"); }
	if(s.chance(1,3)) { lin=s.chance(1,2); const std::string v=lin?s.pick<const char*>({"true","1"}):s.pick<const char*>({"false","0"}); if(s.chance(1,2)) extra.push_back({"--write_final_linear_system",v}); else extra.push_back({"--write_final_linear_system="+v}); s.label("linear system option"); }
	if(s.chance(1,3)) extra.push_back({"-ksp_type","gmres"}); if(s.chance(1,3)) extra.push_back({"-options_file","x.solverc"});
	for(int i : s.perm(extra.size())) for(const auto& a : extra[i]) args.push_back(a);
	std::vector<const char*> av; for(const auto& a : args) av.push_back(a.c_str());
	const bool pl=s.chance(1,3); if(pl) { log="over-"+std::to_string(s.irange(0,9999)); if(s.chance(1,4)) log+=std::string(s.irange(1,180),'x'); PetscOptionsSetValue(NULL,"-fvens_log_file_prefix",log.c_str()); s.label("log prefix overridden"); } else PetscOptionsClearValue(NULL,"-fvens_log_file_prefix");
	s.desc<<t.flow<<" "<<t.sim<<" "<<t.pt<<" "<<t.bc.size()<<" BCs, starter "<<t.starter<<" limiter_parameter "<<t.haslimp<<" args "<<args.size();
	s.label(t.sim); s.label(t.pt); if(t.starter) s.label("initialization section"); if(t.bc.size()>9) s.label("more than nine BCs");
	Parsed P; { Quiet q; po::options_description d("t"); const po::variables_map v=parse_cmd_options((int)av.size(),av.data(),d); P.parse((int)av.size(),av.data(),v); }
	PetscOptionsClearValue(NULL,"-fvens_log_file_prefix"); unlink(f.c_str());
	const FlowParserOptions& o=*P.o;
#define SEQ(field,want) PBT_CHECK(o.field==(want),#field,#field " is '"<<o.field<<"' instead of '"<<(want)<<"'")
#define REQ(field,want) PBT_CHECK(eqd(o.field,want),#field,#field " is "<<o.field<<" instead of "<<(want))
	SEQ(meshfile,mesh); SEQ(vtu_output_file,t.vtu); SEQ(logfile,log); SEQ(lognres,t.lognres); SEQ(write_final_lin_sys,lin);
	SEQ(flowtype,t.flow); SEQ(viscsim,t.visc); SEQ(useconstvisc,t.cvisc); REQ(gamma,t.gamma); PBT_CHECK(std::fabs(o.alpha-t.aoa*M_PI/180)<=1e-12*std::fabs(o.alpha),"alpha","angle of attack "<<o.alpha<<" for "<<t.aoa<<" degrees"); REQ(Minf,t.M);
	if(t.visc) { REQ(Tinf,t.Tinf); REQ(Reinf,t.Re); REQ(Pr,t.Pr); }
	PBT_CHECK(o.bcconf.size()==t.bc.size(),"bc-count",o.bcconf.size()<<" boundary conditions instead of "<<t.bc.size());
	auto checkBC=[&](const std::vector<FlowBCConfig>& c, const char *where) { PBT_CHECK(c.size()==t.bc.size(),"bc-count",where<<": "<<c.size()<<" boundary conditions"); for(size_t i=0;i<t.bc.size();i++) { const BCx& b=t.bc[i]; PBT_CHECK(c[i].bc_type==b.type&&c[i].bc_tag==b.tag,"bc",where<<": condition "<<i<<" has type "<<c[i].bc_type<<" marker "<<c[i].bc_tag<<" instead of "<<b.type<<" "<<b.tag);
		PBT_CHECK(c[i].bc_vals.size()==b.v.size(),"bc-values",where<<": condition "<<i<<" has "<<c[i].bc_vals.size()<<" values instead of "<<b.v.size()); for(size_t k=0;k<b.v.size();k++) PBT_CHECK(eqd(c[i].bc_vals[k],b.v[k]),"bc-values",where<<": condition "<<i<<" value "<<k<<" is "<<c[i].bc_vals[k]<<" instead of "<<b.v[k]);
		PBT_CHECK(c[i].bc_opts==b.o,"bc-options",where<<": options of condition "<<i); } };
	checkBC(o.bcconf,"options");
	PBT_CHECK(o.lwalls==t.w&&o.num_out_walls==(int)t.w.size(),"lwalls","list of output walls"); PBT_CHECK(o.lothers==t.ot&&o.num_out_others==(int)t.ot.size(),"lothers","list of other output boundaries");
	if(!t.w.empty()||!t.ot.empty()) SEQ(surfnameprefix,t.surf); SEQ(vol_output_reqd,std::string(t.hasvol?"YES":"NO")); if(t.hasvol) SEQ(volnameprefix,t.vol);
	SEQ(sim_type,t.sim); if(t.sim=="UNSTEADY") { SEQ(time_integrator,t.tint); SEQ(time_order,t.torder); REQ(final_time,t.ft); if(t.tint=="TVDRK") REQ(phy_cfl,t.pcfl); else REQ(phy_timestep,t.pdt); }
	SEQ(invflux,t.flux); SEQ(gradientmethod,t.grad); SEQ(limiter,t.lim); SEQ(order2,t.grad!="NONE"); SEQ(pseudotimetype,t.pt); REQ(initcfl,t.c0); REQ(endcfl,t.c1); REQ(tolerance,t.tol); SEQ(maxiter,t.it);
	PBT_CHECK((o.usestarter!=0)==t.starter,"usestarter","starting solve "<<(t.starter?"not requested":"requested although the control file has no such section")<<" ("<<o.usestarter<<")");
	if(t.starter) { REQ(firstinitcfl,t.f0); REQ(firstendcfl,t.f1); REQ(firsttolerance,t.ftol); SEQ(firstmaxiter,t.fit); }
	if(t.pt=="IMPLICIT") { SEQ(invfluxjac,t.jac); SEQ(nl_update_scheme,t.nlu); REQ(min_nl_update,t.minnl); }
	// what the solver is configured with
	const FlowPhysicsConfig p=extract_spatial_physics_config(o); PBT_CHECK(eqd(p.gamma,t.gamma)&&eqd(p.Minf,t.M)&&p.aoa==o.alpha&&p.viscous_sim==t.visc&&p.const_visc==t.cvisc,"physics-config","physics configuration differs from the options");
	if(t.visc) PBT_CHECK(eqd(p.Tinf,t.Tinf)&&eqd(p.Reinf,t.Re)&&eqd(p.Pr,t.Pr),"physics-config","viscous configuration T "<<p.Tinf<<" Re "<<p.Reinf<<" Pr "<<p.Pr); checkBC(p.bcconf,"configuration");
	const FlowNumericsConfig n=extract_spatial_numerics_config(o), n1=firstorder_spatial_numerics_config(o);
	PBT_CHECK(n.conv_numflux==t.flux&&n.gradientscheme==t.grad&&n.reconstruction==t.lim&&n.order2==(t.grad!="NONE"),"numerics-config","numerics configuration differs from the options");
	if(t.haslimp && !eqd(n.limiter_param,t.limp)) { Node w=t.tree; erase(w,{"spatial_discretization","limiter_parameter"}); writeCtrl(s,w,f); Parsed W; { Quiet q; const char *a2[]={"fvens_steady",f.c_str()}; W.parse(2,a2,po::variables_map()); } unlink(f.c_str());
		std::ostringstream m; m<<"configured limiter parameter "<<n.limiter_param<<" instead of "<<t.limp; PBT_CHECK(n.limiter_param==W.o->limiter_param,"limiter-parameter",m.str()); pbt::finding(s,"limiter-parameter-ignored",m.str()); }
	PBT_CHECK(n1.conv_numflux==t.flux&&!n1.order2,"starter-config","the starting scheme is not the first-order version of the main one");
	if(t.pt=="IMPLICIT") PBT_CHECK(n.conv_numflux_jac==t.jac&&n1.conv_numflux_jac==t.jac,"numerics-config","Jacobian flux "<<n.conv_numflux_jac);
	// nothing that reaches the solver may depend on what was in memory before
	Parsed Q; { Quiet q; writeCtrl(s,t.tree,f); po::options_description d("t"); const char *a2[]={"fvens_steady",f.c_str()}; const po::variables_map v=parse_cmd_options(2,a2,d); memset(Q.buf,0x11,sizeof Q.buf); Q.o=new(Q.buf) FlowParserOptions(parse_flow_controlfile(2,a2,v)); } unlink(f.c_str());
	const FlowNumericsConfig n2=extract_spatial_numerics_config(*Q.o);
	PBT_CHECK(n.limiter_param==n2.limiter_param,"limiter-parameter","without the option in the file, the limiter parameter is "<<n.limiter_param<<" or "<<n2.limiter_param<<" depending on the contents of memory");
	PBT_CHECK(Q.o->usestarter==o.usestarter,"usestarter","the starting solve is requested depending on the contents of memory");
	PBT_CHECK(Q.o->write_final_lin_sys==false&&Q.o->meshfile==t.mesh&&Q.o->logfile==t.log,"defaults","options not given on the command line differ from the file");
}

RELATION(C01,bad_control_file,60000,1000000,"always") {
	Truth t=genTruth(s); const std::string f=pbt::scratchDir()+"/b.ctrl"; s.nontrivial(); const int what=s.irange(0,5); std::string why; std::string raw;
	if(what==0) { const auto p=s.pickv(t.required); PBT_CHECK(erase(t.tree,p),"harness","no "<<join(p)); why="without "+join(p); s.label("missing entry"); }
	else if(what==1) { const auto p=s.pickv(t.numeric); Node *n=find(t.tree,p); PBT_CHECK(n,"harness","no "<<join(p)); n->val=s.pick<const char*>({"abc","","1.0x","--3","1,5","0.5 0.6"}); why=join(p)+" = '"+n->val+"'"; s.label("not a number"); }
	else if(what==2) { if(t.enums.empty()) { s.label("none"); return; } const auto p=s.pickv(t.enums); find(t.tree,p)->val=s.pick<const char*>({"wall","slip wall","far-field","farfields","adiabatic"}); why="unknown boundary condition"; s.label(why); }
	else if(what==3) { find(t.tree,{"flow_conditions","flow_type"})->val=recase(s,"rans"); for(const char *k : {"freestream_temperature","freestream_Reynolds_number","Prandtl_number"}) if(!find(t.tree,{"flow_conditions",k})) find(t.tree,{"flow_conditions"})->ch.push_back(leaf(k,"1.0")); why="RANS"; s.label(why); }
	else if(what==4) { std::ostringstream o; print(s,t.tree,o,"",0); raw=o.str(); if(s.chance(1,2)) { const size_t k=raw.find_last_of('}'); raw.erase(k,1); } else raw+="}\n"; why="unbalanced braces"; s.label(why); }
	else { why="missing file"; s.label(why); }
	s.desc<<why; if(what!=5) { std::ofstream o(f); if(!raw.empty()) o<<raw; else print(s,t.tree,o,"",s.irange(0,2)); } else unlink(f.c_str());
	bool threw=false; try { Quiet q; const char *a[]={"fvens_steady",f.c_str()}; po::options_description d("t"); const po::variables_map v=parse_cmd_options(2,a,d); const FlowParserOptions o=parse_flow_controlfile(2,a,v); } catch(const std::exception&) { threw=true; }
	unlink(f.c_str());
	PBT_CHECK(threw,"bad-file-accepted","a control file with the defect '"<<why<<"' was accepted");
}

/// boundary conditions with too few values are refused, at the latest when the discretisation is set up
RELATION(C01,incomplete_bc,3000,50000,"always") {
	GenOpts go; go.maxn=2; const GenMesh g=genMesh(s,go); const UMesh<freal,2> m=buildMesh(g); s.nontrivial();
	struct K { const char *n; int need; }; const K k=s.pick<K>({{"isothermalwall",2},{"subsonic_inflow",2},{"adiabaticwall",1}}); const int have=s.irange(0,k.need-1);
	Truth t; do t=genTruth(s); while(0); Node *bc=find(t.tree,{"bc"}); bc->ch.erase(std::remove_if(bc->ch.begin(),bc->ch.end(),[](const Node& n){ return n.sec; }),bc->ch.end());
	Node n=sect("bc0"); n.ch={leaf("type",k.n),leaf("marker","1")}; std::vector<double> v(have,300.0); n.ch.push_back(listLeaf("boundary_values",listTextR(s,v))); bc->ch.push_back(n); s.desc<<k.n<<" with "<<have<<" values";
	for(const auto& p : {std::make_pair("inviscid_flux","HLLC"),std::make_pair("gradient_method","leastsquares"),std::make_pair("limiter","none")}) find(t.tree,{"spatial_discretization",p.first})->val=p.second;
	const std::string f=pbt::scratchDir()+"/i.ctrl"; writeCtrl(s,t.tree,f); bool threw=false;
	try { Quiet q; const char *a[]={"fvens_steady",f.c_str()}; po::options_description d("t"); const po::variables_map vm=parse_cmd_options(2,a,d); const FlowParserOptions o=parse_flow_controlfile(2,a,vm); FlowNumericsConfig nc=extract_spatial_numerics_config(o); nc.conv_numflux_jac="HLLC"; std::unique_ptr<const FlowFV_base<freal>> sp(create_const_flowSpatialDiscretization(&m,extract_spatial_physics_config(o),nc)); } catch(const std::exception&) { threw=true; }
	unlink(f.c_str()); PBT_CHECK(threw,"incomplete-bc-accepted","a "<<k.n<<" with "<<have<<" boundary values was accepted");
}

// ---------------------------------------------------------------- PETSc option database
RELATION(C02,option_database,40000,600000,"an option was set") {
	static const char *const NM[]={"-vc_a","-vc_b","-vc_c"}; struct Opt { bool set=false; int kind=0; int i=0; double r=0; bool b=false; std::string str, text; std::vector<int> arr; }; Opt op[3];
	for(int k=0;k<3;k++) { Opt& o=op[k]; PetscOptionsClearValue(NULL,NM[k]); o.set=s.chance(3,4); o.kind=s.irange(0,4); if(!o.set) continue; s.nontrivial();
		switch(o.kind) {
		case 0: o.i=s.chance(1,8)?(s.chance(1,2)?2147483647:-2147483647):s.irange(-100000,100000); o.text=std::to_string(o.i); break;
		case 1: o.r=s.chance(1,6)?s.pick({0.0,1.0,-1.0,0.5,1e300,-1e-300,2147483648.0}):s.realz(-1,1,0)*s.logreal(1e-12,1e12); o.text=realText(s,o.r); break;
		case 2: o.b=s.chance(1,2); o.text=o.b?s.pick<const char*>({"true","yes","1","TRUE",""}):s.pick<const char*>({"false","no","0","FALSE"}); break;
		case 3: { const int n=s.chance(1,8)?s.irange(46,400):s.irange(1,45); for(int i=0;i<n;i++) o.str+=(char)(s.chance(1,2)?'a'+s.irange(0,25):s.pick<char>({'_','-','.','/','0','9','Z',':'})); if(o.str[0]=='-') o.str[0]='x'; o.text=o.str; break; }
		default: { const int n=s.chance(1,8)?s.irange(7,60):s.irange(1,6); for(int i=0;i<n;i++) { o.arr.push_back(s.chance(1,10)?s.pick({2147483647,-2147483647,0}):s.irange(-50,50)); o.text+=(i?",":"")+std::to_string(o.arr.back()); } } }
		PetscOptionsSetValue(NULL,NM[k],o.text.empty()?NULL:o.text.c_str()); }
	for(int k=0;k<3;k++) { const Opt& o=op[k]; const std::string nm=NM[k]; s.desc<<nm<<"="<<(o.set?"'"+o.text+"'":"(unset)")<<" "; Quiet q;
		PBT_CHECK(parsePetscCmd_isDefined(nm)==o.set,"is-defined",nm<<" reported "<<(o.set?"absent":"present"));
		auto throws=[&](const std::function<void()>& f) { try { f(); } catch(const std::exception&) { return true; } return false; };
		if(!o.set) { PBT_CHECK(throws([&]{ parsePetscCmd_int(nm); }),"unset-accepted","integer option not given, yet a value was returned"); PBT_CHECK(throws([&]{ parsePetscCmd_bool(nm); }),"unset-accepted","boolean option not given, yet a value was returned"); PBT_CHECK(throws([&]{ parsePetscCmd_string(nm,20); }),"unset-accepted","string option not given, yet a value was returned"); PBT_CHECK(throws([&]{ parsePetscCmd_intArray(nm,4); }),"unset-accepted","array option not given, yet a value was returned");
			const double d=s.real(-5,5); PBT_CHECK(parseOptionalPetscCmd_real(nm,d)==d,"default-real","default not returned"); PBT_CHECK(!parseOptionalPetscCmd_bool(nm),"default-bool","unset option is true"); PBT_CHECK(parseOptionalPetscCmd_intArray(nm,3).empty(),"default-array","unset array is not empty"); continue; }
		s.label(std::string("kind ")+"irbsa"[o.kind]);
		if(o.kind==0) PBT_CHECK(parsePetscCmd_int(nm)==o.i,"int-option",nm<<" "<<o.text<<" read as "<<parsePetscCmd_int(nm));
		if(o.kind==1) { const double v=parseOptionalPetscCmd_real(nm,-7.25); PBT_CHECK(v==o.r,"real-option",nm<<" "<<o.text<<" read as "<<v); }
		if(o.kind==2) { PBT_CHECK(parsePetscCmd_bool(nm)==o.b,"bool-option",nm<<" '"<<o.text<<"' read as "<<parsePetscCmd_bool(nm)); PBT_CHECK(parseOptionalPetscCmd_bool(nm)==o.b,"bool-option",nm<<" '"<<o.text<<"' read (optionally) as "<<parseOptionalPetscCmd_bool(nm)); }
		if(o.kind==3) { const size_t len=o.str.size()+(s.chance(1,3)?0:s.irange(1,20)); const std::string v=parsePetscCmd_string(nm,len); PBT_CHECK(v==o.str,"string-option",nm<<" "<<o.text<<" read as '"<<v<<"' with a maximum of "<<len<<" characters"); if(len==o.str.size()) s.label("string of the maximum length"); }
		if(o.kind==4) { const int mx=(int)o.arr.size()+(s.chance(1,2)?0:s.irange(1,4)); PBT_CHECK(parsePetscCmd_intArray(nm,mx)==o.arr,"array-option",nm<<" "<<o.text); PBT_CHECK(parseOptionalPetscCmd_intArray(nm,mx)==o.arr,"array-option",nm<<" "<<o.text<<" (optional)"); }
		// text that denotes no value of the type is an error, not a value
		if(o.kind==3&&o.str[0]=='Z') PBT_CHECK(true,"",""); }
	for(const char *n : NM) PetscOptionsClearValue(NULL,n);
}

// ---------------------------------------------------------------- containers
RELATION(L01,array2d,60000,800000,"several operations on a nonempty array") {
	typedef amat::Array2d<freal> A; const int NA=3; std::vector<A> a(NA); struct Mod { int r=0,c=0; std::vector<double> v; }; Mod m[3]; const int ops=s.irange(1,25); int did=0; const std::string fn=pbt::scratchDir()+"/arr.txt";
	auto check=[&](const char *op) { for(int i=0;i<NA;i++) { PBT_CHECK(a[i].rows()==m[i].r&&a[i].cols()==m[i].c&&a[i].msize()==m[i].r*m[i].c,"array-size","after "<<op<<": array "<<i<<" is "<<a[i].rows()<<"x"<<a[i].cols()<<" size "<<a[i].msize()); for(int r=0;r<m[i].r;r++) for(int c=0;c<m[i].c;c++) { const double w=m[i].v[r*m[i].c+c]; PBT_CHECK(a[i](r,c)==w&&a[i].get(r,c)==w&&a[i].const_row_pointer(r)[c]==w,"array-value","after "<<op<<": array "<<i<<" ("<<r<<","<<c<<") = "<<a[i](r,c)<<" instead of "<<w); } } };
	for(int k=0;k<ops;k++) { const int i=s.irange(0,NA-1), j=s.irange(0,NA-1); const int op=s.irange(0,8); Mod& M=m[i]; static const char *const N[]={"resize","write","copy","assign","ones","zeros","setdata","file","move"}; s.desc<<N[op]<<i<<j<<" ";
		switch(op) {
		case 0: M.r=s.irange(0,5); M.c=s.irange(0,5); a[i].resize(M.r,M.c); a[i].zeros(); M.v.assign(M.r*M.c,0); break;
		case 1: if(M.r*M.c) { const int r=s.draw(M.r), c=s.draw(M.c); const double x=s.real(-9,9); if(s.chance(1,2)) a[i](r,c)=x; else a[i].row_pointer(r)[c]=x; M.v[r*M.c+c]=x; did++; } break;
		case 2: { A b(a[j]); a[i]=b; M=Mod(m[j]); } break;
		case 3: a[i]=a[j]; M=Mod(m[j]); break;
		case 4: a[i].ones(); std::fill(M.v.begin(),M.v.end(),1); break;
		case 5: a[i].zeros(); std::fill(M.v.begin(),M.v.end(),0); break;
		case 6: { for(double& x : M.v) x=s.real(-3,3); if(!M.v.empty()) a[i].setdata(M.v.data(),M.v.size()); did++; } break;
		case 7: { for(double& x : M.v) { std::ostringstream o; o<<std::setprecision(14)<<x; x=strtod(o.str().c_str(),nullptr); } { std::ofstream o(fn); o<<M.r<<" "<<M.c<<"\n"; a[i].fprint(o); } { std::ifstream f(fn); A b; b.fread(f); a[i]=b; } unlink(fn.c_str()); } break;
		default: { A b(a[i]); const A c(std::move(b)); PBT_CHECK(b.rows()==0&&b.cols()==0&&b.msize()==0,"array-moved","moved-from array is "<<b.rows()<<"x"<<b.cols()); a[i]=c; } }
		check(N[op]); }
	s.nontrivial(did>1);
	for(int i=0;i<NA;i++) if(!m[i].v.empty()) { std::vector<double> v=m[i].v; const amat::Array2dView<freal> cv(v.data(),m[i].r,m[i].c); amat::Array2dMutableView<freal> mv(v.data(),m[i].r,m[i].c); for(int r=0;r<m[i].r;r++) for(int c=0;c<m[i].c;c++) { PBT_CHECK(&cv(r,c)==&v[r*m[i].c+c]&&&mv(r,c)==&v[r*m[i].c+c],"view","view addresses the wrong entry"); mv(r,c)+=1; PBT_CHECK(cv(r,c)==m[i].v[r*m[i].c+c]+1,"view","write through the view lost"); } PBT_CHECK(cv.rows()==m[i].r&&cv.cols()==m[i].c&&mv.rows()==m[i].r&&mv.cols()==m[i].c,"view","view size"); }
}
RELATION(L01,scan,20000,300000,"at least two entries") {
	const int n=s.irange(0,30); std::vector<int> v; for(int i=0;i<n;i++) v.push_back(s.irange(-1000,1000)); s.nontrivial(n>1); s.desc<<n<<" entries";
	const std::vector<int> c(v); std::vector<int> w=v; fvens::inclusive_scan<int>(w); long t=0; for(int i=0;i<n;i++) { t+=c[i]; PBT_CHECK(w[i]==t,"scan","entry "<<i<<" is "<<w[i]<<" instead of "<<t); }
	PBT_CHECK((int)w.size()==n,"scan","size changed");
}

// ---------------------------------------------------------------- programs
namespace {
struct Run { int rc=-1; bool sig=false; std::string out; };
/// runs a program in its own directory, output captured
Run run1(const std::string& dir, const std::vector<std::string>& args) {
	Run r; const std::string of=dir+"/stdout.txt"; const pid_t p=fork();
	if(p==0) { if(chdir(dir.c_str())) _exit(120); const int fd=open(of.c_str(),O_CREAT|O_TRUNC|O_WRONLY,0644); dup2(fd,1); dup2(fd,2); setenv("OMP_NUM_THREADS","1",1); setenv("OMPI_MCA_ess_singleton_isolated","1",1); setenv("ASAN_OPTIONS","detect_leaks=0:exitcode=99",1); setenv("UBSAN_OPTIONS","exitcode=98",1);
		std::vector<char*> a; for(const auto& x : args) a.push_back((char*)x.c_str()); a.push_back(nullptr); execv(a[0],a.data()); _exit(121); }
	int st=0; waitpid(p,&st,0); r.sig=WIFSIGNALED(st); r.rc=WIFEXITED(st)?WEXITSTATUS(st):-WTERMSIG(st); std::ifstream f(of); std::stringstream b; b<<f.rdbuf(); r.out=b.str(); unlink(of.c_str()); return r;
}
/// the message passing system's own start-up failures are not the program's
Run run(const std::string& dir, const std::vector<std::string>& args) { Run r; for(int k=0;k<4;k++) { r=run1(dir,args); if(r.out.find("ompi_rte_init failed")==std::string::npos && r.out.find("orte_init")==std::string::npos && r.out.find("opal_init")==std::string::npos) break; usleep(100000); } return r; }
std::string bin(const char *n) { char b[4096]; const ssize_t k=readlink("/proc/self/exe",b,sizeof b-1); b[k]=0; std::string s(b); return s.substr(0,s.rfind('/')+1)+n; }
std::string tail(const std::string& s) { return s.size()>1200 ? s.substr(s.size()-1200) : s; }
bool memoryError(const Run& r) { return r.out.find("AddressSanitizer")!=std::string::npos||r.out.find("runtime error:")!=std::string::npos; }
std::set<std::string> listing(const std::string& d) { std::set<std::string> o; if(DIR *p=opendir(d.c_str())) { while(dirent *e=readdir(p)) if(e->d_name[0]!='.') o.insert(e->d_name); closedir(p); } return o; }
void wipe(const std::string& d) { for(const auto& f : listing(d)) unlink((d+"/"+f).c_str()); rmdir(d.c_str()); }
std::string slurp(const std::string& f) { std::ifstream i(f); PBT_CHECK(i.good(),"missing-file","file "<<f<<" was not written"); std::stringstream b; b<<i.rdbuf(); return b.str(); }
/// two files are the same up to rounding in numbers
void sameText(const std::string& a, const std::string& b, const std::string& what, double tol) {
	std::istringstream x(a), y(b); std::string u,v; int k=0; while(true) { const bool p=(bool)(x>>u), q=(bool)(y>>v); PBT_CHECK(p==q,"output-differs",what<<": different lengths"); if(!p) break; k++; if(u==v||(u.find("nan")!=std::string::npos&&v.find("nan")!=std::string::npos)) continue;
		char *e1,*e2; const double c=strtod(u.c_str(),&e1), d=strtod(v.c_str(),&e2); PBT_CHECK(!*e1&&!*e2&&std::fabs(c-d)<=tol*(1e-3+std::max(std::fabs(c),std::fabs(d))),"output-differs",what<<": word "<<k<<" is '"<<u<<"' instead of '"<<v<<"'"); }
}
}
RELATION(C03,solver_program,1200,15000,"more than one cell") {
	const std::string d=pbt::scratchDir()+"/p"; wipe(d); mkdir(d.c_str(),0755);
	GenOpts go; go.maxn=3; go.maxstretch=2; go.ndtagmax=1; const GenMesh g=genMesh(s,go); FlowOpts fo; fo.amp=0.05; fo.Relo=50; fo.Mlo=0.3; fo.Mhi=0.9; fo.bcs={FARFIELD_BC,SLIP_WALL_BC,ADIABATIC_WALL_BC,ISOTHERMAL_WALL_BC,EXTRAPOLATION_BC}; fo.fluxes={"LLF","HLL","HLLC","ROE"};
	ref::Cfg c=genCfg(s,g,fo); if(c.grad=="NONE") c.order2=false; else c.order2=true; s.desc<<str(c)<<" "<<g.summary();
	std::set<int> tags; for(const auto& b : g.bfs) tags.insert(b.tags[0]); const bool im=s.chance(1,2); const bool su2=s.chance(1,4)&&g.nbtag==1&&g.ndtag==0; const std::string mf=su2?"m.su2":"m.msh"; if(su2) putSU2(s,g,d+"/"+mf); else putGmsh(s,g,d+"/"+mf);
	// the control file, with values as the program will read them
	Node io=sect("io"), fc=sect("flow_conditions"), bc=sect("bc"), tm=sect("time"), sp=sect("spatial_discretization"), ps=sect("pseudotime"); auto N=[&](Node& n, const char *k, double& v) { n.ch.push_back(leaf(k,realText(s,v))); };
	FlowParserOptions o{}; const bool over=s.chance(1,3); o.meshfile=mf; io.ch={leaf("mesh_file",over?s.pick<const char*>({"nowhere.msh","other.msh"}):mf.c_str()),leaf("solution_output_file","f.vtu"),leaf("log_file_prefix","lg")}; o.lognres=s.chance(1,2); io.ch.push_back(leaf("convergence_history_required",o.lognres?"true":"false"));
	fc.ch.push_back(leaf("flow_type",recase(s,c.visc?"navierstokes":"euler"))); double aoa=(double)c.aoa*180/M_PI, ga=(double)c.g, Ma=(double)c.M, Ti=(double)c.Tinf, Re=(double)c.Re, Pr=(double)c.Pr; N(fc,"adiabatic_index",ga); N(fc,"angle_of_attack",aoa); N(fc,"freestream_Mach_number",Ma);
	if(c.visc) { N(fc,"freestream_temperature",Ti); N(fc,"freestream_Reynolds_number",Re); N(fc,"Prandtl_number",Pr); fc.ch.push_back(leaf("use_constant_viscosity",c.cvisc?"true":"false")); } else { Ti=298; Re=1e300*1e300; Pr=0.72; }
	o.gamma=ga; o.Minf=Ma; o.Tinf=Ti; o.Reinf=Re; o.Pr=Pr; o.alpha=aoa*PI/180; o.viscsim=c.visc; o.useconstvisc=c.visc&&c.cvisc; o.flowtype=c.visc?"NAVIERSTOKES":"EULER";
	int k=0; for(const auto& b : c.bc) { if(!tags.count(b.first)) continue; Node n=sect("bc"+std::to_string(k++)); n.ch={leaf("type",bcTypeMap.left.at(b.second.type)),leaf("marker",std::to_string(b.first))}; FlowBCConfig fb; fb.bc_tag=b.first; fb.bc_type=b.second.type;
		if(b.second.type==ADIABATIC_WALL_BC) fb.bc_vals={(double)b.second.v0}; if(b.second.type==ISOTHERMAL_WALL_BC) fb.bc_vals={(double)b.second.v0,(double)b.second.v1}; if(!fb.bc_vals.empty()) n.ch.push_back(listLeaf("boundary_values",listTextR(s,fb.bc_vals))); bc.ch.push_back(n); o.bcconf.push_back(fb); }
	for(int t : tags) if(s.chance(1,3)) (s.chance(1,2)?o.lwalls:o.lothers).push_back(t); o.num_out_walls=o.lwalls.size(); o.num_out_others=o.lothers.size(); const bool surf=!o.lwalls.empty()||!o.lothers.empty();
	if(!o.lwalls.empty()) bc.ch.push_back(listLeaf("listof_output_wall_boundaries",listText(s,o.lwalls))); if(!o.lothers.empty()) bc.ch.push_back(listLeaf("listof_output_other_boundaries",listText(s,o.lothers))); if(surf) bc.ch.push_back(leaf("surface_output_file_prefix","sf"));
	const bool vol=s.chance(1,3); if(vol) bc.ch.push_back(leaf("volume_output_file_prefix","vo")); o.vol_output_reqd=vol?"YES":"NO"; tm.ch={leaf("simulation_type",recase(s,"steady"))}; o.sim_type="STEADY";
	o.invflux=c.flux; o.invfluxjac=c.jflux; o.gradientmethod=c.order2?c.grad:"NONE"; o.limiter=c.rec; o.order2=c.order2; double lp=(double)c.lim; sp.ch={leaf("inviscid_flux",recase(s,c.flux)),leaf("gradient_method",recase(s,o.gradientmethod)),leaf("limiter",recase(s,c.rec))}; N(sp,"limiter_parameter",lp); o.limiter_param=lp;
	o.pseudotimetype=im?"IMPLICIT":"EXPLICIT"; ps.ch.push_back(leaf("pseudotime_stepping_type",recase(s,im?"implicit":"explicit"))); Node mn=sect("main"), in=sect("initialization");
	o.initcfl=im?s.logreal(0.5,20):s.real(0.05,0.4); o.endcfl=o.initcfl*s.pick<double>({1,5}); o.tolerance=s.logreal(0.02,2); o.maxiter=s.irange(0,6); N(mn,"cfl_min",o.initcfl); N(mn,"cfl_max",o.endcfl); N(mn,"tolerance",o.tolerance); mn.ch.push_back(leaf("max_timesteps",std::to_string(o.maxiter))); ps.ch.push_back(mn);
	if(s.chance(1,2)) { o.usestarter=1; o.firstinitcfl=im?s.logreal(0.5,20):s.real(0.05,0.4); o.firstendcfl=o.firstinitcfl*s.pick<double>({1,5}); o.firsttolerance=s.logreal(0.02,2); o.firstmaxiter=s.irange(0,5); N(in,"cfl_min",o.firstinitcfl); N(in,"cfl_max",o.firstendcfl); N(in,"tolerance",o.firsttolerance); in.ch.push_back(leaf("max_timesteps",std::to_string(o.firstmaxiter))); ps.ch.push_back(in); s.label("starting solve"); }
	Node root; root.sec=true; if(im) { o.nl_update_scheme=s.pick<const char*>({"FULL","ROBUST_FLOW"}); ps.ch.push_back(leaf("nonlinear_update_scheme",recase(s,o.nl_update_scheme))); o.min_nl_update=s.real(0.05,0.9); N(ps,"min_nonlinear_relaxation_factor",o.min_nl_update); root.ch.push_back(leaf("Jacobian_inviscid_flux",recase(s,c.jflux))); }
	else { o.invfluxjac=""; }
	for(const Node& n : {io,fc,bc,tm,sp,ps}) root.ch.push_back(n); writeCtrl(s,root,d+"/c.ctrl");
	std::vector<std::vector<std::string>> ex; if(over) ex.push_back({"--mesh_file",mf}); bool lin=false; if(s.chance(1,2)) { lin=s.chance(1,2); ex.push_back({"--write_final_linear_system",lin?"true":"false"}); } o.write_final_lin_sys=lin&&im; const bool lgo=s.chance(1,3); if(lgo) ex.push_back({"-fvens_log_file_prefix","other"});
	std::vector<std::pair<std::string,std::string>> popt={{"-ksp_type","gmres"},{"-pc_type","jacobi"},{"-ksp_max_it","200"},{"-mat_type",s.pick<const char*>({"aij","baij"})}}; const bool mfree=im&&s.chance(1,4); popt.push_back({"-ksp_rtol",mfree?"1e-4":"1e-9"}); const std::string ord=s.chance(1,3)?s.pick<const char*>({"rcm","nd","1wd"}):"";
	{ std::ofstream f(d+"/o.solverc"); for(const auto& p : popt) f<<p.first<<" "<<p.second<<"\n"; if(mfree) f<<"-matrix_free_jacobian\n"; if(!ord.empty()) f<<"-mesh_reorder "<<ord<<"\n"; } ex.push_back({"-options_file","o.solverc"});
	std::vector<std::string> args={bin("fvens_steady"),"c.ctrl"}; for(int i : s.perm(ex.size())) for(const auto& a : ex[i]) args.push_back(a);
	s.label(im?"implicit":"explicit"); if(over) s.label("mesh file overridden"); if(mfree) s.label("matrix-free"); if(!ord.empty()) s.label("reordered"); s.nontrivial(g.cells.size()>1); s.desc<<" "<<o.pseudotimetype<<" tol "<<o.tolerance<<" it "<<o.maxiter<<" starter "<<o.usestarter<<" matrix-free "<<mfree<<" order '"<<ord<<"'";
	{ Parsed W; Quiet q; const std::string cf=d+"/c.ctrl"; const char *a2[]={"fvens_steady",cf.c_str()}; W.parse(2,a2,po::variables_map()); o.limiter_param=W.o->limiter_param; } // C01 judges how this one is read
	const std::set<std::string> before=listing(d); if(getenv("KEEP")) { system(("rm -rf /tmp/keep; cp -a "+d+" /tmp/keep").c_str()); std::ofstream a("/tmp/keep/args"); for(auto&x:args) a<<x<<" "; } const Run r=run(d,args);
	PBT_CHECK(!memoryError(r),"memory-error","the program reported "<<tail(r.out));
	// the same case through the library, configured directly
	const std::string d2=pbt::scratchDir()+"/q"; wipe(d2); mkdir(d2.c_str(),0755); o.meshfile=d+"/"+mf;
	auto clearOpts=[&] { for(const auto& p : popt) PetscOptionsClearValue(NULL,p.first.c_str()); PetscOptionsClearValue(NULL,"-matrix_free_jacobian"); PetscOptionsClearValue(NULL,"-mesh_reorder"); };
	for(const auto& p : popt) PetscOptionsSetValue(NULL,p.first.c_str(),p.second.c_str()); if(mfree) PetscOptionsSetValue(NULL,"-matrix_free_jacobian",NULL); if(!ord.empty()) PetscOptionsSetValue(NULL,"-mesh_reorder",ord.c_str());
	auto library=[&](const std::string& dir, double pert, std::string& exc) { FlowParserOptions w=o; w.Minf*=1+pert; w.alpha+=2*pert; w.vtu_output_file=dir+"/f.vtu"; w.logfile=dir+(lgo?"/other":"/lg"); w.surfnameprefix=dir+"/sf"; w.volnameprefix=dir+"/vo"; Quiet q; char cwd[4096]; if(!getcwd(cwd,sizeof cwd)) cwd[0]=0; if(chdir(dir.c_str())) {} bool ok=true;
		try { const UMesh<freal,2> m=constructMeshFlow(w,""); Vec u; initializeSystemVector(w,m,&u); SteadyFlowCase fcase(w); fcase.run_output(true,true,m,u); VecDestroy(&u); } catch(const std::exception& e) { ok=false; exc=e.what(); } if(chdir(cwd)) {} return ok; };
	// a run that starts at a steady state (a uniform stream between far fields) divides rounding errors by rounding errors
	bool still=false;
	try { Quiet q; const UMesh<freal,2> m=constructMeshFlow(o,""); Vec u,r; initializeSystemVector(o,m,&u); VecDuplicate(u,&r); VecSet(r,0); std::unique_ptr<const FlowFV_base<freal>> sp(create_const_flowSpatialDiscretization(&m,extract_spatial_physics_config(o),extract_spatial_numerics_config(o)));
		sp->compute_residual(u,r,false,nullptr); double n=0, len=0; { Vec rl; VecGhostGetLocalForm(r,&rl); const PetscScalar *a; VecGetArrayRead(rl,&a); for(int i=0;i<m.gnelem();i++) { n=std::max(n,std::fabs(a[4*i+3])); len=std::max(len,std::sqrt((double)m.garea(i))); } VecRestoreArrayRead(rl,&a); VecGhostRestoreLocalForm(r,&rl); }
		still = n<1e-8*len*(1+1/(o.gamma*o.Minf*o.Minf)); VecDestroy(&u); VecDestroy(&r); } catch(const std::exception&) {}
	std::string ex2, ex3; const bool ok=library(d2,0,ex2); const std::string d3=pbt::scratchDir()+"/r"; bool chaotic=false;
	clearOpts();
	auto solution=[](const std::string& f) { return f.find(".log")==std::string::npos&&(f.find(".vtu")!=std::string::npos||f.find(".out")!=std::string::npos); };
	auto done=[&] { if(!getenv("KEEP")) { wipe(d); wipe(d2); wipe(d3); } };
	// a solve that amplifies rounding (e.g. one that starts at a steady state) decides nothing
	for(double pert : {1e-15,-1e-15,1e-14,1e-12}) { if(chaotic||still) break; wipe(d3); mkdir(d3.c_str(),0755); for(const auto& p : popt) PetscOptionsSetValue(NULL,p.first.c_str(),p.second.c_str()); if(mfree) PetscOptionsSetValue(NULL,"-matrix_free_jacobian",NULL); if(!ord.empty()) PetscOptionsSetValue(NULL,"-mesh_reorder",ord.c_str()); const bool ok3=library(d3,pert,ex3); clearOpts(); chaotic = ok!=ok3 || listing(d2)!=listing(d3); if(!chaotic&&ok) for(const auto& f : listing(d2)) if(solution(f)) try { sameText(slurp(d2+"/"+f),slurp(d3+"/"+f),f,mfree?1e-4:1e-8); } catch(...) { chaotic=true; } }
	if(still) { s.label("starts steady"); done(); return; }
	if(chaotic) { s.label("amplifies rounding"); done(); return; }
	if(!ok) { s.label("fails"); PBT_CHECK(r.rc!=0,"failure-hidden","the solve fails ("<<ex2<<") but the program exits with 0"); done(); return; }
	PBT_CHECK(r.rc==0,"program-failed","the program exits with "<<r.rc<<": "<<tail(r.out));
	std::set<std::string> got=listing(d), want=listing(d2); for(const auto& f : before) got.erase(f);
	for(const auto& f : want) PBT_CHECK(got.count(f),"missing-file","the program did not write "<<f); for(const auto& f : got) PBT_CHECK(want.count(f),"unrequested-file","the program wrote "<<f);
	if(want.count(std::string(lgo?"other":"lg")+"-residual_history.log")) s.label("history written");
	for(const auto& f : want) if(solution(f)) sameText(slurp(d+"/"+f),slurp(d2+"/"+f),f,mfree?1e-3:1e-6);
	done();
}
RELATION(C03,convert_program,500,8000,"at least two cells") {
	const std::string d=pbt::scratchDir()+"/v"; wipe(d); mkdir(d.c_str(),0755); GenOpts go; go.maxn=4; go.tail=25; go.tailodds=40; if(s.chance(1,3)) { go.nbtagmax=1; go.ndtagmax=0; } const GenMesh g=genMesh(s,go); s.desc<<g.summary(); s.nontrivial(g.cells.size()>1);
	const bool su2=g.nbtag==1&&g.ndtag==0&&s.chance(1,2); const std::string in=su2?"i.su2":"i.msh"; if(su2) putSU2(s,g,d+"/"+in); else putGmsh(s,g,d+"/"+in);
	const int what=s.irange(0,4); const std::string fmt = what==0||what==3 ? "msh" : what==1 ? "vtu" : what==2 ? s.pick<const char*>({"stl","VTK","msh4"}) : "";
	std::vector<std::string> args={bin("convertformat"),in,"o.x",fmt}; if(what==4) { args.resize(s.irange(1,3)); } if(what==3) args[1]="missing.msh";
	const Run r=run(d,args); s.label(what==4?"too few arguments":what==3?"missing input":what==2?"unknown format":fmt); PBT_CHECK(!memoryError(r),"memory-error",tail(r.out));
	if(what>=2) { PBT_CHECK(r.rc!=0,"bad-request-accepted","convertformat exits with 0 for "<<(what==2?"an unknown format":what==3?"a missing input file":"too few arguments")); if(what==4) PBT_CHECK(!r.sig,"crash","convertformat crashes with "<<args.size()-1<<" arguments"); wipe(d); return; }
	PBT_CHECK(r.rc==0,"program-failed","convertformat exits with "<<r.rc<<": "<<tail(r.out)); const std::string out=d+"/o.x";
	if(what==0) { rename(out.c_str(),(d+"/o.msh").c_str()); const MeshData a=readMesh(d+"/o.msh"); PBT_CHECK(a.npoin==(int)g.pts.size()&&a.nelem==(int)g.cells.size()&&a.nbface==(int)g.bfs.size(),"converted-counts","converted mesh has "<<a.npoin<<" points "<<a.nelem<<" cells "<<a.nbface<<" boundary faces");
		for(int i=0;i<a.npoin;i++) for(int k=0;k<2;k++) PBT_CHECK(std::fabs(a.coords(i,k)-g.pts[i][k])<=1e-13*std::fabs(g.pts[i][k]),"converted-points","point "<<i);
		for(int c=0;c<a.nelem;c++) { PBT_CHECK(a.nnode[c]==(int)g.cells[c].size(),"converted-cells","cell "<<c); for(int j=0;j<a.nnode[c];j++) PBT_CHECK(a.inpoel(c,j)==g.cells[c][j],"converted-cells","cell "<<c<<" corner "<<j); }
		std::map<std::pair<int,int>,int> bt; for(const auto& b : g.bfs) bt[{std::min(b.a,b.b),std::max(b.a,b.b)}]=b.tags[0]; for(int b=0;b<a.nbface;b++) { const int x=a.bface(b,0),y=a.bface(b,1); const auto it=bt.find({std::min(x,y),std::max(x,y)}); PBT_CHECK(it!=bt.end()&&it->second==a.bface(b,2),"converted-markers","boundary face "<<x<<","<<y<<" marker "<<a.bface(b,2)); } }
	else { const std::string t=slurp(out); std::ostringstream w; w<<"NumberOfPoints=\""<<g.pts.size()<<"\" NumberOfCells=\""<<g.cells.size()<<"\""; PBT_CHECK(t.find(w.str())!=std::string::npos,"converted-counts","VTU file lacks "<<w.str()); const size_t k=t.find("<Points>"); PBT_CHECK(k!=std::string::npos,"converted-points","no points in the VTU file"); const size_t b=t.find('>',t.find("<DataArray",k))+1; std::istringstream is(t.substr(b)); for(size_t i=0;i<g.pts.size();i++) { double x=0,y=0,z=1; is>>x>>y>>z; PBT_CHECK(std::fabs(x-g.pts[i][0])<=1e-5*std::fabs(g.pts[i][0])&&std::fabs(y-g.pts[i][1])<=1e-5*std::fabs(g.pts[i][1])&&z==0,"converted-points","point "<<i<<": "<<x<<" "<<y<<" "<<z); } }
	wipe(d);
}
int main(int argc, char *argv[]) { return pbt::engineMain(argc,argv); }
