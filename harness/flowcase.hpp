/* Generated flow problems: mesh, physics, numerics, boundary conditions and state, both for the library and the reference */
#ifndef VERIF_FLOWCASE_HPP
#define VERIF_FLOWCASE_HPP
#include "common.hpp"
#include "refspatial.hpp"
#include "spatial/flow_spatial.hpp"
#include "utilities/afactory.hpp"
#include "linalg/alinalg.hpp"
#include <memory>
#include <iostream>

namespace vc {

struct Quiet {
	std::streambuf *o, *e; std::ostringstream sink;
	Quiet() : o(std::cout.rdbuf(sink.rdbuf())), e(std::cerr.rdbuf(sink.rdbuf())) {}
	~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};

struct FlowOpts {
	int order=0;                 ///< 0 any
	int visc=-1;                 ///< -1 any
	bool cviscOnly=false;
	std::vector<std::string> fluxes={"LLF","VANLEER","AUSM","AUSMPLUS","ROE","HLL","HLLC"};
	std::vector<std::string> jfluxes={"LLF","ROE","HLL","HLLC"};
	std::vector<fvens::BCType> bcs={fvens::FARFIELD_BC,fvens::SLIP_WALL_BC,fvens::EXTRAPOLATION_BC,fvens::INFLOW_OUTFLOW_BC,fvens::ADIABATIC_WALL_BC,fvens::ISOTHERMAL_WALL_BC};
	double amp=0.3;
	bool strong=false;	///< one field in six varies by orders of magnitude
	double Mlo=0.1, Mhi=2.5;
	bool uniform=false;
	double Relo=5, Rehi=1e5;
};

struct FlowCase {
	ref::Cfg c;
	fvens::FlowPhysicsConfig p; fvens::FlowNumericsConfig n;
	std::vector<V4> u;
};

ref::Cfg genCfg(pbt::Src& s, const GenMesh& g, const FlowOpts& o);
std::vector<V4> genField(pbt::Src& s, const GenMesh& g, const ref::Cfg& c, const FlowOpts& o);
fvens::FlowPhysicsConfig physConf(const ref::Cfg& c);
fvens::FlowNumericsConfig numConf(const ref::Cfg& c);
std::string str(const ref::Cfg& c);
std::vector<ref::L4> toL(const std::vector<V4>& u);

/// Asks for the system matrix in one of the storage formats the documentation names (or in none)
struct MatStorage {
	explicit MatStorage(pbt::Src& s) { const int k=s.irange(0,2); if(k) PetscOptionsSetValue(NULL,"-mat_type",k==1?"baij":"aij"); s.label(k==0?"default matrix":k==1?"matrix baij":"matrix aij"); }
	~MatStorage() { PetscOptionsClearValue(NULL,"-mat_type"); }
};

/// The library's discretisation of a case on one rank
struct LibFlow {
	fvens::UMesh<freal,2> m;
	std::unique_ptr<const fvens::FlowFV_base<freal>> sp;
	Vec u=NULL, r=NULL, dt=NULL;
	LibFlow(const GenMesh& g, const ref::Cfg& c);
	~LibFlow();
	void setState(const std::vector<V4>& s);
	/// Sometimes uses the discretisation for something else first (another state; residual, time steps, gradients, Jacobian): what it
	/// computes must not depend on what it computed before
	void warm(pbt::Src& s, const std::vector<V4>& u, bool jac=true);
	/// the residual added to whatever init is (zero if empty)
	std::vector<V4> residual(const std::vector<V4>& s, std::vector<double> *dts=nullptr, const std::vector<V4> *init=nullptr);
};
}
#endif
