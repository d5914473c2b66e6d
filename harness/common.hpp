/* Generators and reference computations shared by the harnesses */
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include "engine.hpp"
#include <array>
#include <vector>
#include <map>
#include "mesh/mesh.hpp"
#include "mesh/meshreaders.hpp"

namespace vc {

using fvens::freal;
using fvens::fint;
typedef std::array<double,2> P2;
typedef std::array<double,4> V4;

/// A generated mesh: points, counter-clockwise cells and tagged boundary edges
struct GenMesh {
	std::vector<P2> pts;
	std::vector<std::vector<int>> cells;
	struct BF { int a, b; std::vector<int> tags; };
	std::vector<BF> bfs;
	std::vector<std::vector<int>> vtags;
	int nbtag = 1, ndtag = 0;
	std::string summary() const;
	fvens::MeshData data() const;
	// quantities computed from scratch, never through the library
	P2 centre(int c) const;             ///< mean of vertices
	double area(int c) const;           ///< shoelace
	double hmin() const;                ///< shortest edge
};

struct GenOpts {
	int maxn = 6;            ///< max cells per side of the background grid
	int tail = 0;            ///< if positive, one mesh in tailodds has up to this many cells per side
	int tailodds = 250;
	int mincells = 1;
	bool annulus = true;     ///< allow O-type topology
	bool holes = true;
	bool renumber = true;
	int kind = -1;           ///< -1 any, 0 quads, 1 triangles, 2 hybrid
	double perturb = 0.2;
	bool concave = false;    ///< allow quadrilaterals with a re-entrant corner
	double maxstretch = 4;   ///< anisotropy of the mapping
	int maxtags = 4;         ///< number of distinct boundary markers (values are 1..)
	int ndtagmax = 2;
	int nbtagmax = 2;
	double scalelo = 0.1, scalehi = 10;
	bool refineTri = true;
	bool extremes = true;    ///< one mesh in ten is very small or very large
};

GenMesh genMesh(pbt::Src& s, const GenOpts& o = GenOpts());

/// edge (sorted nodes) -> list of (cell, local face)
typedef std::map<std::pair<int,int>, std::vector<std::pair<int,int>>> EdgeMap;
EdgeMap edgeMap(const GenMesh& g);

/// Builds a mesh directly from the data, as the partitioner's caller does, and computes everything
fvens::UMesh<freal,2> buildRaw(const GenMesh& g);
/// Builds a ready-to-use mesh the way the program does (through the partitioner, on one rank)
fvens::UMesh<freal,2> buildMesh(const GenMesh& g);

/// An admissible physical state (rho>0, p>0): conserved variables
struct StateOpts { double rlo=0.1, rhi=10, plo=0.1, phi=10, machmax=3; };
V4 genState(pbt::Src& s, double g, const StateOpts& o = StateOpts());
P2 genNormal(pbt::Src& s);
V4 fromPrim(double g, double r, double u, double v, double p);
double pressure(double g, const V4& u);
std::string str(const V4& v);
std::string str(const P2& v);

/// The exact Euler flux in direction n
V4 eulerFlux(double g, const V4& u, const P2& n);

/// Independent writers, with varied formatting
void putGmsh(pbt::Src& s, const GenMesh& g, const std::string& fn);
void putSU2(pbt::Src& s, const GenMesh& g, const std::string& fn);
}
#endif
