/* Mesh connectivity, geometry, files, renumbering, scheduling, periodicity, partitioning */
#include "common.hpp"
#include <algorithm>
#include <fstream>
#include <iomanip>
#include <set>
#include <cstring>
#include <mpi.h>
#include <petscsys.h>
#include <sys/wait.h>
#undef MPI_Bcast
#undef MPI_Comm_rank
#undef MPI_Comm_size
#include <unistd.h>
#include "mesh/ameshutils.hpp"
#include "mesh/meshordering.hpp"
#include "mesh/meshpartitioning.hpp"
#include "spatial/aoutput.hpp"

using namespace fvens;
using namespace vc;
using pbt::Src;
typedef UMesh<freal,2> Mesh;

// ---------------------------------------------------------------- simulated ranks
/* The partitioners ask MPI for the rank and the number of ranks; faking the answers lets one process
 * compute every subdomain of a decomposition. A broadcast from rank 0 is recorded and played back. */
static bool g_fake = false; static int g_rank = 0, g_size = 1;
static std::vector<std::vector<char>> g_bcast; static size_t g_bpos = 0;
extern "C" int MPI_Comm_rank(MPI_Comm c, int *r) { if(g_fake) { *r = g_rank; return 0; } return PMPI_Comm_rank(c,r); }
extern "C" int MPI_Comm_size(MPI_Comm c, int *r) { if(g_fake) { *r = g_size; return 0; } return PMPI_Comm_size(c,r); }
extern "C" int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) {
	if(!g_fake) return PMPI_Bcast(b,n,t,root,c);
	int sz; PMPI_Type_size(t,&sz);
	if(g_rank == 0) g_bcast.emplace_back((char*)b, (char*)b + (size_t)n*sz);
	else {
		if(g_bpos >= g_bcast.size() || g_bcast[g_bpos].size() != (size_t)n*sz) pbt::fail("bcast","ranks disagree about what is broadcast");
		memcpy(b, g_bcast[g_bpos].data(), (size_t)n*sz); g_bpos++;
	}
	return 0;
}
struct FakeRanks {
	FakeRanks(int size) { g_fake = true; g_size = size; g_rank = 0; g_bcast.clear(); g_bpos = 0; }
	~FakeRanks() { g_fake = false; }
	void rank(int r) { g_rank = r; g_bpos = 0; }
};

// ---------------------------------------------------------------- reference connectivity

/// Checks every connectivity query of m against the cells and boundary faces of g (m on one rank, same numbering)
static void checkConnectivity(const GenMesh& g, const Mesh& m)
{
	const int ne = g.cells.size(), nb = g.bfs.size(), np = g.pts.size();
	PBT_CHECK(m.gnelem() == ne && m.gnpoin() == np && m.gnbface() == nb, "counts", "wrong entity counts");
	EdgeMap em = edgeMap(g);
	const int ni = (int)em.size() - nb;
	PBT_CHECK(m.gnaface() == (int)em.size(), "counts", "number of faces " << m.gnaface() << ", mesh has " << em.size() << " edges");
	PBT_CHECK(m.gninface() == ni, "counts", "interior faces " << m.gninface() << " expected " << ni);
	PBT_CHECK(m.gPhyBFaceEnd()-m.gPhyBFaceStart() == nb && m.gSubDomFaceEnd()-m.gSubDomFaceStart() == ni
	          && m.gDomFaceEnd()-m.gDomFaceStart() == ni && m.gFaceStart() == 0 && m.gFaceEnd() == (int)em.size()
	          && m.gConnBFaceEnd() == m.gConnBFaceStart() && m.gnConnFace() == 0, "ranges", "face ranges have wrong sizes");
	// every face exactly once, with its two cells, left index smaller, orientation that of the left cell
	std::set<std::pair<int,int>> seen;
	std::map<std::pair<int,int>,std::vector<int>> btag;
	for(auto& b : g.bfs) btag[std::make_pair(std::min(b.a,b.b),std::max(b.a,b.b))] = b.tags;
	for(int f = 0; f < m.gnaface(); f++) {
		const int a = m.gintfac(f,2), b = m.gintfac(f,3);
		const auto key = std::make_pair(std::min(a,b),std::max(a,b));
		PBT_CHECK(em.count(key), "face-nodes", "face " << f << " joins nodes " << a << "," << b << " which are not an edge");
		PBT_CHECK(seen.insert(key).second, "face-dup", "edge " << a << "," << b << " listed twice");
		const auto& cl = em[key];
		const int L = m.gintfac(f,0), R = m.gintfac(f,1);
		const bool isb = f >= m.gPhyBFaceStart() && f < m.gPhyBFaceEnd();
		const bool isi = f >= m.gSubDomFaceStart() && f < m.gSubDomFaceEnd();
		const bool isd = f >= m.gDomFaceStart() && f < m.gDomFaceEnd();
		PBT_CHECK(isb != isi && isd == isi, "ranges", "face " << f << " is not in exactly one range");
		PBT_CHECK(isb == (cl.size() == 1), "face-kind", "face " << f << " with " << cl.size() << " cells is in the wrong range");
		if(isb) {
			PBT_CHECK(L == cl[0].first, "face-left", "boundary face " << f << " left cell " << L << " expected " << cl[0].first);
			PBT_CHECK(R == ne + (f-m.gPhyBFaceStart()), "face-right", "ghost index of boundary face " << f << " is " << R);
			for(int t = 0; t < g.nbtag; t++)
				PBT_CHECK(m.gbtags(f,t) == btag[key][t], "face-tag", "boundary face " << f << " marker " << t << " is " << m.gbtags(f,t) << ", data says " << btag[key][t]);
		}
		else {
			const int lo = std::min(cl[0].first,cl[1].first), hi = std::max(cl[0].first,cl[1].first);
			PBT_CHECK(L == lo && R == hi, "face-cells", "face " << f << " has cells " << L << "," << R << " expected " << lo << "," << hi);
		}
		// nodes in the counter-clockwise order of the left cell
		const auto& c = g.cells[L]; bool ok = false; int lf = -1;
		for(size_t i = 0; i < c.size(); i++) if(c[i] == a && c[(i+1)%c.size()] == b) { ok = true; lf = i; }
		PBT_CHECK(ok, "face-orient", "face " << f << " nodes are not in the left cell's order");
		PBT_CHECK(m.gelemface(L,lf) == f, "elemface", "cell " << L << " local face " << lf << " maps to face " << m.gelemface(L,lf) << " not " << f);
		PBT_CHECK(m.getFaceEIndex(false,f,L) == lf, "faceeindex", "wrong local index of face " << f << " in cell " << L);
		if(!isb) {
			const auto& d = g.cells[R]; int rf = -1;
			for(size_t i = 0; i < d.size(); i++) if(d[i] == b && d[(i+1)%d.size()] == a) rf = i;
			PBT_CHECK(rf >= 0 && m.gelemface(R,rf) == f, "elemface", "right cell " << R << " of face " << f << " does not list it at local face " << rf);
			PBT_CHECK(m.getFaceEIndex(false,f,R) == rf, "faceeindex", "wrong local index of face " << f << " in cell " << R);
		}
	}
	PBT_CHECK(seen.size() == em.size(), "face-missing", "only " << seen.size() << " of " << em.size() << " edges are listed");
	// neighbours
	for(int c = 0; c < ne; c++) {
		PBT_CHECK(m.gnnode(c) == (int)g.cells[c].size() && m.gnfael(c) == (int)g.cells[c].size(), "cell-size", "cell " << c << " has wrong node/face count");
		for(size_t i = 0; i < g.cells[c].size(); i++) {
			PBT_CHECK(m.ginpoel(c,i) == g.cells[c][i], "inpoel", "cell " << c << " node " << i);
			const int a = g.cells[c][i], b = g.cells[c][(i+1)%g.cells[c].size()];
			const auto& cl = em[std::make_pair(std::min(a,b),std::max(a,b))];
			const int nbr = m.gesuel(c,i);
			if(cl.size() == 2) {
				const int want = cl[0].first == c ? cl[1].first : cl[0].first;
				PBT_CHECK(nbr == want, "esuel", "cell " << c << " face " << i << " neighbour " << nbr << " expected " << want);
			}
			else {
				PBT_CHECK(nbr >= ne && nbr < ne+nb, "esuel-ghost", "cell " << c << " boundary face " << i << " neighbour " << nbr);
				const int f = nbr - ne + m.gPhyBFaceStart();
				const int fa = m.gintfac(f,2), fb = m.gintfac(f,3);
				PBT_CHECK(fa == a && fb == b, "esuel-ghost", "ghost of cell " << c << " face " << i << " belongs to another face");
			}
			PBT_CHECK(m.getNodeEIndex(c,i,0) == (int)i && m.getNodeEIndex(c,i,1) == (int)((i+1)%g.cells[c].size()), "nodeeindex", "wrong local node of a local face");
		}
	}
	// cells around points
	std::vector<std::multiset<int>> at(np);
	for(int c = 0; c < ne; c++) for(int v : g.cells[c]) at[v].insert(c);
	for(int p = 0; p < np; p++) {
		std::multiset<int> got;
		for(int k = m.gesup_p(p); k < m.gesup_p(p+1); k++) got.insert(m.gesup(k));
		PBT_CHECK(got == at[p], "esup", "cells around point " << p << " are wrong");
	}
}

RELATION(M01, connectivity, 40000, 800000, "random quad/tri/hybrid meshes (rectangles and annuli, holes, random numbering); nontrivial: at least 2 cells") {
	GenOpts o; o.maxn = pbt::thorough() ? 12 : 8; o.tail = 45; o.tailodds = 500; o.concave = true;
	GenMesh g = genMesh(s,o);
	s.desc << g.summary(); s.nontrivial(g.cells.size() >= 2);
	Mesh m(g.data());
	m.correctBoundaryFaceOrientation();
	// boundary list: same edges and markers in the same order, oriented as in the host cell
	EdgeMap em = edgeMap(g);
	for(int f = 0; f < (int)g.bfs.size(); f++) {
		const auto& b = g.bfs[f];
		const int a0 = m.gbface(f,0), b0 = m.gbface(f,1);
		PBT_CHECK((a0 == b.a && b0 == b.b) || (a0 == b.b && b0 == b.a), "bface", "boundary face " << f << " changed its nodes");
		for(int t = 0; t < g.nbtag; t++) PBT_CHECK(m.gbface(f,2+t) == b.tags[t], "bface", "boundary face " << f << " changed its markers");
		const auto cl = em[std::make_pair(std::min(b.a,b.b),std::max(b.a,b.b))][0];
		const auto& c = g.cells[cl.first];
		PBT_CHECK(a0 == c[cl.second] && b0 == c[(cl.second+1)%c.size()], "bface-orient", "boundary face " << f << " not oriented outwards");
		PBT_CHECK(m.getFaceEIndex(true,f,cl.first) == cl.second, "faceeindex", "wrong local index of boundary face " << f);
	}
	m.compute_topological();
	checkConnectivity(g,m);
	// Recomputing must not change anything
	if(s.chance(1,4)) { m.correctBoundaryFaceOrientation(); m.compute_topological(); checkConnectivity(g,m); }
}

static double tri2(const P2& a, const P2& b, const P2& c) { return 0.5*((b[0]-a[0])*(c[1]-a[1])-(b[1]-a[1])*(c[0]-a[0])); }

static void checkGeometry(const GenMesh& g, const Mesh& m)
{
	double L = 0; for(auto& p : g.pts) L = std::max(L, std::max(std::fabs(p[0]),std::fabs(p[1])));
	double tot = 0;
	std::vector<double> cc(2*g.cells.size());
	m.compute_cell_centres(cc.data());
	for(int c = 0; c < m.gnelem(); c++) {
		const auto& v = g.cells[c];
		double A = 0; for(size_t i = 1; i+1 < v.size(); i++) A += tri2(g.pts[v[0]],g.pts[v[i]],g.pts[v[i+1]]);
		PBT_CHECK(pbt::close(m.garea(c), A, 1e-9, 1e-12*L*L), "area", "cell " << c << " area " << m.garea(c) << " expected " << A);
		tot += m.garea(c);
		double s0 = 0, s1 = 0, per = 0;
		for(int i = 0; i < m.gnfael(c); i++) {
			const int f = m.gelemface(c,i);
			const double sg = m.gintfac(f,0) == c ? 1 : -1;
			s0 += sg*m.gfacemetric(f,0)*m.gfacemetric(f,2); s1 += sg*m.gfacemetric(f,1)*m.gfacemetric(f,2);
			per += m.gfacemetric(f,2);
		}
		PBT_CHECK(std::fabs(s0) <= 1e-11*(per+L) && std::fabs(s1) <= 1e-11*(per+L), "closed", "cell " << c << " is not closed: " << s0 << "," << s1);
		const P2 x = g.centre(c);
		PBT_CHECK(pbt::close(cc[2*c],x[0],1e-12,1e-12*L) && pbt::close(cc[2*c+1],x[1],1e-12,1e-12*L), "centre", "centre of cell " << c);
		double k2[2]; kernel_computeCellCentreAoS(m, c, k2);
		PBT_CHECK(pbt::close(k2[0],x[0],1e-12,1e-12*L) && pbt::close(k2[1],x[1],1e-12,1e-12*L), "centre", "centre (kernel) of cell " << c);
	}
	double gb = 0;
	for(int f = 0; f < m.gnaface(); f++) {
		const P2 &a = g.pts[m.gintfac(f,2)], &b = g.pts[m.gintfac(f,3)];
		const double len = std::hypot(b[0]-a[0],b[1]-a[1]);
		PBT_CHECK(pbt::close(m.gfacemetric(f,2),len,1e-12,0), "length", "face " << f << " length " << m.gfacemetric(f,2) << " expected " << len);
		const std::array<double,2> n = m.gnormal(f);
		PBT_CHECK(n[0] == m.gfacemetric(f,0) && n[1] == m.gfacemetric(f,1), "normal", "two normals of a face differ");
		PBT_CHECK(pbt::close(n[0]*n[0]+n[1]*n[1],1,1e-12,0), "unit", "face " << f << " normal is not unit");
		PBT_CHECK(std::fabs(n[0]*(b[0]-a[0])+n[1]*(b[1]-a[1])) <= 1e-11*(len+L), "perp", "face " << f << " normal not perpendicular");
		const double mx = 0.5*(a[0]+b[0]), my = 0.5*(a[1]+b[1]);
		// outwards: to the right when walking the edge as the (counter-clockwise) cell does
		auto side = [&](int c) {
			const auto& v = g.cells[c];
			for(size_t i = 0; i < v.size(); i++) {
				const P2 &p = g.pts[v[i]], &q = g.pts[v[(i+1)%v.size()]];
				if((v[i] == m.gintfac(f,2) && v[(i+1)%v.size()] == m.gintfac(f,3)) || (v[i] == m.gintfac(f,3) && v[(i+1)%v.size()] == m.gintfac(f,2)))
					return n[0]*(q[1]-p[1]) - n[1]*(q[0]-p[0]);
			}
			return 0.0;
		};
		PBT_CHECK(side(m.gintfac(f,0)) > 0, "outward", "face " << f << " normal does not point out of its left cell");
		if(f < m.gDomFaceStart() || f >= m.gDomFaceEnd()) gb += 0.5*(n[0]*mx+n[1]*my)*m.gfacemetric(f,2);
		else {
			PBT_CHECK(side(m.gintfac(f,1)) < 0, "towards", "face " << f << " normal does not point into its right cell");
		}
	}
	PBT_CHECK(pbt::close(gb,tot,1e-9,1e-11*L*L*g.bfs.size()), "gauss", "cells cover " << tot << " but the boundary encloses " << gb);
}

RELATION(M02, geometry, 50000, 1000000, "random meshes under rotation, shear, stretching, scaling; nontrivial: at least 2 cells") {
	GenOpts o; o.maxn = pbt::thorough() ? 12 : 8; o.tail = 45; o.tailodds = 500; o.scalelo = 1e-3; o.scalehi = 1e3; o.maxstretch = 20; o.concave = true;
	GenMesh g = genMesh(s,o);
	s.desc << g.summary(); s.nontrivial(g.cells.size() >= 2);
	checkGeometry(g, buildRaw(g));
	if(s.chance(1,8)) checkGeometry(g, buildMesh(g));
}

// ---------------------------------------------------------------- mesh files

static void compareData(const GenMesh& g, const MeshData& d, int nbtag, int ndtag, bool exactOrder, const char *what) {
	PBT_CHECK(d.npoin == (int)g.pts.size() && d.nelem == (int)g.cells.size() && d.nbface == (int)g.bfs.size(), "file-counts",
	          what << ": counts " << d.npoin << "," << d.nelem << "," << d.nbface);
	PBT_CHECK(d.nnofa == 2 && d.nbtag == nbtag && d.ndtag == ndtag, "file-tags", what << ": marker counts " << d.nbtag << "," << d.ndtag);
	for(int i = 0; i < d.npoin; i++) for(int j = 0; j < 2; j++)
		PBT_CHECK(d.coords(i,j) == g.pts[i][j], "file-coords", what << ": point " << i << " coord " << j << " is " << d.coords(i,j) << " not " << g.pts[i][j]);
	size_t mx = 0;
	for(int c = 0; c < d.nelem; c++) {
		mx = std::max(mx,g.cells[c].size());
		PBT_CHECK(d.nnode[c] == (int)g.cells[c].size() && d.nfael[c] == (int)g.cells[c].size(), "file-cells", what << ": cell " << c << " type");
		for(size_t j = 0; j < g.cells[c].size(); j++)
			PBT_CHECK(d.inpoel(c,j) == g.cells[c][j], "file-cells", what << ": cell " << c << " node " << j << " is " << d.inpoel(c,j) << " not " << g.cells[c][j]);
		for(int t = 0; t < std::min(ndtag,g.ndtag); t++)
			PBT_CHECK(d.vol_regions(c,t) == g.vtags[c][t], "file-vtags", what << ": cell " << c << " marker " << t << " is " << d.vol_regions(c,t) << " not " << g.vtags[c][t]);
	}
	PBT_CHECK(d.maxnnode >= (int)mx && d.maxnfael >= (int)mx, "file-cells", what << ": maximum cell size");
	std::map<std::pair<int,int>,std::vector<int>> got;
	for(int f = 0; f < d.nbface; f++) {
		std::vector<int> t; for(int k = 0; k < nbtag; k++) t.push_back(d.bface(f,2+k));
		got[std::make_pair(d.bface(f,0),d.bface(f,1))] = t;
		if(exactOrder) PBT_CHECK(d.bface(f,0) == g.bfs[f].a && d.bface(f,1) == g.bfs[f].b, "file-bfaces", what << ": boundary face " << f << " nodes");
	}
	for(auto& b : g.bfs) {
		auto it = got.find(std::make_pair(b.a,b.b));
		PBT_CHECK(it != got.end(), "file-bfaces", what << ": boundary face " << b.a << "," << b.b << " lost");
		for(int k = 0; k < std::min(nbtag,g.nbtag); k++)
			PBT_CHECK(it->second[k] == b.tags[k], "file-btags", what << ": boundary face " << b.a << "," << b.b << " marker " << k << " is " << it->second[k] << " not " << b.tags[k]);
	}
}

/// Gives some meshes markers of any sign and size
static void widenMarkers(Src& s, GenMesh& g) {
	if(!s.chance(1,3)) return;
	s.label("markers of any size");
	std::map<int,int> mp;
	auto one = [&](int& t) {
		if(!mp.count(t)) mp[t] = s.pick({t, -t, 0, 99+t, 1000*t, 65536+t, 2000000000+t, -(1<<30)+t});
		t = mp[t];
	};
	for(auto& b : g.bfs) for(int& t : b.tags) one(t);
	for(auto& v : g.vtags) for(int& t : v) one(t);
}

RELATION(M03, roundtrip, 20000, 400000, "random mesh -> written by the library -> read back; nontrivial: at least 2 cells") {
	GenOpts o; o.scalelo = 1e-3; o.scalehi = 1e3; o.concave = true; if(s.chance(1,4)) { o.ndtagmax = 6; o.nbtagmax = 6; }
	GenMesh g = genMesh(s,o); widenMarkers(s,g);
	s.desc << g.summary() << " tags " << g.nbtag << "," << g.ndtag; s.nontrivial(g.cells.size() >= 2);
	Mesh m(g.data());
	const std::string fn = pbt::scratchDir() + "/rt.msh";
	const bool pre = s.chance(1,2);
	if(pre) { m.correctBoundaryFaceOrientation(); m.compute_topological(); }
	m.writeGmsh2(fn);
	GenMesh h = g;
	if(pre) for(size_t i = 0; i < h.bfs.size(); i++) { h.bfs[i].a = m.gbface(i,0); h.bfs[i].b = m.gbface(i,1); }
	const MeshData d = readMesh(fn);
	compareData(h, d, std::max(2,g.nbtag), std::max(2,g.ndtag), true, "round trip");
	// the comparison utility agrees that nothing changed, and sees a change
	Mesh r(d);
	const std::array<bool,8> eq = compareMeshes(m, m);
	for(int i = 0; i < 8; i++) PBT_CHECK(eq[i], "compare", "a mesh differs from itself in item " << i);
	const std::array<bool,8> eq2 = compareMeshes(m, r);
	for(int i = 0; i < 8; i++) PBT_CHECK(eq2[i], "compare", "the re-read mesh differs in item " << i);
	const int p = s.draw(g.pts.size()), dim = s.draw(2);
	r.scoords(p,dim, r.gcoords(p,dim) + 0.25*(1+std::fabs(r.gcoords(p,dim))));
	PBT_CHECK(!compareMeshes(m,r)[7], "compare", "a moved point is not noticed");
	unlink(fn.c_str());
}

RELATION(M03, gmshread, 20000, 400000, "random mesh written by an independent Gmsh 2 writer, read by the library; nontrivial: at least 2 cells") {
	GenOpts o; o.scalelo = 1e-3; o.scalehi = 1e3; o.concave = true; if(s.chance(1,4)) { o.ndtagmax = 6; o.nbtagmax = 6; }
	GenMesh g = genMesh(s,o); widenMarkers(s,g);
	s.desc << g.summary(); s.nontrivial(g.cells.size() >= 2);
	const std::string fn = pbt::scratchDir() + "/in.msh";
	putGmsh(s,g,fn);
	compareData(g, readMesh(fn), g.nbtag, g.ndtag, true, "Gmsh");
	unlink(fn.c_str());
}

RELATION(M03, gmshquadratic, 10000, 100000, "random mesh with quadratic edges, triangles and quadrilaterals of either kind in a Gmsh 2 file, read by the library; nontrivial: at least 2 cells") {
	GenOpts o; o.nbtagmax = 3; o.ndtagmax = 3;
	GenMesh g = genMesh(s,o); widenMarkers(s,g);
	s.desc << g.summary(); s.nontrivial(g.cells.size() >= 2);
	const bool nine = s.chance(1,2);
	EdgeMap em = edgeMap(g);
	std::map<std::pair<int,int>,int> mid;
	std::vector<P2> x = g.pts;
	auto midOf = [&](int a, int b) {
		const auto k = std::make_pair(std::min(a,b),std::max(a,b));
		if(!mid.count(k)) { mid[k] = x.size(); x.push_back(P2{0.5*(g.pts[a][0]+g.pts[b][0]), 0.5*(g.pts[a][1]+g.pts[b][1])}); }
		return mid[k];
	};
	std::vector<std::vector<int>> cells;
	for(size_t c = 0; c < g.cells.size(); c++) {
		std::vector<int> v = g.cells[c]; const size_t n = v.size();
		for(size_t i = 0; i < n; i++) v.push_back(midOf(v[i],v[(i+1)%n]));
		if(n == 4 && nine) { v.push_back(x.size()); x.push_back(g.centre(c)); }
		cells.push_back(v);
	}
	const std::string fn = pbt::scratchDir() + "/q.msh";
	{
		std::ofstream f(fn); f << std::setprecision(17) << "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n" << x.size() << "\n";
		for(size_t i = 0; i < x.size(); i++) f << i+1 << " " << x[i][0] << " " << x[i][1] << " 0\n";
		f << "$EndNodes\n$Elements\n" << cells.size()+g.bfs.size() << "\n";
		int k = 1;
		for(auto& b : g.bfs) { f << k++ << " 8 " << g.nbtag; for(int t : b.tags) f << " " << t; f << " " << b.a+1 << " " << b.b+1 << " " << midOf(b.a,b.b)+1 << "\n"; }
		for(size_t c = 0; c < cells.size(); c++) {
			f << k++ << " " << (cells[c].size() == 6 ? 9 : cells[c].size() == 8 ? 16 : 10) << " " << g.ndtag;
			for(int t : g.vtags[c]) f << " " << t;
			for(int v : cells[c]) f << " " << v+1;
			f << "\n";
		}
		f << "$EndElements\n";
	}
	const MeshData d = readMesh(fn);
	PBT_CHECK(d.npoin == (int)x.size() && d.nelem == (int)cells.size() && d.nbface == (int)g.bfs.size() && d.nnofa == 3 && d.nbtag == g.nbtag && d.ndtag == g.ndtag,
	          "quadratic-counts", "counts " << d.npoin << "," << d.nelem << "," << d.nbface << "," << d.nnofa << "," << d.nbtag << "," << d.ndtag);
	for(int i = 0; i < d.npoin; i++) for(int j = 0; j < 2; j++) PBT_CHECK(d.coords(i,j) == x[i][j], "quadratic-coords", "point " << i);
	for(int c = 0; c < d.nelem; c++) {
		PBT_CHECK(d.nnode[c] == (int)cells[c].size() && d.nfael[c] == (int)g.cells[c].size(), "quadratic-cells", "cell " << c << " has " << d.nnode[c] << " nodes and " << d.nfael[c] << " faces");
		for(size_t j = 0; j < cells[c].size(); j++) PBT_CHECK(d.inpoel(c,j) == cells[c][j], "quadratic-cells", "cell " << c << " node " << j);
		for(int t = 0; t < g.ndtag; t++) PBT_CHECK(d.vol_regions(c,t) == g.vtags[c][t], "quadratic-vtags", "cell " << c << " marker " << t);
	}
	for(int f = 0; f < d.nbface; f++) {
		const auto& b = g.bfs[f];
		PBT_CHECK(d.bface(f,0) == b.a && d.bface(f,1) == b.b && d.bface(f,2) == midOf(b.a,b.b), "quadratic-bfaces", "boundary face " << f);
		for(int t = 0; t < g.nbtag; t++) PBT_CHECK(d.bface(f,3+t) == b.tags[t], "quadratic-btags", "boundary face " << f << " marker " << t);
	}
	unlink(fn.c_str());
}

RELATION(M03, su2read, 20000, 400000, "random mesh written by an independent SU2 writer, read by the library; nontrivial: at least 2 markers") {
	GenOpts o; o.scalelo = 1e-3; o.scalehi = 1e3; o.nbtagmax = 1; o.ndtagmax = 0;
	GenMesh g = genMesh(s,o); widenMarkers(s,g);
	s.desc << g.summary();
	std::set<int> tg; for(auto& b : g.bfs) tg.insert(b.tags[0]);
	s.nontrivial(tg.size() >= 2);
	const std::string fn = pbt::scratchDir() + "/in.su2";
	putSU2(s,g,fn);
	const MeshData d = readMesh(fn);
	compareData(g, d, 1, 0, false, "SU2");
	// the same mesh through either format gives the same prepared mesh
	const std::string fn2 = pbt::scratchDir() + "/in2.msh";
	putGmsh(s,g,fn2);
	Mesh a(d), b(readMesh(fn2));
	a.correctBoundaryFaceOrientation(); a.compute_topological();
	b.correctBoundaryFaceOrientation(); b.compute_topological();
	PBT_CHECK(a.gnaface() == b.gnaface(), "formats", "face counts differ between formats");
	for(int c = 0; c < a.gnelem(); c++) for(int i = 0; i < a.gnfael(c); i++)
		PBT_CHECK((a.gesuel(c,i) < a.gnelem()) == (b.gesuel(c,i) < b.gnelem()) && (a.gesuel(c,i) >= a.gnelem() || a.gesuel(c,i) == b.gesuel(c,i)), "formats", "adjacency differs between formats");
	unlink(fn.c_str()); unlink(fn2.c_str());
}

RELATION(M03, construct, 10000, 100000, "random mesh file -> the program's mesh constructor; the prepared mesh has the file's connectivity and geometry; nontrivial: at least 2 cells") {
	GenOpts o; o.nbtagmax = 2;
	GenMesh g = genMesh(s,o); widenMarkers(s,g);
	s.desc << g.summary(); s.nontrivial(g.cells.size() >= 2);
	const bool su2 = s.chance(1,3);
	if(su2) { for(auto& b : g.bfs) b.tags.resize(1); g.nbtag = 1; g.ndtag = 0; for(auto& v : g.vtags) v.clear(); }
	const std::string fn = pbt::scratchDir() + (su2 ? "/c.su2" : "/c.msh");
	if(su2) putSU2(s,g,fn); else putGmsh(s,g,fn);
	const Mesh m = constructMesh(fn);
	checkConnectivity(g,m);
	checkGeometry(g,m);
	for(int c = 0; c < m.gnelem(); c++) PBT_CHECK(m.gglobalElemIndex(c) == c, "globalindex", "global index of cell " << c);
	PBT_CHECK(m.gnelemglobal() == m.gnelem() && m.gnpoinglobal() == m.gnpoin(), "globalcounts", "global counts on one rank");
	unlink(fn.c_str());
}

// ---------------------------------------------------------------- renumbering

/// The mesh obtained from g by listing its cells in the order perm (new i = old perm[i])
static GenMesh permuted(const GenMesh& g, const std::vector<int>& perm) {
	GenMesh h = g;
	for(size_t i = 0; i < perm.size(); i++) { h.cells[i] = g.cells[perm[i]]; h.vtags[i] = g.vtags[perm[i]]; }
	return h;
}

/// Finds which cell of g each cell of m is (node lists identify cells); checks it is a permutation
static std::vector<int> recoverPerm(const GenMesh& g, const Mesh& m) {
	std::map<std::vector<int>,int> id;
	for(size_t c = 0; c < g.cells.size(); c++) id[g.cells[c]] = c;
	std::vector<int> p(m.gnelem()); std::vector<char> used(g.cells.size(),0);
	PBT_CHECK(m.gnelem() == (int)g.cells.size(), "reorder-perm", "number of cells changed");
	for(int c = 0; c < m.gnelem(); c++) {
		std::vector<int> v; for(int j = 0; j < m.gnnode(c); j++) v.push_back(m.ginpoel(c,j));
		auto it = id.find(v);
		PBT_CHECK(it != id.end(), "reorder-cell", "cell " << c << " of the renumbered mesh is not a cell of the mesh");
		PBT_CHECK(!used[it->second], "reorder-dup", "cell " << it->second << " appears twice after renumbering");
		used[it->second] = 1; p[c] = it->second;
	}
	return p;
}

static void checkRenumbered(Src& s, const GenMesh& g, Mesh& m, const char *what) {
	const std::vector<int> p = recoverPerm(g,m);
	const GenMesh h = permuted(g,p);
	checkConnectivity(h,m);
	checkGeometry(h,m);
	if(g.ndtag > 0) {
		const std::string fn = pbt::scratchDir() + "/ro.msh";
		m.writeGmsh2(fn);
		const MeshData d = readMesh(fn);
		for(int c = 0; c < d.nelem; c++) for(int t = 0; t < g.ndtag; t++)
			PBT_CHECK(d.vol_regions(c,t) == h.vtags[c][t], "reorder-vtags", what << ": volume marker did not move with its cell");
		unlink(fn.c_str());
	}
}

RELATION(M04, permute, 15000, 300000, "random mesh, random permutation applied through the public reordering call; nontrivial: permutation is not the identity") {
	GenOpts o; o.maxn = 6; o.tail = 35; o.tailodds = 400;
	GenMesh g = genMesh(s,o);
	Mesh m = buildRaw(g);
	const std::vector<int> pm = s.perm(g.cells.size());
	std::vector<PetscInt> pp(pm.begin(),pm.end());
	bool id = true; for(size_t i = 0; i < pm.size(); i++) id = id && pm[i] == (int)i;
	s.desc << g.summary() << " ndtag " << g.ndtag << (id ? " identity" : ""); s.nontrivial(!id);
	m.reorder_cells(pp.data());
	m.compute_topological(); m.compute_areas(); m.compute_face_data();
	for(int c = 0; c < m.gnelem(); c++) for(int j = 0; j < m.gnnode(c); j++)
		PBT_CHECK(m.ginpoel(c,j) == g.cells[pm[c]][j], "reorder-order", "cell " << c << " is not cell perm[" << c << "]");
	checkRenumbered(s,g,m,"permute");
	// the inverse permutation restores the mesh
	std::vector<PetscInt> inv(pp.size()); for(size_t i = 0; i < pp.size(); i++) inv[pp[i]] = i;
	m.reorder_cells(inv.data());
	m.compute_topological(); m.compute_areas(); m.compute_face_data();
	checkConnectivity(g,m); checkGeometry(g,m);
}

struct PetscOpt {
	std::vector<std::string> names;
	void set(const std::string& n, const std::string& v) { PetscOptionsSetValue(NULL,n.c_str(),v.c_str()); names.push_back(n); }
	~PetscOpt() { for(auto& n : names) PetscOptionsClearValue(NULL,n.c_str()); }
};

/// Reference construction of the strong-coupling lines. Empty optional (ambiguous=true) on near ties.
static std::vector<std::vector<int>> refLines(const GenMesh& g, const Mesh& m, double thr, bool& ambiguous) {
	const int ne = g.cells.size();
	EdgeMap em = edgeMap(g);
	ambiguous = false;
	std::vector<std::vector<std::pair<double,int>>> w(ne);
	for(auto& k : em) if(k.second.size() == 2) {
		int a = k.second[0].first, b = k.second[1].first;
		P2 x = g.centre(a), y = g.centre(b);
		double d = 1/std::hypot(x[0]-y[0],x[1]-y[1]);
		w[a].push_back({d,b}); w[b].push_back({d,a});
	}
	for(auto& l : w) {
		std::sort(l.begin(),l.end(),[](const std::pair<double,int>& p, const std::pair<double,int>& q) { return p.first > q.first; });
		if(l.empty()) continue;
		double mn = l.back().first;
		for(auto& q : l) { q.first /= mn; if(std::fabs(q.first-thr) < 1e-9*thr) ambiguous = true; }
		for(size_t i = 1; i < l.size(); i++) if(std::fabs(l[i].first-l[i-1].first) < 1e-9*l[i].first && l[i].first > thr*(1-1e-9)) ambiguous = true;
	}
	std::vector<int> line(ne,-1); std::vector<std::vector<int>> lines;
	for(int f = m.gPhyBFaceStart(); f < m.gPhyBFaceEnd(); f++) {
		// host cell of the boundary face, found from its nodes
		int a = m.gintfac(f,2), b = m.gintfac(f,3);
		int cur = em[std::make_pair(std::min(a,b),std::max(a,b))][0].first;
		if(line[cur] >= 0) continue;
		std::vector<int> l;
		while(true) {
			if(w[cur].empty() || !(w[cur][0].first > thr)) break;
			l.push_back(cur); line[cur] = lines.size();
			int nxt = -1;
			for(auto& q : w[cur]) if(line[q.second] == -1 && q.first > thr) { nxt = q.second; break; }
			if(nxt < 0) break;
			cur = nxt;
		}
		if(l.size() > 1) lines.push_back(l); else if(l.size() == 1) line[l[0]] = -1;
	}
	return lines;
}

RELATION(M04, lines, 15000, 300000, "anisotropic meshes, threshold drawn around the anisotropy; nontrivial: at least one line of two or more cells exists") {
	GenOpts o; o.maxn = 6; o.tail = 35; o.tailodds = 400; o.maxstretch = 12; o.mincells = 2; o.holes = s.chance(1,4);
	GenMesh g = genMesh(s,o);
	const double thr = s.real(1.05,8);
	Mesh m = buildRaw(g);
	bool amb; const auto L = refLines(g,m,thr,amb);
	s.desc << g.summary() << " threshold " << thr << " lines " << L.size(); s.nontrivial(!L.empty());
	if(amb) s.label("ambiguous"); if(!L.empty()) s.label("has-lines");
	const int how = s.irange(0,2);
	PetscOpt po;
	if(how == 0) lineReorder(m,thr);
	else if(how == 1) hybridLineReorder(m,thr,"natural");
	else {
		std::ostringstream t; t.precision(17); t << thr;
		po.set("-mesh_reorder","line"); po.set("-mesh_anisotropy_threshold",t.str());
		preprocessMesh(m);
	}
	m.compute_topological(); m.compute_areas(); m.compute_face_data();
	checkRenumbered(s,g,m,"line ordering");
	const std::vector<int> p = recoverPerm(g,m);
	if(!amb) {
		// lines first, each in order from its boundary cell, then the remaining cells in their old order
		std::vector<int> want; std::vector<char> in(g.cells.size(),0);
		for(auto& l : L) for(int c : l) { want.push_back(c); in[c] = 1; }
		for(size_t c = 0; c < g.cells.size(); c++) if(!in[c]) want.push_back(c);
		PBT_CHECK(p == want, "line-order", "cells are not ordered line by line");
	}
}

RELATION(M04, graphorder, 10000, 200000, "RCM-type renumberings requested through the options, alone and combined with lines; nontrivial: at least 3 cells") {
	GenOpts o; o.maxn = 6; o.tail = 35; o.tailodds = 400; o.maxstretch = 12; o.mincells = 2;
	GenMesh g = genMesh(s,o);
	const std::string ord = s.pick<std::string>({"rcm","natural","1wd","nd","qmd","line_rcm","line_natural","line_1wd","line_qmd"});
	const double thr = s.real(1.05,8);
	s.desc << g.summary() << " ordering " << ord << " threshold " << thr; s.nontrivial(g.cells.size() >= 3);
	s.label(ord);
	Mesh m = buildMesh(g);
	bool amb; const auto L = refLines(g,m,thr,amb);
	PetscOpt po; std::ostringstream t; t.precision(17); t << thr;
	po.set("-mesh_reorder",ord);
	if(ord[0] == 'l') po.set("-mesh_anisotropy_threshold",t.str());
	preprocessMesh(m);
	checkRenumbered(s,g,m,ord.c_str());
	const std::vector<int> p = recoverPerm(g,m);
	if(ord == "natural") for(size_t i = 0; i < p.size(); i++) PBT_CHECK(p[i] == (int)i, "natural", "natural ordering changed the mesh");
	if(ord[0] == 'l' && !amb) {
		// cells within a line stay consecutive and in order
		std::vector<int> pos(p.size()); for(size_t i = 0; i < p.size(); i++) pos[p[i]] = i;
		for(auto& l : L) for(size_t k = 1; k < l.size(); k++)
			PBT_CHECK(pos[l[k]] == pos[l[k-1]]+1, "line-split", "cells of one line are not consecutive");
		if(!L.empty()) s.label("hybrid-with-lines");
	}
}

// ---------------------------------------------------------------- level schedule

RELATION(M05, levels, 50000, 800000, "random meshes and numberings; nontrivial: at least two levels, one of them with two or more cells") {
	GenOpts o; o.maxn = pbt::thorough() ? 12 : 8; o.tail = 45; o.tailodds = 500;
	GenMesh g = genMesh(s,o);
	Mesh m = buildRaw(g);
	const std::vector<fint> l = levelSchedule(m);
	const int ne = g.cells.size();
	bool multi = false; for(size_t k = 0; k+1 < l.size(); k++) multi = multi || l[k+1]-l[k] > 1;
	s.desc << g.summary() << " levels " << (int)l.size()-1; s.nontrivial(l.size() > 2 && multi);
	PBT_CHECK(l.size() >= 2 && l.front() == 0 && l.back() == ne, "ends", "the levels do not start at the first and end after the last cell");
	std::vector<std::set<int>> adj(ne);
	for(auto& k : edgeMap(g)) if(k.second.size() == 2) { int a = k.second[0].first, b = k.second[1].first; adj[a].insert(b); adj[b].insert(a); }
	for(size_t k = 0; k+1 < l.size(); k++) {
		PBT_CHECK(l[k] < l[k+1], "empty", "level " << k << " is empty");
		for(int c = l[k]; c < l[k+1]; c++) for(int d : adj[c])
			PBT_CHECK(!(d >= l[k] && d < l[k+1]), "coupled", "cells " << c << " and " << d << " of level " << k << " are neighbours");
		if(k > 0) {
			bool need = false; for(int d : adj[l[k]]) need = need || (d >= l[k-1] && d < l[k]);
			PBT_CHECK(need, "split", "level " << k << " starts at a cell that is not coupled to the level before");
		}
	}
}

// ---------------------------------------------------------------- periodic boundaries

RELATION(M06, periodic, 100000, 2000000, "channel meshes periodic in x or y with matching ends, random numbering; nontrivial: at least 2 periodic pairs") {
	const int nx = s.irange(1,6), ny = s.irange(1,6), axis = s.irange(0,1), kind = s.irange(0,2);
	// build in (along, across); swap at the end
	std::vector<double> across(ny+1); across[0] = s.realz(-1,1,0);
	// the whole mesh may be small, as a boundary layer is
	const double scale = s.chance(1,2) ? 1.0 : s.logreal(1e-3,10);
	for(int j = 0; j < ny; j++) across[j+1] = across[j] + s.realz(0.05,1,0.5);
	GenMesh g;
	auto node = [&](int i, int j) { return j*(nx+1)+i; };
	g.pts.resize((nx+1)*(ny+1));
	for(auto& a : across) a *= scale;
	const double len = s.realz(0.5,3,1)*scale;
	for(int j = 0; j <= ny; j++) for(int i = 0; i <= nx; i++) {
		double a = len*i, b = across[j];
		if(i > 0 && i < nx) { a += s.realz(-0.2,0.2,0)*len; }
		P2 p; p[axis] = a; p[1-axis] = b;
		g.pts[node(i,j)] = p;
	}
	for(int j = 0; j < ny; j++) for(int i = 0; i < nx; i++) {
		std::vector<int> q = {node(i,j),node(i+1,j),node(i+1,j+1),node(i,j+1)};
		if(axis == 1) std::reverse(q.begin(),q.end());
		if(kind == 1 || (kind == 2 && s.chance(1,2))) { g.cells.push_back({q[0],q[1],q[2]}); g.cells.push_back({q[0],q[2],q[3]}); }
		else g.cells.push_back(q);
	}
	// renumber cells, nodes
	std::vector<int> np = s.perm(g.pts.size()), cp = s.perm(g.cells.size());
	std::vector<P2> pts(g.pts.size()); for(size_t i = 0; i < np.size(); i++) pts[np[i]] = g.pts[i];
	std::vector<std::vector<int>> cells(g.cells.size());
	for(size_t c = 0; c < cells.size(); c++) { for(int& v : g.cells[c]) v = np[v]; cells[cp[c]] = g.cells[c]; }
	g.pts = pts; g.cells = cells; g.vtags.resize(cells.size());
	const int per = s.irange(1,9), other = per == 5 ? 6 : 5;
	g.nbtag = 1;
	const double lo = 0, hi = len*nx;
	for(auto& k : edgeMap(g)) if(k.second.size() == 1) {
		int c = k.second[0].first, l = k.second[0].second;
		GenMesh::BF b; b.a = g.cells[c][l]; b.b = g.cells[c][(l+1)%g.cells[c].size()];
		double ma = 0.5*(g.pts[b.a][axis]+g.pts[b.b][axis]);
		b.tags = { (ma == lo || ma == hi) ? per : other };
		g.bfs.push_back(b);
	}
	std::vector<int> bp = s.perm(g.bfs.size()); std::vector<GenMesh::BF> b2(g.bfs.size());
	for(size_t i = 0; i < bp.size(); i++) b2[bp[i]] = g.bfs[i];
	g.bfs = b2;
	s.desc << g.summary() << " periodic along " << axis << " pairs " << ny; s.nontrivial(ny >= 2);
	Mesh m = buildRaw(g);
	std::vector<std::array<int,4>> before(m.gnaface());
	for(int f = 0; f < m.gnaface(); f++) for(int i = 0; i < 4; i++) before[f][i] = m.gintfac(f,i);
	m.compute_periodic_map(per,axis);
	int npair = 0;
	for(int f = 0; f < m.gnaface(); f++) {
		PBT_CHECK(m.gintfac(f,0) == before[f][0] && m.gintfac(f,2) == before[f][2] && m.gintfac(f,3) == before[f][3], "periodic-other", "the map changed more than ghost cells");
		bool isper = f >= m.gPhyBFaceStart() && f < m.gPhyBFaceEnd() && m.gbtags(f,0) == per;
		if(!isper) { PBT_CHECK(m.gintfac(f,1) == before[f][1], "periodic-other", "face " << f << " is not periodic but was changed"); continue; }
		// the partner: periodic face on the other end with the same position across
		const double mc = 0.5*(m.gcoords(m.gintfac(f,2),1-axis)+m.gcoords(m.gintfac(f,3),1-axis)), ma = m.gcoords(m.gintfac(f,2),axis);
		int partner = -1;
		for(int h = m.gPhyBFaceStart(); h < m.gPhyBFaceEnd(); h++) if(h != f && m.gbtags(h,0) == per) {
			double hc = 0.5*(m.gcoords(m.gintfac(h,2),1-axis)+m.gcoords(m.gintfac(h,3),1-axis)), ha = m.gcoords(m.gintfac(h,2),axis);
			if(std::fabs(hc-mc) < 1e-6*scale && std::fabs(ha-ma) > 0.1*len) partner = h;
		}
		PBT_CHECK(partner >= 0, "harness", "no partner in the generated mesh");
		PBT_CHECK(m.gintfac(f,1) == m.gintfac(partner,0), "periodic-map", "ghost of face " << f << " is cell " << m.gintfac(f,1) << ", partner's interior cell is " << m.gintfac(partner,0));
		npair++;
	}
	PBT_CHECK(npair == 2*ny, "harness", "pairs");
	// no marker or axis given: nothing happens
	m.compute_periodic_map(-1,axis); m.compute_periodic_map(per,-1);
}

// ---------------------------------------------------------------- partitioning

RELATION(M07, partition, 20000, 300000, "random mesh cut into 2..5 subdomains in the given (random) cell order or by Scotch; nontrivial: at least one connectivity face and one subdomain with 2 cells") {
	const int size = s.chance(1,8) ? s.irange(6,12) : s.irange(2,5);
	GenOpts o; o.maxn = 6; o.tail = 35; o.tailodds = 400; o.mincells = size;
	GenMesh g = genMesh(s,o);
	const bool scotch = s.chance(1,4);
	s.label(scotch ? "scotch" : "trivial");
	Mesh gm(g.data());
	gm.correctBoundaryFaceOrientation();
	gm.compute_topological();
	const int ne = g.cells.size();
	std::vector<Mesh> lm;
	{
		FakeRanks fr(size);
		for(int r = 0; r < size; r++) {
			fr.rank(r);
			if(scotch) { ScotchRGMPartitioner p(gm); p.compute_partition(); lm.push_back(p.restrictMeshToPartitions()); }
			else { TrivialReplicatedGlobalMeshPartitioner p(gm); p.compute_partition(); lm.push_back(p.restrictMeshToPartitions()); }
			Mesh& m = lm.back();
			m.compute_topological(); m.compute_areas(); m.compute_face_data();
		}
	}
	EdgeMap em = edgeMap(g);
	std::map<std::pair<int,int>,std::vector<int>> btag;
	for(auto& b : g.bfs) btag[std::make_pair(std::min(b.a,b.b),std::max(b.a,b.b))] = b.tags;
	// ownership
	std::vector<int> owner(ne,-1), local(ne,-1);
	for(int r = 0; r < size; r++) {
		PBT_CHECK(lm[r].gnelemglobal() == ne && lm[r].gnpoinglobal() == (int)g.pts.size(), "global-counts", "rank " << r << " has wrong global counts");
		for(int c = 0; c < lm[r].gnelem(); c++) {
			const int G = lm[r].gglobalElemIndex(c);
			PBT_CHECK(G >= 0 && G < ne, "owner", "rank " << r << " cell " << c << " has global index " << G);
			PBT_CHECK(owner[G] == -1, "owner-dup", "cell " << G << " belongs to ranks " << owner[G] << " and " << r);
			PBT_CHECK(c == 0 || lm[r].gglobalElemIndex(c-1) < G, "owner-order", "rank " << r << " does not keep the order of its cells");
			owner[G] = r; local[G] = c;
		}
	}
	int biggest = 0;
	for(int G = 0; G < ne; G++) {
		PBT_CHECK(owner[G] >= 0, "owner-none", "cell " << G << " belongs to no rank");
		if(!scotch) { const int want = std::min(G/(ne/size), size-1); PBT_CHECK(owner[G] == want, "owner-block", "cell " << G << " on rank " << owner[G] << " not " << want); }
	}
	int nconn = 0, ninterface = 0, nbtot = 0;
	for(auto& k : em) if(k.second.size() == 2 && owner[k.second[0].first] != owner[k.second[1].first]) ninterface++;
	std::map<std::pair<int,int>, std::vector<std::array<int,3>>> ends;   // global edge -> (rank, my global cell, stored global face id)
	for(int r = 0; r < size; r++) {
		const Mesh& m = lm[r];
		biggest = std::max(biggest, (int)m.gnelem());
		std::map<int,int> l2g, g2l;
		int mconn = 0, mb = 0;
		PBT_CHECK(m.gnbtag() == g.nbtag && m.gndtag() == g.ndtag, "local-tags", "marker counts on rank " << r);
		for(int c = 0; c < m.gnelem(); c++) {
			const int G = m.gglobalElemIndex(c);
			const auto& gc = g.cells[G];
			PBT_CHECK(m.gnnode(c) == (int)gc.size() && m.gnfael(c) == (int)gc.size(), "local-cell", "type of local cell");
			for(size_t j = 0; j < gc.size(); j++) {
				const int ln = m.ginpoel(c,j);
				PBT_CHECK(ln >= 0 && ln < m.gnpoin(), "local-node", "local node out of range");
				PBT_CHECK((l2g.count(ln) == 0 || l2g[ln] == gc[j]) && (g2l.count(gc[j]) == 0 || g2l[gc[j]] == ln), "local-node", "local node numbering on rank " << r << " is not one to one");
				l2g[ln] = gc[j]; g2l[gc[j]] = ln;
				for(int d = 0; d < 2; d++) PBT_CHECK(m.gcoords(ln,d) == g.pts[gc[j]][d], "local-coords", "coordinates of a local node");
			}
			PBT_CHECK(pbt::close(m.garea(c), g.area(G), 1e-10, 1e-13), "local-area", "area of a local cell");
			for(size_t i = 0; i < gc.size(); i++) {
				const int a = gc[i], b = gc[(i+1)%gc.size()];
				const auto key = std::make_pair(std::min(a,b),std::max(a,b));
				const auto& cl = em[key];
				const int nbr = m.gesuel(c,i), f = m.gelemface(c,i);
				PBT_CHECK(f >= 0 && f < m.gnaface(), "local-elemface", "local face index");
				if(cl.size() == 1) {
					mb++;
					PBT_CHECK(nbr >= m.gnelem()+m.gnConnFace() && nbr < m.gnelem()+m.gnConnFace()+m.gnbface(), "local-bnd", "rank " << r << ": boundary face of cell " << G << " has neighbour " << nbr << " (nelem " << m.gnelem() << ", conn " << m.gnConnFace() << ")");
					PBT_CHECK(f >= m.gPhyBFaceStart() && f < m.gPhyBFaceEnd() && m.gintfac(f,0) == c && m.gintfac(f,1) == nbr, "local-bnd", "boundary face data");
					for(int t = 0; t < g.nbtag; t++) PBT_CHECK(m.gbtags(f,t) == btag[key][t], "local-btag", "marker of a local boundary face is " << m.gbtags(f,t) << " not " << btag[key][t]);
				}
				else {
					const int H = cl[0].first == G ? cl[1].first : cl[0].first;
					if(owner[H] == r) {
						PBT_CHECK(nbr == local[H], "local-nbr", "rank " << r << ": neighbour of cell " << G << " is " << nbr << " not " << local[H]);
						PBT_CHECK(f >= m.gSubDomFaceStart() && f < m.gSubDomFaceEnd(), "local-nbr", "interior face range");
						PBT_CHECK(m.gintfac(f,0) == std::min(c,local[H]) && m.gintfac(f,1) == std::max(c,local[H]), "local-nbr", "interior face cells");
					}
					else {
						mconn++;
						const int ic = nbr - m.gnelem();
						PBT_CHECK(ic >= 0 && ic < m.gnConnFace(), "conn-missing", "rank " << r << ": the face between cells " << G << " and " << H << " (rank " << owner[H] << ") is not a connectivity face (neighbour index " << nbr << ", nelem " << m.gnelem() << ", nconn " << m.gnConnFace() << ")");
						PBT_CHECK(m.gconnface(ic,0) == c && m.gconnface(ic,1) == (int)i, "conn-local", "connectivity face names the wrong local face");
						PBT_CHECK(m.gconnface(ic,2) == owner[H] && m.gconnface(ic,3) == H, "conn-remote", "connectivity face names rank " << m.gconnface(ic,2) << " cell " << m.gconnface(ic,3) << " instead of rank " << owner[H] << " cell " << H);
						PBT_CHECK(m.gconnface(ic,4) == gm.gelemface(G,i), "conn-gface", "connectivity face has the wrong global face number");
						PBT_CHECK(f == m.gConnBFaceStart()+ic && f < m.gConnBFaceEnd() && m.gintfac(f,0) == c && m.gintfac(f,1) == nbr, "conn-face", "face data of a connectivity face");
						ends[key].push_back({r,G,m.gconnface(ic,4)});
						PBT_CHECK(m.getConnectivityGlobalIndices()[ic] == H, "conn-globals", "list of remote global cells");
					}
				}
				PBT_CHECK(m.gintfac(f,0) != c || (m.gintfac(f,2) == m.ginpoel(c,i) && m.gintfac(f,3) == m.ginpoel(c,(i+1)%gc.size())), "local-orient", "node order of a local face");
			}
		}
		PBT_CHECK((int)l2g.size() == m.gnpoin(), "local-points", "rank " << r << " holds points no cell of it uses");
		PBT_CHECK(mconn == m.gnConnFace() && mb == m.gnbface(), "local-counts", "rank " << r << ": face counts");
		PBT_CHECK(m.gnaface() == m.gnbface()+m.gnConnFace()+m.gninface() && m.gDomFaceEnd()-m.gDomFaceStart() == m.gnConnFace()+m.gninface(), "local-counts", "face ranges");
		nconn += mconn; nbtot += mb;
		if(g.ndtag > 0 && s.chance(1,4)) {
			const std::string fn = pbt::scratchDir() + "/part.msh";
			m.writeGmsh2(fn);
			const MeshData d = readMesh(fn);
			for(int c = 0; c < m.gnelem(); c++) for(int t = 0; t < g.ndtag; t++)
				PBT_CHECK(d.vol_regions(c,t) == g.vtags[m.gglobalElemIndex(c)][t], "local-vtags", "volume marker of a local cell");
			unlink(fn.c_str());
		}
	}
	PBT_CHECK(nconn == 2*ninterface && nbtot == (int)g.bfs.size(), "totals", "connectivity faces " << nconn << " for " << ninterface << " cut edges; boundary faces " << nbtot);
	for(auto& e : ends) {
		PBT_CHECK(e.second.size() == 2, "conn-pair", "a cut edge is known on one side only");
		PBT_CHECK(e.second[0][2] == e.second[1][2], "conn-pair", "the two sides number a cut face differently");
	}
	s.desc << g.summary() << " into " << size << (scotch ? " by Scotch" : " blocks") << ", cut faces " << ninterface;
	s.nontrivial(ninterface > 0 && biggest >= 2);
}

int main(int argc, char *argv[]) { return pbt::engineMain(argc,argv); }
