#include "common.hpp"
#include <algorithm>
#include <set>
#include <fstream>
#include <iomanip>
#include "mesh/meshpartitioning.hpp"
#include "mesh/ameshutils.hpp"

namespace vc {
using namespace fvens;
using pbt::Src;

static double cross(const P2& a, const P2& b, const P2& c) {
	return (b[0]-a[0])*(c[1]-a[1]) - (b[1]-a[1])*(c[0]-a[0]);
}

P2 GenMesh::centre(int c) const {
	P2 r{0,0};
	for(int v : cells[c]) { r[0] += pts[v][0]; r[1] += pts[v][1]; }
	r[0] /= cells[c].size(); r[1] /= cells[c].size();
	return r;
}

double GenMesh::area(int c) const {
	const std::vector<int>& v = cells[c];
	double a = 0;
	const P2 o = pts[v[0]];
	for(size_t i = 1; i+1 < v.size(); i++) a += 0.5*cross(o, pts[v[i]], pts[v[i+1]]);
	return a;
}

double GenMesh::hmin() const {
	double h = 1e300;
	for(auto& c : cells) for(size_t i = 0; i < c.size(); i++) {
		const P2 &a = pts[c[i]], &b = pts[c[(i+1)%c.size()]];
		h = std::min(h, std::hypot(a[0]-b[0],a[1]-b[1]));
	}
	return h;
}

std::string GenMesh::summary() const {
	std::ostringstream o;
	int t = 0, q = 0; for(auto& c : cells) (c.size() == 3 ? t : q)++;
	std::set<int> tg; for(auto& b : bfs) tg.insert(b.tags[0]);
	o << "mesh{" << pts.size() << " pts, " << t << " tri, " << q << " quad, " << bfs.size() << " bfaces, " << tg.size() << " markers";
	if(cells.size() <= 4) {
		o << "; cells:";
		for(auto& c : cells) { o << "("; for(int v : c) o << v << ":" << pts[v][0] << "," << pts[v][1] << " "; o << ")"; }
	}
	o << "}";
	return o.str();
}

MeshData GenMesh::data() const {
	MeshData m;
	m.npoin = pts.size(); m.nelem = cells.size(); m.nbface = bfs.size();
	m.maxnnode = 0;
	for(auto& c : cells) { m.nnode.push_back(c.size()); m.nfael.push_back(c.size()); m.maxnnode = std::max<int>(m.maxnnode, c.size()); }
	m.maxnfael = m.maxnnode;
	m.nnofa = 2; m.nbtag = nbtag; m.ndtag = ndtag;
	m.coords.resize(m.npoin,2);
	for(int i = 0; i < m.npoin; i++) for(int j = 0; j < 2; j++) m.coords(i,j) = pts[i][j];
	m.inpoel.resize(m.nelem, m.maxnnode);
	m.inpoel.zeros();
	for(int i = 0; i < m.nelem; i++) for(size_t j = 0; j < cells[i].size(); j++) m.inpoel(i,j) = cells[i][j];
	m.bface.resize(m.nbface, 2+nbtag);
	for(int i = 0; i < m.nbface; i++) {
		m.bface(i,0) = bfs[i].a; m.bface(i,1) = bfs[i].b;
		for(int j = 0; j < nbtag; j++) m.bface(i,2+j) = bfs[i].tags[j];
	}
	m.vol_regions.resize(m.nelem, ndtag);
	for(int i = 0; i < m.nelem; i++) for(int j = 0; j < ndtag; j++) m.vol_regions(i,j) = vtags[i][j];
	return m;
}

EdgeMap edgeMap(const GenMesh& g) {
	EdgeMap e;
	for(size_t c = 0; c < g.cells.size(); c++)
		for(size_t i = 0; i < g.cells[c].size(); i++) {
			int a = g.cells[c][i], b = g.cells[c][(i+1)%g.cells[c].size()];
			e[std::make_pair(std::min(a,b),std::max(a,b))].push_back(std::make_pair((int)c,(int)i));
		}
	return e;
}

/// true if, at every node, the incident cells are connected through edges at that node, and the cells are connected
static bool manifold(const std::vector<std::vector<int>>& cells, int npts) {
	std::vector<std::vector<int>> at(npts);
	for(size_t c = 0; c < cells.size(); c++) for(int v : cells[c]) at[v].push_back(c);
	std::map<std::pair<int,int>,std::vector<int>> e;
	for(size_t c = 0; c < cells.size(); c++) for(size_t i = 0; i < cells[c].size(); i++) {
		int a = cells[c][i], b = cells[c][(i+1)%cells[c].size()];
		e[std::make_pair(std::min(a,b),std::max(a,b))].push_back(c);
	}
	std::vector<int> par(cells.size());
	std::function<int(int)> find = [&](int x) { while(par[x] != x) x = par[x] = par[par[x]]; return x; };
	for(size_t i = 0; i < par.size(); i++) par[i] = i;
	for(auto& k : e) if(k.second.size() == 2) par[find(k.second[0])] = find(k.second[1]);
	for(size_t i = 1; i < cells.size(); i++) if(find(i) != find(0)) return false;
	for(int v = 0; v < npts; v++) if(at[v].size() > 1) {
		for(int c : at[v]) par[c] = c;
		for(int c : at[v]) for(size_t i = 0; i < cells[c].size(); i++) {
			int a = cells[c][i], b = cells[c][(i+1)%cells[c].size()];
			if(a != v && b != v) continue;
			auto& k = e[std::make_pair(std::min(a,b),std::max(a,b))];
			if(k.size() == 2) par[find(k[0])] = find(k[1]);
		}
		for(int c : at[v]) if(find(c) != find(at[v][0])) return false;
	}
	return true;
}

GenMesh genMesh(pbt::Src& s, const GenOpts& o) {
	const int kind = o.kind >= 0 ? o.kind : s.irange(0,2);
	const bool ann = o.annulus && s.chance(1,4);
	const bool big = o.tail > 0 && s.chance(1,o.tailodds); if(big) s.label("large mesh");
	const int maxn = big ? o.tail : o.maxn;
	int nx = s.irange(1,maxn), ny = s.irange(1,maxn);
	const bool disc = ann && s.chance(1,4);
	if(ann) { nx = std::max(nx,4); }
	if(disc && s.chance(1,3)) nx = s.irange(7,32);
	while(nx*ny < o.mincells) { if(nx <= ny) nx++; else ny++; }
	const int npx = ann ? nx : nx+1;
	auto node = [&](int i, int j) { return j*npx + (ann ? i%nx : i); };
	const int np = npx*(ny+1);

	std::vector<std::vector<int>> quads;
	for(int j = 0; j < ny; j++) for(int i = 0; i < nx; i++)
		quads.push_back({node(i,j),node(i+1,j),node(i+1,j+1),node(i,j+1)});
	bool removed = false;
	if(o.holes && s.chance(1,3)) {
		int k = s.irange(1, std::max(1,std::min(30,(int)quads.size()/4)));
		while(k-- > 0 && (int)quads.size() > o.mincells && quads.size() > 1) {
			size_t w = s.draw(quads.size());
			std::vector<std::vector<int>> q2(quads); q2.erase(q2.begin()+w);
			if(manifold(q2,np)) { quads.swap(q2); removed = true; }
		}
	}
	// geometry
	const bool dart = o.concave && !disc && s.chance(1,3);
	const double pert = dart ? 0.8 : s.chance(3,4) ? o.perturb : 0.0;
	std::vector<P2> par(np);
	for(int j = 0; j <= ny; j++) for(int i = 0; i < npx; i++) {
		P2& q = par[node(i,j)];
		q[0] = i; q[1] = j;
		if(pert > 0 && (!dart || s.chance(1,8))) { q[0] += s.realz(-pert,pert,0); q[1] += s.realz(-pert,pert,0); }
	}
	const bool ext = o.extremes && s.chance(1,10); if(ext) s.label("very small or large mesh");
	const double sc = ext ? s.realz(std::log(1e-5), std::log(1e4), 0) : s.realz(std::log(o.scalelo), std::log(o.scalehi), 0), th = s.realz(0,6.283185,0);
	const double st = std::exp(s.realz(0,std::log(o.maxstretch),0)), sh = s.realz(-0.5,0.5,0), tl = ext ? std::exp(sc) : 1.0, tx = tl*s.realz(-2,2,0), ty = tl*s.realz(-2,2,0);
	const double r0 = 0.3 + s.realz(0,1,0.2), gr = s.realz(1.0, 1.0 + 0.3*(o.maxstretch > 1), 1.0);
	auto mapall = [&](bool perturbed) {
		std::vector<P2> x(np);
		for(int j = 0; j <= ny; j++) for(int i = 0; i < npx; i++) {
			double a = perturbed ? par[node(i,j)][0] : i, b = perturbed ? par[node(i,j)][1] : j;
			double X, Y;
			// monotone grading in the second direction
			b = gr > 1.0001 ? (std::pow(gr,b)-1)/(gr-1) : b;
			if(ann) { double t = -2*M_PI*a/nx, r = r0 + b; X = r*std::cos(t); Y = r*std::sin(t); }
			else { X = a*st; Y = b; X += sh*Y; }
			const double S = std::exp(sc);
			x[node(i,j)] = P2{ S*(std::cos(th)*X - std::sin(th)*Y) + tx, S*(std::sin(th)*X + std::cos(th)*Y) + ty };
		}
		return x;
	};
	GenMesh g;
	std::vector<P2> x = mapall(pert > 0);
	int nreent = 0;
	auto convex = [&](const std::vector<P2>& y) {
		for(auto& q : quads) {
			double h = 0;
			for(int k = 0; k < 4; k++) h = std::max(h, std::hypot(y[q[k]][0]-y[q[(k+1)%4]][0], y[q[k]][1]-y[q[(k+1)%4]][1]));
			int reent = 0;
			for(int k = 0; k < 4; k++) if(cross(y[q[k]],y[q[(k+1)%4]],y[q[(k+2)%4]]) < 0.02*h*h/(st*st)) {
				if(!dart || cross(y[q[k]],y[q[(k+1)%4]],y[q[(k+2)%4]]) > -0.005*h*h/(st*st)) return false;
				reent++;
			}
			if(reent > 1 || cross(y[q[0]],y[q[1]],y[q[2]]) + cross(y[q[0]],y[q[2]],y[q[3]]) < 0.02*h*h/(st*st)) return false;
			nreent += reent;
		}
		return true;
	};
	if(pert > 0 && !convex(x)) { x = mapall(false); s.label("perturbation-dropped"); nreent = 0; }
	if(nreent) s.label("re-entrant corners");
	// split
	std::vector<std::vector<int>> cells;
	for(auto& q : quads) {
		bool split = kind == 1 || (kind == 2 && s.chance(1,2));
		if(!split) { cells.push_back(q); continue; }
		std::vector<std::vector<int>> tr;
		bool d02 = s.chance(1,2);
		if(nreent) d02 = std::min(cross(x[q[0]],x[q[1]],x[q[2]]), cross(x[q[0]],x[q[2]],x[q[3]])) > std::min(cross(x[q[0]],x[q[1]],x[q[3]]), cross(x[q[1]],x[q[2]],x[q[3]]));
		if(d02) tr = {{q[0],q[1],q[2]},{q[0],q[2],q[3]}};
		else tr = {{q[0],q[1],q[3]},{q[1],q[2],q[3]}};
		for(auto& t : tr) {
			if(o.refineTri && s.chance(1,8)) {
				int m = x.size();
				x.push_back(P2{(x[t[0]][0]+x[t[1]][0]+x[t[2]][0])/3, (x[t[0]][1]+x[t[1]][1]+x[t[2]][1])/3});
				cells.push_back({t[0],t[1],m}); cells.push_back({t[1],t[2],m}); cells.push_back({t[2],t[0],m});
			}
			else cells.push_back(t);
		}
	}
	// fill the middle of a ring with triangles around one point, shared by many cells
	if(disc) {
		const int m = x.size();
		x.push_back(P2{tx,ty});
		for(int i = 0; i < nx; i++) cells.push_back({node(i,0),node(i+1,0),m});
	}
	// Orient counter-clockwise
	for(auto& c : cells) {
		double A = 0; for(size_t i = 1; i+1 < c.size(); i++) A += cross(x[c[0]],x[c[i]],x[c[i+1]]);
		if(A < 0) std::reverse(c.begin(),c.end());
	}
	// drop unused nodes
	std::vector<int> nmap(x.size(),-1); int cnt = 0;
	std::vector<char> usedn(x.size(),0);
	for(auto& c : cells) for(int v : c) usedn[v] = 1;
	for(size_t i = 0; i < x.size(); i++) if(usedn[i]) nmap[i] = cnt++;
	// renumber
	const bool ren = o.renumber && s.chance(3,4);
	std::vector<int> np_perm = ren ? s.perm(cnt) : std::vector<int>();
	for(size_t i = 0; i < x.size(); i++) if(nmap[i] >= 0 && ren) nmap[i] = np_perm[nmap[i]];
	g.pts.resize(cnt);
	for(size_t i = 0; i < x.size(); i++) if(nmap[i] >= 0) g.pts[nmap[i]] = x[i];
	for(auto& c : cells) for(int& v : c) v = nmap[v];
	if(ren) {
		std::vector<int> cp = s.perm(cells.size());
		g.cells.resize(cells.size());
		for(size_t i = 0; i < cells.size(); i++) {
			std::vector<int> c = cells[i];
			std::rotate(c.begin(), c.begin()+s.draw(c.size()), c.end());
			g.cells[cp[i]] = c;
		}
	}
	else g.cells = cells;
	// boundary
	g.nbtag = s.irange(1,o.nbtagmax); g.ndtag = s.irange(0,o.ndtagmax);
	const int ntags = s.irange(1,o.maxtags);
	EdgeMap e = edgeMap(g);
	for(auto& k : e) if(k.second.size() == 1) {
		GenMesh::BF b;
		int c = k.second[0].first, l = k.second[0].second;
		b.a = g.cells[c][l]; b.b = g.cells[c][(l+1)%g.cells[c].size()];
		if(ren && s.chance(1,3)) std::swap(b.a,b.b);
		for(int t = 0; t < g.nbtag; t++) b.tags.push_back(t == 0 ? 1+(int)s.draw(ntags) : (int)s.draw(5));
		g.bfs.push_back(b);
	}
	if(ren) {
		std::vector<int> bp = s.perm(g.bfs.size());
		std::vector<GenMesh::BF> b2(g.bfs.size());
		for(size_t i = 0; i < bp.size(); i++) b2[bp[i]] = g.bfs[i];
		g.bfs = b2;
	}
	g.vtags.resize(g.cells.size());
	for(auto& v : g.vtags) for(int t = 0; t < g.ndtag; t++) v.push_back(1 + (int)s.draw(4));
	s.label(kind == 0 ? "quads" : kind == 1 ? "tris" : "hybrid");
	if(ann) s.label(disc ? "disc" : "annulus");
	if(disc && nx > 12) s.label("point with many cells");
	if(removed) s.label("holes");
	if(ren) s.label("renumbered");
	return g;
}

UMesh<freal,2> buildRaw(const GenMesh& g) {
	UMesh<freal,2> m(g.data());
	m.correctBoundaryFaceOrientation();
	m.compute_topological();
	m.compute_areas();
	m.compute_face_data();
	return m;
}

UMesh<freal,2> buildMesh(const GenMesh& g) {
	UMesh<freal,2> gm(g.data());
	gm.correctBoundaryFaceOrientation();
	gm.compute_topological();
	TrivialReplicatedGlobalMeshPartitioner p(gm);
	p.compute_partition();
	UMesh<freal,2> lm = p.restrictMeshToPartitions();
	int ierr = preprocessMesh<freal>(lm);
	if(ierr) throw std::runtime_error("preprocessMesh failed");
	return lm;
}

V4 fromPrim(double g, double r, double u, double v, double p) {
	return V4{r, r*u, r*v, p/(g-1) + 0.5*r*(u*u+v*v)};
}
double pressure(double g, const V4& u) { return (g-1)*(u[3] - 0.5*(u[1]*u[1]+u[2]*u[2])/u[0]); }

V4 genState(pbt::Src& s, double g, const StateOpts& o) {
	const double r = std::exp(s.realz(std::log(o.rlo),std::log(o.rhi),0));
	const double p = std::exp(s.realz(std::log(o.plo),std::log(o.phi),0));
	const double c = std::sqrt(g*p/r);
	const double M = s.realz(0,o.machmax,0), a = s.realz(-M_PI,M_PI,0);
	return fromPrim(g, r, M*c*std::cos(a), M*c*std::sin(a), p);
}

P2 genNormal(pbt::Src& s) {
	switch(s.irange(0,5)) {
		case 0: return P2{1,0};
		case 1: return P2{0,1};
		case 2: return P2{-1,0};
		default: { double t = s.real(-M_PI,M_PI); return P2{std::cos(t),std::sin(t)}; }
	}
}

V4 eulerFlux(double g, const V4& u, const P2& n) {
	const double vn = (u[1]*n[0]+u[2]*n[1])/u[0], p = pressure(g,u);
	return V4{u[0]*vn, u[1]*vn+p*n[0], u[2]*vn+p*n[1], (u[3]+p)*vn};
}

std::string str(const V4& v) {
	std::ostringstream o; o.precision(10); o << "(" << v[0] << "," << v[1] << "," << v[2] << "," << v[3] << ")"; return o.str();
}
std::string str(const P2& v) {
	std::ostringstream o; o.precision(10); o << "(" << v[0] << "," << v[1] << ")"; return o.str();
}
void putGmsh(Src& s, const GenMesh& g, const std::string& fn) {
	std::ofstream f(fn); f << std::setprecision(17);
	const int style = s.irange(0,2);
	if(style == 1) f << std::scientific;
	const char *sep = style == 2 ? "  " : " ";
	f << "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n" << g.pts.size() << "\n";
	for(size_t i = 0; i < g.pts.size(); i++) f << i+1 << sep << g.pts[i][0] << sep << g.pts[i][1] << sep << 0 << "\n";
	f << "$EndNodes\n$Elements\n" << g.cells.size()+g.bfs.size() << "\n";
	int k = 1;
	for(auto& b : g.bfs) { f << k++ << " 1 " << g.nbtag; for(int t : b.tags) f << sep << t; f << sep << b.a+1 << sep << b.b+1 << "\n"; }
	for(size_t c = 0; c < g.cells.size(); c++) {
		f << k++ << " " << (g.cells[c].size() == 3 ? 2 : 3) << " " << g.ndtag;
		for(int t : g.vtags[c]) f << sep << t;
		for(int v : g.cells[c]) f << sep << v+1;
		f << "\n";
	}
	f << "$EndElements\n";
}

void putSU2(Src& s, const GenMesh& g, const std::string& fn) {
	std::ofstream f(fn); f << std::setprecision(17);
	const char *sep = s.chance(1,3) ? "\t" : " ";
	f << "NDIME= 2\nNELEM= " << g.cells.size() << "\n";
	for(size_t c = 0; c < g.cells.size(); c++) {
		f << (g.cells[c].size() == 3 ? 5 : 9);
		for(int v : g.cells[c]) f << sep << v;
		f << sep << c << "\n";
	}
	f << "NPOIN= " << g.pts.size() << "\n";
	for(size_t i = 0; i < g.pts.size(); i++) f << g.pts[i][0] << sep << g.pts[i][1] << sep << i << "\n";
	std::map<int,std::vector<const GenMesh::BF*>> mk;
	for(auto& b : g.bfs) mk[b.tags[0]].push_back(&b);
	f << "NMARK= " << mk.size() << "\n";
	for(auto& k : mk) {
		f << "MARKER_TAG= " << k.first << "\nMARKER_ELEMS= " << k.second.size() << "\n";
		for(auto *b : k.second) f << 3 << sep << b->a << sep << b->b << "\n";
	}
}

}
