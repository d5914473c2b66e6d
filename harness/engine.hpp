/* Property-based testing engine used by every check in /verif.
 *
 * A case is a finite sequence of integer choices (as in Hypothesis): the generators below draw from it,
 * so shrinking the sequence shrinks the case, and the sequence written to a file is the replay.
 * All randomness of a run is a pure function of VERIF_SEED, the relation's name and the case's index.
 */
#ifndef VERIF_ENGINE_HPP
#define VERIF_ENGINE_HPP
#include <cstdint>
#include <cmath>
#include <string>
#include <vector>
#include <sstream>
#include <set>
#include <map>
#include <functional>
#include <stdexcept>
#include <initializer_list>

namespace pbt {

struct Fail {
	std::string tag, msg;
};

class Src {
public:
	explicit Src(uint64_t seed) : state(seed), replaying(false) {}
	explicit Src(const std::vector<uint64_t>& r) : state(0), replaying(true), rep(r) {}
	/// integer in [0,n)
	uint64_t draw(uint64_t n);
	/// integer in [lo,hi], simplest value lo
	int irange(int lo, int hi) { return lo + (int)draw((uint64_t)(hi-lo)+1); }
	/// true with probability num/den; simplest value false
	bool chance(int num, int den) { return (int)draw(den) >= den-num; }
	/// real in [lo,hi], each end about once in seventy draws; simplest value lo
	double real(double lo, double hi) { const uint64_t N=1u<<30, e=N/64, k=draw(N+2*e); return k<e ? lo : k>=N+e ? hi : lo + (hi-lo)*(double)(k-e)/(double)(N-1); }
	/// real in [lo,hi]; simplest value s
	double realz(double lo, double hi, double s);
	/// log-uniform real in [lo,hi]
	double logreal(double lo, double hi) { return lo*std::exp(std::log(hi/lo)*real(0,1)); }
	template <typename T> T pick(std::initializer_list<T> l) {
		return *(l.begin() + draw(l.size()));
	}
	template <typename T> const T& pickv(const std::vector<T>& l) { return l[draw(l.size())]; }
	/// permutation of 0..n-1; identity is the simplest
	std::vector<int> perm(int n);
	/// names a class the case belongs to (counted and reported)
	void label(const std::string& l) { labels.insert(l); }
	/// marks the case as non-trivial (by the relation's rule)
	void nontrivial(bool b = true) { nontriv = nontriv || b; }
	/// description of the case, for samples and failure reports
	std::ostringstream desc;

	std::vector<uint64_t> used;
	std::set<std::string> labels;
	bool nontriv = false;
private:
	uint64_t state;
	bool replaying;
	std::vector<uint64_t> rep;
	size_t pos = 0;
};

/// Reports a failure that may be a recorded defect: if it is listed in known_findings.txt for the running relation the
/// case goes on (and the hit is reported), otherwise the case fails
void finding(Src& s, const std::string& tag, const std::string& msg);

[[noreturn]] void fail(const std::string& tag, const std::string& msg);

#define PBT_CHECK(cond, tag, streamexpr) do { if(!(cond)) { std::ostringstream _o; _o.precision(17); \
	_o << streamexpr; ::pbt::fail(tag, _o.str()); } } while(0)

/// |a-b| <= atol + rtol*max(|a|,|b|), false for NaNs
bool close(double a, double b, double rtol, double atol);

typedef void (*Fn)(Src&);

struct Rel {
	std::string prop, name;
	Fn fn;
	int nquick, nthorough;
	std::string rule;            ///< What makes a case nontrivial
	std::vector<int> ranks;      ///< If nonempty, an MPI relation; run with each of these rank counts
};

std::vector<Rel>& registry();

struct Reg {
	Reg(const char *prop, const char *name, Fn fn, int nq, int nt, const char *rule,
	    std::vector<int> ranks = std::vector<int>())
	{ registry().push_back(Rel{prop,name,fn,nq,nt,rule,ranks}); }
};

#define PBT_CAT2(a,b) a##b
#define PBT_CAT(a,b) PBT_CAT2(a,b)
#define RELATION(prop,name,nq,nt,rule) \
	static void rel_##prop##_##name(::pbt::Src& s); \
	static ::pbt::Reg reg_##prop##_##name(#prop,#name,rel_##prop##_##name,nq,nt,rule); \
	static void rel_##prop##_##name(::pbt::Src& s)
#define MPI_RELATION(prop,name,nq,nt,rule,...) \
	static void rel_##prop##_##name(::pbt::Src& s); \
	static ::pbt::Reg reg_##prop##_##name(#prop,#name,rel_##prop##_##name,nq,nt,rule,std::vector<int>{__VA_ARGS__}); \
	static void rel_##prop##_##name(::pbt::Src& s)

/// A scratch directory private to this process, removed at exit of the run
std::string scratchDir();

bool thorough();

int engineMain(int argc, char *argv[]);

}
#endif
