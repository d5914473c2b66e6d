#include "engine.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <fstream>
#include <algorithm>
#include <chrono>
#include <unordered_set>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <poll.h>
#include <dirent.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <mpi.h>
#include <petscsys.h>

namespace pbt {

typedef std::chrono::steady_clock Clock;
static double since(Clock::time_point t) { return std::chrono::duration<double>(Clock::now()-t).count(); }

static uint64_t splitmix(uint64_t& s) {
	uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}

static uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) {
	const unsigned char *c = (const unsigned char*)p;
	for(size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
	return h;
}

static const size_t MIRROR_CAP = 1u<<20;
static uint64_t *g_mirror = nullptr;
static void mapMirror(const std::string& f) {
	int fd = open(f.c_str(), O_RDWR);
	if(fd < 0) return;
	void *p = mmap(nullptr, 8*(MIRROR_CAP+1), PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
	::close(fd);
	if(p != MAP_FAILED) g_mirror = (uint64_t*)p;
}

uint64_t Src::draw(uint64_t n) {
	if(n == 0) n = 1;
	uint64_t v;
	if(replaying) {
		v = pos < rep.size() ? rep[pos] : 0;
		pos++;
		if(v >= n) v = n-1;
	}
	else
		v = n == 1 ? 0 : splitmix(state) % n;
	if(g_mirror && used.size() < MIRROR_CAP) { g_mirror[1+used.size()] = v; g_mirror[0] = used.size()+1; }
	used.push_back(v);
	return v;
}

double Src::realz(double lo, double hi, double s) {
	// the special value comes up once in about seventeen draws, and is what a failure shrinks to; each end once in seventy
	const uint64_t N = 1u<<30, z = N/16, e = N/64, k = draw(N+z+2*e);
	if(k < z) return s;
	return k < z+e ? lo : k >= z+N+e ? hi : lo + (hi-lo)*(double)(k-z-e)/(double)(N-1);
}

std::vector<int> Src::perm(int n) {
	std::vector<int> p(n);
	for(int i = 0; i < n; i++) p[i] = i;
	for(int i = 0; i+1 < n; i++)
		std::swap(p[i], p[i + (int)draw(n-i)]);
	return p;
}

void fail(const std::string& tag, const std::string& msg) { throw Fail{tag,msg}; }

bool close(double a, double b, double rtol, double atol) {
	if(!(std::isfinite(a) && std::isfinite(b))) return false;
	return std::fabs(a-b) <= atol + rtol*std::max(std::fabs(a),std::fabs(b));
}

std::vector<Rel>& registry() { static std::vector<Rel> r; return r; }

static bool g_thorough = false;
bool thorough() { return g_thorough; }

static std::string g_scratch;
static std::string g_outdir = "/verif/build";
static std::string g_self;
static uint64_t g_seed = 1;
static std::string g_tier = "quick";

std::string scratchDir() {
	static std::string mine; static pid_t owner = 0;
	if(owner != getpid()) {
		owner = getpid();
		mine = g_scratch + "/p" + std::to_string(owner);
		mkdir(mine.c_str(), 0755);
	}
	return mine;
}

static void rmtree(const std::string& d) {
	// only ever called with the scratch directory this run created
	DIR *dd = opendir(d.c_str());
	if(dd) {
		while(dirent *e = readdir(dd)) {
			std::string n = e->d_name;
			if(n == "." || n == "..") continue;
			std::string f = d + "/" + n;
			struct stat st;
			if(lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rmtree(f);
			else unlink(f.c_str());
		}
		closedir(dd);
	}
	rmdir(d.c_str());
}

static uint64_t caseSeed(const Rel& r, int nranks, long idx) {
	std::string k = r.prop + ":" + r.name + ":" + std::to_string(nranks);
	uint64_t h = fnv(k.data(), k.size());
	uint64_t s = g_seed*0x9e3779b97f4a7c15ULL ^ h;
	splitmix(s); s ^= (uint64_t)idx*0xd1342543de82ef95ULL;
	return splitmix(s);
}

struct Outcome { bool failed = false; std::string tag, msg, desc; bool crash = false; };

static const Rel *g_rel = nullptr;
static bool isKnown(const Rel& r, const std::string& tag);
void finding(Src& s, const std::string& tag, const std::string& msg) {
	if(g_rel && isKnown(*g_rel, tag)) s.label("KNOWN=" + tag);
	else fail(tag, msg);
}

/// Runs one case in this process
static Outcome runInProcess(const Rel& r, Src& s) {
	Outcome o; g_rel = &r;
	try { r.fn(s); }
	catch(const Fail& f) { o.failed = true; o.tag = f.tag; o.msg = f.msg; }
	catch(const std::exception& e) { o.failed = true; o.tag = "exception"; o.msg = std::string("unexpected exception: ") + e.what(); }
	catch(...) { o.failed = true; o.tag = "exception"; o.msg = "unexpected exception of unknown type"; }
	o.desc = s.desc.str();
	return o;
}

static std::string clean(std::string s, size_t maxn = 4000) {
	for(char& c : s) if(c == '\n' || c == '\t' || c == '\r') c = ' ';
	if(s.size() > maxn) { s.resize(maxn); s += "..."; }
	return s;
}

static void writeAll(int fd, const std::string& s) {
	size_t n = 0;
	while(n < s.size()) {
		ssize_t k = write(fd, s.data()+n, s.size()-n);
		if(k <= 0) { if(errno == EINTR) continue; return; }
		n += k;
	}
}

static void quietStdio(const std::string& logf) {
	int nul = open("/dev/null", O_WRONLY);
	int lg = open(logf.c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0644);
	dup2(nul, 1); dup2(lg >= 0 ? lg : nul, 2);
	::close(nul); if(lg >= 0) ::close(lg);
}

static const int CPU_LIMIT_S = 120;
static const int WALL_LIMIT_S = 240;

static void armCpu() {
	struct itimerval it; memset(&it,0,sizeof it);
	it.it_value.tv_sec = CPU_LIMIT_S;
	setitimer(ITIMER_PROF, &it, nullptr);
}

static std::string describeStatus(int st, const std::string& logf) {
	std::ostringstream o;
	if(WIFSIGNALED(st)) {
		if(WTERMSIG(st) == SIGPROF) o << "case did not terminate within " << CPU_LIMIT_S << " s of CPU time";
		else o << "killed by signal " << WTERMSIG(st);
	}
	else o << "process exited with status " << WEXITSTATUS(st) << " in the middle of the case";
	std::ifstream f(logf);
	std::string line; int k = 0;
	std::vector<std::string> keep;
	while(std::getline(f,line) && k < 400) {
		if(line.find("ERROR: AddressSanitizer") != std::string::npos || line.find("runtime error") != std::string::npos
		   || line.find("Assertion") != std::string::npos || line.find("SUMMARY") != std::string::npos
		   || line.find("ThreadSanitizer") != std::string::npos || (line.find("    #0 ") != std::string::npos && keep.size() < 6) || line.find("PETSC ERROR") != std::string::npos)
			keep.push_back(line);
		k++;
	}
	for(size_t i = 0; i < keep.size() && i < 6; i++) o << " | " << keep[i];
	return o.str();
}

/* ThreadSanitizer ignores everything in the child of a process with threads, and MPI has threads: checks under it define
 * pbt_late_init, and initialise MPI in the children only. */
extern "C" int pbt_late_init __attribute__((weak));
static bool lateInit() { return &pbt_late_init != nullptr; }
static void petscStart() { PetscInitialize(nullptr,nullptr,nullptr,nullptr); PetscPopSignalHandler(); }

/// A case to run: the choices it makes, or (idx >= 0) the seeded case of that number
struct Case { long idx; std::vector<uint64_t> ch; };
/// Cases run one after another in one process: a history. Nearly always of one case; of more when the failure needs what earlier
/// cases left behind in the code under test (static or cached state)
typedef std::vector<Case> History;

/// Runs a history in a forked child (crashes are contained), up to its first failure; usedout: choices made by the last case run
static Outcome runForkedOnce(const Rel& r, const History& hist, std::vector<uint64_t> *usedout, bool& started) {
	int p[2];
	if(pipe(p) != 0) { perror("pipe"); exit(3); }
	const std::string logf = g_scratch + "/shrink.log";
	fflush(stdout); std::cout.flush();
	pid_t pid = fork();
	if(pid < 0) { perror("fork"); exit(3); }
	if(pid == 0) {
		::close(p[0]);
		quietStdio(logf);
		if(lateInit()) { petscStart(); writeAll(p[1],"\001"); }
		Outcome o; std::vector<uint64_t> used;
		for(const Case& c : hist) {
			armCpu();
			Src s = c.idx >= 0 ? Src(caseSeed(r,0,c.idx)) : Src(c.ch);
			o = runInProcess(r, s);
			used = s.used;
			if(o.failed && !isKnown(r,o.tag)) break;
		}
		std::ostringstream m;
		m << (o.failed ? "F" : "P") << "\t" << clean(o.tag) << "\t" << clean(o.msg) << "\t" << clean(o.desc,20000) << "\t";
		for(uint64_t u : used) m << u << " ";
		m << "\n";
		writeAll(p[1], m.str());
		::close(p[1]);
		_exit(0);
	}
	::close(p[1]);
	std::string buf; char tmp[65536];
	Clock::time_point t0 = Clock::now();
	bool hung = false;
	while(true) {
		struct pollfd pf = {p[0], POLLIN, 0};
		int k = poll(&pf, 1, 1000);
		if(k > 0) {
			ssize_t n = read(p[0], tmp, sizeof tmp);
			if(n > 0) buf.append(tmp, n); else if(n == 0) break; else if(errno != EINTR) break;
		}
		if(since(t0) > WALL_LIMIT_S) { kill(pid, SIGKILL); hung = true; break; }
	}
	::close(p[0]);
	int st = 0; waitpid(pid, &st, 0);
	Outcome o;
	started = !lateInit() || (!buf.empty() && buf[0] == 1);
	if(lateInit() && started) buf.erase(0,1);
	if(buf.empty() || buf.back() != '\n') {
		o.failed = true; o.crash = true; o.tag = hung ? "hang" : "crash";
		o.msg = hung ? "case made no progress (deadlock)" : describeStatus(st, logf);
		if(usedout) *usedout = hist.back().ch;
		return o;
	}
	std::vector<std::string> f; std::string cur;
	for(char c : buf) { if(c == '\t' || c == '\n') { f.push_back(cur); cur.clear(); } else cur += c; }
	while(f.size() < 5) f.push_back("");
	o.failed = f[0] == "F"; o.tag = f[1]; o.msg = f[2]; o.desc = f[3];
	if(usedout) { usedout->clear(); std::istringstream is(f[4]); uint64_t u; while(is >> u) usedout->push_back(u); }
	return o;
}

static Outcome runForked(const Rel& r, const History& hist, std::vector<uint64_t> *usedout = nullptr) {
	Outcome o; bool started = false;
	for(int t = 0; t < 6 && !started; t++) o = runForkedOnce(r,hist,usedout,started);
	return o;
}

// ---------------------------------------------------------------- MPI relations

struct MpiJob { int nranks; long from, to; std::string choicefile; };
struct MpiResult { bool ok = true; long failidx = -1; Outcome o; std::string stats; };

static MpiResult runMpi(const Rel& r, const MpiJob& j, double wall) {
	MpiResult res;
	const std::string prog = g_scratch + "/mpi.progress";
	const std::string logf = g_scratch + "/mpi.log";
	unlink(prog.c_str());
	pid_t pid = fork();
	if(pid < 0) { perror("fork"); exit(3); }
	if(pid == 0) {
		setpgid(0,0);
		quietStdio(logf);
		std::vector<std::string> a = {"mpirun","-q","-n",std::to_string(j.nranks), g_self, "--mpiworker", "--prop", r.prop, "--rel", r.name,
			"--progress", prog, "--from", std::to_string(j.from), "--to", std::to_string(j.to),
			"--scratch", g_scratch, "--seed", std::to_string(g_seed), "--tier", g_tier };
		if(!j.choicefile.empty()) { a.push_back("--choices"); a.push_back(j.choicefile); }
		std::vector<char*> av; for(auto& x : a) av.push_back(const_cast<char*>(x.c_str()));
		av.push_back(nullptr);
		// mpirun must not inherit the MPI environment of this (singleton) process
		std::vector<std::string> del;
		for(char **e = environ; *e; e++) {
			std::string s = *e; s = s.substr(0, s.find('='));
			if(s.compare(0,5,"PMIX_") == 0 || s.compare(0,9,"OMPI_COMM") == 0 || s.compare(0,9,"OMPI_MCA_") == 0
			   || s.compare(0,13,"OMPI_UNIVERSE") == 0)
				del.push_back(s);
		}
		for(auto& s : del) unsetenv(s.c_str());
		setenv("OMPI_MCA_rmaps_base_oversubscribe","1",1);
		setenv("OMPI_MCA_hwloc_base_binding_policy","none",1);
		setenv("OMPI_MCA_plm","isolated",1);
		setenv("OMPI_MCA_btl","self,vader",1);
		setenv("OMPI_MCA_btl_vader_single_copy_mechanism","none",1);
		setenv("OMPI_MCA_mpi_yield_when_idle","1",1);
		// nearly every message waits for its receiver, as large ones do
		setenv("OMPI_MCA_btl_vader_eager_limit","96",1);
		// job data over sockets: the shared-memory store leaves files in /tmp and clashes with ThreadSanitizer
		setenv("PMIX_MCA_gds","hash",1);
		setenv("OMP_NUM_THREADS","1",1);
		execvp("mpirun", av.data());
		_exit(127);
	}
	// Watchdog on progress
	Clock::time_point last = Clock::now(); long lastsz = -1; int st = 0; bool hung = false;
	while(true) {
		pid_t w = waitpid(pid, &st, WNOHANG);
		if(w == pid) break;
		struct stat sb; long sz = stat(prog.c_str(), &sb) == 0 ? (long)sb.st_size : 0;
		if(sz != lastsz) { lastsz = sz; last = Clock::now(); }
		if(since(last) > wall) { hung = true; kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid,&st,0); break; }
		usleep(20000);
	}
	std::ifstream f(prog);
	std::string line; long cur = j.from-1; bool ended = false;
	while(std::getline(f,line)) {
		if(line.empty()) continue;
		if(line[0] == 'S') cur = atol(line.c_str()+2);
		else if(line[0] == 'E') ended = true;
		else if(line[0] == 'C') { res.stats += line; res.stats += "\n"; }
		else if(line[0] == 'F') {
			res.ok = false;
			std::vector<std::string> p; std::string c;
			for(char x : line) { if(x == '\t') { p.push_back(c); c.clear(); } else c += x; }
			p.push_back(c); while(p.size() < 5) p.push_back("");
			res.failidx = atol(p[1].c_str()); res.o.failed = true; res.o.tag = p[2]; res.o.msg = p[3]; res.o.desc = p[4];
		}
	}
	if(res.ok && !ended) {
		res.ok = false; res.failidx = cur; res.o.failed = true; res.o.crash = true; res.o.tag = hung ? "hang" : "crash";
		res.o.msg = hung ? "MPI case made no progress (deadlock)" : describeStatus(st, logf);
	}
	return res;
}

static int mpiWorker(const Rel& r, const std::string& prog, long from, long to, const std::string& choicefile) {
	int rank, size; MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &size);
	if(rank == 0 && getenv("VERIF_MIRROR")) mapMirror(getenv("VERIF_MIRROR"));
	FILE *pf = rank == 0 ? fopen(prog.c_str(), "a") : nullptr;
	History hist;
	if(!choicefile.empty()) {
		std::ifstream f(choicefile); std::string line;
		while(std::getline(f,line)) { std::istringstream is(line); Case c; is >> c.idx; uint64_t u; while(is >> u) c.ch.push_back(u); hist.push_back(c); }
		from = 0; to = hist.size();
	}
	for(long i = from; i < to; i++) {
		if(pf) { fprintf(pf, "S %ld\n", i); fflush(pf); }
		const bool chosen = !hist.empty() && hist[i].idx < 0;
		Src s = chosen ? Src(hist[i].ch) : Src(caseSeed(r,size,hist.empty() ? i : hist[i].idx));
		MPI_Barrier(MPI_COMM_WORLD);
		Outcome o = runInProcess(r, s);
		if(o.failed && !(!hist.empty() && i+1 < to && isKnown(r,o.tag))) {
			// a failure on any rank ends the job: write it from the failing rank
			FILE *ff = fopen(prog.c_str(), "a");
			fprintf(ff, "F\t%ld\t%s\t%s\t%s\n", i, clean(o.tag).c_str(), clean("rank "+std::to_string(rank)+": "+o.msg).c_str(), clean(o.desc,20000).c_str());
			fclose(ff);
			usleep(100000);
			MPI_Abort(MPI_COMM_WORLD, 5);
		}
		MPI_Barrier(MPI_COMM_WORLD);
		if(pf) {
			uint64_t h = fnv(s.used.data(), s.used.size()*8, 1469598103934665603ULL+size);
			std::string l; for(auto& x : s.labels) l += x + ",";
			fprintf(pf, "C\t%ld\t%llu\t%d\t%s\t%s\n", i, (unsigned long long)h, (int)s.nontriv, l.c_str(), clean(o.desc,600).c_str());
			fflush(pf);
		}
	}
	MPI_Barrier(MPI_COMM_WORLD);
	if(pf) { fprintf(pf, "E\n"); fclose(pf); }
	return 0;
}

// ---------------------------------------------------------------- known findings

static std::map<std::string,std::string> g_known;   // "prop rel tag" -> text
static void loadKnown() {
	std::ifstream f("/verif/known_findings.txt");
	std::string line;
	while(std::getline(f,line)) {
		// format: known: property=<id> relation=<rel> tag=<tag> <what fails>
		if(line.compare(0,7,"known: ") != 0) continue;
		std::istringstream is(line.substr(7)); std::string a,b,c; is >> a >> b >> c; std::string rest; std::getline(is,rest);
		g_known[a.substr(9)+" "+b.substr(9)+" "+c.substr(4)] = rest;
	}
}
static std::set<std::string> g_knownhit;
static bool isKnown(const Rel& r, const std::string& tag) {
	std::string k = r.prop+" "+r.name+" "+tag;
	return g_known.count(k) > 0;
}

// ---------------------------------------------------------------- running a relation

struct Stats {
	long evaluations = 0, crashes = 0;
	std::unordered_set<uint64_t> nontriv;
	std::map<std::string,long> labels;
	std::vector<std::string> samples;
	std::map<std::string,long> perrel, knownhits;
	std::string rules;
};

static void absorb(Stats& S, const Rel& r, const std::string& line) {
	std::vector<std::string> p; std::string c;
	for(char x : line) { if(x == '\t') { p.push_back(c); c.clear(); } else c += x; }
	p.push_back(c);
	if(p.size() < 6) return;
	S.evaluations++; S.perrel[r.name]++;
	if(p[3] == "1") S.nontriv.insert(strtoull(p[2].c_str(),nullptr,10) ^ fnv(r.name.data(), r.name.size()));
	std::istringstream is(p[4]); std::string l; while(std::getline(is,l,',')) if(!l.empty()) {
		S.labels[r.name+":"+l]++;
		if(l.compare(0,6,"KNOWN=") == 0) { S.knownhits[r.name+" "+l.substr(6)]++; g_knownhit.insert(r.prop+" "+r.name+" "+l.substr(6)); }
	}
	if(!p[5].empty()) {
		std::string smp = r.name + " #" + p[1] + ": " + p[5];
		long k = 0; for(auto& s : S.samples) if(s.compare(0,r.name.size()+2,r.name+" #") == 0) k++;
		if(k < 2 && p[3] == "1") S.samples.push_back(smp);
	}
}

struct Failure { long idx; int nranks; Outcome o; std::vector<long> before; /* seeded cases run earlier in the same process */ };

static int nworkers() {
	long n = sysconf(_SC_NPROCESSORS_ONLN);
	const char *e = getenv("VERIF_WORKERS");
	if(e) n = atol(e);
	return (int)std::max(1L, std::min(n, 16L));
}

static bool runSerialRel(const Rel& r, long ncases, double wallcap, Stats& S, Failure& F) {
	const int W = (int)std::min<long>(nworkers(), ncases);
	struct WK { pid_t pid; int fd; std::string buf; long next; bool done; long start; Clock::time_point last; long lastidx; };
	volatile long *shm = (volatile long*)mmap(nullptr, sizeof(long)*64, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	std::vector<WK> wk(W);
	Clock::time_point t0 = Clock::now();
	bool havefail = false;
	auto spawn = [&](int w) {
		int p[2]; if(pipe(p) != 0) { perror("pipe"); exit(3); }
		shm[w] = -1;
		fflush(stdout); std::cout.flush();
		pid_t pid = fork();
		if(pid < 0) { perror("fork"); exit(3); }
		if(pid == 0) {
			::close(p[0]);
			for(int v = 0; v < W; v++) if(v != w && wk[v].fd >= 0) ::close(wk[v].fd);
			quietStdio(g_scratch + "/worker" + std::to_string(w) + ".log");
			if(lateInit()) { petscStart(); shm[w] = -2; }
			for(long i = wk[w].next; i < ncases; i += W) {
				shm[w] = i;
				armCpu();
				Src s(caseSeed(r,0,i));
				Outcome o = runInProcess(r, s);
				uint64_t h = fnv(s.used.data(), s.used.size()*8);
				std::ostringstream m;
				if(o.failed) m << "F\t" << i << "\t" << clean(o.tag) << "\t" << clean(o.msg) << "\t" << clean(o.desc,20000) << "\n";
				else {
					m << "C\t" << i << "\t" << h << "\t" << (int)s.nontriv << "\t";
					for(auto& x : s.labels) m << x << ",";
					m << "\t" << (i < 200 ? clean(o.desc,600) : std::string()) << "\n";
				}
				writeAll(p[1], m.str());
			}
			writeAll(p[1], "E\n");
			::close(p[1]);
			_exit(0);
		}
		::close(p[1]);
		wk[w].pid = pid; wk[w].fd = p[0]; wk[w].buf.clear(); wk[w].done = false; wk[w].last = Clock::now(); wk[w].lastidx = -1; wk[w].start = wk[w].next;
	};
	for(int w = 0; w < W; w++) { wk[w].fd = -1; wk[w].next = w; }
	for(int w = 0; w < W; w++) spawn(w);
	auto killall = [&]() {
		for(auto& k : wk) if(k.fd >= 0) { kill(k.pid, SIGKILL); int st; waitpid(k.pid,&st,0); ::close(k.fd); k.fd = -1; }
	};
	auto record = [&](int w, long idx, const Outcome& o) {
		if(isKnown(r,o.tag)) { S.knownhits[r.name+" "+o.tag]++; g_knownhit.insert(r.prop+" "+r.name+" "+o.tag); S.evaluations++; return; }
		if(!havefail || idx < F.idx) { F.idx = idx; F.nranks = 0; F.o = o; F.before.clear(); for(long i = wk[w].start; i < idx; i += W) F.before.push_back(i); }
		havefail = true;
	};
	while(true) {
		std::vector<pollfd> pf; std::vector<int> who;
		for(int w = 0; w < W; w++) if(wk[w].fd >= 0) { pf.push_back({wk[w].fd,POLLIN,0}); who.push_back(w); }
		if(pf.empty()) break;
		poll(pf.data(), pf.size(), 500);
		for(size_t q = 0; q < pf.size(); q++) {
			WK& k = wk[who[q]];
			if(shm[who[q]] != k.lastidx) { k.lastidx = shm[who[q]]; k.last = Clock::now(); }
			bool eof = false;
			if(pf[q].revents) {
				char tmp[65536]; ssize_t n = read(k.fd, tmp, sizeof tmp);
				if(n > 0) k.buf.append(tmp,n); else if(n == 0 || errno != EINTR) eof = true;
				size_t e;
				while((e = k.buf.find('\n')) != std::string::npos) {
					std::string line = k.buf.substr(0,e); k.buf.erase(0,e+1);
					if(line[0] == 'E') k.done = true;
					else if(line[0] == 'C') absorb(S, r, line);
					else if(line[0] == 'F') {
						std::vector<std::string> p; std::string c;
						for(char x : line) { if(x == '\t') { p.push_back(c); c.clear(); } else c += x; }
						p.push_back(c); while(p.size() < 5) p.push_back("");
						Outcome o; o.failed = true; o.tag = p[2]; o.msg = p[3]; o.desc = p[4];
						record(who[q], atol(p[1].c_str()), o);
					}
				}
			}
			bool hung = false;
			if(!eof && since(k.last) > WALL_LIMIT_S) { kill(k.pid,SIGKILL); eof = true; hung = true; }
			if(eof) {
				int st = 0; waitpid(k.pid,&st,0); ::close(k.fd); k.fd = -1;
				if(!k.done) {
					Outcome o; o.failed = true; o.crash = true; o.tag = hung ? "hang" : "crash";
					o.msg = hung ? "case made no progress (deadlock)" : describeStatus(st, g_scratch + "/worker" + std::to_string(who[q]) + ".log");
					long idx = shm[who[q]];
					if(lateInit() && idx == -1 && S.crashes++ < 20) { spawn(who[q]); continue; }  // MPI did not come up
					record(who[q], idx, o);
					S.crashes++;
					if(!havefail && S.crashes < 50) { k.next = idx + W; if(k.next < ncases) spawn(who[q]); }
				}
			}
		}
		if(havefail) { killall(); break; }
		if(since(t0) > wallcap) { std::cout << "note: relation " << r.name << " stopped at its time cap after " << S.perrel[r.name] << " cases\n"; killall(); break; }
	}
	munmap((void*)shm, sizeof(long)*64);
	return !havefail;
}

static bool runMpiRel(const Rel& r, long ncases, double wallcap, Stats& S, Failure& F) {
	Clock::time_point t0 = Clock::now();
	for(int k : r.ranks) {
		long from = 0; const long n = std::max<long>(1, ncases/(long)r.ranks.size());
		int restarts = 0;
		while(from < n) {
			MpiJob j{k, from, n, ""};
			MpiResult m = runMpi(r, j, 120);
			std::istringstream is(m.stats); std::string line;
			while(std::getline(is,line)) absorb(S, r, line + "");
			if(m.ok) break;
			if(isKnown(r,m.o.tag)) { S.knownhits[r.name+" "+m.o.tag]++; g_knownhit.insert(r.prop+" "+r.name+" "+m.o.tag); from = m.failidx+1; if(++restarts > 20) break; continue; }
			F.idx = m.failidx; F.nranks = k; F.o = m.o; F.before.clear(); for(long i = from; i < m.failidx; i++) F.before.push_back(i);
			return false;
		}
		if(since(t0) > wallcap) { std::cout << "note: relation " << r.name << " stopped at its time cap\n"; break; }
	}
	return true;
}

/// evaluates a history; returns its outcome and the (normalised) choices of its last case
static Outcome evalHistory(const Rel& r, int nranks, const History& h, std::vector<uint64_t> *used) {
	if(nranks == 0) return runForked(r, h, used);
	const std::string cf = g_scratch + "/mpi.choices";
	{ std::ofstream f(cf); for(auto& c : h) { f << c.idx; for(uint64_t u : c.ch) f << " " << u; f << "\n"; } }
	MpiJob j{nranks, 0, (long)h.size(), cf};
	MpiResult m = runMpi(r, j, 60);
	if(used) *used = h.back().ch;
	return m.o;
}
/// the history's last case makes the choices given
static Outcome evalCase(const Rel& r, int nranks, const std::vector<uint64_t>& ch, std::vector<uint64_t> *used, History h = History()) {
	h.push_back(Case{-1,ch});
	return evalHistory(r,nranks,h,used);
}

static std::vector<uint64_t> shrink(const Rel& r, int nranks, std::vector<uint64_t> cur, Outcome& best, int maxev, double maxwall, const History& before = History()) {
	Clock::time_point t0 = Clock::now(); int ev = 0;
	auto budget = [&]() { return ev < maxev && since(t0) < maxwall; };
	auto attempt = [&](const std::vector<uint64_t>& c) {
		ev++;
		std::vector<uint64_t> used;
		Outcome o = evalCase(r, nranks, c, &used, before);
		if(o.failed && !isKnown(r,o.tag)) {
			best = o;
			// drop trailing choices nobody reads
			cur = (!o.crash && nranks == 0 && used.size() <= c.size()) ? used : c;
			while(!cur.empty() && cur.back() == 0) cur.pop_back();
			return true;
		}
		return false;
	};
	bool improved = true;
	while(improved && budget()) {
		improved = false;
		for(size_t len : {256,64,16,8,4,2,1}) {
			for(size_t i = 0; i + len <= cur.size() && budget(); ) {
				std::vector<uint64_t> c(cur); c.erase(c.begin()+i, c.begin()+i+len);
				if(attempt(c)) { improved = true; continue; }
				// zero the block
				bool nz = false; for(size_t k = i; k < i+len; k++) nz = nz || cur[k];
				if(nz) {
					c = cur; for(size_t k = i; k < i+len; k++) c[k] = 0;
					if(attempt(c)) improved = true;
				}
				i += len;
			}
		}
		for(size_t i = 0; i < cur.size() && budget(); i++) {
			uint64_t hi = cur[i], lo = 0;
			int it = 0;
			while(hi > lo && budget() && it++ < 8 && i < cur.size()) {
				uint64_t mid = lo + (hi-lo)/2;
				std::vector<uint64_t> c(cur); c[i] = mid;
				if(attempt(c)) { hi = mid; improved = true; if(i >= cur.size()) break; hi = cur[i]; } else { lo = mid+1; }
			}
		}
	}
	return cur;
}

static std::string jstr(const std::string& s) {
	std::string o = "\"";
	for(unsigned char c : s) {
		if(c == '"' || c == '\\') { o += '\\'; o += (char)c; }
		else if(c < 0x20 || c > 0x7e) { char b[8]; snprintf(b,8,"\\u%04x",c); o += b; }
		else o += (char)c;
	}
	return o + "\"";
}

static void writeEvidence(const std::string& prop, const Stats& S, double wall, int violations) {
	mkdir("/verif/evidence", 0755);
	std::ofstream f("/verif/evidence/" + prop + ".json");
	f << "{\n \"property\": " << jstr(prop) << ",\n \"tier\": " << jstr(g_tier) << ",\n \"seed\": " << g_seed
	  << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << S.evaluations
	  << ",\n  \"distinct_nontrivial\": " << S.nontriv.size() << ",\n  \"rule\": " << jstr(S.rules) << ",\n  \"samples\": [";
	for(size_t i = 0; i < S.samples.size(); i++) f << (i ? ",\n   " : "\n   ") << jstr(S.samples[i]);
	f << "],\n  \"cases_per_relation\": {";
	bool first = true; for(auto& p : S.perrel) { f << (first?"":", ") << jstr(p.first) << ": " << p.second; first = false; }
	f << "},\n  \"classes\": {";
	first = true; for(auto& p : S.labels) { f << (first?"":", ") << jstr(p.first) << ": " << p.second; first = false; }
	f << "},\n  \"known_finding_hits\": {";
	first = true; for(auto& p : S.knownhits) { f << (first?"":", ") << jstr(p.first) << ": " << p.second; first = false; }
	f << "}\n },\n \"wall_s\": " << wall << ",\n \"violations\": " << violations
	  << ",\n \"assumptions\": [\"generated inputs stay inside the documented or caller-established domain of each function\", "
	     "\"the harness's own reference formulas are right; they were written from the documentation and the literature\"]\n}\n";
}

static int doReplay(const std::string& file) {
	std::ifstream f(file);
	std::string line, prop, rel; int nr = 0; History h;
	while(std::getline(f,line)) {
		if(line.compare(0,9,"property=") == 0) prop = line.substr(9);
		else if(line.compare(0,9,"relation=") == 0) rel = line.substr(9);
		else if(line.compare(0,6,"ranks=") == 0) nr = atoi(line.c_str()+6);
		else if(line.compare(0,8,"choices=") == 0) { std::istringstream is(line.substr(8)); uint64_t u; h.push_back(Case{-1,{}}); while(is >> u) h.back().ch.push_back(u); }
	}
	if(h.empty()) { std::cerr << "no choices in " << file << "\n"; return 2; }
	for(auto& r : registry()) if(r.prop == prop && r.name == rel) {
		Outcome o = evalHistory(r, nr, h, nullptr);
		std::cout << (o.failed ? "FAILS" : "passes") << ": " << prop << "/" << rel << " tag=" << o.tag << "\n  " << o.msg << "\n  case: " << o.desc << "\n";
		return o.failed ? 1 : 0;
	}
	std::cerr << "unknown relation in " << file << "\n";
	return 2;
}

/// The choices a seeded case makes, recorded as it makes them (so that a crash loses nothing)
static std::vector<uint64_t> recordChoices(const Rel& r, int nranks, long idx) {
	const std::string mf = g_scratch + "/draws";
	const size_t bytes = 8*(MIRROR_CAP+1);
	{ int fd = open(mf.c_str(), O_RDWR|O_CREAT|O_TRUNC, 0644); if(fd < 0 || ftruncate(fd, bytes) != 0) { perror("draws"); exit(3); } ::close(fd); }
	if(nranks == 0) {
		fflush(stdout); std::cout.flush();
		pid_t pid = fork();
		if(pid == 0) {
			quietStdio(g_scratch + "/shrink.log"); if(lateInit()) petscStart(); armCpu(); mapMirror(mf);
			Src s(caseSeed(r,0,idx));
			runInProcess(r,s);
			_exit(0);
		}
		Clock::time_point t0 = Clock::now(); int st;
		while(waitpid(pid,&st,WNOHANG) == 0) { if(since(t0) > WALL_LIMIT_S) { kill(pid,SIGKILL); waitpid(pid,&st,0); break; } usleep(2000); }
	}
	else {
		setenv("VERIF_MIRROR", mf.c_str(), 1);
		MpiJob j{nranks, idx, idx+1, ""};
		runMpi(r, j, 120);
		unsetenv("VERIF_MIRROR");
	}
	mapMirror(mf);
	std::vector<uint64_t> out;
	if(g_mirror) { out.assign(g_mirror+1, g_mirror+1+g_mirror[0]); munmap(g_mirror, bytes); g_mirror = nullptr; }
	return out;
}

/// A short history that fails every time, of the cases that ran before the failing one in its process; its cases are given by
/// their choices. Empty if the whole history does not fail every time.
static History findHistory(const Rel& r, const Failure& F, Outcome& best) {
	Clock::time_point t0 = Clock::now();
	History h;
	for(long i : F.before) h.push_back(Case{i,{}});
	h.push_back(Case{F.idx,{}});
	if(h.size() < 2) return History();
	auto fails = [&](const History& x, int times) { for(int t = 0; t < times; t++) { Outcome o = evalHistory(r,F.nranks,x,nullptr); if(!o.failed || isKnown(r,o.tag)) return false; best = o; } return true; };
	if(!fails(h,2)) return History();
	auto budget = [&]() { return since(t0) < 120; };
	for(size_t k = 1; k+1 < h.size() && budget(); k *= 2) { History x(h.end()-(k+1),h.end()); if(fails(x,1)) { h = x; break; } }
	for(size_t len = h.size()/2; len >= 1; len /= 2)
		for(size_t i = 0; i+len < h.size() && budget(); ) { History x(h); x.erase(x.begin()+i,x.begin()+i+len); if(fails(x,1)) h = x; else i += len; }
	History c;
	for(auto& k : h) { c.push_back(Case{-1,recordChoices(r,F.nranks,k.idx)}); }
	return fails(c,3) ? c : History();
}

static int runProperty(const std::string& prop, const std::string& only) {
	loadKnown();
	Clock::time_point t0 = Clock::now();
	Stats S; int nviol = 0; int nrel = 0;
	double capall = g_thorough ? 5400 : 560;
	const char *scale = getenv("VERIF_SCALE");
	for(auto& r : registry()) {
		if(r.prop != prop || (!only.empty() && r.name != only)) continue;
		nrel++;
		if(!S.rules.empty()) S.rules += " || ";
		S.rules += r.name + ": " + r.rule;
		// cheap relations are searched further on every change
		static const std::map<char,double> more = {{'S',4},{'T',3},{'O',3},{'F',3},{'G',3},{'B',3},{'L',3},{'M',2}};
		long n = g_thorough ? r.nthorough : (long)(r.nquick*(r.ranks.empty() && more.count(prop[0]) ? more.at(prop[0]) : 1));
		if(scale) n = std::max(1L,(long)(n*atof(scale)));
		Failure F; F.idx = -1; F.nranks = 0;
		Clock::time_point t1 = Clock::now();
		double cap = std::max(30.0, capall - since(t0));
		bool ok = r.ranks.empty() ? runSerialRel(r,n,cap,S,F) : runMpiRel(r,n,cap,S,F);
		std::cout << (ok ? "ok   " : "FAIL ") << prop << "/" << r.name << ": " << S.perrel[r.name] << " cases, " << since(t1) << " s" << std::endl;
		if(!ok) {
			std::vector<uint64_t> ch;
			std::cout << "  first failure at case " << F.idx << (F.nranks ? " with " + std::to_string(F.nranks) + " ranks" : "") << ": [" << F.o.tag << "] " << F.o.msg << std::endl;
			ch = recordChoices(r,F.nranks,F.idx);
			Outcome best; int rep = 0; const int tries = F.nranks ? 3 : 3;
			for(int t = 0; t < tries; t++) { Outcome o = evalCase(r,F.nranks,ch,nullptr); if(o.failed) { rep++; best = o; } }
			if(rep < tries) {
				int more = 0; const int extra = F.nranks ? 6 : 20;
				for(int t = 0; t < extra; t++) { Outcome o = evalCase(r,F.nranks,ch,nullptr); if(o.failed) { more++; best = o; } }
				rep += more;
			}
			History before;
			if(rep < 3) {
				// perhaps it needs what earlier cases in the same process left behind
				before = findHistory(r, F, best);
				if(!before.empty()) {
					ch = before.back().ch; before.pop_back(); rep = 3;
					std::cout << "  needs " << before.size() << " earlier case(s) in the same process" << std::endl;
				}
			}
			if(rep < 3) {
				std::cout << "  not reproducible (" << rep << " of the re-runs failed): not reported as a violation" << std::endl;
				continue;
			}
			Outcome first = best;
			std::vector<uint64_t> sm = shrink(r, F.nranks, ch, best, F.nranks ? 40 : 600, F.nranks ? 90 : (best.tag == "hang" ? 1 : 60), before);
			// Confirm the shrunk case three times, otherwise fall back on the original
			int conf = 0; for(int t = 0; t < 3; t++) { Outcome o = evalCase(r,F.nranks,sm,nullptr,before); if(o.failed) { conf++; best = o; } }
			if(conf < 3) { sm = ch; best = first; }
			mkdir((g_outdir+"/replay").c_str(), 0755);
			const std::string rf = g_outdir + "/replay/" + prop + "-" + r.name + ".txt";
			std::ofstream f(rf);
			f << "property=" << prop << "\nrelation=" << r.name << "\nranks=" << F.nranks;
			for(auto& c : before) { f << "\nchoices="; for(uint64_t u : c.ch) f << u << " "; }
			f << "\nchoices=";
			for(uint64_t u : sm) f << u << " ";
			f << "\ntag=" << best.tag << "\nmessage=" << best.msg << "\ncase=" << best.desc << "\n";
			f.close();
			std::cout << "  shrunk to " << sm.size() << " choices: [" << best.tag << "] " << best.msg << "\n  case: " << best.desc << std::endl;
			std::cout << "VIOLATION property=" << prop << " replay=" << rf << std::endl;
			nviol++;
			break;
		}
	}
	if(nrel == 0) { std::cerr << "no relation for property " << prop << "\n"; return 3; }
	for(auto& k : g_knownhit) {
		std::istringstream is(k); std::string p; is >> p;
		std::cout << "KNOWN-FINDING: property=" << p << g_known[k] << std::endl;
	}
	writeEvidence(prop, S, since(t0), nviol);
	std::cout << prop << ": " << S.evaluations << " cases, " << S.nontriv.size() << " distinct non-trivial, " << since(t0) << " s, tier " << g_tier << ", seed " << g_seed << std::endl;
	return nviol ? 1 : 0;
}


int engineMain(int argc, char *argv[]) {
	std::map<std::string,std::string> a;
	for(int i = 1; i < argc; i++) {
		std::string k = argv[i];
		if(k.compare(0,2,"--") != 0) { std::cerr << "bad argument " << k << "\n"; return 3; }
		if(k == "--mpiworker" || k == "--list") a[k] = "1";
		else if(i+1 < argc) a[k] = argv[++i];
	}
	char self[4096]; ssize_t sl = readlink("/proc/self/exe", self, sizeof self - 1);
	if(sl > 0) { self[sl] = 0; g_self = self; }
	if(a.count("--list")) { std::set<std::string> p; for(auto& r : registry()) p.insert(r.prop); for(auto& x : p) std::cout << x << "\n"; return 0; }
	if(const char *e = getenv("VERIF_SEED")) g_seed = strtoull(e,nullptr,10);
	if(const char *e = getenv("VERIF_TIER")) g_tier = e;
	if(const char *e = getenv("VERIF_OUT")) g_outdir = e;
	if(a.count("--seed")) g_seed = strtoull(a["--seed"].c_str(),nullptr,10);
	if(a.count("--tier")) g_tier = a["--tier"];
	g_thorough = g_tier == "thorough";
	if(a.count("--mpiworker")) {
		g_scratch = a["--scratch"];
		PetscInitialize(nullptr,nullptr,nullptr,nullptr);
		PetscPopSignalHandler();
		int rc = 3;
		for(auto& r : registry()) if(r.prop == a["--prop"] && r.name == a["--rel"])
			rc = mpiWorker(r, a["--progress"], atol(a["--from"].c_str()), atol(a["--to"].c_str()), a["--choices"]);
		PetscFinalize();
		_exit(rc);
	}
	char tmpl[] = "/tmp/verif-XXXXXX";
	if(!mkdtemp(tmpl)) { perror("mkdtemp"); return 3; }
	g_scratch = tmpl;
	setenv("OMPI_MCA_ess_singleton_isolated","1",0);
	if(!lateInit()) petscStart();
	int rc;
	if(a.count("--replay")) rc = doReplay(a["--replay"]);
	else rc = runProperty(a["--prop"], a.count("--rel") ? a["--rel"] : "");
	rmtree(g_scratch);
	std::cout.flush(); fflush(stdout);
	if(!lateInit()) PetscFinalize();
	_exit(rc);
}
}
