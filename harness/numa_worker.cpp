// S11: distribution of the threads of a stream among the NUMA nodes.
// Each case is one process (the library looks at the machine once) on a
// made-up machine: the functions which tell the topology and the one which
// binds a thread are replaced, everything else is the real code.
#include "main.h"
#include <lib842/stream/comp.h>
#include <lib842/stream/decomp.h>
#include <lib842/sw.h>
#include <numa.h>
#include <pthread.h>
#include <sys/sysinfo.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <atomic>
#include <future>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
using namespace lib842;
using namespace lib842::stream;

struct Topo {
	bool available = true; int maxNode = 0; size_t cpuBits = 64, online = 0;
	std::set<int> allowed;                   // nodes with memory this process may use
	std::map<int, std::set<int>> cpus;       // CPUs of the nodes that exist (may be none)
	std::set<int> all;
};
static Topo M;
struct Rec { std::vector<std::pair<pthread_t, std::set<int>>> bound; size_t calls = 0, fails = 0; int failAt = -1, failErr = 0; };
static thread_local Rec *rec;

extern "C" {
int numa_available() { return M.available ? 0 : -1; }
int numa_max_node() { return M.maxNode; }
int numa_max_possible_node() { return 1023; }
int numa_num_configured_nodes() { return (int)M.cpus.size(); }
int numa_num_possible_nodes() { return 1024; }
int numa_num_configured_cpus() { return M.all.empty() ? 1 : *M.all.rbegin() + 1; }
int numa_num_possible_cpus() { return (int)M.cpuBits; }
int numa_num_task_cpus() { return (int)M.all.size(); }
int numa_num_task_nodes() { return (int)M.allowed.size(); }
struct bitmask *numa_allocate_cpumask() { return numa_bitmask_alloc((unsigned)M.cpuBits); }
struct bitmask *numa_allocate_nodemask() { return numa_bitmask_alloc(1024); }
static struct bitmask *mk(const std::set<int> &s, unsigned n) { auto b = numa_bitmask_alloc(n); for (int i : s) numa_bitmask_setbit(b, (unsigned)i); return b; }
struct bitmask *numa_get_mems_allowed() { return mk(M.allowed, 1024); }
struct bitmask *numa_get_run_node_mask() { return mk(M.allowed, 1024); }
int numa_node_to_cpus(int n, struct bitmask *b)
{
	auto it = M.cpus.find(n);
	if (it == M.cpus.end()) { errno = ENOENT; return -1; }
	if (b->size < M.cpuBits) { errno = ERANGE; return -1; }
	numa_bitmask_clearall(b);
	for (int c : it->second) numa_bitmask_setbit(b, (unsigned)c);
	return 0;
}
int numa_node_of_cpu(int c) { for (auto &n : M.cpus) if (n.second.count(c)) return n.first; errno = EINVAL; return -1; }
int __wrap_get_nprocs() { return (int)M.online; }
int __wrap_get_nprocs_conf() { return (int)M.all.size(); }
#ifndef __SANITIZE_ADDRESS__
#ifndef VERIF_TSAN
long __real_sysconf(int);
long __wrap_sysconf(int n) { return n == _SC_NPROCESSORS_ONLN ? (long)M.online : n == _SC_NPROCESSORS_CONF ? (long)M.all.size() : __real_sysconf(n); }
#endif
#endif
int __wrap_pthread_setaffinity_np(pthread_t t, size_t sz, const cpu_set_t *cs)
{
	if (!rec) { fail("foreign-bind", "affinity set outside of a stream's constructor"); return 0; }
	size_t k = rec->calls++;
	std::set<int> s;
	bool some = false;
	for (int c = 0; c < (int)sz * 8; c++) if (CPU_ISSET_S(c, sz, cs)) { s.insert(c); some |= M.all.count(c) != 0; }
	if (rec->failAt == (int)k) { rec->fails++; return rec->failErr; }
	if (!some) { rec->fails++; return EINVAL; } // as the kernel answers
	for (auto &b : rec->bound) if (pthread_equal(b.first, t)) { b.second = s; return 0; }
	rec->bound.push_back({t, s});
	return 0;
}
}

static std::string show(const std::set<int> &s) { std::string o; for (int c : s) { if (o.size() > 60) { o += ".."; break; } o += (o.empty() ? "" : ",") + std::to_string(c); } return "{" + o + "}"; }

static void makeTopo(Rng &r)
{
	M = Topo();
	if (r.chance(5)) { M.available = false; M.online = 8; M.maxNode = 0; for (int c = 0; c < 8; c++) M.all.insert(c); return; }
	int nn = 1 + (int)r.below(r.chance(20) ? 16 : 5);
	static const size_t bits[] = {64, 128, 320, 1024, 2048, 8192};
	M.cpuBits = bits[r.below(6)];
	size_t room = std::min<size_t>(M.cpuBits, CPU_SETSIZE);
	int cores = 1 + (int)r.below(std::min<size_t>(room / (size_t)nn, 40)), smt = 1, keep = 1;
	if (r.chance(40)) { smt = r.chance(50) ? 4 : 8; while (cores * nn * smt > (int)room) { if (smt > 1) smt /= 2; else break; } keep = 1 + (int)r.below((size_t)smt); }
	int layout = (int)r.below(4); // consecutive, interleaved, shuffled, gaps between the nodes
	std::vector<int> ids(cores * nn); for (size_t i = 0; i < ids.size(); i++) ids[i] = (int)i;
	if (layout == 2) for (size_t i = ids.size(); i > 1; i--) std::swap(ids[i - 1], ids[r.below(i)]);
	int gap = layout == 3 ? (int)r.below(room - (size_t)(cores * nn * smt) + 1) : 0;
	std::vector<int> nodeIds; int id = 0;
	for (int i = 0; i < nn; i++) { nodeIds.push_back(id); id += 1 + (r.chance(15) ? (int)r.below(7) : 0); }
	int used = 0;
	for (int i = 0; i < nn; i++) {
		auto &cs = M.cpus[nodeIds[(size_t)i]];
		if (r.chance(10)) continue; // no CPUs: memory only (or its CPUs are offline)
		for (int k = 0; k < cores; k++) {
			if (r.chance(5) && k) continue; // core offline
			int core = layout == 1 ? k * nn + i : ids[(size_t)(i * cores + k)];
			for (int h = 0; h < keep; h++) cs.insert(core * smt + h + (i == nn - 1 ? gap : 0));
		}
		used++;
	}
	if (r.chance(25)) for (int g = 250 + (int)r.below(6); g < 256; g++) M.cpus[g]; // memory of accelerators
	if (!used) { if (r.chance(70)) { auto &cs = M.cpus[nodeIds[0]]; for (int k = 0; k < cores; k++) cs.insert(k * smt); } }
	for (auto &n : M.cpus) { if (r.chance(85)) M.allowed.insert(n.first); M.all.insert(n.second.begin(), n.second.end()); M.maxNode = std::max(M.maxNode, n.first); }
	if (M.allowed.empty()) M.allowed.insert(M.cpus.begin()->first);
	M.online = std::max<size_t>(M.all.size(), 1);
}
static std::string topoStr()
{
	if (!M.available) return "no NUMA";
	std::string s = "possible CPUs " + std::to_string(M.cpuBits) + ", nodes";
	for (auto &n : M.cpus) s += " " + std::to_string(n.first) + (M.allowed.count(n.first) ? "" : "(not allowed)") + show(n.second);
	return s.substr(0, 400);
}

struct Shared { std::atomic<uint64_t> streams, ops, threads, binds, nodes, injected; };
static Shared *sh;

static std::atomic<int> seen; // callbacks on worker threads
static void judge(const Rec &rc, unsigned nt, bool spread, const std::string &what)
{
	auto T = [&] { return topoStr(); };
	if (!spread) { if (rc.calls) fail("bound-by-default", "%s binds threads although the policy says to use the defaults; %s", what.c_str(), T().c_str()); return; }
	std::vector<int> usable;
	for (int n : M.allowed) if (M.available && !M.cpus[n].empty()) usable.push_back(n);
	if (rc.failAt >= 0 && (size_t)rc.failAt < rc.calls) return; // the library may stop to spread
	if (usable.empty()) { for (auto &b : rc.bound) if (b.second != M.all) fail("bound", "%s binds a thread to %s although no allowed node has CPUs; %s", what.c_str(), show(b.second).c_str(), T().c_str()); return; }
	if (rc.fails) fail("no-cpus", "%s binds thread %zu of %u to no existing CPU; %s", what.c_str(), rc.bound.size(), nt, T().c_str());
	else if (rc.bound.size() != nt) fail("unbound", "%s: %zu of %u threads bound; %s", what.c_str(), rc.bound.size(), nt, T().c_str());
	else {
		std::map<int, unsigned> per; for (int n : usable) per[n] = 0;
		for (auto &b : rc.bound) {
			int node = -1;
			for (int n : usable) if (b.second.count(*M.cpus[n].begin())) { node = n; break; }
			if (node < 0 || b.second != M.cpus[node]) { fail("wrong-cpus", "%s binds a thread to %s, which are not the CPUs of an allowed node; %s", what.c_str(), show(b.second).c_str(), T().c_str()); return; }
			per[node]++;
		}
		unsigned lo = ~0u, hi = 0; for (auto &p : per) { lo = std::min(lo, p.second); hi = std::max(hi, p.second); }
		if (hi - lo > 1) fail("uneven", "%s: between %u and %u of %u threads on a node; %s", what.c_str(), lo, hi, nt, T().c_str());
		sh->nodes += usable.size();
	}
	sh->binds += rc.bound.size();
}
static const lib842_implementation *impl;
static uint8_t *data; static size_t dataLen;
static std::ostream &quiet() { static std::ostream o(nullptr); return o; }

static void one(Rng r, unsigned k)
{
	unsigned nt = 1 + (unsigned)r.below(r.chance(20) ? 24 : 6);
	bool spread = r.chance(85), comp = r.chance(50);
	thread_policy pol = spread ? thread_policy::spread_threads_among_numa_nodes : thread_policy::use_defaults;
	Rec rc;
	if (r.chance(12)) { rc.failAt = (int)r.below(nt); static const int es[] = {EINVAL, ESRCH, EPERM}; rc.failErr = es[r.below(3)]; }
	std::string what = std::string(comp ? "compression" : "decompression") + " stream " + std::to_string(k) + " with " + std::to_string(nt) + " threads";
	std::mutex mx; std::set<uint64_t> ids;
	sh->streams++; sh->threads += nt;
	bool ok = false; std::promise<void> done;
	auto fin = [&](bool s) { ok = s; done.set_value(); };
	if (comp) {
		rec = &rc;
		DataCompressionStream s(*impl, nt, pol, quiet, quiet);
		rec = nullptr;
		s.wait_until_ready();
		judge(rc, nt, spread, what);
		size_t total = 0;
		if (r.chance(rc.failAt >= 0 || !M.available ? 70 : 90)) return;
		sh->ops++;
		s.start(data, dataLen, [&](Block &&b) { std::lock_guard<std::mutex> l(mx); ids.insert((uint64_t)pthread_self()); total++; (void)b; });
		s.finalize(false, fin);
		done.get_future().wait();
		if (!ok || total != dataLen / BLOCK_SIZE) fail("stream-broken", "%s: operation %s with %zu blocks; %s", what.c_str(), ok ? "succeeds" : "fails", total, topoStr().c_str());
	} else {
		rec = &rc;
		DataDecompressionStream s(*impl, nt, pol, quiet, quiet);
		rec = nullptr;
		s.wait_until_ready();
		judge(rc, nt, spread, what);
		std::vector<uint8_t> dst(dataLen);
		s.start(dst.data());
		s.finalize(false, fin);
		done.get_future().wait();
		if (!ok) fail("stream-broken", "%s: an operation without blocks fails; %s", what.c_str(), topoStr().c_str());
	}
	if (rc.failAt >= 0 && (size_t)rc.failAt < rc.calls) sh->injected++;
	if (spread && rc.calls && !(rc.failAt >= 0) && !rc.fails)
		for (uint64_t i : ids) {
			bool in = false; for (auto &b : rc.bound) in |= (uint64_t)b.first == i;
			if (!in) fail("other-thread", "%s: a thread that works for the stream is not one of those bound; %s", what.c_str(), topoStr().c_str());
		}
}

static void setup()
{
	sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	impl = get_sw842_implementation();
	dataLen = BLOCK_SIZE; data = (uint8_t *)aligned_alloc(4096, dataLen);
	for (size_t i = 0; i < dataLen; i++) data[i] = (uint8_t)(i % 7 * 31);
}
static void runCase(uint64_t, Rng &r)
{
	makeTopo(r);
	unsigned ns = 1 + (unsigned)r.below(3); bool par = r.chance(30);
	std::vector<Rng> rs; for (unsigned i = 0; i < ns; i++) rs.push_back(Rng(r.next(), r.next(), i));
	fflush(nullptr);
	pid_t me = getpid();
	pid_t p = fork();
	if (p < 0) { inconclusive("fork failed"); return; }
	if (!p) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		if (getppid() != me) _exit(99);
		int fd = open("/dev/null", O_WRONLY);
		if (G.variant == std::string("plain") && fd >= 0) dup2(fd, 2); // the library's warnings
		numa_all_nodes_ptr = mk(M.allowed, 1024); numa_all_cpus_ptr = mk(M.all, (unsigned)M.cpuBits);
		if (par) { std::vector<std::thread> ts; for (unsigned i = 0; i < ns; i++) ts.emplace_back([&, i] { one(rs[i], i); }); for (auto &t : ts) t.join(); }
		else for (unsigned i = 0; i < ns; i++) one(rs[i], i);
		_exit(G.nfail ? 42 : 0);
	}
	int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
	if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); _exit(96); }
	if (WEXITSTATUS(st) && WEXITSTATUS(st) != 42) _exit(WEXITSTATUS(st));
	stat("machines"); if (!M.available) stat("machines without NUMA");
	bool memOnly = false, holes = false; for (auto &n : M.cpus) { memOnly |= n.second.empty() && M.allowed.count(n.first); for (int c : n.second) holes |= (size_t)c >= M.online; }
	if (memOnly) stat("machines with allowed nodes without CPUs");
	if (holes) stat("machines with CPU numbers beyond the number of CPUs");
	std::string t = topoStr(); distinct(fnv(t.data(), t.size()));
	if (G.index < 3) sample("%s", t.c_str());
}
static void finish()
{
	stat("streams", sh->streams); stat("compressions of a block", sh->ops); stat("threads", sh->threads); stat("threads bound", sh->binds); stat("nodes shared among the threads", sh->nodes); stat("failures to bind injected", sh->injected);
}
