// vh.hpp - case runner shared by all harnesses.
// A harness defines case functions and lists them with VH_GROUPS; main() below runs the cases of one property,
// counts what the oracles saw, and reports the first violation.  Nothing in here depends on the library.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <sstream>
#include <fstream>
#include <iostream>
#include <algorithm>
#include <functional>
#include <memory>
#include <chrono>
#include <limits>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>

#if defined(__SANITIZE_ADDRESS__)
#define VH_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VH_ASAN 1
#endif
#endif
#ifdef VH_ASAN
#include <sanitizer/asan_interface.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
extern "C" int __lsan_do_recoverable_leak_check(void);
#endif

namespace vh {

inline uint64_t mix (uint64_t z)
{
	z += 0x9e3779b97f4a7c15ULL;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}
inline uint64_t hashstr (const std::string& s)
{
	uint64_t h = 1469598103934665603ULL;
	for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
	return mix(h);
}

struct Rng
{
	uint64_t s;
	explicit Rng (uint64_t seed = 1) : s(mix(seed ^ 0x5851f42d4c957f2dULL)) {}
	uint64_t next () { s += 0x9e3779b97f4a7c15ULL; return mix(s); }
	// inclusive
	size_t range (size_t lo, size_t hi) { return lo + (size_t)(next() % (hi - lo + 1)); }
	bool chance (double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
	double real (double lo, double hi) { return lo + (hi - lo) * ((next() >> 11) * (1.0 / 9007199254740992.0)); }
	template <typename C> auto& pick (C& c) { return c[range(0, c.size() - 1)]; }
	template <typename C> const auto& pick (const C& c) { return c[range(0, c.size() - 1)]; }
	template <typename C> void shuffle (C& c) { for (size_t i = c.size(); i > 1; i--) std::swap(c[i-1], c[range(0, i-1)]); }
};

struct Violation : public std::runtime_error
{
	std::string key;
	Violation (std::string k, std::string m) : std::runtime_error(m), key(k) {}
};
// thrown by a case that turned out not to exercise anything
struct Skip {};

struct Stats
{
	uint64_t cases = 0, events = 0, skipped = 0;
	std::unordered_set<uint64_t> sigs;
	std::map<std::string, uint64_t> counters;
	std::vector<std::string> samples;
};

struct Ctx
{
	Rng rng;
	uint64_t id;
	bool thorough;
	Stats* st;
	bool quiet = false;
	bool memory_only = false; // M01: behavioural oracles are muted
	std::string tr;
	uint64_t sighash = 0;
	size_t nontrivial = 0;
	bool nobalance = false; // the case built something only its user could have freed
	Ctx (uint64_t seed, uint64_t id_, bool th, Stats* s) : rng(seed), id(id_), thorough(th), st(s) {}
	// one line of the case's trace
	void log (const std::string& s)
	{
		static const bool stream = getenv("VH_STREAM") != nullptr;
		if (stream) fprintf(stderr, "| %s\n", s.c_str());
		if (tr.size() < 60000) { tr += s; tr += "\n"; }
		sighash = mix(sighash ^ hashstr(s));
	}
	// an oracle compared something the library produced
	void event (size_t n = 1) { if (!quiet) st->events += n; nontrivial += n; }
	void count (const std::string& k, uint64_t n = 1) { if (!quiet) st->counters[k] += n; }
	[[noreturn]] void fail_ (const std::string& key, const std::string& msg) { throw Violation(key, msg); }
	void fail (const std::string& key, const std::string& msg)
	{
		if (memory_only) throw Skip{};
		throw Violation(key, msg);
	}
};

typedef void (*CaseFn)(Ctx&);
struct Group
{
	const char* prop;	// property id (or several separated by commas)
	const char* name;
	CaseFn fn;
	unsigned weight;	// relative share of the cases
	int balance;		// check the allocation balance of every n-th case (0: never)
	CaseFn before;		// outside of the balance window (may be null)
};
extern std::vector<Group> groups;
// called at start up, before any case
extern void (*on_start)(void);
// called before each case
extern void (*on_case)(uint64_t);

inline size_t live_bytes ()
{
#ifdef VH_ASAN
	return __sanitizer_get_current_allocated_bytes();
#else
	return 0;
#endif
}

inline std::string jstr (const std::string& s)
{
	std::string o = "\"";
	for (unsigned char c : s)
	{
		if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
		else if (c == '\n') o += "\\n";
		else if (c == '\t') o += "\\t";
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
		else o += (char)c;
	}
	return o + "\"";
}

inline std::string dstr (double d) { char b[40]; snprintf(b, 40, "%.9g", d); return b; }

// true when the memory is owned by a live allocation (ASAN shadow)
inline bool is_live (const void* p)
{
#ifdef VH_ASAN
	return p != nullptr && !__asan_address_is_poisoned(p);
#else
	return p != nullptr;
#endif
}

int run_main (int argc, char** argv);
}

#ifdef VH_MAIN
#include <typeinfo>
namespace vh {
int run_main (int argc, char** argv)
{
	std::string prop, out, state, scratch;
	uint64_t seed = 1, from = 0, to = 100, stride = 1, only = (uint64_t)-1;
	double deadline = 1e9;
	bool thorough = false, verbose = false;
	for (int i = 1; i < argc; i++)
	{
		std::string a = argv[i];
		auto nx = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
		if (a == "--prop") prop = nx();
		else if (a == "--out") out = nx();
		else if (a == "--state") state = nx();
		else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
		else if (a == "--from") from = strtoull(nx().c_str(), 0, 10);
		else if (a == "--to") to = strtoull(nx().c_str(), 0, 10);
		else if (a == "--stride") stride = strtoull(nx().c_str(), 0, 10);
		else if (a == "--only") only = strtoull(nx().c_str(), 0, 10);
		else if (a == "--deadline") deadline = atof(nx().c_str());
		else if (a == "--thorough") thorough = true;
		else if (a == "--verbose") verbose = true;
	}
	std::vector<Group*> gs;
	std::vector<Group*> wheel;
	for (Group& g : groups)
	{
		std::string ps = std::string(",") + g.prop + ",";
		if (prop == "M01" ? g.weight > 0 && ps.find(",noM01,") == std::string::npos : ps.find("," + prop + ",") != std::string::npos || ps.find(",mem:" + prop + ",") != std::string::npos) gs.push_back(&g);
	}
	if (gs.empty()) { fprintf(stderr, "no group for %s\n", prop.c_str()); return 9; }
	// weighted round-robin so that every group gets its share however many cases run
	{
		std::vector<double> acc(gs.size(), 0);
		size_t total = 0;
		for (auto g : gs) total += g->weight;
		for (size_t k = 0; k < total; k++)
		{
			size_t best = 0;
			for (size_t j = 0; j < gs.size(); j++)
			{
				acc[j] += gs[j]->weight;
				if (acc[j] > acc[best]) best = j;
			}
			acc[best] -= total;
			wheel.push_back(gs[best]);
		}
	}
	int sfd = state.empty() ? -1 : open(state.c_str(), O_RDWR | O_CREAT, 0644);
	Stats st;
	if (on_start) on_start();
	auto t0 = std::chrono::steady_clock::now();
	std::string vkey, vmsg, vtrace;
	uint64_t vcase = 0;
	const char* vgroup = "";
	bool violated = false;
	std::string curgroup;
	uint64_t lo = from, hi = to, step = stride;
	if (only != (uint64_t)-1) { lo = only; hi = only + 1; step = 1; }
	for (uint64_t c = lo; c < hi && !violated; c += step)
	{
		if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > deadline) break;
		Group* g = wheel[c % wheel.size()];
		uint64_t round = c / wheel.size();
		if (sfd >= 0)
		{
			char b[160];
			int n = snprintf(b, 160, "%-20llu %-60s\n", (unsigned long long)c, g->name);
			if (pwrite(sfd, b, n, 0) < 0) {}
		}
		uint64_t cs = mix(seed * 1000003ULL + hashstr(prop == "M01" ? std::string("M01") + g->name : std::string(g->name))) ^ mix(c + 77);
		bool bal = g->balance > 0 && (round % g->balance == 0 || only != (uint64_t)-1);
		int reps = bal ? 2 : 1;
		size_t live = 0, grown[6] = {0};
		int ngrown = 0;
		for (int r = 0; r < reps && !violated; r++)
		{
			if (on_case) on_case(cs);
			Ctx x(cs, c, thorough, &st);
			x.quiet = r > 0;
			x.memory_only = prop == "M01" || (std::string(",") + g->prop + ",").find(",mem:" + prop + ",") != std::string::npos;
			if (g->before) g->before(x);
			if (bal && r > 0) live = live_bytes();
			bool skipped = false, nobal = false;
			try
			{
				// everything the case allocates must be gone when it returns
				Ctx* xp = &x;
				g->fn(*xp);
			}
			catch (Violation& v)
			{
				violated = true; vkey = v.key; vmsg = v.what(); vtrace = x.tr; vcase = c; vgroup = g->name;
			}
			catch (Skip&) { skipped = true; }
			catch (std::exception& e)
			{
				if (x.memory_only) skipped = true;
				else
				{
					violated = true; vkey = "unexpected-exception";
					vmsg = std::string("unexpected exception ") + typeid(e).name() + ": " + e.what();
					vtrace = x.tr; vcase = c; vgroup = g->name;
				}
			}
			if (r == 0)
			{
				st.cases++;
				if (skipped) st.skipped++;
				else if (x.nontrivial > 0) st.sigs.insert(x.sighash);
				st.counters[std::string("cases:") + g->name]++;
				if (!violated && st.samples.size() < 3 && !x.tr.empty() && x.nontrivial > 0)
				{
					bool have = false;
					std::string head = std::string("[") + g->name + "] ";
					for (auto& s : st.samples) if (s.compare(0, head.size(), head) == 0) have = true;
					if (!have) st.samples.push_back(head + x.tr.substr(0, 1500));
				}
				if (violated && getenv("VH_SURVEY"))
				{
					fprintf(stderr, "SURVEY case %llu [%s] %s: %s\n", (unsigned long long)c, g->name, vkey.c_str(), vmsg.substr(0, vmsg.find('\n')).c_str());
					violated = false;
					skipped = true;
				}
				if (verbose) printf("--- case %llu [%s]\n%s", (unsigned long long)c, g->name, x.tr.c_str());
			}
			nobal = x.nobalance;
			if (skipped || (nobal && !getenv("VH_BALALL"))) break;
			if (bal && r > 0 && !violated)
			{
				std::string().swap(x.tr);
				size_t after = live_bytes();
				grown[ngrown++] = after > live ? after - live : 0;
				if (grown[ngrown-1] > 0 && reps < 5) reps++;
			}
		}
		if (bal && !violated && ngrown >= 4)
		{
			bool all = true;
			for (int k = 0; k < ngrown; k++) all = all && grown[k] > 0;
			if (all)
			{
				violated = true; vkey = "leak"; vcase = c; vgroup = g->name;
				std::ostringstream ss;
				ss << "memory still allocated after everything was destroyed, growing with every repetition of the case:";
				for (int k = 0; k < ngrown; k++) ss << " +" << grown[k];
				ss << " bytes";
				vmsg = ss.str();
			}
		}
		else if (bal) st.counters["balance_checked"]++;
	}
	if (!out.empty())
	{
		std::ofstream f(out);
		f << "{\"cases\":" << st.cases << ",\"events\":" << st.events << ",\"skipped\":" << st.skipped << ",\n\"counters\":{";
		bool first = true;
		for (auto& p : st.counters) { f << (first ? "" : ",") << jstr(p.first) << ":" << p.second; first = false; }
		f << "},\n\"samples\":[";
		for (size_t i = 0; i < st.samples.size(); i++) f << (i ? "," : "") << jstr(st.samples[i]);
		f << "],\n\"sigs\":[";
		size_t k = 0;
		for (uint64_t s : st.sigs) { if (k > 400000) break; f << (k++ ? "," : "") << (s >> 16); }
		f << "],\n\"violation\":";
		if (violated) f << "{\"key\":" << jstr(vkey) << ",\"msg\":" << jstr(vmsg) << ",\"case\":" << vcase << ",\"group\":" << jstr(vgroup) << ",\"trace\":" << jstr(vtrace.size() > 20000 ? vtrace.substr(vtrace.size() - 20000) : vtrace) << "}";
		else f << "null";
		f << "}\n";
	}
#ifdef VH_ASAN
	if (violated && vkey == "leak" && getenv("VH_LSAN")) __lsan_do_recoverable_leak_check();
#endif
	if (violated)
	{
		fprintf(stderr, "case %llu [%s] key=%s\n%s\ntrace:\n%s\n", (unsigned long long)vcase, vgroup, vkey.c_str(), vmsg.c_str(),
			vtrace.size() > 6000 ? vtrace.substr(vtrace.size() - 6000).c_str() : vtrace.c_str());
		fflush(stderr);
		return 3;
	}
	return 0;
}
}
#ifdef VH_COV
extern "C" void __gcov_dump (void);
#endif
int main (int argc, char** argv)
{
	int rc = vh::run_main(argc, argv);
	fflush(stdout); fflush(stderr);
#ifdef VH_COV
	__gcov_dump(); // line coverage of the workloads (tools/cover.py)
#endif
	_exit(rc); // static destruction of the library is not part of any property
}
#endif
