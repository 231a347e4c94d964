// threads.cpp - C01 (shared cache) and C02 (stoppable threads).
// Built twice: with ThreadSanitizer (races) and with Address+UndefinedBehaviorSanitizer (lifetimes, leaks).
#include "vh.hpp"
#include <thread>
#include <mutex>
#include <condition_variable>
#include <atomic>
#include <future>
#include <experimental/optional>
#include "thread/shareable_cache.hpp"
#include "thread/stoppable_thread.hpp"

using vh::Ctx;
using vh::Rng;

namespace {

std::string num (long long v) { return std::to_string(v); }

// ---- watchdog: a case that makes no progress for this long is a stall
std::atomic<uint64_t> g_case{0};
std::atomic<int64_t> g_case_start{0};
std::atomic<bool> g_busy{false};
int64_t now_ms () { return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
int64_t stall_ms () { return getenv("VH_STALL") ? atoll(getenv("VH_STALL")) : 40000; }
void watchdog ()
{
	std::thread([]
	{
		for (;;)
		{
			usleep(100000);
			if (g_busy.load() && now_ms() - g_case_start.load() > stall_ms())
			{
				fprintf(stderr, "FATAL: stall: case %llu did not finish: a thread waits for something that already happened\n", (unsigned long long)g_case.load());
				_exit(44);
			}
		}
	}).detach();
}
void begin_case (uint64_t c)
{
	g_case.store(c); g_case_start.store(now_ms()); g_busy.store(true);
}

// seeded delays, also from inside the code under test (copies of items, hashing)
std::atomic<uint64_t> g_noise{1};
std::atomic<int> g_noise_level{0};
void noise ()
{
	int lv = g_noise_level.load(std::memory_order_relaxed);
	if (lv == 0) return;
	uint64_t z = vh::mix(g_noise.fetch_add(0x9e3779b97f4a7c15ULL, std::memory_order_relaxed));
	int r = (int)(z % 100);
	if (r < lv * 8) std::this_thread::yield();
	else if (r < lv * 10) usleep((z >> 20) % 60);
	else if (r < lv * 11) usleep((z >> 20) % 400);
}

// ------------------------------------------------------------------ C01
struct Item
{
	int key = 0;
	long long id = 0;
	std::shared_ptr<long long> heap; // an item read after its memory was returned shows in the sanitizers
	Item () {}
	Item (int k, long long i) : key(k), id(i), heap(std::make_shared<long long>(i)) {}
	Item (const Item& o) : key(o.key), id(o.id), heap(o.heap) { noise(); }
	Item (Item&& o) : key(o.key), id(o.id), heap(std::move(o.heap)) {}
	Item& operator = (const Item& o) { key = o.key; id = o.id; heap = o.heap; noise(); return *this; }
	Item& operator = (Item&& o) { key = o.key; id = o.id; heap = std::move(o.heap); return *this; }
};
typedef nnet::shareable_cache<int,Item> Cache;
typedef std::shared_ptr<nnet::cache_node<Item> > Pos;
int hash_item (const Item& i) { noise(); return i.key; }

// one thread: what each consumer receives against a model of the pending items
struct SeqModel
{
	std::vector<std::pair<int,long long> > live; // in order of recency
	void add (int k, long long id)
	{
		for (size_t i = 0; i < live.size(); i++) if (live[i].first == k) { live.erase(live.begin() + i); break; }
		live.push_back({k, id});
	}
	// first item newer than `last`
	const std::pair<int,long long>* next (long long last) const
	{
		for (auto& p : live) if (p.second > last) return &p;
		return nullptr;
	}
};

// get_latest on behalf of a consumer with nothing pending: it must wait, until something is added or it is released
struct Taken { bool set = false; Item item; };
template <typename C> Taken take (const C& cache, Pos& pos)
{
	Taken t;
	std::experimental::optional<Item> o = cache.get_latest(pos);
	if (o) { t.set = true; t.item = *o; }
	return t;
}

void c01_seq (Ctx& c)
{
	begin_case(c.id);
	g_noise_level = 0;
	size_t nkey = c.rng.range(1, 5), ncons = c.rng.range(1, 4), nop = c.rng.range(4, c.thorough ? 120 : 50);
	std::vector<Pos> pos(ncons); // outlive the cache
	Cache cache(hash_item);
	SeqModel m;
	std::vector<long long> last(ncons, 0);
	long long id = 0;
	size_t taken = 0, waits = 0, superseded = 0;
	for (size_t op = 0; op < nop; op++)
	{
		switch (c.rng.range(0, 5))
		{
			case 0: case 1: case 2:
			{
				int k = (int)c.rng.range(0, nkey - 1);
				for (auto& p : m.live) if (p.first == k) superseded++;
				cache.add_latest(Item(k, ++id));
				m.add(k, id);
				c.log("add key " + num(k) + " item " + num(id));
				break;
			}
			default:
			{
				size_t w = c.rng.range(0, ncons - 1);
				const std::pair<int,long long>* e = m.next(last[w]);
				if (e)
				{
					Taken t = take(cache, pos[w]);
					c.event();
					c.log("consumer " + num(w) + " takes " + (t.set ? num(t.item.id) : "nothing"));
					if (!t.set) c.fail("pending-not-delivered", "consumer " + num(w) + " got nothing although item " + num(e->second) + " is pending");
					if (t.item.id != e->second || t.item.key != e->first || *t.item.heap != t.item.id)
						c.fail("wrong-item", "consumer " + num(w) + " got item " + num(t.item.id) + " of key " + num(t.item.key) + ", expected item " + num(e->second) + " of key " + num(e->first));
					last[w] = e->second;
					taken++;
				}
				else if (c.rng.chance(0.15))
				{
					// nothing pending: waits until something is added (or released)
					waits++;
					bool release = c.rng.chance(0.5);
					std::atomic<int> stage{0};
					Taken t;
					std::thread th([&] { stage = 1; t = take(cache, pos[w]); stage = 2; });
					while (stage == 0) std::this_thread::yield();
					usleep(300);
					c.event();
					bool early = stage == 2;
					long long nid = 0;
					if (release)
					{
						c.log("consumer " + num(w) + " waits, released");
						while (stage != 2) { cache.escape_wait(); usleep(50); }
					}
					else
					{
						int k = (int)c.rng.range(0, nkey - 1);
						nid = ++id;
						cache.add_latest(Item(k, nid));
						m.add(k, nid);
						c.log("consumer " + num(w) + " waits, add key " + num(k) + " item " + num(nid));
					}
					th.join();
					if (early && t.set) c.fail("superfluous-item", "consumer " + num(w) + " got item " + num(t.item.id) + " although nothing was pending");
					if (t.set)
					{
						if (release || t.item.id != nid) c.fail("wrong-item", "waiting consumer got item " + num(t.item.id));
						last[w] = nid;
					}
				}
			}
		}
	}
	// at the end each consumer can collect the newest value of every key it hasn't seen
	for (size_t w = 0; w < ncons; w++)
		while (const std::pair<int,long long>* e = m.next(last[w]))
		{
			Taken t = take(cache, pos[w]);
			c.event();
			if (!t.set || t.item.id != e->second) c.fail("wrong-item", "finally consumer " + num(w) + " got " + (t.set ? "item " + num(t.item.id) : std::string("nothing")) + ", expected item " + num(e->second));
			last[w] = e->second;
		}
	c.count("taken", taken); c.count("waits", waits); c.count("superseded", superseded);
	g_busy = false;
}

// a long history with consumers that stay behind
void c01_long (Ctx& c)
{
	begin_case(c.id);
	g_noise_level = 0;
	size_t nkey = c.rng.chance(0.5) ? c.rng.range(2, 6) : c.rng.range(20000, 60000);
	size_t n = c.rng.range(60000, 120000);
	size_t hold = c.rng.range(1, 20);
	{
		Cache cache(hash_item);
		SeqModel m;
		std::vector<long long> newest(nkey, 0);
		Pos slow;
		long long id = 0, last = 0;
		for (size_t i = 0; i < n; i++)
		{
			int k = (int)(vh::mix(c.id + i) % nkey);
			cache.add_latest(Item(k, ++id));
			newest[k] = id;
			if (i == hold) { Taken t = take(cache, slow); if (!t.set) c.fail("pending-not-delivered", "nothing delivered"); last = t.item.id; }
		}
		std::sort(newest.begin(), newest.end());
		size_t got = 0, limit = c.rng.chance(0.5) ? nkey : 50;
		for (long long e : newest)
		{
			if (e <= last) continue;
			if (got++ >= limit) break;
			Taken t = take(cache, slow);
			c.event();
			if (!t.set || t.item.id != e) c.fail("wrong-item", "a consumer that stayed behind got " + (t.set ? "item " + num(t.item.id) : std::string("nothing")) + ", expected item " + num(e));
		}
		c.log("keys " + num(nkey) + " items " + num(n) + " read " + num(got));
		c.count("long_items", n);
	}
	g_busy = false;
}

// producers and consumers in parallel; the log of each is checked afterwards
struct Add { int key; long long id; int64_t begin, end; };	// per producer: ids ascend
struct Get { bool set; int key; long long id; int64_t begin, end; };

void c01_conc (Ctx& c)
{
	begin_case(c.id);
	bool single = c.rng.chance(0.7);
	size_t nprod = single ? 1 : c.rng.range(2, 3), ncons = c.rng.range(1, 5), nkey = c.rng.range(1, 4);
	size_t nadd = c.rng.range(1, c.thorough ? 120 : 60);
	g_noise = c.rng.next();
	int noisy = (int)c.rng.range(0, 4);
	bool slowprod = c.rng.chance(0.5), slowcons = c.rng.chance(0.3);
	uint64_t s0 = c.rng.next();
	c.log("producers " + num(nprod) + " consumers " + num(ncons) + " keys " + num(nkey) + " adds " + num(nadd) + " noise " + num(noisy) + (slowprod ? " slow producers" : "") + (slowcons ? " slow consumers" : ""));
	static const int END = 1000000;
	std::vector<std::vector<Add> > adds(nprod);
	std::vector<std::vector<Get> > gets(ncons);
	std::atomic<int64_t> tick{1};
	g_noise_level = noisy;
	{
		Cache cache(hash_item);
		std::atomic<size_t> ready{0};
		std::vector<std::thread> prod, cons;
		size_t early = c.rng.range(0, ncons); // some consumers start late
		auto consume = [&](size_t w)
		{
			Rng r(s0 + 100 + w);
			Pos pos;
			size_t ends = 0;
			if (w >= early) usleep(r.range(0, 500));
			std::vector<Get>& log = gets[w];
			while (ends < nprod)
			{
				Get g;
				g.begin = tick++;
				Taken t = take(cache, pos);
				g.end = tick++;
				g.set = t.set; g.key = t.item.key; g.id = t.item.id;
				if (t.set && (!t.item.heap || *t.item.heap != t.item.id)) g.id = -1;
				log.push_back(g);
				if (t.set && t.item.key >= END) ends++;
				if (slowcons && r.chance(0.3)) usleep(r.range(0, 150));
				if (log.size() > 200000) break;
			}
			ready++;
		};
		auto produce = [&](size_t p)
		{
			Rng r(s0 + p);
			for (size_t i = 0; i <= nadd; i++)
			{
				bool end = i == nadd;
				Add a;
				a.key = end ? END + (int)p : (int)(p * 100 + r.range(0, nkey - 1));
				a.id = (long long)p * 1000000 + (long long)i + 1;
				if (end && r.chance(0.8)) usleep(r.range(100, 1500)); // everybody waits for the last one
				else if (slowprod && r.chance(0.3)) usleep(r.range(0, 120));
				a.begin = tick++;
				cache.add_latest(Item(a.key, a.id));
				a.end = tick++;
				adds[p].push_back(a);
			}
		};
		for (size_t w = 0; w < ncons; w++) cons.emplace_back(consume, w);
		if (c.rng.chance(0.5)) usleep(c.rng.range(0, 300));
		for (size_t p = 0; p < nprod; p++) prod.emplace_back(produce, p);
		for (auto& t : prod) t.join();
		for (auto& t : cons) t.join();
		g_noise_level = 0;
	}
	g_busy = false;
	// offline checks
	size_t delivered = 0, woken = 0;
	for (size_t w = 0; w < ncons; w++)
	{
		std::vector<std::set<long long> > seen(nprod);
		std::vector<long long> last(nprod, 0);
		std::map<int,long long> newest;
		for (const Get& g : gets[w])
		{
			c.event();
			std::string who = "consumer " + num(w);
			if (g.set)
			{
				delivered++;
				size_t p = (size_t)(g.id / 1000000), i = (size_t)(g.id % 1000000);
				if (g.id < 1 || p >= nprod || i < 1 || i > adds[p].size() || adds[p][i-1].key != g.key) c.fail("wrong-item", who + " got an item that was never added: " + num(g.id));
				const Add& a = adds[p][i-1];
				if (g.end < a.begin) c.fail("wrong-item", who + " got item " + num(g.id) + " before it was added");
				if (!seen[p].insert(g.id).second) c.fail("duplicate-item", who + " got item " + num(g.id) + " twice");
				auto nw = newest.find(g.key);
				if (nw != newest.end() && nw->second > g.id) c.fail("older-after-newer", who + " got item " + num(g.id) + " of key " + num(g.key) + " after the newer item " + num(nw->second));
				newest[g.key] = g.id;
				// superseded before the call began?
				for (size_t j = i; j < adds[p].size(); j++)
					if (adds[p][j].key == g.key && adds[p][j].end < g.begin) c.fail("stale-item", who + " got item " + num(g.id) + " although item " + num(adds[p][j].id) + " of the same key had been added before it asked");
				if (g.id < last[p]) c.fail("order", who + " got item " + num(g.id) + " after the later item " + num(last[p]));
			}
			// with one producer the order of the items is known: nothing pending may be skipped or waited for
			if (single)
			{
				long long upto = g.set ? g.id - 1 : (long long)adds[0].size();
				for (long long r = last[0] + 1; r <= upto; r++)
				{
					const Add& a = adds[0][r-1];
					if (a.end > g.begin) continue;
					bool sup = false;
					for (size_t j = r; j < adds[0].size() && !sup; j++) sup = adds[0][j].key == a.key && adds[0][j].begin < g.end;
					if (sup) continue;
					if (g.set) c.fail("skipped-item", who + " got item " + num(g.id) + " although item " + num(r) + " was pending before it");
					else c.fail("pending-not-delivered", who + " got nothing although item " + num(r) + " was pending when it asked and not superseded");
				}
			}
			if (g.set) last[g.id / 1000000] = std::max(last[g.id / 1000000], g.id);
			else woken++;
		}
		// complete: the newest value of every key
		for (size_t p = 0; p < nprod; p++)
		{
			std::map<int,long long> fin;
			for (const Add& a : adds[p]) fin[a.key] = a.id;
			for (auto& f : fin) if (!seen[p].count(f.second)) c.fail("lost-item", "consumer " + num(w) + " never got item " + num(f.second) + ", the newest of key " + num(f.first));
		}
	}
	uint64_t h = 0;
	for (auto& l : gets) for (auto& g : l) h = vh::mix(h ^ (uint64_t)(g.set ? g.id : 0));
	c.sighash = vh::mix(c.sighash ^ h); // distinct delivery histories
	c.count("delivered", delivered); c.count("woken_without_item", woken); c.count(single ? "one_producer" : "several_producers");
}

// consumers that wait are all released
void c01_escape (Ctx& c)
{
	begin_case(c.id);
	size_t ncons = c.rng.range(1, 6);
	g_noise_level = 0;
	Cache cache(hash_item);
	size_t have = c.rng.range(0, 3);
	for (size_t i = 0; i < have; i++) cache.add_latest(Item((int)i, (long long)i + 1));
	std::vector<Pos> pos(ncons);
	std::atomic<size_t> waiting{0}, left{0};
	std::vector<std::thread> th;
	std::vector<int> bad(ncons, 0);
	for (size_t w = 0; w < ncons; w++) th.emplace_back([&, w]
	{
		for (size_t i = 0; i < have; i++) { Taken t = take(cache, pos[w]); if (!t.set) bad[w] = 1; }
		waiting++;
		Taken t = take(cache, pos[w]);
		if (t.set) bad[w] = 2;
		left++;
	});
	while (waiting < ncons) std::this_thread::yield();
	usleep(2000);
	size_t before = left;
	size_t calls = 0;
	// repeated, as a consumer may not have begun to wait yet; but one call has to release all that wait
	while (left < ncons)
	{
		cache.escape_wait();
		calls++;
		usleep(c.rng.range(100, 3000));
	}
	for (auto& t : th) t.join();
	c.event();
	c.log("consumers " + num(ncons) + " items " + num(have));
	c.count("released", ncons);
	for (int b : bad) if (b) c.fail(b == 1 ? "pending-not-delivered" : "superfluous-item", "a consumer got " + std::string(b == 1 ? "nothing although an item was pending" : "an item although nothing was pending"));
	// spurious returns are allowed by the documentation, so `before` is only counted
	c.count("returned_early", before);
	c.count("release_calls", calls);
	g_busy = false;
}

// ------------------------------------------------------------------ C02
struct Job
{
	std::atomic<int> started{0}, ended{0}, interrupted{0};
	std::atomic<bool> asked{false}, badargs{false}, early{false}, forgotten{false};
	int kind = 0;
	size_t work = 0;
	long long a = 0;
	std::string b;
};
enum { J_NONE, J_FINITE, J_POLL, J_WAIT, J_LOOP, J_TWICE, J_MANY, N_JOB };
const char* job_name[] = {"returns", "works", "polls", "waits", "loops", "waits twice", "observes in several ways"};

bool endless (int k) { return k >= J_POLL; }

void job_main (std::shared_ptr<Job> j, long long a, std::string b)
{
	j->started++;
	if (a != j->a || b != j->b) j->badargs = true;
	noise();
	struct End { Job* j; ~End () { j->ended++; } } end{j.get()};
	try
	{
		switch (j->kind)
		{
			case J_NONE: break;
			case J_FINITE:
				for (size_t i = 0; i < j->work; i++)
				{
					std::this_thread::yield(); noise();
					if (nnet::thread_stop_flag.is_set() && !j->asked) j->early = true;
				}
				break;
			case J_POLL: for (;;) { nnet::stop_throw(); std::this_thread::yield(); } break;
			case J_WAIT: nnet::stop_wait(); break;
			case J_LOOP: while (!nnet::thread_stop_flag.is_set()) { std::this_thread::yield(); noise(); } break;
			case J_TWICE: nnet::stop_wait(); nnet::stop_wait(); break;
			case J_MANY:
			{
				// a request stays visible, however it was seen first
				size_t script = j->work;
				for (int step = 0; step < 4; step++, script /= 3)
				{
					if (script % 3 == 0)
					{
						bool thrown = false;
						do
						{
							try { nnet::stop_throw(); std::this_thread::yield(); }
							catch (nnet::thread_interrupted&) { thrown = true; }
							if (step && !thrown) j->forgotten = true;
						}
						while (!thrown && !step);
					}
					else if (script % 3 == 1)
					{
						if (step && !nnet::thread_stop_flag.is_set()) { j->forgotten = true; break; }
						nnet::stop_wait();
					}
					else
					{
						if (step && !nnet::thread_stop_flag.is_set()) j->forgotten = true;
						while (!step && !nnet::thread_stop_flag.is_set()) std::this_thread::yield();
					}
					if (!j->asked) j->early = true;
				}
				if (j->work % 2) nnet::stop_throw();
				break;
			}
		}
	}
	catch (nnet::thread_interrupted&)
	{
		j->interrupted++;
		if (!j->asked) j->early = true;
		throw;
	}
	if (endless(j->kind) && !j->asked) j->early = true;
}

struct Slot
{
	std::unique_ptr<nnet::stoppable_thread> t;
	std::shared_ptr<Job> job; // of the thread it represents (null: none)
};

void c02_life (Ctx& c)
{
	begin_case(c.id);
	g_noise = c.rng.next();
	g_noise_level = (int)c.rng.range(0, 4);
	size_t nop = c.rng.range(4, c.thorough ? 60 : 30);
	std::vector<Slot> s;
	std::vector<std::shared_ptr<Job> > all, detached;
	auto ask = [&](Slot& x) { if (x.job) x.job->asked = true; x.t->stop(); };
	auto pause = [&]
	{
		switch (c.rng.range(0, 3)) { case 0: usleep(c.rng.range(0, 200)); break; case 1: std::this_thread::yield(); break; }
	};
	auto joined = [&](std::shared_ptr<Job> j)
	{
		c.event();
		if (j->started != 1 || j->ended != 1) c.fail("not-run-once", "after joining, the function of the thread had started " + num(j->started) + " times and ended " + num(j->ended) + " times");
	};
	auto make = [&](Slot& x)
	{
		auto j = std::make_shared<Job>();
		j->kind = (int)c.rng.range(0, N_JOB - 1); j->work = c.rng.range(0, 80);
		j->a = (long long)c.rng.next(); j->b = std::string(c.rng.range(0, 40), (char)('a' + c.rng.range(0, 25)));
		all.push_back(j);
		x.job = j;
		c.log(std::string("start a thread that ") + job_name[j->kind]);
		c.count(std::string("job:") + job_name[j->kind]);
		x.t.reset(new nnet::stoppable_thread(job_main, j, j->a, j->b));
	};
	for (size_t op = 0; op < nop; op++)
	{
		size_t what = c.rng.range(0, 11);
		if (s.empty()) what = c.rng.range(0, 2) ? 0 : 1;
		size_t i = s.empty() ? 0 : c.rng.range(0, s.size() - 1);
		switch (what)
		{
			case 0: case 2:
				if (s.size() >= 5) break;
				s.emplace_back(); make(s.back());
				if (c.rng.chance(0.3)) { ask(s.back()); c.log("stopped at once"); c.count("stop_at_once"); }
				break;
			case 1:
				if (s.size() >= 5) break;
				s.emplace_back(); s.back().t.reset(new nnet::stoppable_thread());
				c.log("an object without thread");
				break;
			case 3: case 4:
				pause();
				c.log("stop " + num(i));
				if (c.rng.chance(0.3))
				{
					// several at once
					if (s[i].job) s[i].job->asked = true;
					std::thread a([&] { s[i].t->stop(); }), b([&] { s[i].t->stop(); });
					a.join(); b.join();
					c.count("concurrent_stops");
				}
				else ask(s[i]);
				break;
			case 5: case 6:
			{
				c.event();
				if (s[i].t->joinable() != (s[i].job != nullptr)) c.fail("joinable", std::string("a thread object ") + (s[i].job ? "with" : "without") + " thread says the opposite");
				if (!s[i].job) break;
				if (endless(s[i].job->kind)) ask(s[i]);
				c.log("join " + num(i));
				s[i].t->join();
				joined(s[i].job);
				s[i].job = nullptr;
				if (c.rng.chance(0.6)) { c.log("stop after joining"); s[i].t->stop(); c.count("stop_after_join"); }
				break;
			}
			case 7:
			{
				// move construction
				Slot n;
				n.t.reset(new nnet::stoppable_thread(std::move(*s[i].t)));
				n.job = s[i].job; s[i].job = nullptr;
				c.log("move " + num(i));
				c.count("moves");
				if (c.rng.chance(0.5)) { s[i].t->stop(); c.log("stop the source"); } // must not reach the thread
				s[i].t.swap(n.t); s[i].job = n.job;
				if (s.size() < 5 && c.rng.chance(0.5)) { n.job = nullptr; s.push_back(std::move(n)); }
				break;
			}
			case 8:
			{
				size_t k = c.rng.range(0, s.size() - 1);
				// the receiver's own thread has to be able to end
				if (k != i && s[k].job && endless(s[k].job->kind)) ask(s[k]);
				c.log("assign " + num(i) + " to " + num(k));
				std::shared_ptr<Job> old = s[k].job;
				*s[k].t = std::move(*s[i].t);
				if (k != i)
				{
					if (old) { joined(old); c.count("assigned_over_running"); }
					s[k].job = s[i].job; s[i].job = nullptr;
				}
				c.count("assignments");
				break;
			}
			case 9:
				if (!s[i].job) break;
				c.log("detach " + num(i));
				s[i].t->detach();
				detached.push_back(s[i].job);
				if (!endless(s[i].job->kind)) s[i].job->asked = true; // anybody may stop it through this object from now on
				// still stoppable through the object it was started by
				if (endless(s[i].job->kind)) { pause(); ask(s[i]); }
				else if (c.rng.chance(0.5)) { usleep(c.rng.range(0, 300)); ask(s[i]); }
				if (c.rng.chance(0.4))
				{
					while (s[i].job->ended != 1) usleep(20);
					usleep(c.rng.range(0, 200));
					c.log("stop after the detached thread ended");
					s[i].t->stop();
					c.count("stop_after_detached_end");
				}
				s[i].job = nullptr;
				break;
			case 10:
				if (s[i].job && endless(s[i].job->kind)) ask(s[i]);
				c.log("destroy " + num(i));
				{
					std::shared_ptr<Job> j = s[i].job;
					s[i].t.reset();
					if (j) joined(j);
				}
				s.erase(s.begin() + i);
				break;
			case 11: pause(); break;
		}
		for (auto& j : all)
		{
			c.event();
			if (j->started > 1) c.fail("not-run-once", "the function of a thread started " + num(j->started) + " times");
			if (j->badargs) c.fail("arguments", "the function of a thread got other arguments");
			if (j->early) c.fail("spurious-stop", "a thread was stopped without anybody having asked");
			if (j->forgotten) c.fail("stop-forgotten", "a thread saw its stop request only once");
		}
		if (nnet::thread_stop_flag.is_set()) c.fail("spurious-stop", "the main thread sees a stop");
	}
	for (Slot& x : s)
	{
		if (x.job && endless(x.job->kind)) ask(x);
		if (c.rng.chance(0.5)) x.t.reset();
		else { if (x.job) x.t->join(); if (c.rng.chance(0.5)) x.t->stop(); x.t.reset(); }
		if (x.job) joined(x.job);
	}
	for (auto& j : detached) while (j->ended != 1) usleep(20);
	for (auto& j : all)
	{
		c.event();
		if (j->started != 1 || j->ended != 1) c.fail("not-run-once", "the function of a thread started " + num(j->started) + " times and ended " + num(j->ended) + " times");
		if (j->badargs) c.fail("arguments", "the function of a thread got other arguments");
		if (j->early) c.fail("spurious-stop", "a thread was stopped without anybody having asked");
		if (j->forgotten) c.fail("stop-forgotten", "a thread saw its stop request only once");
	}
	g_busy = false;
}

// a stop request around the moment the function begins to wait
void c02_wake (Ctx& c)
{
	begin_case(c.id);
	g_noise = c.rng.next();
	g_noise_level = (int)c.rng.range(0, 2);
	size_t rounds = c.thorough ? 60 : 25, woken = 0;
	for (size_t r = 0; r < rounds; r++)
	{
		std::atomic<int> stage{0};
		size_t spin = c.rng.range(0, 400), lead = c.rng.range(0, 400);
		bool gate = c.rng.chance(0.7);
		nnet::stoppable_thread t([&stage, spin](int k)
		{
			stage = k;
			for (volatile size_t i = 0; i < spin; i++) {}
			nnet::stop_wait();
			stage = 2;
		}, 1);
		if (gate) while (stage == 0) {}
		for (volatile size_t i = 0; i < lead; i++) {}
		t.stop();
		t.join();
		c.event();
		woken++;
		if (stage != 2) c.fail("not-run-once", "the function did not return from waiting");
	}
	c.log("rounds " + num(rounds));
	c.count("wakeups", woken);
	g_busy = false;
}

// functions of other kinds
struct Functor
{
	std::shared_ptr<std::atomic<int> > n;
	void operator () (std::vector<int> v, double d) const { *n += (int)v.size(); if (d != 0.5) *n += 1000; }
};
void c02_kinds (Ctx& c)
{
	begin_case(c.id);
	g_noise_level = 0;
	auto n = std::make_shared<std::atomic<int> >(0);
	size_t k = c.rng.range(0, 20);
	{
		std::vector<int> v(k, 7);
		Functor f{n};
		nnet::stoppable_thread t(f, v, 0.5);
		v.assign(100, 1); // the thread has its own copy
		if (c.rng.chance(0.5)) t.stop();
		if (c.rng.chance(0.5)) t.join();
	}
	c.event();
	if (*n != (int)k) c.fail("arguments", "a functor with a vector of " + num(k) + " got " + num(*n));
	// one without arguments; an interrupted one; several in one container
	std::vector<nnet::stoppable_thread> ts;
	std::atomic<int> m{0}, intr{0};
	size_t q = c.rng.range(1, 6);
	for (size_t i = 0; i < q; i++) ts.emplace_back([&m, &intr]
	{
		m++;
		try { for (;;) { nnet::stop_throw(); usleep(10); } }
		catch (nnet::thread_interrupted&) { intr++; throw; }
	});
	std::vector<size_t> order(q);
	for (size_t i = 0; i < q; i++) order[i] = i;
	c.rng.shuffle(order);
	size_t stopped = 0;
	for (size_t i : order)
	{
		ts[i].stop();
		ts[i].join();
		stopped++;
		c.event();
		if (intr != (int)stopped) c.fail("spurious-stop", num(stopped) + " threads were stopped but " + num(intr) + " were interrupted");
	}
	if (m != (int)q) c.fail("not-run-once", "functions ran " + num(m) + " times in " + num(q) + " threads");
	c.log("functor " + num(k) + " threads " + num(q));
	c.count("containers");
	g_busy = false;
}
}

namespace vh {
std::vector<Group> groups = {
	{"C01", "c01_seq", c01_seq, 6, 10},
	{"C01", "c01_conc", c01_conc, 12, 10},
	{"C01,noM01", "c01_escape", c01_escape, 1, 10},
	{"C01", "c01_long", c01_long, 1, 1},
	{"C02", "c02_life", c02_life, 8, 10},
	{"C02", "c02_wake", c02_wake, 4, 10},
	{"C02", "c02_kinds", c02_kinds, 2, 10},
};
static void start () { watchdog(); }
void (*on_start)(void) = start;
void (*on_case)(uint64_t) = nullptr;
}
