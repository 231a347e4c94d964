// react.cpp - R03: observer links under any history of rewiring
#include "vh.hpp"
#include "graph/react/subject.hpp"
#include "graph/react/iobserver.hpp"
using namespace vh;
using nnet::subject;
using nnet::iobserver;

struct World;
static World* W = nullptr;
enum Policy { SURVIVE, DIE, CLEAR };
// what an observer does when a subject it depends on changes
enum React { RECORD, PROPAGATE, THROW, REWIRE };

struct Entity { int id = -1; };

struct Sub : public subject, public Entity
{
	Sub () {}
	Sub (const Sub& o) : subject(o) {}
	Sub (Sub&& o) : subject(std::move(o)) {}
	Sub& operator = (const Sub& o) { subject::operator = (o); return *this; }
	Sub& operator = (Sub&& o) { subject::operator = (std::move(o)); return *this; }
	virtual ~Sub ();
	virtual std::string get_label () const { return "sub"; }
	virtual void death_on_noparent ();
	void kill_with (iobserver* o) { attach_killer(o); }
};
struct Obs : public iobserver, public Entity
{
	Obs () {}
	Obs (std::vector<subject*> d) : iobserver(d) {}
	Obs (const Obs& o) : iobserver(o) {}
	Obs (Obs&& o) : iobserver(std::move(o)) {}
	Obs& operator = (const Obs& o) { iobserver::operator = (o); return *this; }
	Obs& operator = (Obs&& o) { iobserver::operator = (std::move(o)); return *this; }
	virtual ~Obs ();
	virtual std::string get_label () const { return "obs"; }
	virtual void update (std::unordered_set<size_t> idx);
	virtual void death_on_broken ();
	std::vector<subject*> deps () const { return dependencies_; }
	void add (subject* s) { add_dependency(s); }
	void rem (size_t i) { remove_dependency(i); }
	void rep (subject* s, size_t i) { replace_dependency(s, i); }
	void ondeath (subject* s) { add_ondeath_dependent(s); }
	void offdeath (subject* s) { remove_ondeath_dependent(s); }
};
// both, like the connectors of the graph
struct Node : public Sub, public Obs
{
	Node () {}
	Node (std::vector<subject*> d) : Obs(d) {}
	Node (const Node& o) : Sub(o), Obs(o) {}
	Node (Node&& o) : Sub(std::move(o)), Obs(std::move(o)) {}
	virtual ~Node () {}
	virtual std::string get_label () const { return "node"; }
};

struct M
{
	Sub* s = nullptr;
	Obs* o = nullptr;
	bool alive = true;
	bool mortal = false;
	Policy pol = SURVIVE;
	React re = RECORD;
	std::vector<int> deps;		// entity ids, -1 none
	std::set<int> ondeath;		// subjects that die with this observer
	// since the current operation began
	size_t broken = 0, want_broken = 0;
	size_t touched = 0;		// when it was last rewired
};

struct World
{
	Ctx& c;
	Rng& r;
	std::vector<M> m;
	std::string err;
	bool ending = false;
	// notifications under way: subject and how often each observer was told
	struct Note { int sub; std::map<int,int> told; size_t since; };
	size_t clock = 0;
	std::vector<Note> notes;
	World (Ctx& c_) : c(c_), r(c_.rng) { W = this; }
	void bad (const std::string& s) { if (err.empty()) err = s; }
	static std::string nm (int i) { return i < 0 ? "-" : "e" + std::to_string(i); }
	static std::string ds (const std::vector<int>& d) { std::string s = "["; for (int x : d) s += nm(x) + " "; return s + "]"; }

	std::vector<int> live (bool sub, bool obs)
	{
		std::vector<int> l;
		for (size_t i = 0; i < m.size(); i++) if (m[i].alive && (!sub || m[i].s) && (!obs || m[i].o)) l.push_back(i);
		return l;
	}
	std::set<size_t> positions (int o, int s)
	{
		std::set<size_t> p;
		for (size_t i = 0; i < m[o].deps.size(); i++) if (m[o].deps[i] == s) p.insert(i);
		return p;
	}
	size_t audience (int s)
	{
		size_t n = 0;
		for (size_t i = 0; i < m.size(); i++) if (m[i].alive && m[i].o && !positions(i, s).empty()) n++;
		return n;
	}
	static void trim (std::vector<int>& d) { while (!d.empty() && d.back() < 0) d.pop_back(); }

	// ---- the model: what each rewiring means
	void lost (int s) { if (s >= 0 && m[s].alive && m[s].mortal && 0 == audience(s)) die(s); }
	void drop (int o, size_t i)
	{
		int s = m[o].deps[i];
		m[o].deps[i] = -1;
		m[o].touched = ++clock;
		trim(m[o].deps);
		lost(s);
	}
	void die (int e)
	{
		if (!m[e].alive) return;
		m[e].alive = false;
		if (m[e].o)
		{
			std::vector<int> d = m[e].deps;
			m[e].deps.clear();
			std::set<int> un(d.begin(), d.end());
			for (int s : un) lost(s);
			std::set<int> od = m[e].ondeath;
			m[e].ondeath.clear();
			for (int s : od) die(s);
		}
		if (m[e].s)
		{
			for (size_t i = 0; i < m.size(); i++) m[i].ondeath.erase(e);
			for (size_t i = 0; i < m.size(); i++)
			{
				if (!m[i].alive || !m[i].o || positions(i, e).empty()) continue;
				for (int& d : m[i].deps) if (d == e) d = -1;
				trim(m[i].deps);
				m[i].touched = ++clock;
				m[i].want_broken++;
				if (DIE == m[i].pol) die(i);
				else if (CLEAR == m[i].pol)
				{
					std::vector<int> d = m[i].deps;
					m[i].deps.clear();
					std::set<int> un(d.begin(), d.end());
					for (int s : un) lost(s);
				}
			}
		}
	}
	// ---- the library against the model
	void begin () { for (M& x : m) { x.broken = x.want_broken = 0; } }
	void check ()
	{
		for (size_t i = 0; i < m.size(); i++)
		{
			M& x = m[i];
			// (one that died in the same cascade may have died before it could be told)
			if (x.alive && x.broken != x.want_broken) bad(nm(i) + " was told " + std::to_string(x.broken) + " times that a subject died instead of " + std::to_string(x.want_broken) + " times");
			if ((x.s || x.o) != x.alive) bad(nm(i) + (x.alive ? " died" : " should have died"));
			if (!err.empty()) break;
			if (!x.alive) continue;
			if (x.o)
			{
				std::vector<int> got;
				for (subject* s : x.o->deps()) { int id = -1; if (s) { id = -2; for (size_t j = 0; j < m.size(); j++) if (m[j].alive && m[j].s == s) id = j; } got.push_back(id); }
				c.event();
				if (got != x.deps) bad(nm(i) + " depends on " + ds(got) + " instead of " + ds(x.deps));
				for (size_t j = 0; j < m.size(); j++) if (m[j].alive && m[j].s && x.o->has_subject(m[j].s) != !positions(i, j).empty()) bad("has_subject of " + nm(i) + " and " + nm(j) + " is wrong");
			}
			if (x.s)
			{
				c.event();
				if (x.s->n_audience() != audience(i) || x.s->no_audience() != (0 == audience(i)))
					bad(nm(i) + " has " + std::to_string(x.s->n_audience()) + " dependents instead of " + std::to_string(audience(i)));
			}
		}
		if (!err.empty()) c.fail("links", err);
	}
	// every observer that depends on the subject is told once, whatever the others do
	void notify (int s)
	{
		std::map<int, std::set<size_t> > start;
		size_t since = ++clock;
		for (size_t i = 0; i < m.size(); i++) if (m[i].alive && m[i].o) { auto p = positions(i, s); if (!p.empty()) start[i] = p; }
		notes.push_back({s, {}, since});
		bool threw = false;
		std::string what;
		try { m[s].s->notify(nnet::UPDATE); }
		catch (std::exception& e) { threw = true; what = e.what(); }
		Note n = notes.back();
		notes.pop_back();
		for (auto& p : start)
		{
			M& x = m[p.first];
			c.event();
			if (x.alive && x.touched <= since && n.told[p.first] != 1) bad(nm(p.first) + " was told " + std::to_string(n.told[p.first]) + " times that " + nm(s) + " changed");
		}
		for (auto& p : n.told) if (!start.count(p.first) && m[p.first].touched <= since) bad(nm(p.first) + " was told that " + nm(s) + " changed, but doesn't depend on it");
		bool thrower = false;
		for (auto& p : n.told) if (m[p.first].re == THROW && p.second) thrower = true;
		if (notes.empty() && thrower && !threw) bad("the failure of a dependent of " + nm(s) + " wasn't reported");
		if (threw) throw std::runtime_error(what);
	}
	void delivered (int o, const std::unordered_set<size_t>& idx)
	{
		if (ending) return;
		if (notes.empty()) { bad(nm(o) + " was told of a change nobody made"); return; }
		Note& n = notes.back();
		std::set<size_t> got(idx.begin(), idx.end()), want = positions(o, n.sub);
		c.event();
		if (!m[o].alive) bad("dead " + nm(o) + " was told of a change");
		if (++n.told[o] > 1) bad(nm(o) + " was told twice of one change of " + nm(n.sub));
		if (got != want)
		{
			std::string s;
			for (size_t g : got) s += std::to_string(g) + " ";
			bad(nm(o) + ds(m[o].deps) + " was told of a change of " + nm(n.sub) + " at positions " + s);
		}
	}
	// rewiring from within a notification
	void rewire (int self)
	{
		std::vector<int> os = live(false, true);
		int o = r.pick(os);
		// an observer under notification may not be destroyed from within
		bool busy = o == self;
		for (Note& n : notes) if (n.sub == o) busy = true;
		switch (r.range(0, 2))
		{
			case 0: if (!m[o].deps.empty()) { size_t i = r.range(0, m[o].deps.size() - 1); if (keep(m[o].deps[i])) { c.log("  in callback: remove " + nm(o) + "[" + std::to_string(i) + "]"); Obs* p = m[o].o; if (m[o].deps[i] >= 0) drop(o, i); p->rem(i); } } break;
			case 1:
			{
				std::vector<int> ss = live(true, false);
				int s = r.pick(ss);
				if (m[o].deps.empty() || (m[o].s && s >= o)) break;
				size_t i = r.range(0, m[o].deps.size() - 1);
				if (!keep(m[o].deps[i])) break;
				c.log("  in callback: replace " + nm(o) + "[" + std::to_string(i) + "] by " + nm(s));
				m[o].touched = ++clock;
				int old = m[o].deps[i];
				m[o].deps[i] = s;
				m[o].o->rep(m[s].s, i);
				if (old != s) lost(old);
				break;
			}
			case 2:
				// only plain observers: destroying a subject while it notifies isn't supported
				if (busy || m[o].s || !m[o].ondeath.empty()) break;
				{ bool ok = true; for (int d : m[o].deps) if (d >= 0 && !keep(d)) ok = false; if (!ok) break; }
				c.log("  in callback: delete " + nm(o));
				{ Obs* p = m[o].o; die(o); delete p; }
				break;
		}
	}
	// a subject that is notifying must outlive it
	bool keep (int s) { return s < 0 || !m[s].mortal; }

	// ---- operations
	// the model first; an operation that would destroy what it works on isn't supported
	bool sim (std::vector<int> keepalive, std::function<void(void)> f)
	{
		std::vector<M> saved = m;
		f();
		for (int k : keepalive) if (!m[k].alive) { m = saved; return false; }
		return true;
	}
	void drop_all (std::vector<int> old) { std::set<int> un(old.begin(), old.end()); for (int x : un) lost(x); }
	int add_entity (Sub* s, Obs* o)
	{
		M x;
		x.s = s; x.o = o;
		int id = m.size();
		if (s) s->id = id;
		if (o) o->id = id;
		m.push_back(x);
		return id;
	}
	void setup (int id)
	{
		M& x = m[id];
		if (x.s && x.ondeath.empty()) x.mortal = r.chance(0.2);
		if (x.o)
		{
			x.pol = r.chance(0.5) ? DIE : r.chance(0.7) ? SURVIVE : CLEAR;
			x.re = x.s ? (r.chance(0.7) ? PROPAGATE : RECORD) : r.chance(0.7) ? RECORD : r.chance(0.5) ? THROW : REWIRE;
		}
	}
	void create ()
	{
		size_t k = r.range(0, 3);
		std::vector<subject*> d;
		std::vector<int> di;
		std::vector<int> ss = live(true, false);
		if (k > 0 && !ss.empty()) for (size_t n = r.range(0, 4); n > 0; n--) { int s = r.chance(0.08) ? -1 : r.pick(ss); di.push_back(s); d.push_back(s < 0 ? nullptr : m[s].s); }
		int id;
		if (0 == k) id = add_entity(new Sub, nullptr);
		else if (k < 3) { Obs* o = d.empty() ? new Obs : new Obs(d); id = add_entity(nullptr, o); }
		else { Node* n = d.empty() ? new Node : new Node(d); id = add_entity(n, n); }
		m[id].deps = di;
		setup(id);
		c.log("new " + nm(id) + (m[id].s ? m[id].o ? " node" : " subject" : " observer") + (m[id].mortal ? " mortal" : "") + " " + ds(di) + (m[id].pol == DIE ? " dies" : m[id].pol == CLEAR ? " clears" : ""));
	}
	void step ()
	{
		begin();
		std::vector<int> ss = live(true, false), os = live(false, true);
		if (ss.empty() || os.empty() || (ss.size() + os.size() < 14 && r.chance(0.25))) { create(); check(); return; }
		int s = r.pick(ss), o = r.pick(os);
		// a node only ever depends on older entities
		bool okdep = !m[o].s || s < o;
		switch (r.range(0, 14))
		{
			case 0: if (!okdep) break; c.log("add " + nm(s) + " to " + nm(o)); m[o].deps.push_back(s); m[o].o->add(m[s].s); break;
			case 1:
			{
				size_t i = r.range(0, m[o].deps.size() + (r.chance(0.1) ? 1 : 0));
				c.log("remove " + nm(o) + "[" + std::to_string(i) + "] of " + std::to_string(m[o].deps.size()));
				bool threw = false, want = i >= m[o].deps.size();
				if (!sim({o}, [&]{ if (!want && m[o].deps[i] >= 0) drop(o, i); })) break;
				try { m[o].o->rem(i); } catch (std::logic_error&) { threw = true; }
				if (threw != want) bad(want ? "removing a dependency that isn't there was accepted" : "removing a dependency was refused");
				break;
			}
			case 2: case 3:
			{
				if (!okdep) break;
				size_t i = m[o].deps.empty() || r.chance(0.2) ? r.range(0, 5) : r.range(0, m[o].deps.size() - 1);
				bool none = r.chance(0.1);
				c.log("replace " + nm(o) + "[" + std::to_string(i) + "] by " + (none ? "nothing" : nm(s)));
				int n = none ? -1 : s;
				if (!sim(none ? std::vector<int>{o} : std::vector<int>{o, s}, [&]
				{
					if (i >= m[o].deps.size()) m[o].deps.resize(i + 1, -1);
					int old = m[o].deps[i];
					m[o].deps[i] = n;
					if (old != n) lost(old);
				})) break;
				m[o].o->rep(none ? nullptr : m[s].s, i);
				break;
			}
			case 4: case 5: case 6:
				c.log("notify " + nm(s));
				try { notify(s); } catch (std::runtime_error&) { c.count("notifications with a failing observer"); }
				c.count("notifications");
				break;
			case 7: // destroy anything
			{
				std::vector<int> l = live(false, false);
				int e = r.pick(l);
				c.log("delete " + nm(e));
				Sub* ps = m[e].s; Obs* po = m[e].o;
				die(e);
				if (ps) delete ps; else delete po;
				c.count("destroyed");
				break;
			}
			case 8: // copies don't take the audience, observers copy what they depend on
			{
				if (m[o].s || r.chance(0.3))
				{
					c.log("copy " + nm(s));
					if (!m[s].o) { int id = add_entity(new Sub(*m[s].s), nullptr); setup(id); }
					else { Node* n = new Node(*static_cast<Node*>(m[s].s)); int id = add_entity(n, n); setup(id); m[id].deps = m[s].deps; }
				}
				else { c.log("copy " + nm(o)); int id = add_entity(nullptr, new Obs(*m[o].o)); setup(id); m[id].deps = m[o].deps; }
				break;
			}
			case 9: // moves take the audience and the dependencies
			{
				if (r.chance(0.6))
				{
					if (m[s].o)
					{
						// dependents of a node are younger: keep the order by moving only nodes without dependent nodes
						bool ok = true;
						for (size_t i = 0; i < m.size(); i++) if (m[i].alive && m[i].s && m[i].o && !positions(i, s).empty()) ok = false;
						if (!ok || m[s].mortal) break;
						c.log("move node " + nm(s));
						Node* n = new Node(std::move(*static_cast<Node*>(m[s].s)));
						int id = add_entity(n, n); setup(id);
						m[id].deps = m[s].deps; m[s].deps.clear();
						m[id].ondeath = m[s].ondeath; m[s].ondeath.clear();
						if (!m[id].ondeath.empty()) m[id].mortal = false;
						retarget(s, id);
						break;
					}
					bool ok = true;
					for (size_t i = 0; i < m.size(); i++) if (m[i].alive && m[i].s && m[i].o && !positions(i, s).empty()) ok = false;
					if (!ok) break;
					c.log("move subject " + nm(s));
					int id = add_entity(new Sub(std::move(*m[s].s)), nullptr); setup(id);
					retarget(s, id);
				}
				else if (!m[o].s)
				{
					c.log("move observer " + nm(o));
					int id = add_entity(nullptr, new Obs(std::move(*m[o].o))); setup(id);
					m[id].deps = m[o].deps; m[o].deps.clear();
					m[id].ondeath = m[o].ondeath; m[o].ondeath.clear();
				}
				break;
			}
			case 10: // assignments
			{
				int o2 = r.pick(os);
				if (m[o].s || m[o2].s) break;
				bool mv = r.chance(0.5);
				c.log(nm(o) + (mv ? " = move " : " = ") + nm(o2));
				if (o == o2) { if (mv) *m[o].o = std::move(*m[o].o); else *m[o].o = *m[o].o; break; }
				if (!sim({o, o2}, [&]
				{
					std::vector<int> old = m[o].deps;
					m[o].deps = m[o2].deps;
					if (mv)
					{
						m[o2].deps.clear();
						m[o].ondeath.insert(m[o2].ondeath.begin(), m[o2].ondeath.end());
						m[o2].ondeath.clear();
					}
					drop_all(old);
				})) break;
				if (mv) *m[o].o = std::move(*m[o2].o); else *m[o].o = *m[o2].o;
				break;
			}
			case 11:
			{
				int s2 = r.pick(ss);
				if (m[s].o || m[s2].o) break;
				if (r.chance(0.3)) { c.log(nm(s) + " = " + nm(s2)); *m[s].s = *m[s2].s; break; }
				bool ok = true;
				for (size_t i = 0; i < m.size(); i++) if (m[i].alive && m[i].s && m[i].o && !positions(i, s2).empty() && (int) i < s) ok = false;
				if (!ok) break;
				c.log(nm(s) + " = move " + nm(s2));
				*m[s].s = std::move(*m[s2].s);
				if (s != s2) retarget(s2, s);
				break;
			}
			case 12: // steal
			{
				int s2 = r.pick(ss);
				if (s == s2) break;
				bool ok = audience(s2) > 0;
				for (size_t i = 0; i < m.size(); i++) if (m[i].alive && m[i].o && m[i].s && !positions(i, s2).empty() && s >= (int) i) ok = false;
				if (!ok) break;
				// a mortal subject dies on losing its last dependent
				c.log(nm(s) + " steals from " + nm(s2));
				if (!sim({s}, [&]{ retarget(s2, s); lost(s2); })) break;
				m[s].s->steal_observers(m[s2].s);
				c.count("stolen audiences");
				break;
			}
			case 13: // a subject that dies with its observer
			{
				if (m[s].o || m[s].mortal || m[o].mortal) break;
				bool own = false;
				for (M& x : m) if (x.ondeath.count(s)) own = true;
				if (own && r.chance(0.7)) break;
				c.log(nm(s) + " dies with " + nm(o));
				if (r.chance(0.5)) m[o].o->ondeath(m[s].s); else m[s].s->kill_with(m[o].o);
				m[o].ondeath.insert(s);
				c.count("subjects bound to an observer");
				break;
			}
			case 14:
			{
				if (m[o].ondeath.empty()) break;
				int x = *m[o].ondeath.begin();
				c.log(nm(x) + " no longer dies with " + nm(o));
				m[o].o->offdeath(m[x].s);
				m[o].ondeath.erase(x);
				break;
			}
		}
		check();
	}
	void retarget (int from, int to)
	{
		for (M& x : m) if (x.alive && x.o) for (int& d : x.deps) if (d == from) { d = to; x.touched = ++clock; }
	}
	void finish ()
	{
		// whatever is left must go in any order
		std::vector<int> order;
		for (size_t i = 0; i < m.size(); i++) order.push_back(i);
		r.shuffle(order);
		for (int e : order)
		{
			if (!m[e].alive) continue;
			begin();
			Sub* ps = m[e].s; Obs* po = m[e].o;
			die(e);
			if (ps) delete ps; else delete po;
			check();
		}
	}
	// after a failed case: leave nothing behind for the next one
	~World () { W = nullptr; }
};

Sub::~Sub () { if (W && id >= 0) { if (id < (int) W->m.size()) W->m[id].s = nullptr; } }
Obs::~Obs () { if (W && id >= 0) W->m[id].o = nullptr; }
void Sub::death_on_noparent ()
{
	if (W && id >= 0 && W->m[id].mortal) delete this;
}
void Obs::update (std::unordered_set<size_t> idx)
{
	if (!W || id < 0) return;
	World* w = W;
	int self = id;
	w->delivered(self, idx);
	switch (w->m[self].re)
	{
		case PROPAGATE: if (w->m[self].s) w->notify(self); break;
		case THROW: throw std::runtime_error("observer failed");
		case REWIRE: if (w->r.chance(0.5)) w->rewire(self); break;
		default: break;
	}
}
void Obs::death_on_broken ()
{
	if (!W || id < 0) return;
	M& x = W->m[id];
	x.broken++;
	if (DIE == x.pol) delete this;
	else if (CLEAR == x.pol) for (size_t i = 0, n = dependencies_.size(); i < n; i++) if (i < dependencies_.size()) remove_dependency(i);
}

static void r03_history (Ctx& c)
{
	World w(c);
	size_t steps = c.rng.range(10, c.thorough ? 150 : 70);
	for (size_t i = 0; i < steps; i++) w.step();
	w.finish();
}

std::vector<Group> vh::groups = {
	{"R03", "r03_history", r03_history, 1, 8, nullptr},
};
void (*vh::on_start)(void) = nullptr;
void (*vh::on_case)(uint64_t) = nullptr;
