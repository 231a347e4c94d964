// leaf.cpp - V01 (what leaves hold), S01/S02 (saving and loading), O07 (random data)
#include "gb.hpp"
#include "memory/tensor_io.hpp"
#include <dirent.h>
using namespace vh;
using namespace gb;

static uint64_t bits (double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static std::string hx (double d) { char b[24]; snprintf(b, 24, "%016llx", (unsigned long long) bits(d)); return b; }
static bool same_bits (const std::vector<double>& a, const std::vector<double>& b)
{
	return a.size() == b.size() && (a.empty() || 0 == memcmp(a.data(), b.data(), a.size() * sizeof(double)));
}
static std::string shp (const Shp& s) { return sstr(s); }
static bool defined (const Shp& s) { if (s.empty()) return false; for (size_t d : s) if (!d) return false; return true; }
static Shp partial (Rng& r, Shp s) { for (size_t& d : s) if (r.chance(0.4)) d = 0; return s; }
// declared shapes may leave dimensions open
static bool fits (const Shp& declared, const Shp& s)
{
	if (declared.empty()) return true;
	if (declared.size() != s.size()) return false;
	for (size_t i = 0; i < s.size(); i++) if (declared[i] && declared[i] != s[i]) return false;
	return true;
}

// shapes of another rank than a partly open one: the library documents its matching as incomplete, either way goes
static bool unclear (const Shp& declared, const Shp& s) { return !declared.empty() && !defined(declared) && declared.size() != s.size(); }

// ================================================================ V01

struct Leaf
{
	Var* v = nullptr;
	Place* p = nullptr;
	Shp declared;
	bool alloc = false;
	Shp shape;	// when allocated
	bool init = false;
	bool known = true; // the contents are what val says
	std::vector<double> val;
	int initer = -1;	// -1 none, 0 const, 1 uniform, 2 normal
	double a = 0, b = 0;
	nnet::ivariable<double>* node () const { return v ? (nnet::ivariable<double>*) v : (nnet::ivariable<double>*) p; }
};
struct Dep
{
	Ptr h;
	char op = 0;	// n: -x, s: sin x, +, *: binary, c: x + scalar
	int a = 0, b = -1;	// >= 0 leaf, < -1: dependent -2-i
	double k = 0;
	RT val;
	bool dirty = false;
};
struct Upd
{
	std::function<void(bool)> f;
	int leaf;
	char op;	// = + -
	bool isconst;
	RT c;		// constants
	int src;	// leaf or dependent
	bool nop = false;
	bool dead = false;
};

struct VWorld
{
	Ctx& c;
	Rng& r;
	std::vector<Leaf> l;
	std::vector<Dep> d;
	std::vector<Upd> u;
	size_t names = 0;
	VWorld (Ctx& c_) : c(c_), r(c_.rng) {}
	static std::string vs (const std::vector<double>& v) { return tstr(RT(Shp{v.size()}, v)); }
	std::string ln (int i) { return std::string(l[i].v ? "v" : "p") + std::to_string(i); }
	std::string nm (int s) { return s >= 0 ? ln(s) : "d" + std::to_string(-2 - s); }

	RT cur (int s) { if (s >= 0) return RT(l[s].shape, l[s].val); return d[-2 - s].val; }
	bool has (int s) { return s < 0 || (l[s].init && l[s].known); }
	Ptr handle (int s) { return s >= 0 ? Ptr(l[s].node()) : d[-2 - s].h; }
	RT calc (const Dep& x)
	{
		RT a = cur(x.a);
		if (x.op == 'n') { for (double& e : a.v) e = -e; return a; }
		if (x.op == 's') { for (double& e : a.v) e = std::sin(e); return a; }
		if (x.op == 'c') { for (double& e : a.v) e = e + x.k; return a; }
		RT b = cur(x.b);
		return elem2(x.op == '+' ? ADD : MUL, a, b);
	}
	bool uses (const Dep& x, int leaf) { return reaches(x.a, leaf) || (x.b != -1 && reaches(x.b, leaf)); }
	bool reaches (int s, int leaf) { if (s >= 0) return s == leaf; return uses(d[-2 - s], leaf); }
	bool has_deps (int leaf) { for (Dep& x : d) if (uses(x, leaf)) return true; return false; }
	// everything above the leaf follows
	void notified (int leaf)
	{
		for (Dep& x : d) if (uses(x, leaf)) x.val = calc(x);
	}
	void check (const char* when)
	{
		for (size_t i = 0; i < l.size(); i++)
		{
			Leaf& x = l[i];
			std::string who = std::string(when) + ": " + ln(i);
			c.event();
			if (x.node()->good_status() != x.init) { c.fail("status", who + (x.init ? " isn't initialized" : " is initialized")); }
			const nnet::tensor<double>* t = x.node()->eval();
			if (x.init && !t) c.fail("status", who + " has no data");
			if (!x.init && t) c.fail("status", who + " has data before it was initialized");
			if (!x.init) continue;
			if (!t->is_alloc()) c.fail("unallocated", who + " is initialized without data");
			Shp s = t->get_shape().as_list();
			if (s != x.shape) c.fail("shape", who + " has shape " + shp(s) + " instead of " + shp(x.shape));
			if (x.node()->get_shape().as_list() != s) c.fail("shape", who + " reports another shape than its tensor");
			std::vector<double> got = t->expose();
			if (!x.known) continue;
			if (got.size() != x.val.size()) c.fail("value", who + " holds " + std::to_string(got.size()) + " elements instead of " + std::to_string(x.val.size()));
			for (size_t k = 0; k < got.size(); k++) if (!close(got[k], x.val[k], 1e-12))
				c.fail("value", who + " holds " + vs(got) + " instead of " + vs(x.val));
		}
		for (size_t i = 0; i < d.size(); i++)
		{
			Got g = get(d[i].h.get());
			std::string who = std::string(when) + ": d" + std::to_string(i);
			c.event();
			if (g.threw || !g.has) c.fail("dependent", who + " can't be evaluated " + g.err);
			if (g.t.n() != d[i].val.n()) c.fail("dependent", who + " is " + tstr(g.t) + " instead of " + tstr(d[i].val));
			for (size_t k = 0; k < g.t.n(); k++) if (!close(g.t.v[k], d[i].val.v[k], 1e-9))
				c.fail("dependent", who + " is " + tstr(g.t) + " instead of " + tstr(d[i].val));
		}
	}
	std::unique_ptr<nnet::initializer<double> > mkinit (Leaf& x)
	{
		x.initer = r.range(0, 2);
		x.a = std::round(r.real(-3, 3) * 64) / 64;
		x.b = x.initer == 1 ? x.a + r.real(0.1, 2) : r.real(0.1, 2);
		if (0 == x.initer) return std::unique_ptr<nnet::initializer<double> >(new nnet::const_init<double>(x.a));
		if (1 == x.initer) return std::unique_ptr<nnet::initializer<double> >(new nnet::rand_uniform<double>(x.a, x.b));
		return std::unique_ptr<nnet::initializer<double> >(new nnet::rand_normal<double>(x.a, x.b));
	}
	// after an initialization: read random data once, then it is known
	void inited (int i)
	{
		Leaf& x = l[i];
		x.init = x.alloc = true;
		size_t n = count(x.shape);
		const nnet::tensor<double>* t = x.node()->eval();
		if (!t || !t->is_alloc()) { c.fail("status", ln(i) + " has no data after initialization"); }
		std::vector<double> got = t->expose();
		if (got.size() != n) c.fail("value", ln(i) + " holds " + std::to_string(got.size()) + " elements after initialization to " + shp(x.shape));
		for (double g : got)
		{
			c.event();
			bool ok = x.initer == 0 ? g == x.a : x.initer == 1 ? g >= x.a && g <= x.b : std::fabs(g - x.a) < 12 * x.b;
			if (!ok) c.fail("initializer", ln(i) + " got " + dstr(g) + " from its initializer");
		}
		x.val = got;
		x.known = true;
	}
	void make ()
	{
		Leaf x;
		Shp s = gen_shape(r, 3, 3, 12);
		std::string name = "l" + std::to_string(names++);
		size_t k = r.range(0, 6);
		if (0 == k)
		{
			double v = gen_val(r);
			x.v = new Var(v, name);
			x.declared = x.shape = Shp{1};
			x.init = x.alloc = true;
			x.val = {v};
			x.initer = 0; x.a = v;
		}
		else
		{
			x.declared = r.chance(0.4) ? partial(r, s) : s;
			if (!r.chance(0.04)) {} else x.declared.clear();
			if (k < 5)
			{
				if (k < 3) { auto in = mkinit(x); x.v = new Var(nnet::tensorshape(x.declared), *in, name); }
				else x.v = new Var(nnet::tensorshape(x.declared), name);
			}
			else x.p = new Place(nnet::tensorshape(x.declared), name);
			if (defined(x.declared)) { x.alloc = true; x.shape = x.declared; }
		}
		l.push_back(x);
		c.log("new " + ln(l.size() - 1) + " " + shp(x.declared) + (x.initer >= 0 ? " init" + std::to_string(x.initer) : ""));
	}
	int pick_leaf (std::function<bool(Leaf&)> f)
	{
		std::vector<int> o;
		for (size_t i = 0; i < l.size(); i++) if (f(l[i])) o.push_back(i);
		return o.empty() ? -1 : r.pick(o);
	}
	int pick_src ()
	{
		std::vector<int> o;
		for (size_t i = 0; i < l.size(); i++) if (l[i].init && l[i].known) o.push_back(i);
		for (size_t i = 0; i < d.size(); i++) o.push_back(-2 - (int)i);
		return o.empty() ? -1 : r.pick(o);
	}
	void run_update (Upd& q, bool notify)
	{
		if (q.dead) return;
		Leaf& x = l[q.leaf];
		c.log("run " + ln(q.leaf) + " " + q.op + "= " + (q.isconst ? tstr(q.c) : nm(q.src)) + (notify ? " notify" : ""));
		RT s = q.isconst ? q.c : cur(q.src);
		if (!q.isconst && !has(q.src)) return;
		bool refuse = false;
		Shp shape = x.shape;
		if (!q.nop)
		{
			if (!x.alloc)
			{
				// a first assignment decides open dimensions
				if (q.op != '=' || !fits(x.declared, s.s)) refuse = true;
				shape = s.s;
			}
			else if (s.n() != 1 && s.n() != count(x.shape)) refuse = true;
			if (!x.init && q.op != '=' && !refuse) return; // nothing to add to
		}
		bool threw = false;
		std::string err;
		try { q.f(notify); } catch (std::exception& e) { threw = true; err = e.what(); }
		if (threw != refuse)
		{
			// (unit dimensions decide whether an open shape takes it)
			if (!x.alloc && q.op == '=' && unclear(x.declared, s.s)) refuse = threw;
			else c.fail(refuse ? "accepted" : "refused", ln(q.leaf) + (refuse ? " accepted " : " refused ") + tstr(s) + " into shape " + shp(x.alloc ? x.shape : x.declared) + " " + err);
		}
		c.event();
		if (refuse) { c.count("refused assignments"); check("after refused assignment"); return; }
		if (q.nop) { check("after assigning zero"); return; }
		if (!x.alloc)
		{
			// (dependents of refed placeholders may keep other unit dimensions)
			Shp got = x.node()->get_shape().as_list();
			if (defined(got) && compat(got, shape)) shape = got;
		}
		x.shape = shape;
		x.alloc = true;
		std::vector<double> nv(count(shape));
		for (size_t i = 0; i < nv.size(); i++)
		{
			double e = s.v[s.n() == 1 ? 0 : i];
			nv[i] = q.op == '=' ? e : q.op == '+' ? x.val[i] + e : x.val[i] - e;
		}
		x.val = nv;
		x.init = true;
		x.known = true;
		if (notify) notified(q.leaf);
		c.count(notify ? "assignments with notification" : "assignments without notification");
	}
	void step ()
	{
		if (l.size() < 2 || (l.size() < 5 && r.chance(0.15))) { make(); check("new leaf"); return; }
		switch (r.range(0, 11))
		{
			case 0: // initialize
			{
				int i = pick_leaf([](Leaf& x) { return x.v && x.initer >= 0; });
				if (i < 0) break;
				Leaf& x = l[i];
				bool ok = x.alloc || defined(x.declared);
				c.log("initialize " + ln(i));
				bool threw = false;
				try { x.v->initialize(); } catch (std::exception&) { threw = true; }
				if (threw == ok) c.fail("initialize", ln(i) + (ok ? " can't be initialized" : " of open shape was initialized"));
				if (!ok) break;
				if (!x.alloc) x.shape = x.declared;
				inited(i);
				notified(i);
				break;
			}
			case 1: // initialize to a shape
			{
				int i = pick_leaf([&](Leaf& x) { return x.v && x.initer >= 0; });
				if (i < 0) break;
				Leaf& x = l[i];
				Shp s = x.declared;
				for (size_t& e : s) if (!e) e = r.range(1, 3);
				if (s.empty()) s = gen_shape(r, 2, 3, 9);
				bool want = true;
				if (r.chance(0.3)) { if (r.chance(0.5)) s[r.range(0, s.size() - 1)] = 0; else s.push_back(r.range(2, 3)); want = defined(s) && fits(x.declared, s); }
				// another shape than before only while nobody depends on it
				if (x.alloc && s != x.shape && (want || unclear(x.declared, s)) && (has_deps(i) || compat(s, x.shape))) break;
				c.log("initialize " + ln(i) + " to " + shp(s));
				bool threw = false;
				try { x.v->initialize(nnet::tensorshape(s)); } catch (std::exception&) { threw = true; }
				if (threw == want)
				{
					if (defined(s) && unclear(x.declared, s)) want = !threw;
					else c.fail("initialize", ln(i) + (want ? " can't be initialized to " : " was initialized to ") + shp(s));
				}
				if (!want) { c.count("refused initializations"); break; }
				x.shape = s;
				inited(i);
				notified(i);
				break;
			}
			case 2: // another initializer changes nothing yet
			{
				int i = pick_leaf([](Leaf& x) { return x.v; });
				if (i < 0) break;
				auto in = mkinit(l[i]);
				c.log("set initializer of " + ln(i));
				l[i].v->set_initializer(*in);
				break;
			}
			case 3: case 4: // feed a placeholder
			{
				int i = pick_leaf([](Leaf& x) { return x.p; });
				if (i < 0) break;
				Leaf& x = l[i];
				Shp s = x.alloc ? x.shape : x.declared;
				size_t known = 1, first = s.size();
				for (size_t k = 0; k < s.size(); k++) if (s[k]) known *= s[k]; else if (first == s.size()) first = k;
				size_t mul = r.range(1, 3);
				size_t n = s.empty() ? r.range(1, 6) : x.alloc || first == s.size() ? known : known * mul;
				if (s.empty()) { s = Shp{n}; first = 0; mul = n; }
				for (size_t& e : s) if (!e) e = 1;
				if (!x.alloc && first < s.size()) s[first] = mul;
				bool want = true;
				if (r.chance(0.25)) { n = r.chance(0.3) ? 0 : n + r.range(1, 3); want = n > 0 && (x.declared.empty() && !x.alloc); if (!want && n > 0 && !x.alloc && !defined(x.declared) && n % known == 0) break; if (want) { s = Shp{n}; } }
				std::vector<double> v(n);
				for (double& e : v) e = gen_val(r);
				c.log("feed " + ln(i) + " " + std::to_string(n));
				bool threw = false;
				try { *x.p = v; } catch (std::exception&) { threw = true; }
				if (threw == want) c.fail("feed", ln(i) + " of shape " + shp(x.alloc ? x.shape : x.declared) + (want ? " refused " : " accepted ") + std::to_string(n) + " values");
				c.event();
				if (!want) { c.count("refused feeds"); break; }
				x.alloc = true; x.shape = s; x.init = true; x.val = v; x.known = true;
				notified(i);
				c.count("feeds");
				break;
			}
			case 5: // feed a tensor: it moves into the placeholder
			{
				int i = pick_leaf([](Leaf& x) { return x.p; });
				if (i < 0) break;
				Leaf& x = l[i];
				Shp s = x.alloc && (has_deps(i) || r.chance(0.5)) ? x.shape : x.declared;
				for (size_t& e : s) if (!e) e = r.range(1, 3);
				if (s.empty()) s = gen_shape(r, 2, 3, 9);
				bool empty = r.chance(0.1);
				nnet::tensor<double> t{nnet::tensorshape(empty ? Shp{} : s)};
				RT v = gen_tensor(r, s);
				if (!empty) { nnet::assign_func<double> as; as(t, v.v); }
				c.log("feed " + ln(i) + " a tensor " + (empty ? "without data" : shp(s)));
				bool threw = false;
				try { *x.p = t; } catch (std::exception&) { threw = true; }
				if (threw != empty) c.fail("feed", ln(i) + (empty ? " accepted a tensor without data" : " refused a tensor of its shape"));
				if (empty) break;
				if (t.is_alloc()) c.fail("feed", "the tensor " + ln(i) + " was fed with keeps its data");
				x.alloc = x.init = x.known = true; x.shape = s; x.val = v.v; x.declared = s;
				notified(i);
				break;
			}
			case 6: // dependents
			{
				if (d.size() > 7) break;
				Dep x;
				x.a = pick_src();
				if (x.a == -1) break;
				size_t k = r.range(0, 4);
				Ptr h;
				if (k < 3) { x.op = "nsc"[k]; x.k = std::round(r.real(0.2, 3) * 16) / 16; Ptr a = handle(x.a); h = k == 0 ? -a : k == 1 ? nnet::sin(a) : a + x.k; }
				else
				{
					x.b = pick_src();
					if (x.b == -1) break;
					RT a = cur(x.a), b = cur(x.b);
					if (a.n() != 1 && b.n() != 1 && a.s != b.s) break;
					x.op = k == 3 ? '+' : '*';
					h = k == 3 ? handle(x.a) + handle(x.b) : handle(x.a) * handle(x.b);
				}
				bool dup = false;
				for (Dep& y : d) if (y.h.get() == h.get()) dup = true;
				for (Leaf& y : l) if ((Node*) y.node() == h.get()) dup = true;
				if (dup) break;
				x.h = h;
				x.val = calc(x);
				c.log("d" + std::to_string(d.size()) + " = " + x.op + " " + nm(x.a) + (x.b != -1 ? " " + nm(x.b) : ""));
				d.push_back(x);
				break;
			}
			case 7: case 8: case 9: // a new updater
			{
				int i = pick_leaf([](Leaf& x) { return x.v; });
				if (i < 0) break;
				Upd q;
				q.leaf = i;
				q.op = "=+-"[r.range(0, 2)];
				q.isconst = r.chance(0.4);
				q.src = -1;
				Ptr h;
				if (q.isconst)
				{
					Shp s = l[i].alloc ? l[i].shape : l[i].declared;
					for (size_t& e : s) if (!e) e = r.range(1, 3);
					if (s.empty() || r.chance(0.25)) s = gen_shape(r, 2, 3, 9);
					if (r.chance(0.3)) s = Shp{1};
					q.c = gen_tensor(r, s);
					if (r.chance(0.15)) for (double& e : q.c.v) e = 0;
					Const* k = q.c.n() == 1 ? Const::get(q.c.v[0]) : Const::get(q.c.v, nnet::tensorshape(s));
					if (q.c.n() == 1) q.c.s = Shp{1};
					h = k;
					q.nop = q.op != '=' && q.c.n() == 1 && q.c.v[0] == 0;
				}
				else
				{
					q.src = pick_src();
					if (q.src == -1) break;
					h = handle(q.src);
				}
				c.log("updater " + ln(i) + " " + q.op + "= " + (q.isconst ? tstr(q.c) : nm(q.src)));
				q.f = q.op == '=' ? l[i].v->assign(h.get()) : q.op == '+' ? l[i].v->assign_add(h.get()) : l[i].v->assign_sub(h.get());
				u.push_back(q);
				run_update(u.back(), r.chance(0.7));
				break;
			}
			case 10: // run an earlier updater again
				if (u.empty()) break;
				run_update(r.pick(u), r.chance(0.7));
				c.count("repeated updaters");
				break;
			case 11: // initializing again after quiet assignments
			{
				int i = pick_leaf([](Leaf& x) { return x.v && x.initer >= 0 && x.init; });
				if (i < 0) break;
				c.log("initialize again " + ln(i));
				l[i].v->initialize();
				inited(i);
				notified(i);
				break;
			}
		}
		check("afterwards");
	}
	~VWorld ()
	{
		u.clear();
		for (Leaf& x : l) { delete x.v; delete x.p; }
	}
};
static void v01 (Ctx& c)
{
	VWorld w(c);
	size_t n = c.rng.range(8, c.thorough ? 80 : 45);
	for (size_t i = 0; i < n; i++) w.step();
	w.check("at the end");
}

// ================================================================ S01 / S02

static std::string scratch ()
{
	static std::string d;
	if (d.empty())
	{
		const char* e = getenv("VH_SCRATCH");
		d = std::string(e ? e : "/tmp") + "/leaf." + std::to_string(getpid());
		mkdir(d.c_str(), 0700);
	}
	return d;
}
// library chatter about new files
struct Quiet
{
	std::streambuf* a; std::streambuf* b;
	std::ostringstream s;
	Quiet () { a = std::cout.rdbuf(s.rdbuf()); b = std::cerr.rdbuf(s.rdbuf()); }
	~Quiet () { std::cout.rdbuf(a); std::cerr.rdbuf(b); }
};
static double special (Rng& r)
{
	switch (r.range(0, 9))
	{
		case 0: return std::numeric_limits<double>::infinity() * (r.chance(0.5) ? 1 : -1);
		case 1: return -0.0;
		case 2: return std::numeric_limits<double>::denorm_min() * (double) r.range(1, 1000);
		case 3: { uint64_t u = 0x7ff8000000000000ULL | (r.next() & 0xffffffffULL); double x; memcpy(&x, &u, 8); return x; }
		case 4: return std::numeric_limits<double>::max();
		case 5: return 0;
		case 6: { uint64_t u = r.next(); double x; memcpy(&x, &u, 8); return std::isnan(x) ? 1.5 : x; }
		default: return gen_val(r);
	}
}
struct Saved { Shp s; std::vector<double> v; };
typedef std::map<std::string, Saved> File;

struct SLeaf { Var* v = nullptr; Place* p = nullptr; Shp s; bool init = false; std::vector<double> val; Ptr dep;
	nnet::ivariable<double>* node () const { return v ? (nnet::ivariable<double>*) v : (nnet::ivariable<double>*) p; } };
struct SWorld
{
	Ctx& c;
	Rng& r;
	std::vector<SLeaf> l;
	std::vector<std::string> files;
	std::vector<File> content;
	std::vector<bool> exists;
	size_t names = 0;
	SWorld (Ctx& c_) : c(c_), r(c_.rng)
	{
		for (int i = 0; i < 2; i++) { files.push_back(scratch() + "/f" + std::to_string(i)); unlink(files[i].c_str()); }
		content.resize(2);
		exists.assign(2, false);
	}
	~SWorld ()
	{
		for (SLeaf& x : l) { if (x.dep.get()) x.dep.clear(); delete x.v; delete x.p; }
		for (auto& f : files) unlink(f.c_str());
	}
	void set (SLeaf& x, const std::vector<double>& v)
	{
		nnet::tensor<double> t{nnet::tensorshape(x.s)};
		nnet::assign_func<double> as;
		as(t, v);
		if (x.p) *x.p = t;
		else
		{
			Ptr k = Const::get(v, nnet::tensorshape(x.s));
			x.v->assign(k.get())(true);
		}
		x.val = v;
		x.init = true;
	}
	int make (Shp s, bool init)
	{
		SLeaf x;
		x.s = s;
		std::string name = "s" + std::to_string(names++);
		if (r.chance(0.75)) x.v = new Var(nnet::tensorshape(s), nnet::const_init<double>(0), name);
		else x.p = new Place(nnet::tensorshape(s), name);
		if (init)
		{
			if (x.v) x.v->initialize();
			std::vector<double> v(count(s));
			for (double& e : v) e = special(r);
			set(x, v);
			if (r.chance(0.5)) x.dep = r.chance(0.5) ? Ptr(x.node()) + 1.0 : -Ptr(x.node());
		}
		l.push_back(x);
		return l.size() - 1;
	}
	void same (int i, const char* when)
	{
		SLeaf& x = l[i];
		std::string who = std::string(when) + ": s" + std::to_string(i);
		c.event();
		if (x.node()->good_status() != x.init) { c.fail("status", who + (x.init ? " isn't initialized" : " is initialized")); return; }
		const nnet::tensor<double>* t = x.node()->eval();
		if (!x.init) { if (t) c.fail("status", who + " has data"); return; }
		if (!t || !t->is_alloc()) { c.fail("status", who + " has no data"); return; }
		if (t->get_shape().as_list() != x.s) { c.fail("shape", who + " has shape " + shp(t->get_shape().as_list()) + " instead of " + shp(x.s)); return; }
		std::vector<double> g = t->expose();
		if (!same_bits(g, x.val))
		{
			std::string m;
			for (size_t k = 0; k < std::min(g.size(), x.val.size()); k++) if (bits(g[k]) != bits(x.val[k])) { m = " element " + std::to_string(k) + " " + hx(g[k]) + " instead of " + hx(x.val[k]); break; }
			c.fail("bits", who + m);
			return;
		}
		if (x.dep.get())
		{
			Got dg = get(x.dep.get());
			if (!dg.has || dg.t.n() != x.val.size()) { c.fail("dependent", who + ": its dependent can't be evaluated"); return; }
			bool neg = x.dep->get_label().find("neg") != std::string::npos;
			(void) neg;
			for (size_t k = 0; k < x.val.size(); k++)
			{
				double a = -x.val[k], b = x.val[k] + 1.0, y = dg.t.v[k];
				if (!(y == a || y == b || (std::isnan(y) && std::isnan(x.val[k])))) { c.fail("dependent", who + ": its dependent has " + dstr(y) + " for " + dstr(x.val[k])); return; }
			}
		}
	}
	void all (const char* when) { for (size_t i = 0; i < l.size(); i++) same(i, when); }
	std::vector<int> pick (size_t n)
	{
		std::vector<int> o;
		for (size_t i = 0; i < l.size(); i++) o.push_back(i);
		r.shuffle(o);
		if (o.size() > n) o.resize(n);
		return o;
	}
	std::string label ()
	{
		static const char* const ls[] = {"g", "g:1", "net/layer_0", "", "gg", "1", "\xc3\xa9t\xc3\xa9"};
		return ls[r.range(0, 6)];
	}
	void save (size_t f, std::string lab, std::vector<int> which)
	{
		std::vector<nnet::inode<double>*> nv;
		for (int i : which) nv.push_back(l[i].node());
		std::string tr = "save " + lab + " to f" + std::to_string(f) + ":";
		for (int i : which) tr += " s" + std::to_string(i) + shp(l[i].s) + (l[i].init ? "" : "?");
		c.log(tr);
		bool ok;
		{ Quiet q; ok = nnet::write_inorder<double>(nv, lab, files[f]); }
		c.event();
		if (!ok) c.fail("save", "saving failed");
		if (nv.size() != which.size()) c.fail("save", "saving changed what was to be saved");
		exists[f] = true;
		for (size_t k = 0; k < which.size(); k++) if (l[which[k]].init) content[f][lab + ":" + std::to_string(k)] = {l[which[k]].s, l[which[k]].val};
		all("after saving");
		c.count("saves");
	}
	// load into receivers; what fits is restored, the rest reported and left alone
	void load (size_t f, std::string lab, std::vector<int> into)
	{
		std::vector<nnet::inode<double>*> nv, left;
		for (int i : into) nv.push_back(l[i].node());
		std::string tr = "load " + lab + " from f" + std::to_string(f) + ":";
		for (int i : into) tr += " s" + std::to_string(i) + shp(l[i].s) + (l[i].init ? "" : "?");
		c.log(tr);
		bool ok;
		{ Quiet q; ok = nnet::read_inorder<double>(nv, lab, files[f]); }
		c.event();
		if (ok != exists[f]) c.fail("load", ok ? "loading from a missing file succeeded" : "loading failed");
		for (size_t k = 0; k < into.size(); k++)
		{
			SLeaf& x = l[into[k]];
			auto it = content[f].find(lab + ":" + std::to_string(k));
			bool fit = ok && it != content[f].end() && it->second.s == x.s;
			// shapes that differ in outer unit dimensions are the same to the library
			if (ok && !fit && it != content[f].end() && compat(it->second.s, x.s) && it->second.v.size() == count(x.s) &&
				std::find(nv.begin(), nv.end(), x.node()) == nv.end()) { fit = true; x.s = it->second.s; c.count("other unit dimensions"); }
			if (!fit) { left.push_back(x.node()); continue; }
			x.val = it->second.v;
			x.init = true;
			c.count("restored tensors");
		}
		if (nv != left) c.fail("unfound", "loading reported " + std::to_string(nv.size()) + " tensors as not found instead of " + std::to_string(left.size()));
		all("after loading");
	}
};
static void s01 (Ctx& c)
{
	SWorld w(c);
	Rng& r = c.rng;
	size_t n = r.range(1, 6);
	for (size_t i = 0; i < n; i++) w.make(gen_shape(r, 4, 4, 40), !r.chance(0.1));
	// the same shapes again
	std::vector<Shp> shapes;
	for (SLeaf& x : w.l) shapes.push_back(x.s);
	for (size_t k = r.range(2, c.thorough ? 20 : 8); k > 0; k--)
	{
		switch (r.range(0, 4))
		{
			case 0: case 1: { size_t m = r.range(1, w.l.size()); w.save(r.range(0, 1), w.label(), w.pick(m)); break; }
			case 2: // into the same or another arrangement (shapes of a group may not fit: those are refused)
				w.load(r.range(0, 1), w.label(), w.pick(r.range(1, w.l.size())));
				break;
			case 3: // save, change, restore
			{
				size_t f = r.range(0, 1);
				std::string lab = w.label();
				std::vector<int> which = w.pick(r.range(1, w.l.size()));
				w.save(f, lab, which);
				for (int i : which) if (r.chance(0.7))
				{
					std::vector<double> v(count(w.l[i].s));
					for (double& e : v) e = special(r);
					if (w.l[i].v && !w.l[i].init) w.l[i].v->initialize();
					w.set(w.l[i], v);
				}
				w.all("after changing");
				w.load(f, lab, which);
				break;
			}
			case 4: // into new leaves of the same shapes, initialized or not
			{
				size_t f = r.range(0, 1);
				std::string lab = w.label();
				std::vector<int> which = w.pick(r.range(1, std::min<size_t>(4, w.l.size())));
				w.save(f, lab, which);
				std::vector<int> into;
				for (int i : which) into.push_back(w.make(Shp(w.l[i].s), r.chance(0.4)));
				if (r.chance(0.2)) into.push_back(w.make(gen_shape(r, 2, 3, 9), true));
				w.load(f, lab, into);
				break;
			}
		}
	}
}

// ---- hostile files
static void varint (std::string& o, uint64_t v) { while (v >= 128) { o += (char) ((v & 127) | 128); v >>= 7; } o += (char) v; }
static std::string fld (int n, const std::string& b) { std::string o; varint(o, n << 3 | 2); varint(o, b.size()); return o + b; }
static std::string packed (const std::vector<uint64_t>& v) { std::string o; for (uint64_t x : v) varint(o, x); return o; }
static std::string entry (const std::string& key, const std::string& data, const std::vector<uint64_t>& allow, const std::vector<uint64_t>& alloc)
{
	std::string t = fld(1, data) + fld(2, packed(allow)) + fld(3, packed(alloc));
	return fld(1, fld(1, key) + fld(2, t));
}
static std::string raw (const std::vector<double>& v) { return std::string((const char*) v.data(), v.size() * 8); }
static void put (const std::string& f, const std::string& b) { std::ofstream o(f, std::ios::binary | std::ios::trunc); o << b; }
static std::string slurp (const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }

// loads the file and judges the outcome against what the protobuf parser makes of its bytes
static void judge (SWorld& w, const std::string& bytes, const std::string& lab, const std::vector<int>& into)
{
	Ctx& c = w.c;
	put(w.files[0], bytes);
	std::vector<nnet::inode<double>*> nv, before;
	for (int i : into) nv.push_back(w.l[i].node());
	before = nv;
	bool ok = false;
	{ Quiet q; ok = nnet::read_inorder<double>(nv, lab, w.files[0]); }
	c.event();
	tenncor::repository repo;
	bool parses = repo.ParseFromString(bytes);
	if (ok && !parses) { c.fail("accepted", "a file that can't be parsed was loaded"); }
	if (!ok && nv != before) c.fail("unfound", "a failed load changed the list of what to load");
	std::set<nnet::inode<double>*> left(nv.begin(), nv.end());
	if (parses && ok) for (size_t k = 0; k < into.size(); k++)
	{
		SLeaf& x = w.l[into[k]];
		bool restored = !left.count(x.node());
		auto it = repo.node_map().find(lab + ":" + std::to_string(k));
		bool good = it != repo.node_map().end();
		Shp alloc;
		std::vector<double> data;
		if (good)
		{
			unsigned __int128 m = 1;
			for (uint64_t e : it->second.alloc_shape()) { alloc.push_back(e); m *= e; if (m > (1u << 20)) break; }
			std::string b = it->second.data();
			Shp allow(it->second.allow_shape().begin(), it->second.allow_shape().end());
			good = defined(alloc) && m * 8 == b.size() && alloc == x.s;
			if (good) { data.resize(b.size() / 8); memcpy(data.data(), b.data(), b.size()); }
			bool allowed = fits(allow, alloc);
			// what the entry claims to allow must contain what it holds
			if (good && !allowed) { if (!restored) good = false; else if (allow.size() == alloc.size()) c.fail("accepted", "an entry whose shape contradicts what it allows was loaded"); else w.c.count("unclear entries"); }
		}
		if (restored && !good)
		{
			// unit dimensions at the ends may differ
			if (it != repo.node_map().end() && defined(alloc) && compat(alloc, x.s) && alloc != x.s)
			{
				std::string b = it->second.data();
				data.resize(b.size() / 8); memcpy(data.data(), b.data(), b.size() / 8 * 8);
				if (data.size() == count(x.s)) { x.s = alloc; x.val = data; x.init = true; continue; }
			}
			c.fail("accepted", "s" + std::to_string(into[k]) + shp(x.s) + " was loaded from an entry that doesn't fit");
		}
		if (!restored && good) c.fail("refused", "s" + std::to_string(into[k]) + shp(x.s) + " wasn't loaded from an entry that fits");
		if (restored) { x.val = data; x.init = true; c.count("restored tensors"); }
		else c.count("refused tensors");
	}
	else c.count("refused files");
	w.all("after loading");
}
static void s02_bytes (Ctx& c)
{
	SWorld w(c);
	Rng& r = c.rng;
	size_t n = r.range(1, 4);
	for (size_t i = 0; i < n; i++) w.make(gen_shape(r, 3, 3, 12), true);
	std::vector<int> which = w.pick(n);
	std::string lab = w.label();
	w.save(0, lab, which);
	std::string good = slurp(w.files[0]);
	for (size_t k = r.range(2, 6); k > 0; k--)
	{
		for (int i : which) if (r.chance(0.5)) { std::vector<double> v(count(w.l[i].s)); for (double& e : v) e = gen_val(r); w.set(w.l[i], v); }
		std::string b = good;
		std::string what;
		switch (r.range(0, 5))
		{
			case 0: b.resize(r.range(0, b.size())); what = "truncated to " + std::to_string(b.size()); break;
			case 1: { for (size_t m = r.range(1, 4); m > 0; m--) { size_t p = r.range(0, b.size() - 1); b[p] ^= (char) (1 << r.range(0, 7)); what += " flip " + std::to_string(p); } break; }
			case 2: { size_t p = r.range(0, b.size() - 1); size_t e = std::min(b.size(), p + r.range(1, 9)); b.erase(p, e - p); what = "cut " + std::to_string(p); break; }
			case 3: { size_t p = r.range(0, b.size()); std::string ins; for (size_t m = r.range(1, 9); m > 0; m--) ins += (char) r.next(); b.insert(p, ins); what = "inserted at " + std::to_string(p); break; }
			case 4: { b.clear(); for (size_t m = r.range(0, 60); m > 0; m--) b += (char) r.next(); what = "garbage"; break; }
			case 5: { size_t p = r.range(0, b.size() - 1); b[p] = (char) (r.chance(0.5) ? 0xff : r.next()); what = "byte " + std::to_string(p); break; }
		}
		c.log("load from a file " + what);
		judge(w, b, lab, which);
	}
	// no file, and a directory in its place
	unlink(w.files[0].c_str());
	w.exists[0] = false;
	w.load(0, lab, which);
}
static void s02_contents (Ctx& c)
{
	SWorld w(c);
	Rng& r = c.rng;
	size_t n = r.range(1, 4);
	for (size_t i = 0; i < n; i++) w.make(gen_shape(r, 3, 3, 12), !r.chance(0.15));
	std::vector<int> which = w.pick(n);
	for (size_t rounds = r.range(1, 5); rounds > 0; rounds--)
	{
		std::string lab = w.label();
		std::string b;
		for (size_t k = 0; k < which.size() + (r.chance(0.2) ? 1 : 0); k++)
		{
			Shp s = k < which.size() ? w.l[which[k]].s : gen_shape(r, 2, 3, 9);
			std::vector<uint64_t> allow(s.begin(), s.end()), alloc(s.begin(), s.end());
			std::vector<double> v(count(s));
			for (double& e : v) e = special(r);
			std::string data = raw(v), what = "fits";
			std::string key = lab + ":" + std::to_string(k);
			switch (r.range(0, 13))
			{
				case 0: data.resize(data.size() - r.range(1, 8)); what = "data cut"; break;
				case 1: data += std::string(r.range(1, 16), 'x'); what = "data extended"; break;
				case 2: data.clear(); what = "no data"; break;
				case 3: alloc.push_back(r.range(2, 3)); what = "another dimension"; break;
				case 4: alloc[r.range(0, alloc.size() - 1)] = 0; what = "unknown dimension"; break;
				case 5: alloc[r.range(0, alloc.size() - 1)] = (uint64_t) 1 << r.range(32, 63); what = "huge dimension"; break;
				case 6: alloc = {(uint64_t) 1 << 32, (uint64_t) 1 << 32}; if (r.chance(0.5)) allow = alloc; data = r.chance(0.5) ? "" : data; what = "overflowing dimensions"; break;
				case 7: alloc.clear(); what = "no shape"; break;
				case 8: { Shp s2 = gen_shape(r, 3, 3, 12); alloc.assign(s2.begin(), s2.end()); allow = alloc; std::vector<double> v2(count(s2), 1.25); data = raw(v2); what = "another shape " + shp(s2); break; }
				case 9: allow[r.range(0, allow.size() - 1)] += 1; what = "contradicting shapes"; break;
				case 10: allow.clear(); what = "any shape allowed"; break;
				case 11: key = lab + ":" + std::to_string(k + 7); what = "misnamed"; break;
				case 12: { std::vector<uint64_t> a2 = alloc; uint64_t p = (uint64_t) -1; a2.push_back(p); a2.push_back(p); alloc = a2; allow = a2; what = "product wraps around to fit"; break; }
				case 13: allow.assign(alloc.size(), 0); what = "open shape"; break;
			}
			c.log("entry " + std::to_string(k) + shp(s) + ": " + what);
			b += entry(key, data, allow, alloc);
			if (r.chance(0.1)) b += fld(9, "unknown field");
		}
		if (r.chance(0.05)) { lab += "x"; c.log("another label"); }
		judge(w, b, lab, which);
	}
}
// a file that can't be parsed isn't overwritten by a save
static void s02_save (Ctx& c)
{
	SWorld w(c);
	Rng& r = c.rng;
	w.make(gen_shape(r, 2, 3, 9), true);
	std::string b = "\x0a\x7f not a repository";
	for (size_t m = r.range(0, 20); m > 0; m--) b += (char) r.range(1, 127);
	put(w.files[0], b);
	std::vector<nnet::inode<double>*> nv{w.l[0].node()};
	bool ok;
	tenncor::repository repo;
	if (repo.ParseFromString(b)) throw Skip();
	c.log("save into an unparsable file of " + std::to_string(b.size()));
	{ Quiet q; ok = nnet::write_inorder<double>(nv, "g", w.files[0]); }
	c.event();
	if (ok) c.fail("save", "saving into a file that can't be parsed succeeded");
	if (slurp(w.files[0]) != b) c.fail("save", "a file that couldn't be parsed was overwritten");
	{ Quiet q; ok = nnet::write_inorder<double>(nv, "g", scratch() + "/missing/file"); }
	if (ok) c.fail("save", "saving into a missing directory succeeded");
	w.all("after saving");
}

// ================================================================ O07

struct Mom { double n = 0, m = 0, s2 = 0, lag = 0, lo = INFINITY, hi = -INFINITY; };
static Mom moments (const std::vector<double>& v)
{
	Mom o;
	o.n = v.size();
	for (double x : v) { o.m += x / o.n; o.lo = std::min(o.lo, x); o.hi = std::max(o.hi, x); }
	for (double x : v) o.s2 += (x - o.m) * (x - o.m) / o.n;
	for (size_t i = 0; i + 1 < v.size(); i++) o.lag += (v[i] - o.m) * (v[i + 1] - o.m) / o.n;
	return o;
}
static void sane (Ctx& c, const std::string& what, const std::vector<double>& v, bool uniform, double a, double b)
{
	for (double x : v)
	{
		c.event();
		if (!std::isfinite(x)) c.fail("unset", what + " left " + dstr(x) + " behind");
		if (uniform && (x < a || x > b)) c.fail("range", what + " gave " + dstr(x));
	}
	if (v.size() < 200) return;
	Mom m = moments(v);
	double mean = uniform ? (a + b) / 2 : a, sd = uniform ? (b - a) / std::sqrt(12) : b;
	if (std::fabs(m.m - mean) > 7 * sd / std::sqrt(m.n)) c.fail("mean", what + " has mean " + dstr(m.m) + " over " + std::to_string(v.size()));
	if (std::fabs(m.s2 / (sd * sd) - 1) > 8 * std::sqrt(2 / m.n)) c.fail("spread", what + " has variance " + dstr(m.s2) + " instead of " + dstr(sd * sd));
	if (std::fabs(m.lag / (sd * sd)) > 8 / std::sqrt(m.n)) c.fail("correlated", what + " repeats itself");
	c.count("distributions tested");
}
// several draws through variables, initializers, their clones and generators
static void o07_init (Ctx& c)
{
	Rng& r = c.rng;
	size_t seed = r.range(0, 1000000);
	Shp big{r.range(10, 20), r.range(20, 30)};
	bool uni = r.chance(0.5);
	double a = r.real(-5, 5), b = uni ? a + r.real(0.01, 8) : r.real(0.01, 4);
	c.log(std::string(uni ? "uniform " : "normal ") + dstr(a) + " " + dstr(b) + " seed " + std::to_string(seed));
	std::unique_ptr<nnet::initializer<double> > in;
	if (uni) in.reset(new nnet::rand_uniform<double>(a, b)); else in.reset(new nnet::rand_normal<double>(a, b));
	std::vector<int> plan;
	std::vector<Shp> shapes;
	for (size_t k = r.range(2, 6); k > 0; k--) { plan.push_back(r.range(0, 4)); shapes.push_back(r.chance(0.4) ? big : gen_shape(r, 3, 5, 60)); }
	auto play = [&] (size_t sd) -> std::vector<std::vector<double> >
	{
		std::vector<std::vector<double> > out;
		nnutils::seed_generator(sd);
		for (size_t k = 0; k < plan.size(); k++)
		{
			nnet::tensorshape ts(shapes[k]);
			switch (plan[k])
			{
				case 0: { Var v(ts, *in, "v"); v.initialize(); out.push_back(nnet::expose<double>(&v)); break; }
				case 1: { Var v(ts, *in, "v"); v.initialize(); out.push_back(nnet::expose<double>(&v)); v.initialize(); out.push_back(nnet::expose<double>(&v)); break; }
				case 2: { nnet::tensor<double> t(ts); std::unique_ptr<nnet::initializer<double> > cl(in->clone()); (*cl)(t); out.push_back(t.expose()); break; }
				case 3: { Var v(Shp(shapes[k].size(), 0), *in, "v"); v.initialize(ts); out.push_back(nnet::expose<double>(&v)); break; }
				case 4:
				{
					Var v(ts, nnet::const_init<double>(0), "v");
					v.initialize();
					nnet::generator<double>* g = nnet::generator<double>::get(&v, *in, "g1");
					nnet::generator<double>* g2 = nnet::generator<double>::get(&v, *in, "g2");
					if (g->get_shape().as_list() != shapes[k]) c.fail("shape", "a generator has shape " + shp(g->get_shape().as_list()) + " instead of " + shp(shapes[k]));
					out.push_back(nnet::expose<double>(g));
					out.push_back(nnet::expose<double>(g2));
					// evaluating again keeps the data
					if (!same_bits(out.back(), nnet::expose<double>(g2))) c.fail("changed", "a generator changed its data between two evaluations");
					if (nnet::expose<double>(g->derive(&v).get())[0] != 0) c.fail("derive", "the derivative of random data isn't zero");
					break;
				}
			}
		}
		return out;
	};
	std::vector<std::vector<double> > d1 = play(seed), d2 = play(seed), d3 = play(seed + 1);
	for (size_t i = 0; i < d1.size(); i++) sane(c, "draw " + std::to_string(i), d1[i], uni, a, b);
	for (size_t i = 0; i < d1.size(); i++)
	{
		c.event();
		if (!same_bits(d1[i], d2[i])) c.fail("irreproducible", "draw " + std::to_string(i) + " differs for the same seed");
		if (d1[i].size() > 2 && same_bits(d1[i], d3[i])) c.fail("seed", "draw " + std::to_string(i) + " is the same for another seed");
		std::set<double> mine(d1[i].begin(), d1[i].end());
		for (size_t j = 0; j < i; j++)
		{
			size_t shared = 0;
			for (double x : d1[j]) shared += mine.count(x);
			if (shared > 1) c.fail("repeated", "draws " + std::to_string(j) + " and " + std::to_string(i) + " share " + std::to_string(shared) + " values");
		}
	}
}
// generators follow the shape they depend on
static void o07_gen (Ctx& c)
{
	Rng& r = c.rng;
	nnutils::seed_generator(r.range(0, 1000000));
	double a = r.real(-5, 5), b = a + r.real(0.1, 4);
	Shp s = gen_shape(r, 3, 4, 40);
	Place p(nnet::tensorshape(Shp(s.size(), 0)), "p");
	bool late = r.chance(0.5);
	auto feed = [&] (Shp sh) { nnet::tensor<double> t{nnet::tensorshape(sh)}; nnet::assign_func<double> as; as(t, std::vector<double>(count(sh), 0.5)); p = t; };
	if (!late) feed(s);
	nnet::generator<double>* g = nnet::generator<double>::get(&p, nnet::rand_uniform<double>(a, b), "gen");
	std::string tr = std::string("generator ") + (late ? "before " : "after ") + shp(s);
	if (late) { if (g->good_status() || g->eval()) c.fail("early", "a generator has data before its shape is known"); feed(s); }
	// (what depends on a generator keeps the shape it had first)
	bool reshape = r.chance(0.5);
	Ptr sum;
	if (!reshape) sum = Ptr(g) + 1.0;
	std::vector<double> last;
	for (size_t k = r.range(1, 5); k > 0; k--)
	{
		std::vector<double> v = nnet::expose<double>(g);
		if (g->get_shape().as_list() != s || v.size() != count(s)) c.fail("shape", "a generator has shape " + shp(g->get_shape().as_list()) + " instead of " + shp(s));
		sane(c, "generator", v, true, a, b);
		if (sum.get())
		{
			Got q = get(sum.get());
			if (!q.has || q.t.n() != v.size()) c.fail("dependent", "a dependent of a generator can't be evaluated " + q.err);
			else for (size_t i = 0; i < v.size(); i++) if (!close(q.t.v[i], v[i] + 1)) c.fail("dependent", "a dependent of a generator has other data");
		}
		if (v.size() > 1 && v.size() == last.size() && s.size() && same_bits(v, last) ) c.count("kept data");
		last = v;
		Shp s2 = s;
		if (reshape && r.chance(0.7)) { s2[r.range(0, s2.size() - 1)] += r.range(1, 2); }
		tr += " " + shp(s2);
		feed(s2);
		if (s2 != s)
		{
			std::vector<double> v2 = nnet::expose<double>(g);
			size_t shared = 0;
			std::set<double> old(v.begin(), v.end());
			for (double x : v2) shared += old.count(x);
			if (shared > 1) c.fail("repeated", "a reshaped generator kept " + std::to_string(shared) + " values");
			break;
		}
		s = s2;
	}
	c.log(tr);
}
static void binsane (Ctx& c, const std::string& what, const std::vector<double>& v, const std::vector<double>& n, const std::vector<double>& p)
{
	double mean = 0, var = 0, got = 0;
	size_t m = std::max(n.size(), p.size());
	if (v.size() != m) { c.fail("shape", what + " gave " + std::to_string(v.size()) + " values instead of " + std::to_string(m)); return; }
	for (size_t i = 0; i < m; i++)
	{
		double ni = n[n.size() == 1 ? 0 : i], pi = p[p.size() == 1 ? 0 : i];
		c.event();
		if (!(v[i] >= 0 && v[i] <= ni) || v[i] != std::floor(v[i])) c.fail("range", what + " gave " + dstr(v[i]) + " of " + dstr(ni));
		if (pi == 0 && v[i] != 0) c.fail("never", what + " gave " + dstr(v[i]) + " for probability 0");
		if (pi == 1 && v[i] != ni) c.fail("always", what + " gave " + dstr(v[i]) + " of " + dstr(ni) + " for probability 1");
		mean += ni * pi; var += ni * pi * (1 - pi); got += v[i];
	}
	if (m >= 150 && var > 20)
	{
		if (std::fabs(got - mean) > 7 * std::sqrt(var)) c.fail("mean", what + " gave " + dstr(got) + " successes where " + dstr(mean) + " are expected");
		c.count("samples tested");
	}
}
static void o07_binomial (Ctx& c)
{
	Rng& r = c.rng;
	size_t seed = r.range(0, 1000000);
	bool wide = r.chance(0.4);
	Shp s = wide ? Shp{r.range(15, 20), r.range(10, 20)} : gen_shape(r, 3, 4, 40);
	auto probs = [&] (Shp sh) { RT t(sh, 0.0); for (double& x : t.v) x = r.chance(0.1) ? 0 : r.chance(0.1) ? 1 : r.real(0, 1); return t; };
	auto counts = [&] (Shp sh) { RT t(sh, 0.0); for (double& x : t.v) x = r.range(0, 12); return t; };
	size_t form = r.range(0, 6);
	RT n = form == 0 || form == 1 ? RT((double) r.range(1, 12)) : form == 5 ? counts(Shp{1}) : counts(s);
	RT p = form == 2 || form == 3 ? RT(r.real(0, 1)) : form == 6 ? probs(Shp{1}) : probs(s);
	c.log("binomial form " + std::to_string(form) + " " + shp(s) + " seed " + std::to_string(seed));
	Graph g;
	nnutils::seed_generator(seed);
	std::vector<std::vector<double> > all;
	auto pass = [&] () -> std::vector<double>
	{
		Ptr out;
		int in = -1, ip = -1;
		Graph q;
		switch (form)
		{
			case 0: ip = q.add_var(c, p); out = nnet::binomial_sample<double>(n.v[0], q[ip].h); break;
			case 1: ip = q.add_const(c, p); out = nnet::binomial_sample<double>(n.v[0], q[ip].h); break;
			case 2: in = q.add_var(c, n); out = nnet::binomial_sample<double>(q[in].h, p.v[0]); break;
			case 3: in = q.add_const(c, n); out = nnet::binomial_sample<double>(q[in].h, p.v[0]); break;
			default: in = q.add_var(c, n); ip = q.add_var(c, p); out = nnet::binomial_sample<double>(q[in].h, q[ip].h); break;
		}
		if (Const* k = dynamic_cast<Const*>(out.get())) q.own(k);
		std::vector<double> v = nnet::expose<double>(out.get());
		binsane(c, "sampling", v, n.v, p.v);
		Got a = get(out.get());
		if (!a.has || !same_bits(a.t.v, v)) c.fail("changed", "a sample changed between two evaluations");
		// new samples on new arguments
		int leaf = ip >= 0 && q[ip].var ? ip : in >= 0 && q[in].var ? in : -1;
		if (leaf >= 0)
		{
			q.set(c, leaf, q[leaf].val);
			std::vector<double> v2 = nnet::expose<double>(out.get());
			binsane(c, "sampling again", v2, n.v, p.v);
			if (wide && same_bits(v, v2))
			{
				double var = 0;
				for (size_t i = 0; i < v.size(); i++) { double ni = n.v[n.n() == 1 ? 0 : i], pi = p.v[p.n() == 1 ? 0 : i]; var += ni * pi * (1 - pi); }
				if (var > 40) c.fail("repeated", "two samples are equal");
			}
			v.insert(v.end(), v2.begin(), v2.end());
		}
		return v;
	};
	std::vector<double> a = pass();
	nnutils::seed_generator(seed);
	std::vector<double> b = pass();
	if (!same_bits(a, b)) c.fail("irreproducible", "samples differ for the same seed");
}

// constants hold the given data, cut or filled with zeros to their shape
static void v01_const (Ctx& c)
{
	Rng& r = c.rng;
	size_t rank = r.range(1, 4);
	Shp s;
	for (size_t i = 0; i < rank; i++) s.push_back(r.range(1, 4));
	std::vector<double> want;
	nnet::constant<double>* k = nullptr;
	std::string what;
	switch (r.range(0, 3))
	{
		case 0:
		{
			double x = r.real(-5, 5);
			what = "scalar constant " + dstr(x);
			c.log(what);
			k = nnet::constant<double>::get(x);
			s = Shp{1};
			want = std::vector<double>{x};
			break;
		}
		case 1:
		{
			size_t d = r.range(0, rank + 1), i = r.range(0, 3);
			double x = r.real(-5, 5);
			what = "const_axis dimension " + std::to_string(d) + " index " + std::to_string(i) + " of " + sstr(s);
			c.log(what);
			k = nnet::const_axis<double>(d, i, x, nnet::tensorshape(s));
			size_t n = count(s);
			for (size_t e = 0; e < n; e++)
			{
				size_t q = e, at = 0;
				for (size_t j = 0; j < rank; j++) { if (j == d) at = q % s[j]; q /= s[j]; }
				want.push_back(at == i ? x : 0);
			}
			break;
		}
		case 2:
		{
			size_t n = count(s), m = r.chance(0.4) ? n : r.range(0, n + 5);
			std::vector<double> d(m);
			for (double& x : d) x = r.real(-5, 5);
			what = "constant of shape " + sstr(s) + " from " + std::to_string(m) + " values";
			c.log(what);
			k = nnet::constant<double>::get(d, nnet::tensorshape(s));
			want = d;
			want.resize(n, 0);
			break;
		}
		default:
		{
			size_t open = r.range(0, rank - 1), known = count(s) / s[open], m = r.range(1, 3 * known);
			std::vector<double> d(m);
			for (double& x : d) x = r.real(-5, 5);
			Shp part = s;
			part[open] = 0;
			what = "constant of shape " + sstr(part) + " from " + std::to_string(m) + " values";
			c.log(what);
			k = nnet::constant<double>::get(d, nnet::tensorshape(part));
			s[open] = (std::max(m, known) + known - 1) / known;
			want = d;
			want.resize(count(s), 0);
		}
	}
	std::unique_ptr<nnet::constant<double> > own(k);
	k->be_managed();
	Ptr twice = Ptr(k) + Ptr(k);
	for (int q = 0; q < 2; q++)
	{
		Got g = get(q ? twice.get() : (Node*) k);
		c.event();
		if (!g.has) { c.fail("constant", what + " has no value" + (g.threw ? ": " + g.err : "")); return; }
		if (g.t.s != s && !(q && count(s) == 1 && g.t.v.size() == 1)) { c.fail("constant", what + " has shape " + sstr(g.t.s) + " instead of " + sstr(s)); return; }
		for (size_t i = 0; i < want.size(); i++)
		{
			c.event();
			if (g.t.v[i] != want[i] * (q + 1)) { c.fail("constant", what + ": element " + std::to_string(i) + " is " + dstr(g.t.v[i]) + " instead of " + dstr(want[i])); return; }
		}
	}
	c.count("constants");
}

namespace vh {
std::vector<Group> groups = {
	{"V01", "v01_constants", v01_const, 1, 4, nullptr},
	{"V01,mem:T03", "v01_leaf_histories", v01, 4, 8, nullptr},
	{"S01", "s01_save_load", s01, 4, 0, nullptr},
	{"S02", "s02_bytes", s02_bytes, 3, 0, nullptr},
	{"S02", "s02_contents", s02_contents, 3, 0, nullptr},
	{"S02", "s02_save", s02_save, 1, 0, nullptr},
	{"O07", "o07_initializers", o07_init, 2, 8, nullptr},
	{"O07", "o07_generators", o07_gen, 2, 0, nullptr},
	{"O07", "o07_binomial", o07_binomial, 2, 0, nullptr},
};
static void start ()
{
	nnet::constant<double>::get_shared_zero();
	nnet::constant<double>::get_shared_one();
}
void (*on_start)(void) = start;
static void per_case (uint64_t s) { srand((unsigned) s); gb::fault = false; }
void (*on_case)(uint64_t) = per_case;
}
