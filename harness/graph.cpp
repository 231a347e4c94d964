// graph.cpp - R01, R02, R04, R05, R07: histories of building, assigning, evaluating, freezing, copying and destroying.
#include "gb.hpp"
#include <list>
using namespace gb;
using vh::Ctx;
using vh::Rng;

namespace {

Kind pick_kind (Rng& r)
{
	static const Kind un[] = { NEG, ABS, SIN, COS, EXP, SIGMOID, TANH, CLIPVAL, S_ADD, ADD_S, S_SUB, SUB_S, S_MUL, MUL_S, DIV_S, POW, COND_S, ROUND, IDENT };
	static const Kind bin[] = { ADD, SUB, MUL, DIV, COND, ADD, SUB, MUL };
	static const Kind shp[] = { TRANSPOSE, RSUM, RMEAN, RMAX, ARGMAX, EXTEND, FLIP, FIT, L2NORM, CLIPNORM, COMPRESS, SOFTMAX };
	static const Kind ax[] = { ADD_AA, ADD_AB, SUB_AA, SUB_AB, MUL_AA, MUL_AB, DIV_AB };
	double p = r.real(0, 1);
	if (p < 0.25) return un[r.range(0, sizeof(un) / sizeof(Kind) - 1)];
	if (p < 0.62) return bin[r.range(0, sizeof(bin) / sizeof(Kind) - 1)];
	if (p < 0.75) return MATMUL;
	if (p < 0.93) return shp[r.range(0, sizeof(shp) / sizeof(Kind) - 1)];
	return ax[r.range(0, sizeof(ax) / sizeof(Kind) - 1)];
}

// does the library's node have the planned shape (or stand for it as a scalar)?
bool shaped (Graph& g, int i, const RT& plan)
{
	if (!g[i].loose) return true;
	try
	{
		Shp got = g[i].h->get_shape().as_list();
		return same_shape(got, plan.s) || (!got.empty() && ref::count(got) == 1);
	}
	catch (std::exception&) { return false; }
}

// a random operation that is well defined on the planned values of existing nodes; false when none was found
bool gen_op (Rng& r, Graph& g, const std::vector<int>& pool, Op& o, std::vector<int>& args)
{
	for (int tries = 0; tries < 40; tries++)
	{
		o = Op();
		o.k = pick_kind(r);
		// prefer recent nodes
		auto pick = [&]() { return pool[r.chance(0.4) ? r.range(pool.size() - 1 - std::min<size_t>(pool.size() - 1, 4), pool.size() - 1) : r.range(0, pool.size() - 1)]; };
		int x = pick(), y = pick();
		RT xv, yv;
		if (!g.planned(x, xv) || !g.planned(y, yv)) continue;
		bool two = o.k == ADD || o.k == SUB || o.k == MUL || o.k == DIV || o.k == COND || o.k == MATMUL || o.k == FIT || (o.k >= ADD_AA && o.k <= DIV_AB);
		args = two ? std::vector<int>{x, y} : std::vector<int>{x};
		size_t rank = xv.s.size();
		switch (o.k)
		{
			case CLIPVAL: o.d0 = -1; o.d1 = r.real(0, 2); break;
			case CLIPNORM: o.d0 = r.real(0.5, 3); break;
			case POW: o.d0 = 2; break;
			case COND: case COND_S: o.cmp = (int)r.range(0, 1); o.d0 = r.real(-1, 1); break;
			case S_ADD: case ADD_S: case S_SUB: case SUB_S: case S_MUL: case MUL_S: case DIV_S: o.d0 = gen_val(r); break;
			case MATMUL: o.f0 = r.chance(0.4); o.f1 = r.chance(0.4); break;
			case TRANSPOSE: o.p0 = 0; o.p1 = 1; break;
			case EXTEND: o.p0 = r.range(0, rank - 1); o.p1 = r.range(1, 3); break;
			case FLIP: o.dims = {r.range(0, rank - 1)}; break;
			case COMPRESS: o.cmp = (int)r.range(0, 3); o.p0 = r.range(0, rank - 1); break;
			case RSUM: case RMEAN: case RMAX: case ARGMAX: o.p0 = r.chance(0.3) ? NODIM : r.range(0, rank - 1); break;
			case ADD_AA: case ADD_AB: case SUB_AA: case SUB_AB: case MUL_AA: case MUL_AB: case DIV_AB: o.p0 = r.range(0, 1); break;
			default: break;
		}
		bool loose = false;
		for (int a : args) loose = loose || g[a].loose;
		if (loose && !is_elementwise(o.k)) continue;
		if (loose && two && !shaped(g, x, xv) + !shaped(g, y, yv)) continue;
		RT out;
		std::vector<const RT*> ap;
		ap.push_back(&xv);
		if (two) ap.push_back(&yv);
		try { out = apply(o, ap); } catch (BadShape&) { continue; }
		if (out.n() > 80) continue;
		bool fine = true;
		for (double v : out.v) fine = fine && std::isfinite(v) && std::fabs(v) < 1e5;
		if (!fine) continue;
		return true;
	}
	return false;
}

struct Sess
{
	Ctx& c;
	Rng& r;
	Graph g;
	std::vector<int> pool;		// live nodes ops may be built on
	std::vector<int> leaves;	// live non-constant leaves
	std::map<int, std::set<Node*> > anc;	// everything a node (by index) is built from in the library, itself included
	struct Der { int n, leaf; Ptr h; std::set<Node*> anc; bool konst; std::vector<double> last; uint64_t ver; };
	std::vector<std::unique_ptr<Der> > ders;
	std::vector<Shp> shapes;
	explicit Sess (Ctx& x) : c(x), r(x.rng) {}

	std::list<Ptr> conns;		// every connector ever seen, hidden ones included
	void walk (Node* n, std::set<Node*>& out)
	{
		if (!n || !out.insert(n).second) return;
		bool known = !dynamic_cast<Conn*>(n);
		for (Ptr& p : conns) known = known || p.get() == n;
		if (!known) { conns.emplace_back(); conns.back() = n; }
		for (Node* a : n->get_arguments()) walk(a, out);
	}
	void start (size_t nleaves, bool mayuninit)
	{
		size_t a = r.range(1, 4), b = r.range(1, 4), d = r.range(1, 4);
		shapes = {Shp{a, b}, Shp{b, d}, Shp{a, b}, Shp{d, b}, Shp{a}, Shp{1}, gen_shape(r, 3, 3, 18)};
		for (size_t k = 0; k < nleaves; k++) add_leaf(k < 3 ? shapes[k] : r.pick(shapes), !mayuninit || r.chance(0.7));
		if (r.chance(0.4)) { int k = g.add_const(c, gen_tensor(r, r.pick(shapes))); pool.push_back(k); walk(g[k].raw, anc[k]); c.log(g.describe(k)); }
	}
	int add_leaf (const Shp& s, bool init)
	{
		RT v = gen_tensor(r, s);
		int i;
		if (r.chance(0.7)) i = g.add_var(c, v, init);
		else
		{
			Shp decl = s;
			if (r.chance(0.3)) decl[r.range(0, decl.size() - 1)] = 0;
			i = g.add_place(c, v, decl, init);
		}
		pool.push_back(i); leaves.push_back(i);
		walk(g[i].raw, anc[i]);
		c.log(g.describe(i));
		return i;
	}
	int add_op ()
	{
		Op o; std::vector<int> args;
		if (!gen_op(r, g, pool, o, args)) return -1;
		return add_given(o, args);
	}
	int add_given (const Op& o, const std::vector<int>& args)
	{
		int i = g.add_op(c, o, args);
		c.log(g.describe(i));
		c.count(std::string("op:") + kind_name[o.k]);
		pool.push_back(i);
		walk(g[i].raw, anc[i]);
		return i;
	}
	void set_leaf (int i)
	{
		g.set(c, i, gen_tensor(r, g[i].val.s));
		c.log("set " + g.describe(i));
		c.count("assignments");
	}
	// assign / add / subtract from an expression; the reference value is computed first
	void set_from (int i)
	{
		if (!g[i].var || !g[i].init) return;
		for (int t = 0; t < 8; t++)
		{
			int e = r.pick(pool);
			RT v;
			if (!g.value(e, v) || g[e].loose || !same_shape(v.s, g[i].val.s)) continue;
			bool ok = true;
			for (double x : v.v) ok = ok && std::isfinite(x) && std::fabs(x) < 50;
			if (!ok) continue;
			int how = (int)r.range(0, 2);
			c.log("n" + std::to_string(i) + (how == 0 ? " := n" : how == 1 ? " += n" : " -= n") + std::to_string(e));
			auto up = how == 0 ? g[i].var->assign(g[e].h.get()) : how == 1 ? g[i].var->assign_add(g[e].h.get()) : g[i].var->assign_sub(g[e].h.get());
			up(true);
			for (size_t k = 0; k < v.n(); k++) g[i].val.v[k] = how == 0 ? v.v[k] : how == 1 ? g[i].val.v[k] + v.v[k] : g[i].val.v[k] - v.v[k];
			// from here on the library's own value is the reference, provided it is the right one
			Got q = get(g[i].var);
			c.event();
			if (!q.has || q.t.n() != g[i].val.n()) { c.fail("assign", "n" + std::to_string(i) + " has no value after the assignment"); return; }
			for (size_t k = 0; k < q.t.n(); k++)
				if (!close(q.t.v[k], g[i].val.v[k], 1e-7)) { c.fail("assign", "assignment from an expression gave " + tstr(q.t) + " instead of " + tstr(g[i].val)); return; }
			g[i].val.v = q.t.v;
			g.version++;
			c.count("expression_assignments");
			return;
		}
	}
	void check (int i, const char* when)
	{
		RT v;
		if (g.value(i, v)) { g.check(c, i, when); c.count("evaluations"); }
		else unset(i);
	}
	// an expression that has no value must not deliver one
	void unset (int i)
	{
		Got q = get(g[i].h.get());
		c.event();
		c.count("undefined_evaluations");
		if (q.has && !q.threw && !g[i].loose)
		{
			if (dynamic_cast<Const*>(g[i].raw)) return; // folded
			c.fail("value-from-nothing", g.describe(i) + " depends on an uninitialised leaf but evaluates to " + tstr(q.t));
		}
	}
	void check_some (const char* when)
	{
		size_t k = r.range(1, 3);
		while (k--) check(r.pick(pool), when);
	}
	void check_all (const char* when)
	{
		std::vector<int> p = pool;
		r.shuffle(p);
		for (int i : p) check(i, when);
	}
	void leaves_ok ()
	{
		for (int i : leaves)
			if (g[i].init)
			{
				Got q = get(g[i].h.get());
				c.event();
				if (!q.has || q.t.v != g[i].val.v || !same_shape(q.t.s, g[i].val.s)) c.fail("leaf-changed", "leaf " + g.describe(i) + " now holds " + tstr(q.t));
			}
	}
	void derive ()
	{
		int n = r.pick(pool), l = r.pick(leaves);
		if (!g[l].var) return;
		RT v;
		if (!g.value(n, v)) return;
		for (int k : allops(n))
			if (g[k].op.k == ARGMAX || g[k].op.k == ARGCOMPRESS || g[k].op.k == COMPRESS) return; // no derivative defined
		// gradients through these may be expressions over constants only, which nobody frees (known finding)
		for (int k : allops(n))
			if ((g[k].op.k > CONST && !is_elementwise(g[k].op.k)) || g[k].op.k == CONST || (!g[k].dead && dynamic_cast<Const*>(g[k].raw))) c.nobalance = true;
		std::unique_ptr<Der> d(new Der{n, l, Ptr(), {}, false, {}, 0});
		{
			Ptr q = g[n].h->derive(g[l].var);
			d->h = q.get();
			if (Const* k = dynamic_cast<Const*>(q.get())) { g.own(k); d->konst = true; }
		}
		if (!d->h.get()) { c.fail("derive-null", "no derivative of " + g.describe(n)); return; }
		walk(d->h.get(), d->anc);
		watch(d->h.get());
		c.log("derive n" + std::to_string(n) + " by n" + std::to_string(l));
		c.count("derivatives");
		for (auto& o : ders) if (o->h.get() == d->h.get()) return;
		ders.push_back(std::move(d));
	}
	std::set<int> allops (int i) const
	{
		std::set<int> s{i};
		for (int k : g.n[i]->args) { auto t = allops(k); s.insert(t.begin(), t.end()); }
		return s;
	}
	// evaluating derivatives must be repeatable and harmless
	void eval_ders ()
	{
		for (auto& d : ders)
		{
			if (!d->h.get()) continue;
			Got a = get(d->h.get()), b = get(d->h.get());
			c.event();
			if (a.threw != b.threw || a.has != b.has) { c.fail("derivative-unstable", "two evaluations of a derivative disagree"); return; }
			if (a.has && a.t.n() == b.t.n())
				for (size_t k = 0; k < a.t.n(); k++)
					if (!close(a.t.v[k], b.t.v[k])) { c.fail("derivative-unstable", "two evaluations of a derivative differ"); return; }
			if (a.has)
			{
				if (d->ver == g.version && d->last != a.t.v && d->last.size() == a.t.v.size())
				{
					bool nan = false;
					for (size_t k = 0; k < a.t.n(); k++) nan = nan || !close(a.t.v[k], d->last[k]);
					if (nan) { c.fail("derivative-unstable", "a derivative changed although no leaf did"); return; }
				}
				d->ver = g.version; d->last = a.t.v;
			}
		}
	}
	// after something was destroyed: exactly the handles of what was built on it are empty
	void account (const std::set<Node*>& dead, const char* what)
	{
		if (probe) probe(c, what);
		auto hit = [&](const std::set<Node*>& s) { for (Node* n : dead) if (s.count(n)) return true; return false; };
		for (int i = 0; i < g.size(); i++)
		{
			if (g[i].dead) continue;
			bool gone = hit(anc[i]);
			c.event();
			if (gone && g[i].h.get()) { c.fail("not-destroyed", std::string(what) + ": the handle of n" + std::to_string(i) + " is not empty although it depends on what was destroyed"); return; }
			if (!gone && !g[i].h.get()) { c.fail("destroyed-too-much", std::string(what) + ": the handle of n" + std::to_string(i) + " is empty although it doesn't depend on what was destroyed"); return; }
			if (gone)
			{
				g[i].dead = true;
				c.count("destroyed");
				for (auto* v : {&pool, &leaves}) v->erase(std::remove(v->begin(), v->end(), i), v->end());
			}
			else c.count("survived");
		}
		for (size_t k = 0; k < ders.size(); )
		{
			bool gone = hit(ders[k]->anc);
			if (gone && ders[k]->h.get()) { c.fail("not-destroyed", std::string(what) + ": a derivative is still there although it depends on what was destroyed"); return; }
			if (!gone && !ders[k]->h.get()) { c.fail("destroyed-too-much", std::string(what) + ": a derivative is gone although it doesn't depend on what was destroyed"); return; }
			if (gone) ders.erase(ders.begin() + k);
			else k++;
		}
	}
	void kill_leaf ()
	{
		if (leaves.size() < 2) return;
		int i = r.pick(leaves);
		c.log("destroy n" + std::to_string(i));
		std::set<Node*> dead{g[i].raw};
		bool was = g[i].dead;
		g.destroy_leaf(i);
		g[i].dead = was;
		account(dead, "destroying a leaf");
	}
	void kill_op ()
	{
		for (int t = 0; t < 10; t++)
		{
			int i = r.pick(pool);
			if (g[i].args.empty() || dynamic_cast<Const*>(g[i].raw)) continue;
			if (!dynamic_cast<Conn*>(g[i].raw)) continue; // merged with a leaf
			c.log("destroy n" + std::to_string(i));
			std::set<Node*> dead{g[i].raw};
			delete g[i].raw;
			g.version++;
			account(dead, "destroying an expression");
			return;
		}
	}
	void finish ()
	{
		// handles and leaves go in random order
		if (r.chance(0.5)) conns.clear();
		if (r.chance(0.5)) ders.clear();
		std::vector<int> ls = leaves;
		r.shuffle(ls);
		if (r.chance(0.7)) for (int i : ls) { c.log("destroy n" + std::to_string(i)); std::set<Node*> dead{g[i].raw}; g.destroy_leaf(i); g[i].dead = false; account(dead, "final destruction"); }
		ders.clear();
	}
};

void r01_session (Ctx& c)
{
	Sess s(c);
	Rng& r = c.rng;
	s.start(r.range(3, 5), r.chance(0.3));
	size_t steps = r.range(10, c.thorough ? 80 : 40);
	for (size_t k = 0; k < steps; k++)
	{
		switch (r.range(0, 9))
		{
			case 0: case 1: case 2: s.add_op(); break;
			case 3: case 4: s.set_leaf(r.pick(s.leaves)); break;
			case 5: s.set_from(r.pick(s.leaves)); break;
			case 6: case 7: s.check_some("in session"); break;
			case 8: if (s.g.size() < 40) s.add_leaf(r.pick(s.shapes), true); break;
			default:
				if (r.chance(0.3)) s.derive();
				else if (r.chance(0.3)) s.eval_ders();
				else
				{
					RT v;
					int i = r.pick(s.pool);
					if (s.g.value(i, v) && !s.g[i].loose && v.n() > 1)
					{
						c.event();
						Shp got;
						try { got = s.g[i].h->get_shape().as_list(); } catch (std::exception&) { break; }
						if (!same_shape(got, v.s)) { c.fail("shape", "get_shape of " + s.g.describe(i) + " is " + sstr(got) + " instead of " + sstr(v.s)); return; }
					}
				}
		}
	}
	s.leaves_ok();
	s.check_all("at the end");
	for (int i : s.leaves) if (!s.g[i].init || r.chance(0.5)) s.set_leaf(i);
	s.check_all("after the last assignments");
	s.leaves_ok();
	s.finish();
}

// long alternation of assignments and evaluations on one deep graph with much sharing
void r01_deep (Ctx& c)
{
	Sess s(c);
	Rng& r = c.rng;
	s.start(3, false);
	size_t depth = r.range(5, 30);
	Shp sh{2, 2};
	int a = s.add_leaf(sh, true), b = s.add_leaf(sh, true);
	std::vector<int> layer{a, b};
	for (size_t k = 0; k < depth; k++)
	{
		static const Kind ks[] = {ADD, SUB, MUL, COND, MATMUL, SIN, TANH, S_MUL, TRANSPOSE, CLIPVAL};
		Op o; o.k = ks[r.range(0, 9)];
		o.d0 = o.k == CLIPVAL ? -2 : 0.5; o.d1 = 2; o.cmp = 1; o.p0 = 0; o.p1 = 1;
		bool two = o.k == ADD || o.k == SUB || o.k == MUL || o.k == COND || o.k == MATMUL;
		int x = layer[r.chance(0.7) ? layer.size() - 1 : r.range(0, layer.size() - 1)], y = r.pick(layer);
		std::vector<int> args{x};
		if (two) { args.push_back(y); if (r.chance(0.5)) std::swap(args[0], args[1]); }
		RT xv, yv;
		s.g.planned(x, xv);
		double m = 0; for (double v : xv.v) m = std::max(m, std::fabs(v));
		if (m > 30) { o.k = CLIPVAL; args.resize(1); args[0] = x; o.d0 = -2; o.d1 = 2; }
		bool loose = false;
		for (int q : args) loose = loose || s.g[q].loose;
		if (loose && !is_elementwise(o.k)) continue;
		layer.push_back(s.add_given(o, args));
	}
	for (size_t k = 0; k < 12; k++)
	{
		size_t n = r.range(1, 3);
		while (n--) s.set_leaf(r.chance(0.8) ? (r.chance(0.5) ? a : b) : r.pick(s.leaves));
		n = r.range(1, 2);
		while (n--) s.check(r.pick(layer), "deep");
	}
	s.check_all("deep, at the end");
	s.finish();
}

// frozen graph: snapshot, then everything that was assigned meanwhile
void r02_freeze (Ctx& c)
{
	Sess s(c);
	Rng& r = c.rng;
	s.start(r.range(2, 5), false);
	size_t n = r.range(4, 16);
	for (size_t k = 0; k < n; k++) { s.add_op(); if (r.chance(0.3)) s.set_leaf(r.pick(s.leaves)); }
	for (size_t k = r.range(0, 2); k > 0; k--) s.derive();
	size_t cycles = r.range(1, 5);
	for (size_t q = 0; q < cycles; q++)
	{
		// the graph of one connector
		std::vector<int> conns;
		for (int i : s.pool) if (dynamic_cast<Conn*>(s.g[i].raw)) conns.push_back(i);
		if (conns.empty()) throw vh::Skip();
		size_t pre = r.range(0, 2);
		while (pre--) s.set_leaf(r.pick(s.leaves));
		if (r.chance(0.3)) s.check_some("before freezing");
		int top = r.pick(conns);
		Conn* t = static_cast<Conn*>(s.g[top].raw);
		t->freeze_status(true);
		c.log("freeze n" + std::to_string(top));
		std::map<int, RT> snap;
		for (int i : conns)
		{
			RT v;
			if (t->is_same_graph(static_cast<Conn*>(s.g[i].raw)) && s.g.value(i, v)) snap[i] = v;
		}
		std::map<int, RT> slack;
		for (auto& p : snap) slack[p.first] = s.g.slack(p.first, p.second);
		size_t steps = r.range(1, 8);
		for (size_t k = 0; k < steps; k++)
		{
			if (r.chance(0.5)) s.set_leaf(r.pick(s.leaves));
			else if (r.chance(0.3))
			{
				// an assignment without notification is seen by nobody
				int l = r.pick(s.leaves);
				if (s.g[l].var)
				{
					RT nv = gen_tensor(r, s.g[l].val.s);
					Ptr kk = Const::get(nv.v, nnet::tensorshape(nv.s));
					s.g[l].var->assign(kk.get())(false);
					c.log("quiet set n" + std::to_string(l));
					// ... until somebody notifies; do that with another write
					s.set_leaf(l);
				}
			}
			else
			{
				int i = r.pick(conns);
				auto it = snap.find(i);
				if (it == snap.end()) { s.check(i, "other graph while one is frozen"); continue; }
				Got g = get(s.g[i].h.get());
				if (g.threw || !g.has) { c.fail("frozen-no-value", "frozen node " + s.g.describe(i) + " has no value: " + g.err); return; }
				s.g.compare(c, "frozen " + s.g.describe(i), g.t, it->second, [&]() { return slack[i]; }, s.g[i].loose);
				c.count("snapshot_evaluations");
			}
		}
		if (r.chance(0.2)) t->freeze_status(true), t->freeze_status(false); // freezing again takes a new snapshot
		int who = top;
		if (r.chance(0.3))
			for (int i : conns) if (snap.count(i) && r.chance(0.5)) who = i;
		static_cast<Conn*>(s.g[who].raw)->freeze_status(false);
		c.log("thaw by n" + std::to_string(who));
		c.count("freeze_cycles");
		if (r.chance(0.6)) s.check_some("after thawing");
		if (r.chance(0.4)) s.add_op();
		if (r.chance(0.4)) s.set_leaf(r.pick(s.leaves));
	}
	s.check_all("after all thaws");
	s.eval_ders();
	s.leaves_ok();
	s.finish();
}

// copies of updates run on a frozen graph all see the same state
void r02_updaters (Ctx& c)
{
	Sess s(c);
	Rng& r = c.rng;
	Shp sh = gen_shape(r, 2, 3, 9);
	size_t nv = r.range(2, 4);
	for (size_t k = 0; k < nv; k++)
	{
		int i = s.g.add_var(c, gen_tensor(r, sh, -1, 1));
		s.pool.push_back(i); s.leaves.push_back(i); s.walk(s.g[i].raw, s.anc[i]);
		c.log(s.g.describe(i));
	}
	// expressions of the same shape, all in one graph
	std::vector<int> ex = s.leaves;
	for (size_t k = r.range(3, 8); k > 0; k--)
	{
		static const Kind ks[] = {ADD, SUB, MUL, COND};
		Op o; o.k = ks[r.range(0, 3)]; o.cmp = 0;
		int x = ex.back(), y = r.pick(ex);
		if (k % 3 == 0) { o.k = TANH; ex.push_back(s.add_given(o, {x})); }
		else ex.push_back(s.add_given(o, r.chance(0.5) ? std::vector<int>{x, y} : std::vector<int>{y, x}));
	}
	Conn* top = dynamic_cast<Conn*>(s.g[ex.back()].raw);
	if (!top) throw vh::Skip();
	for (size_t round = 0; round < 3; round++)
	{
		std::vector<std::pair<int, int> > ups; // variable, expression
		std::vector<std::function<void(bool)> > fns;
		std::vector<double> sign;
		for (int l : s.leaves)
		{
			int e = r.pick(ex);
			Conn* ec = dynamic_cast<Conn*>(s.g[e].raw);
			if (!ec || s.g[e].loose) continue;
			int how = (int)r.range(0, 2);
			ups.push_back({l, e}); sign.push_back(how);
			fns.push_back(how == 0 ? s.g[l].var->assign(s.g[e].h.get()) : how == 1 ? s.g[l].var->assign_add(s.g[e].h.get()) : s.g[l].var->assign_sub(s.g[e].h.get()));
		}
		std::map<int, RT> want;
		bool small = true, same = true;
		for (size_t k = 0; k < ups.size(); k++)
		{
			RT v, nv;
			s.g.value(ups[k].second, v);
			nv = s.g.slack(ups[k].second, v);
			for (double e : nv.v) if (!(e < 1e-7)) small = false;
			same = same && top->is_same_graph(static_cast<Conn*>(s.g[ups[k].second].raw));
			RT w = s.g[ups[k].first].val;
			if (v.n() != w.n()) { same = false; break; }
			for (size_t e = 0; e < w.n(); e++)
			{
				w.v[e] = sign[k] == 0 ? v.v[e] : sign[k] == 1 ? w.v[e] + v.v[e] : w.v[e] - v.v[e];
				small = small && std::fabs(w.v[e]) < 20;
			}
			want[ups[k].first] = w;
		}
		if (!same || !small) break;
		std::vector<size_t> order(ups.size());
		for (size_t k = 0; k < order.size(); k++) order[k] = k;
		r.shuffle(order);
		std::string line = "frozen updates:";
		for (size_t k : order) line += " n" + std::to_string(ups[k].first) + (sign[k] == 0 ? ":=n" : sign[k] == 1 ? "+=n" : "-=n") + std::to_string(ups[k].second);
		c.log(line);
		top->freeze_status(true);
		for (size_t k : order) fns[k](true);
		top->freeze_status(false);
		c.count("frozen_update_rounds");
		for (auto& w : want)
		{
			Got q = get(s.g[w.first].var);
			c.event();
			for (size_t e = 0; e < w.second.n(); e++)
				if (!q.has || !close(q.t.v[e], w.second.v[e], 1e-8)) { c.fail("frozen-update", "n" + std::to_string(w.first) + " became " + tstr(q.t) + " instead of " + tstr(w.second)); return; }
			s.g[w.first].val.v = q.t.v;
		}
		s.g.version++;
		s.check_some("after frozen updates");
	}
	s.check_all("after frozen updates, at the end");
	s.finish();
}

// destruction
void r04_destroy (Ctx& c)
{
	Sess s(c);
	Rng& r = c.rng;
	s.start(r.range(3, 6), r.chance(0.2));
	size_t steps = r.range(10, c.thorough ? 80 : 40);
	for (size_t k = 0; k < steps; k++)
	{
		switch (r.range(0, 11))
		{
			case 0: case 1: case 2: case 3: s.add_op(); break;
			case 4: s.set_leaf(r.pick(s.leaves)); break;
			case 5: s.check_some("in session"); break;
			case 6: s.derive(); break;
			case 7: s.eval_ders(); break;
			case 8: s.kill_op(); if (r.chance(0.5)) s.check_some("after destroying an expression"); break;
			case 9: if (r.chance(0.6)) { s.kill_leaf(); if (r.chance(0.5)) s.check_some("after destroying a leaf"); } break;
			case 10: s.add_leaf(r.pick(s.shapes), true); break;
			default:
				if (s.ders.size() > 0 && r.chance(0.5))
				{
					size_t d = r.range(0, s.ders.size() - 1);
					if (r.chance(0.5) && dynamic_cast<Conn*>(s.ders[d]->h.get()))
					{
						bool used = false;
						for (int i = 0; i < s.g.size(); i++) if (!s.g[i].dead && s.anc[i].count(s.ders[d]->h.get())) used = true;
						if (used) break;
						c.log("destroy a derivative");
						Node* dn = s.ders[d]->h.get();
						std::set<Node*> dead{dn};
						delete dn;
						s.account(dead, "destroying a derivative");
					}
					else { c.log("drop a derivative's handle"); s.ders.erase(s.ders.begin() + d); }
				}
				else
				{
					// pending updates while frozen, then destruction
					std::vector<int> conns;
					for (int i : s.pool) if (dynamic_cast<Conn*>(s.g[i].raw)) conns.push_back(i);
					if (conns.empty()) break;
					int top = r.pick(conns);
					c.log("freeze n" + std::to_string(top));
					Conn* t = static_cast<Conn*>(s.g[top].raw);
					t->freeze_status(true);
					std::vector<Ptr*> frozen;
					for (Ptr& p : s.conns) if (Conn* q = dynamic_cast<Conn*>(p.get())) if (q->is_same_graph(t)) frozen.push_back(&p);
					for (size_t q = r.range(1, 3); q > 0; q--) s.set_leaf(r.pick(s.leaves));
					if (r.chance(0.6)) s.kill_op(); else s.kill_leaf();
					for (Ptr* p : frozen) if (Conn* q = dynamic_cast<Conn*>(p->get())) { q->freeze_status(false); break; }
					c.log("thaw");
					s.check_some("after destruction while frozen");
				}
		}
		if (s.pool.empty() || s.leaves.empty()) break;
	}
	s.check_all("at the end");
	s.eval_ders();
	s.finish();
}

}
#include "graph2.hpp"
#ifndef GRAPH_SESSIONS_ONLY
namespace vh {
std::vector<Group> groups = {
	{"R01", "r01_session", r01_session, 5, 4, nullptr},
	{"R01", "r01_deep", r01_deep, 2, 4, nullptr},
	{"R02", "r02_freeze", r02_freeze, 4, 4, nullptr},
	{"R02,mem:T03", "r02_updaters", r02_updaters, 2, 4, nullptr},
	{"R04,mem:T03", "r04_destroy", r04_destroy, 4, 2, nullptr},
	{"R07,mem:T03", "r07_broken", r07_broken, 4, 4, nullptr},
	{"R07,mem:T03", "r07_reject", r07_reject, 2, 2, nullptr},
	{"R05,mem:T03", "r05_copies", r05_copies, 5, 4, nullptr},
	{"R05,mem:T03", "r05_generated", r05_generated, 1, 4, nullptr},
};
void (*on_start)(void) = nullptr;
static void seed (uint64_t s) { nnutils::seed_generator(s); }
void (*on_case)(uint64_t) = seed;
}
#endif
