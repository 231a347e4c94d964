// deriv.cpp - D01 (derivatives of elementwise expressions) and D02 (gradients of layered losses)
#include "dgraph.hpp"

namespace {

// ---------------------------------------------------------------- D01

struct Der { int of; int leaf; Ptr d; bool second = false; int leaf2 = -1; bool norm = false; };

void d01_elem (Ctx& c)
{
	Elem w(c);
	Rng& r = c.rng;
	w.seed();
	for (size_t k = r.range(2, c.thorough ? 14 : 9); k > 0; k--) w.grow();
	c.log(w.dump());
	w.owned_consts();
	std::vector<Der> ders;
	auto check = [&] (Der& d, const char* when)
	{
		std::string what = std::string(when) + " d n" + std::to_string(d.of) + "/d n" + std::to_string(d.leaf) + (d.second ? "/d n" + std::to_string(d.leaf2) : "") + " of " + w.g.describe(d.of);
		if (!d.d.get()) { c.fail("gone", what + " was destroyed"); return; }
		Got q = get(d.d.get());
		if (getenv("VH_DUMP")) dump(d.d.get());
		if (q.threw || !q.has) { c.fail("eval", what + " can't be evaluated: " + q.err); return; }
		RT v;
		if (!w.g.value(d.of, v)) return;
		if (!d.second)
		{
			FD want = d.norm ? w.gradient(d.of, d.leaf) : w.pointwise(d.of, d.leaf);
			w.compare(what, q.t, want, d.norm ? w.g[d.leaf].val.s : v.s, true);
			c.count("first derivatives");
		}
		else
		{
			// mixed second differences
			auto at = [&] (double h1, double h2)
			{
				RT k1 = w.g[d.leaf].val;
				for (double& x : w.g[d.leaf].val.v) x += h1;
				RT o;
				try { o = w.moved(d.of, d.leaf2, -1, h2); } catch (...) { w.g[d.leaf].val = k1; throw; }
				w.g[d.leaf].val = k1;
				return o.v;
			};
			FD want;
			std::vector<std::vector<double> > est;
			for (double h : {8e-3, 4e-3})
			{
				auto pp = at(h, h), pm = at(h, -h), mp = at(-h, h), mm = at(-h, -h);
				auto PP = at(2 * h, 2 * h), PM = at(2 * h, -2 * h), MP = at(-2 * h, 2 * h), MM = at(-2 * h, -2 * h);
				std::vector<double> e;
				for (size_t i = 0; i < pp.size(); i++)
				{
					double a = (pp[i] - pm[i] - mp[i] + mm[i]) / (4 * h * h), b = (PP[i] - PM[i] - MP[i] + MM[i]) / (16 * h * h);
					e.push_back((4 * a - b) / 3);
				}
				est.push_back(e);
			}
			for (size_t i = 0; i < est[0].size(); i++) { want.d.push_back(est[1][i]); double e = std::fabs(est[1][i] - est[0][i]); want.err.push_back(std::isfinite(e) ? e : INFINITY); }
			w.compare(what, q.t, want, v.s, true, 100);
			c.count("second derivatives");
		}
	};
	auto derive = [&] ()
	{
		Der d;
		d.of = r.chance(0.5) ? w.pool.back() : r.pick(w.pool);
		d.leaf = r.pick(w.leaves);
		if (!dynamic_cast<Var*>(w.g[d.leaf].h.get())) return;
		d.d = w.g[d.of].h->derive(w.g[d.leaf].h.get());
		if (!d.d.get()) { c.fail("null", "no derivative of " + w.g.describe(d.of)); return; }
		if (Const* k = dynamic_cast<Const*>(d.d.get())) w.g.own(k);
		c.log("derive n" + std::to_string(d.of) + " by n" + std::to_string(d.leaf));
		ders.push_back(d);
		check(ders.back(), "derived");
		w.g.check(c, d.of, "after deriving");
		// (second derivatives through a comparison are a known finding)
		if (r.chance(0.3) && !w.has(d.of, ABS) && !w.has(d.of, ASCONST))
		{
			Der e = d;
			e.second = true;
			e.leaf2 = r.pick(w.leaves);
			e.d = d.d->derive(w.g[e.leaf2].h.get());
			if (!e.d.get()) { c.fail("null", "no second derivative of " + w.g.describe(d.of)); return; }
			if (Const* k = dynamic_cast<Const*>(e.d.get())) w.g.own(k);
			c.log("derive that by n" + std::to_string(e.leaf2));
			ders.push_back(e);
			check(ders.back(), "derived");
		}
	};
	// copies and moves of what is differentiated
	bool moves = r.chance(0.35);
	auto shuffle = [&] ()
	{
		int i = r.pick(w.pool);
		if (r.chance(0.5)) { w.relocated(i); return; }
		i = w.copied(i);
		if (i >= 0) w.pool.push_back(i);
	};
	if (moves) for (size_t k = r.range(1, 3); k > 0; k--) { shuffle(); if (r.chance(0.5)) w.grow(); }
	for (size_t k = r.range(1, 3); k > 0; k--) derive();
	for (size_t k = r.range(2, c.thorough ? 12 : 6); k > 0; k--)
	{
		if (r.chance(0.25)) { w.grow(); continue; }
		if (r.chance(0.25)) { derive(); continue; }
		if (moves && r.chance(0.2)) { shuffle(); continue; }
		int l = r.pick(w.leaves);
		RT v = w.g[l].val;
		for (double& x : v.v) x *= r.real(0.8, 1.2);
		w.g.set(c, l, v);
		c.log("set " + w.g.describe(l));
		for (Der& d : ders) check(d, "after an assignment");
		if (r.chance(0.5)) w.g.check(c, r.pick(w.pool), "after an assignment");
	}
	for (Der& d : ders) check(d, "at the end");
	for (int i : w.pool) w.g.check(c, i, "at the end");
	ders.clear();
}

// scalar functions of the norm of an elementwise expression
void d01_norm (Ctx& c)
{
	Elem w(c);
	Rng& r = c.rng;
	w.s = gen_shape(r, 3, 3, 8);
	size_t nv = r.range(1, 2);
	for (size_t i = 0; i < nv; i++) { int l = w.g.add_var(c, gen_tensor(r, w.s)); w.leaves.push_back(l); w.pool.push_back(l); }
	for (size_t k = r.range(0, 3); k > 0; k--) w.grow();
	int e = w.pool.back();
	if (!w.away(e, 1e-3) || w.g[e].loose) throw Skip{};
	int n = w.g.add_op(c, mk(L2NORM), {e});
	w.pool.assign(1, n);
	for (size_t k = r.range(0, 2); k > 0; k--) w.grow();
	n = w.pool.back();
	c.log(w.dump());
	w.owned_consts();
	// the norm has one element per expression: the derivative lists its partial derivatives
	int l = r.pick(w.leaves);
	Ptr d = w.g[n].h->derive(w.g[l].h.get());
	if (!d.get()) { c.fail("null", "no derivative"); return; }
	if (Const* k = dynamic_cast<Const*>(d.get())) w.g.own(k);
	for (size_t k = 0; k < 3; k++)
	{
		Got q = get(d.get());
		std::string what = "derivative of " + w.g.describe(n) + " by n" + std::to_string(l);
		if (q.threw || !q.has) { c.fail("eval", what + " can't be evaluated: " + q.err); return; }
		w.compare(what, q.t, w.gradient(n, l), w.g[l].val.s, true);
		w.g.check(c, n, "after deriving");
		RT v = w.g[l].val;
		for (double& x : v.v) x *= r.real(0.8, 1.2);
		w.g.set(c, l, v);
		c.log("set " + w.g.describe(l));
	}
}

// ---------------------------------------------------------------- D02

struct Loss { int of, w; Ptr d; };

void d02_run (Ctx& c, Net& w, std::vector<int> losses)
{
	Rng& r = c.rng;
	c.log(w.dump());
	c.nobalance = true; // gradients build connectors over constants of their own, which nobody frees (known finding)
	std::vector<Loss> ders;
	bool moves = r.chance(0.3);
	auto check = [&] (Loss& d, const char* when)
	{
		std::string what = std::string(when) + " d n" + std::to_string(d.of) + "/d n" + std::to_string(d.w) + " of " + w.g.describe(d.of);
		if (!d.d.get()) { c.fail("gone", what + " was destroyed"); return; }
		// (tanh and the sigmoid are built from exponentials)
		if (!w.moderate()) return;
		Got q = get(d.d.get());
		if (getenv("VH_DUMP")) dump(d.d.get());
		if (q.threw || !q.has) { c.fail("eval", what + " can't be evaluated: " + q.err); return; }
		w.compare(what, q.t, w.gradient(d.of, d.w), w.g[d.w].val.s, true);
		c.count("gradients compared");
	};
	for (size_t k = r.range(2, 3 + w.weights.size()); k > 0; k--)
	{
		Loss d;
		if (moves && r.chance(0.3)) w.relocated((int)r.range(0, w.g.size() - 1));
		if (moves && r.chance(0.2))
		{
			int i = w.copied(r.pick(losses));
			if (i >= 0) losses.push_back(i);
		}
		d.of = r.pick(losses);
		d.w = r.pick(w.weights);
		d.d = w.g[d.of].h->derive(w.g[d.w].h.get());
		if (!d.d.get()) { c.fail("null", "no derivative of " + w.g.describe(d.of)); return; }
		if (Const* q = dynamic_cast<Const*>(d.d.get())) w.g.own(q);
		c.log("derive n" + std::to_string(d.of) + " by n" + std::to_string(d.w));
		ders.push_back(d);
		if (r.chance(0.7)) check(ders.back(), "derived");
	}
	for (size_t k = r.range(1, c.thorough ? 6 : 3); k > 0; k--)
	{
		std::vector<int> ls;
		for (int i = 0; i < w.g.size(); i++) if (w.g[i].args.empty() && w.g[i].lk != LCONST) ls.push_back(i);
		int l = r.pick(ls);
		RT v = w.g[l].val;
		for (double& x : v.v) x *= r.real(0.7, 1.3);
		w.g.set(c, l, v);
		c.log("set " + w.g.describe(l));
		for (Loss& d : ders) if (r.chance(0.7)) check(d, "after an assignment");
	}
	for (int l : losses) w.g.check(c, l, "at the end");
	for (Loss& d : ders) check(d, "at the end");
	ders.clear();
}

void d02_net (Ctx& c)
{
	Net w(c);
	Rng& r = c.rng;
	int h = w.leaf(Shp{r.range(1, 4), r.range(1, 4)}, false);
	bool moves = r.chance(0.3);
	for (size_t k = r.range(1, 3); k > 0; k--)
	{
		h = w.layer(h);
		if (!moves || w.g[h].args.empty()) continue;
		if (r.chance(0.4)) { int q = w.copied(h); if (q >= 0) h = q; }
		if (r.chance(0.4)) w.relocated((int)r.range(0, w.g.size() - 1));
	}
	std::vector<int> losses;
	int e = w.error(h);
	int red = w.reduce(e);
	// more work on what is reduced (constant gradients of a reduction along a dimension are scalars: known finding)
	bool product = false;
	for (int i = 0; i < w.g.size(); i++) product = product || (!w.g[i].args.empty() && w.g[i].op.k == MATMUL);
	for (size_t k = !product || r.chance(0.5) ? 0 : r.range(1, 3); k > 0; k--)
	{
		if (r.chance(0.3))
		{
			int t = w.leaf(w.sh(red), false);
			Kind ks[] = {ADD, SUB, MUL, MUL};
			red = w.op2(ks[r.range(0, 3)], red, t);
		}
		else if (r.chance(0.3) && (w.g[red].op.k == RSUM || w.g[red].op.k == RMEAN)) { Op o = w.g[red].op; o.k = r.chance(0.7) ? RMEAN : RSUM; int q = w.op(o, {w.g[red].args[0]}); red = w.sh(q) == w.sh(red) ? w.op2(r.chance(0.5) ? ADD : MUL, red, q) : red; }
		else red = w.act(red);
	}
	losses.push_back(red);
	if (r.chance(0.3)) losses.push_back(w.error(h));
	if (w.weights.empty()) throw Skip{};
	d02_run(c, w, losses);
}

}
namespace vh {
std::vector<Group> groups = {
	{"D01,R05", "d01_elem", d01_elem, 5, 4, nullptr},
	{"D01", "d01_norm", d01_norm, 1, 4, nullptr},
	{"D02,R05", "d02_net", d02_net, 4, 4, nullptr},
};
void (*on_start)(void) = nullptr;
static void seed (uint64_t s) { nnutils::seed_generator(s); }
void (*on_case)(uint64_t) = seed;
}
