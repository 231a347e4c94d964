// dgraph.hpp - random differentiable graphs (elementwise compositions, layered losses) with numerical derivatives of the reference
#pragma once
#include "gb.hpp"
using namespace vh;
using namespace gb;

namespace {

// development: the library's nodes below n
inline void dump (Node* n, int ind = 0)
{
	const nnet::tensor<double>* t = nullptr;
	try { t = n->eval(); } catch (...) {}
	auto gr = n->get_metadata("grouping");
	fprintf(stderr, "%*s%s %p %s %s\n", ind, "", n->get_label().c_str(), (void*) n, t && t->is_alloc() ? tstr(to_rt(*t)).c_str() : "null", gr ? std::to_string(*gr).c_str() : "");
	for (Node* a : n->get_arguments()) dump(a, ind + 2);
}


// derivative by finite differences of the reference value: five points, two step sizes, error estimate
struct FD { std::vector<double> d; std::vector<double> err; bool ok = true; };

struct World
{
	Ctx& c;
	Rng& r;
	Graph g;
	std::vector<int> leaves;
	std::vector<Node*> husks;	// moved-from nodes
	explicit World (Ctx& x) : c(x), r(x.rng) {}
	~World () { while (!husks.empty()) { Node* n = husks.back(); husks.pop_back(); delete n; } }
	// a copy of expression i, which computes the same from the same arguments; -1: not copied
	int copied (int i)
	{
		Node* n = g[i].raw;
		if (g[i].args.empty() || typeid(*n) != typeid(nnet::immutable<double>)) return -1;
		Node* k = n->clone();
		GNode* q = new GNode;
		q->op = g[i].op; q->args = g[i].args; q->loose = g[i].loose; q->h = k; q->raw = k;
		watch(k);
		g.n.emplace_back(q);
		c.log("n" + std::to_string(g.size() - 1) + " = copy of n" + std::to_string(i));
		c.count("copies differentiated");
		return g.size() - 1;
	}
	// move node i to another address
	bool relocated (int i)
	{
		Node* n = g[i].raw;
		bool leaf = g[i].var || g[i].place;
		if (!leaf && (g[i].args.empty() || typeid(*n) != typeid(nnet::immutable<double>))) return false;
		Node* k = n->move();
		husks.push_back(n);
		for (auto& q : g.n)
			if (q->raw == n)
			{
				q->raw = k;
				if (q->h.get() != k) { c.fail("handle", "a handle did not follow the moved node"); return false; }
				if (q->var) q->var = static_cast<Var*>(k);
				if (q->place) q->place = static_cast<Place*>(k);
			}
		watch(k);
		c.log("move n" + std::to_string(i));
		c.count("moved nodes differentiated");
		return true;
	}
	RT val (int i) { RT v; if (!g.value(i, v)) throw Skip{}; return v; }
	bool tame (int i, double cap = 1e3)
	{
		RT v;
		if (!g.value(i, v)) return false;
		for (double x : v.v) if (!(std::fabs(x) < cap)) return false;
		return true;
	}
	// out with all elements of the leaf (e < 0) or one of them moved by h
	RT moved (int out, int leaf, int e, double h)
	{
		RT keep = g[leaf].val;
		for (size_t k = 0; k < keep.n(); k++) if (e < 0 || (int) k == e) g[leaf].val.v[k] += h;
		// what was made a constant stays what it is
		std::map<int, std::pair<bool,RT> > memo;
		RT moving = g[leaf].val;
		g[leaf].val = keep;
		for (int i = 0; i < out; i++) if (g[i].op.k == ASCONST) { RT k; bool ok = g.value(i, k); memo[i] = std::make_pair(ok, k); }
		if (g[out].op.k == ASCONST) { RT k; g.value(out, k); return k; }
		g[leaf].val = moving;
		RT v;
		bool ok = g.value_(out, v, 0, memo);
		g[leaf].val = keep;
		if (!ok) throw Skip{};
		return v;
	}
	// f maps the moved values to what is differentiated
	template <typename F> FD fd (F f, size_t n)
	{
		FD o;
		std::vector<std::vector<double> > est;
		for (double h : {2e-3, 1e-3, 5e-4})
		{
			std::vector<double> a = f(-2 * h), b = f(-h), cc = f(h), d = f(2 * h);
			std::vector<double> x(n);
			for (size_t i = 0; i < n; i++) x[i] = (a[i] - 8 * b[i] + 8 * cc[i] - d[i]) / (12 * h);
			est.push_back(x);
		}
		for (size_t i = 0; i < n; i++)
		{
			o.d.push_back(est[1][i]);
			double e = std::max(std::fabs(est[1][i] - est[0][i]), std::fabs(est[2][i] - est[1][i]));
			o.err.push_back(std::isfinite(e) ? e : INFINITY);
		}
		return o;
	}
	// per position derivative of an elementwise expression
	FD pointwise (int out, int leaf) { size_t n = val(out).n(); return fd([&](double h) { return moved(out, leaf, -1, h).v; }, n); }
	// gradient of the sum of all elements
	FD gradient (int out, int leaf)
	{
		FD o;
		for (size_t e = 0; e < g[leaf].val.n(); e++)
		{
			FD q = fd([&](double h) { double s = 0; for (double x : moved(out, leaf, e, h).v) s += x; return std::vector<double>{s}; }, 1);
			o.d.push_back(q.d[0]);
			o.err.push_back(q.err[0]);
		}
		return o;
	}
	void compare (const std::string& what, const RT& got, const FD& want, const Shp& shape, bool scalar_ok, double scale = 0)
	{
		c.event();
		if (got.n() != want.d.size() && !(scalar_ok && got.n() == 1))
		{
			c.fail("shape", what + ": derivative has shape " + sstr(got.s) + " instead of " + sstr(shape));
			return;
		}
		for (size_t k = 0; k < want.d.size(); k++)
		{
			double x = got.v[got.n() == 1 ? 0 : k], y = want.d[k];
			double tol = 1e-6 * (1 + std::fabs(y) + scale) + 20 * want.err[k];
			if (!(tol < 1e-3 * (1 + std::fabs(y)))) { c.count("illconditioned"); continue; }
			c.event();
			if (std::fabs(x - y) <= tol) continue;
			c.fail("value", what + ": derivative at element " + std::to_string(k) + " is " + dstr(x) + " instead of " + dstr(y) + "\n  got  " + tstr(got) + "\n  want " + tstr(RT(shape, want.d)));
			return;
		}
	}
	bool has (int i, Kind k)
	{
		if (g[i].op.k == k && !g[i].args.empty()) return true;
		for (int a : g[i].args) if (has(a, k)) return true;
		return false;
	}
	// derivatives build expressions over constants alone, which nobody frees (known finding)
	void owned_consts () { for (int i = 0; i < g.size(); i++) if (g[i].args.empty() && g[i].lk == LCONST) c.nobalance = true; }
	bool moderate ()
	{
		for (int i = 0; i < g.size(); i++)
		{
			Kind k = g[i].op.k;
			if (!g[i].args.empty() && (k == TANH || k == SIGMOID || k == EXP) && !tame(g[i].args[0], 20)) return false;
			if (!tame(i, 1e6)) return false;
		}
		return true;
	}
	std::string dump () { std::string o; for (int i = 0; i < g.size(); i++) o += g.describe(i) + "\n"; return o; }
};


Op mk (Kind k, double d0 = 0) { Op o; o.k = k; o.d0 = d0; return o; }

struct Elem : public World
{
	std::vector<int> pool;
	Shp s;
	explicit Elem (Ctx& x) : World(x) {}
	int add (Op o, std::vector<int> a)
	{
		int i = g.add_op(c, o, a);
		if (!tame(i, 200)) { /* still alive, just unused */ return -1; }
		pool.push_back(i);
		return i;
	}
	void seed ()
	{
		s = gen_shape(r, 3, 3, 8);
		size_t n = r.range(1, 3);
		for (size_t i = 0; i < n; i++)
		{
			Shp q = i && r.chance(0.25) ? Shp{1} : s;
			int l = g.add_var(c, gen_tensor(r, q));
			leaves.push_back(l);
			pool.push_back(l);
		}
		if (r.chance(0.3)) pool.push_back(g.add_place(c, gen_tensor(r, s), s));
		if (r.chance(0.3)) pool.push_back(g.add_const(c, gen_tensor(r, r.chance(0.4) ? Shp{1} : s)));
	}
	bool within (int i, double lo, double hi)
	{
		RT v = val(i);
		for (double x : v.v) if (!(x > lo && x < hi)) return false;
		return true;
	}
	bool away (int i, double d) { RT v = val(i); for (double x : v.v) if (!(std::fabs(x) > d)) return false; return true; }
	// an operation that stays away from poles and kinks at the current values
	int grow ()
	{
		int a = r.chance(0.6) ? pool.back() : r.pick(pool);
		int b = r.chance(0.35) ? a : r.pick(pool);
		static const Kind un[] = {ABS, NEG, SIN, COS, TAN, CSC, SEC, COT, EXP, SQRT, LOG, POW, IDENT, SIGMOID, TANH, ASCONST};
		static const Kind sc[] = {S_ADD, ADD_S, S_SUB, SUB_S, S_MUL, MUL_S, S_DIV, DIV_S};
		static const Kind bi[] = {ADD, SUB, MUL, DIV};
		size_t t = r.range(0, 9);
		if (t < 4)
		{
			Kind k = un[r.range(0, 15)];
			if (k == ASCONST && !r.chance(0.3)) k = NEG;
			RT v = val(a);
			switch (k)
			{
				case ABS: if (!away(a, 0.05)) return -1; break;
				case TAN: case SEC: for (double x : v.v) if (std::fabs(std::cos(x)) < 0.15) return -1; break;
				case CSC: case COT: for (double x : v.v) if (std::fabs(std::sin(x)) < 0.15) return -1; break;
				case EXP: case TANH: case SIGMOID: if (!within(a, -6, 6)) return -1; break;
				case SQRT: case LOG: if (!within(a, 0.05, 1e9)) return -1; break;
				default: break;
			}
			Op o = mk(k);
			if (k == POW)
			{
				static const double es[] = {0, 1, 2, 3, 4, -1, -2, 0.5, 1.5, 2.25, -0.5};
				o.d0 = es[r.range(0, 10)];
				bool whole = o.d0 == std::floor(o.d0);
				if (!whole && !within(a, 0.05, 1e9)) return -1;
				if (!away(a, 0.1) || !within(a, -6, 6)) return -1;
			}
			return add(o, {a});
		}
		if (t < 6)
		{
			Op o = mk(sc[r.range(0, 7)], gen_val(r));
			if (r.chance(0.1)) o.d0 = r.chance(0.5) ? 1 : -1;
			if (r.chance(0.06) && o.k != DIV_S) o.d0 = 0;
			if (o.k == S_DIV && !away(a, 0.15)) return -1;
			return add(o, {a});
		}
		Op o = mk(bi[r.range(0, 3)]);
		if (o.k == DIV && !away(b, 0.15)) return -1;
		return add(o, {a, b});
	}
};


struct Net : public World
{
	std::vector<int> weights;
	explicit Net (Ctx& x) : World(x) {}
	Shp sh (int i) { return val(i).s; }
	int op (Op o, std::vector<int> a) { int i = g.add_op(c, o, a); if (!tame(i)) throw Skip{}; return i; }
	int op2 (Kind k, int a, int b, size_t p0 = 0) { Op o; o.k = k; o.p0 = p0; return op(o, {a, b}); }
	int leaf (Shp s, bool weight)
	{
		RT v = gen_tensor(r, s, -1.5, 1.5);
		if (weight) { int i = g.add_var(c, v); weights.push_back(i); return i; }
		switch (r.range(0, 2)) { case 0: return g.add_place(c, v, s); case 1: { int i = g.add_var(c, v); weights.push_back(i); return i; } default: return g.add_const(c, v); }
	}
	int act (int h)
	{
		RT v = val(h);
		bool pos = true, nz = true;
		for (double x : v.v) { pos = pos && x > 0.05; nz = nz && std::fabs(x) > 0.05; }
		switch (r.range(0, 10))
		{
			case 0: return op(mk(SIGMOID), {h});
			case 1: return op(mk(TANH), {h});
			case 2: return op(mk(NEG), {h});
			case 3: return op(mk(SIN), {h});
			case 4: return op(mk(MUL_S, r.real(0.3, 1.5)), {h});
			case 5: return op(mk(S_SUB, r.real(0.3, 1.5)), {h});
			case 6: return op(mk(POW, 2), {h});
			case 7: return nz ? op(mk(ABS), {h}) : h;
			case 8: return pos ? op(mk(LOG), {h}) : op(mk(EXP), {op(mk(MUL_S, 0.5), {h})});
			default: return h;
		}
	}
	int weight_of (Shp s)
	{
		int w = leaf(s, true);
		if (r.chance(0.15)) w = act(w);
		return w;
	}
	int product (int h)
	{
		Shp s = sh(h);
		size_t cols = dim(s, 0), rows = dim(s, 1), n = r.range(1, 4);
		Op o;
		o.k = MATMUL;
		bool left = r.chance(0.7);
		bool th = r.chance(0.2), tw = r.chance(0.3);
		if (left)
		{
			// inner dimension: columns of h (rows if transposed)
			size_t inner = th ? rows : cols;
			o.f0 = th; o.f1 = tw;
			return op(o, {h, weight_of(tw ? Shp{inner, n} : Shp{n, inner})});
		}
		size_t inner = th ? cols : rows;
		o.f1 = th; o.f0 = tw;
		return op(o, {weight_of(tw ? Shp{n, inner} : Shp{inner, n}), h});
	}
	int bias (int h)
	{
		Shp s = sh(h);
		if (s.size() != 2) return h;
		size_t ax = r.range(0, 1);
		int b = weight_of(Shp{s[1 - ax]});
		switch (r.range(0, 8))
		{
			case 0: return op2(ADD_AA, b, h, ax);
			case 1: return op2(SUB_AB, h, b, ax);
			case 2: return op2(SUB_AA, b, h, ax);
			case 3: return op2(MUL_AB, h, b, ax);
			case 4: return op2(MUL_AA, b, h, ax);
			case 5:
			{
				bool nz = true;
				for (double x : val(b).v) nz = nz && std::fabs(x) > 0.2;
				if (nz) return op2(DIV_AB, h, b, ax);
				nz = true;
				for (double x : val(h).v) nz = nz && std::fabs(x) > 0.2;
				if (nz) return op2(DIV_AA, b, h, ax);
				return h;
			}
			default: return op2(ADD_AB, h, b, ax);
		}
	}
	int layer (int h)
	{
		if (r.chance(0.9)) h = product(h);
		if (r.chance(0.6)) h = bias(h);
		return act(h);
	}
	int error (int h)
	{
		Shp s = sh(h);
		switch (r.range(0, 3))
		{
			case 0: { int t = leaf(s, false); return op(mk(POW, 2), {op2(SUB, t, h)}); }
			case 1: { int t = leaf(s, false); int d = op2(SUB, h, t); return op2(MUL, d, d); }
			case 2: { int t = leaf(s, false); return op2(MUL, h, t); }
			default: return h;
		}
	}
	int reduce (int h)
	{
		Op o;
		switch (r.range(0, 4))
		{
			case 0: o.k = RSUM; o.p0 = NODIM; break;
			case 1: o.k = RMEAN; o.p0 = NODIM; break;
			case 2: o.k = RSUM; o.p0 = r.range(0, 1); break;
			case 3: o.k = RMEAN; o.p0 = r.range(0, 1); break;
			default: return h;
		}
		return op(o, {h});
	}
};

}
