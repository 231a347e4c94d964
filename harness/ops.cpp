// ops.cpp - O01..O06 and R06: single operations and sets of related operations on common operands.
#include "gb.hpp"
using namespace gb;
using vh::Ctx;
using vh::Rng;

namespace {

enum OperandKind { K_VAR, K_PLACE, K_CONST, K_EXPR };

int operand (Ctx& c, Graph& g, const RT& t, int kind)
{
	int i;
	switch (kind)
	{
		case K_VAR: i = g.add_var(c, t); break;
		case K_PLACE:
		{
			Shp decl = t.s;
			if (c.rng.chance(0.4)) decl[c.rng.range(0, decl.size() - 1)] = 0;
			i = g.add_place(c, t, decl);
			break;
		}
		case K_CONST: i = g.add_const(c, t); break;
		default:
		{
			RT h = t;
			for (double& x : h.v) x /= 2;
			int a = g.add_var(c, h);
			int b = g.add_var(c, h);
			c.log(g.describe(a)); c.log(g.describe(b));
			Op o; o.k = ADD;
			i = g.add_op(c, o, {a, b});
			break;
		}
	}
	c.log(g.describe(i));
	return i;
}
int any_operand (Ctx& c, Graph& g, const RT& t) { return operand(c, g, t, (int)c.rng.range(0, 3)); }

void leaves_intact (Ctx& c, Graph& g)
{
	for (int i = 0; i < g.size(); i++)
		if (g[i].args.empty() && g[i].init && !g[i].dead)
		{
			Got q = get(g[i].h.get());
			c.event();
			if (!q.has) c.fail("leaf-lost", g.describe(i) + " has no value any more");
			else for (size_t k = 0; k < q.t.n(); k++)
				if (q.t.n() != g[i].val.n() || !(q.t.v[k] == g[i].val.v[k] || std::isnan(g[i].val.v[k])))
				{ c.fail("leaf-changed", "evaluation changed leaf " + g.describe(i) + " to " + tstr(q.t)); break; }
		}
}

// build o on args, compare with the definition; when the definition rejects the operands the library has to reject them
// too (error or no value). `lenient`: an error is acceptable although the reference has a value
int run_op (Ctx& c, Graph& g, const Op& o, std::vector<int> args, bool lenient = false)
{
	std::vector<RT> av(args.size());
	std::vector<const RT*> ap;
	for (size_t k = 0; k < args.size(); k++) { g.value(args[k], av[k]); ap.push_back(&av[k]); }
	bool ok = true;
	RT want;
	try { want = ref::apply(o, ap); } catch (BadShape&) { ok = false; }
	std::string line = o.str() + "(";
	for (int a : args) line += " n" + std::to_string(a);
	line += " )" + std::string(ok ? "" : " must be rejected");
	c.log(line);
	c.count(std::string("op:") + kind_name[o.k]);
	if (!ok) c.count("rejects");
	int i;
	try { i = g.add_op(c, o, args); }
	catch (vh::Violation&) { throw; }
	catch (std::exception& e)
	{
		c.event();
		if (ok && !lenient) c.fail("build-threw", line + " threw: " + e.what());
		return -1;
	}
	if (ok)
	{
		if (lenient)
		{
			Got q = get(g[i].h.get());
			c.event();
			if (q.threw || !q.has) return i;
		}
		g.check(c, i, "built");
		return i;
	}
	Got q = get(g[i].h.get());
	c.event();
	if (q.has && !q.threw) c.fail("accepted", line + ": incompatible operands gave " + tstr(q.t));
	return i;
}

double scalar_const (Rng& r)
{
	switch (r.range(0, 9))
	{
		case 0: return 0;
		case 1: return 1;
		case 2: return -1;
		case 3: return 2;
		case 4: return 0.5;
		default: return gen_val(r);
	}
}

RT domain_tensor (Rng& r, Kind k, const Shp& s)
{
	switch (k)
	{
		case LOG: case SQRT: return gen_tensor(r, s, 0.1, 6);
		case TAN: case SEC: return gen_tensor(r, s, -1.3, 1.3);
		case CSC: case COT: return gen_tensor(r, s, 0.3, 2.8);
		case POW: return gen_tensor(r, s, 0.2, 3);
		case ROUND:
		{
			RT t = gen_tensor(r, s, -6, 6);
			for (double& x : t.v) if (r.chance(0.3)) x = std::floor(x) + 0.5;
			return t;
		}
		default: return gen_tensor(r, s);
	}
}

const Kind unary_kinds[] = { ABS, NEG, SIN, COS, TAN, CSC, SEC, COT, EXP, SQRT, ROUND, LOG, POW, CLIPVAL, CLIPNORM, IDENT, ASCONST,
	SIGMOID, TANH, S_ADD, ADD_S, S_SUB, SUB_S, S_MUL, MUL_S, S_DIV, DIV_S, S_COND, COND_S };
const Kind binary_kinds[] = { ADD, SUB, MUL, DIV, COND, EQ, NEQ };

void fill_params (Rng& r, Op& o, const RT& t)
{
	switch (o.k)
	{
		case POW: { const double e[] = {0, 1, 2, 3, -1, -2, 0.5, 1.5, 4}; o.d0 = r.chance(0.8) ? e[r.range(0, 8)] : r.real(-2, 3); break; }
		case CLIPVAL: o.d0 = r.real(-2, 2); o.d1 = r.real(-2, 2); break;
		case CLIPNORM:
		{
			double n = 0;
			for (double x : t.v) n += x * x;
			n = std::sqrt(n);
			const double f[] = {0.01, 0.5, 0.9, 1.1, 2, 10};
			o.d0 = std::max(1e-3, n * f[r.range(0, 5)]);
			break;
		}
		case S_DIV: case DIV_S: do o.d0 = scalar_const(r); while (o.k == DIV_S && o.d0 == 0); break;
		default: o.d0 = scalar_const(r);
	}
	o.cmp = (int)r.range(0, 5);
	if ((o.k == S_COND || o.k == COND_S) && r.chance(0.4)) o.d0 = r.pick(t.v);
}

void special_values (Rng& r, RT& t)
{
	if (r.chance(0.12)) { double f = r.chance(0.5) ? 0 : 1; for (double& x : t.v) x = f; }
	else if (r.chance(0.15)) for (double& x : t.v) if (r.chance(0.3)) x = std::floor(x);
}

// O01: unary operations
void o01_unary (Ctx& c)
{
	Graph g;
	Rng& r = c.rng;
	size_t nops = r.range(2, 6);
	for (size_t q = 0; q < nops; q++)
	{
		Op o;
		o.k = unary_kinds[r.range(0, sizeof(unary_kinds) / sizeof(Kind) - 1)];
		Shp s = r.chance(0.2) ? (r.chance(0.5) ? Shp{1} : Shp(r.range(1, 3), 1)) : gen_shape(r, 5, 5, 80);
		RT t = domain_tensor(r, o.k, s);
		if (o.k == ABS || o.k == NEG || o.k == ADD_S || o.k == S_ADD || o.k == SUB_S || o.k == S_SUB || o.k == MUL_S || o.k == S_MUL || o.k == CLIPVAL || o.k == CLIPNORM) special_values(r, t);
		fill_params(r, o, t);
		int a = any_operand(c, g, t);
		int i = run_op(c, g, o, {a});
		// the same function on new data
		if (i >= 0 && g[a].args.empty() && g[a].op.k != CONST && r.chance(0.5))
		{
			RT t2 = domain_tensor(r, o.k, s);
			g.set(c, a, t2);
			c.log("set " + g.describe(a));
			g.check(c, i, "after assignment");
		}
	}
	leaves_intact(c, g);
}

// O01: binary operations over all operand kind combinations
void o01_binary (Ctx& c)
{
	Graph g;
	Rng& r = c.rng;
	size_t nops = r.range(2, 5);
	for (size_t q = 0; q < nops; q++)
	{
		Op o;
		o.k = binary_kinds[r.range(0, 6)];
		o.cmp = (int)r.range(0, 5);
		Shp sa = gen_shape(r, 5, 5, 80), sb = sa;
		int mode = (int)r.range(0, 9);
		bool reject = false;
		if (mode < 2) sa = r.chance(0.7) ? Shp{1} : Shp(r.range(1, 3), 1);
		else if (mode < 4) sb = r.chance(0.7) ? Shp{1} : Shp(r.range(1, 3), 1);
		else if (mode == 4) { sb.push_back(1); if (r.chance(0.5)) std::swap(sa, sb); }
		else if (mode == 5)
		{
			// different non-scalar shapes
			size_t k = r.range(0, sb.size() - 1);
			sb[k] = sb[k] + 1 + r.range(0, 2);
			if (r.chance(0.3)) sb = gen_shape(r, 4, 5, 80);
			if (r.chance(0.3)) { sb = sa; r.shuffle(sb); }
			reject = true;
		}
		RT ta = gen_tensor(r, sa), tb = gen_tensor(r, sb);
		special_values(r, ta);
		if (o.k != DIV) special_values(r, tb);
		if (o.k == EQ || o.k == NEQ || o.k == COND) for (size_t k = 0; k < tb.n(); k++) if (r.chance(0.5)) tb.v[k] = ta.v[k % ta.n()];
		int a = any_operand(c, g, ta), b = r.chance(0.06) && sa == sb ? a : any_operand(c, g, tb);
		// dividing zero by ... is folded, dividing by a constant zero is refused
		(void) reject;
		int i = run_op(c, g, o, {a, b});
		if (i >= 0 && !g[i].loose && r.chance(0.5))
		{
			for (int k : {a, b})
				if (g[k].args.empty() && g[k].op.k != CONST)
				{
					RT t2 = gen_tensor(r, g[k].val.s);
					g.set(c, k, t2);
					c.log("set " + g.describe(k));
				}
			g.check(c, i, "after assignment");
		}
	}
	leaves_intact(c, g);
}

// O01: dividing by a constant zero: error or IEEE value, never something else
void o01_divzero (Ctx& c)
{
	Graph g;
	Rng& r = c.rng;
	Shp s = gen_shape(r, 3, 4, 24);
	RT t = gen_tensor(r, s);
	int a = any_operand(c, g, t);
	Op o;
	if (r.chance(0.5)) { o.k = DIV_S; o.d0 = 0; run_op(c, g, o, {a}, true); }
	else
	{
		o.k = DIV;
		int z = g.add_const(c, r.chance(0.5) ? RT(0.0) : RT(s, 0.0));
		c.log(g.describe(z));
		run_op(c, g, o, {a, z}, true);
	}
	// the operand has to stay usable
	Op n; n.k = NEG;
	run_op(c, g, n, {a});
	leaves_intact(c, g);
}

// O02
void o02_axial (Ctx& c)
{
	Graph g;
	Rng& r = c.rng;
	const Kind ks[] = { ADD_AA, ADD_AB, SUB_AA, SUB_AB, MUL_AA, MUL_AB, DIV_AA, DIV_AB };
	Shp bs = gen_shape(r, 4, 4, 96);
	if (r.chance(0.3)) { size_t d = r.range(2, 4); bs = Shp(r.range(2, 3), d); } // equal dimensions
	size_t axis = r.range(0, bs.size() - 1);
	Shp ss = collapse(bs, axis);
	int mode = (int)r.range(0, 9);
	if (mode == 0) ss = Shp{1};
	else if (mode == 1) { size_t k = r.range(0, ss.size() - 1); ss[k] += 1 + r.range(0, 1); }
	else if (mode == 2) ss = gen_shape(r, 3, 4, 32);
	else if (mode == 3) axis = bs.size(); // unit axis behind the last dimension
	if (mode == 3) ss = bs;
	RT tb = gen_tensor(r, bs), ts = gen_tensor(r, ss);
	for (double& x : tb.v) if (std::fabs(x) < 0.2) x = 0.3;
	for (double& x : ts.v) if (std::fabs(x) < 0.2) x = -0.3;
	int big = operand(c, g, tb, r.chance(0.2) ? K_CONST : (int)r.range(0, 3)), small = operand(c, g, ts, (int)r.range(0, 3));
	if (g[big].op.k == CONST && g[small].op.k == CONST && tb.n() == 1) throw vh::Skip{};
	size_t nops = r.range(1, 5);
	std::vector<int> built;
	for (size_t q = 0; q < nops; q++)
	{
		Op o;
		o.k = ks[r.range(0, 7)];
		o.p0 = axis;
		bool left = o.k == ADD_AA || o.k == SUB_AA || o.k == MUL_AA || o.k == DIV_AA;
		// the operand named by the operation is the one with the missing axis
		int i = left ? run_op(c, g, o, {small, big}, mode == 3) : run_op(c, g, o, {big, small}, mode == 3);
		if (i >= 0 && mode != 3) built.push_back(i);
	}
	for (int k : {big, small})
		if (g[k].args.empty() && g[k].op.k != CONST && r.chance(0.6))
		{
			RT t2 = gen_tensor(r, g[k].val.s);
			for (double& x : t2.v) if (std::fabs(x) < 0.2) x = 0.3;
			g.set(c, k, t2);
			c.log("set " + g.describe(k));
		}
	for (int i : built) g.check(c, i, "after assignment");
	leaves_intact(c, g);
}

// O03
void matmul_case (Ctx& c, size_t ax, size_t ay, size_t bx, const Shp& batch, bool vec, double tol_unused)
{
	(void) tol_unused;
	Graph g;
	Rng& r = c.rng;
	bool ta = r.chance(0.4), tb = r.chance(0.4);
	// logical A: ax columns, ay rows; logical B: bx columns, ax rows
	Shp as = ta ? Shp{ay, ax} : Shp{ax, ay}, bs = tb ? Shp{ax, bx} : Shp{bx, ax};
	as.insert(as.end(), batch.begin(), batch.end());
	bs.insert(bs.end(), batch.begin(), batch.end());
	if (vec)
	{
		// drop the row dimension of single-row operands
		if (as.size() == 2 && as[1] == 1) as.pop_back();
		if (bs.size() == 2 && bs[1] == 1) bs.pop_back();
	}
	bool broken = r.chance(0.12);
	if (broken)
	{
		switch (r.range(0, 2))
		{
			case 0: bs[r.range(0, bs.size() - 1)] += 1; break;
			case 1: as.push_back(2); break;
			default: bs.push_back(3); break;
		}
	}
	int a = operand(c, g, gen_tensor(r, as, -1, 1), (int)r.range(0, 3)), b = operand(c, g, gen_tensor(r, bs, -1, 1), (int)r.range(0, 3));
	Op o; o.k = MATMUL; o.f0 = ta; o.f1 = tb;
	int i = run_op(c, g, o, {a, b});
	// another mode on the same operands must not be confused with the first one
	Op o2 = o;
	if (r.chance(0.5)) o2.f0 = !o2.f0; else o2.f1 = !o2.f1;
	if (count(as) * bx < 20000) run_op(c, g, o2, {a, b});
	if (i >= 0)
	{
		int k = r.chance(0.5) ? a : b;
		if (g[k].args.empty() && g[k].op.k != CONST)
		{
			g.set(c, k, gen_tensor(r, g[k].val.s, -1, 1));
			c.log("set n" + std::to_string(k));
			g.check(c, i, "after assignment");
		}
	}
	leaves_intact(c, g);
}
void o03_small (Ctx& c)
{
	Rng& r = c.rng;
	Shp batch;
	if (r.chance(0.35)) { batch.push_back(r.range(1, 3)); if (r.chance(0.3)) batch.push_back(r.range(1, 2)); }
	auto d = [&]() { return r.chance(0.2) ? (size_t)1 : r.range(1, 9); };
	matmul_case(c, d(), d(), d(), batch, r.chance(0.5), 0);
}
void o03_mid (Ctx& c)
{
	Rng& r = c.rng;
	const size_t sz[] = {15, 16, 17, 31, 32, 33, 63, 64, 65};
	auto d = [&]() { return r.chance(0.3) ? r.range(1, 70) : sz[r.range(0, 8)]; };
	Shp batch;
	if (r.chance(0.2)) batch.push_back(2);
	matmul_case(c, d(), d(), d(), batch, false, 0);
}
// sizes around the switch to the divide-and-conquer method; the reference is the defining sum at every element
void o03_large (Ctx& c)
{
	Rng& r = c.rng;
	const size_t sz[] = {255, 256, 257, 258, 260, 300, 320};
	size_t big = sz[r.range(0, 6)];
	size_t dims[3];
	int which = (int)r.range(0, 2);
	for (int k = 0; k < 3; k++) dims[k] = k == which ? big : r.chance(0.25) ? sz[r.range(0, 4)] : r.range(1, 12);
	Graph g;
	bool ta = r.chance(0.5), tb = r.chance(0.5);
	size_t ax = dims[0], ay = dims[1], bx = dims[2];
	Shp as = ta ? Shp{ay, ax} : Shp{ax, ay}, bs = tb ? Shp{ax, bx} : Shp{bx, ax};
	if (r.chance(0.3)) { as.push_back(2); bs.push_back(2); }
	int a = g.add_var(c, gen_tensor(r, as, -1, 1)), b = g.add_var(c, gen_tensor(r, bs, -1, 1));
	c.log("n0=var" + sstr(as) + " n1=var" + sstr(bs));
	Op o; o.k = MATMUL; o.f0 = ta; o.f1 = tb;
	int i = run_op(c, g, o, {a, b});
	if (i >= 0 && c.thorough)
	{
		g.set(c, a, gen_tensor(r, as, -1, 1));
		g.check(c, i, "after assignment");
	}
}

// O04
void o04_case (Ctx& c)
{
	Graph g;
	Rng& r = c.rng;
	Shp s = gen_shape(r, 4, 4, 96);
	int a = any_operand(c, g, gen_tensor(r, s));
	size_t nops = r.range(2, 5);
	for (size_t q = 0; q < nops; q++)
	{
		Op o;
		std::vector<int> args{a};
		bool lenient = false;
		switch (r.range(0, 3))
		{
			case 0:
				o.k = TRANSPOSE;
				o.p0 = r.range(0, s.size() - 1); o.p1 = r.range(0, s.size() - 1);
				if (r.chance(0.15)) { o.p1 = s.size() + r.range(0, 1); lenient = true; }
				if (r.chance(0.05)) { o.p0 = s.size(); o.p1 = s.size() + 1; lenient = true; }
				break;
			case 1:
			{
				o.k = FIT;
				Shp w = gen_shape(r, 4, 5, 120);
				if (r.chance(0.5)) { w = s; for (size_t& d : w) { if (r.chance(0.4)) d += 1; else if (d > 1 && r.chance(0.4)) d -= 1; } }
				args.push_back(any_operand(c, g, gen_tensor(r, w)));
				break;
			}
			case 2:
				o.k = EXTEND;
				o.p0 = r.range(0, s.size() - 1); o.p1 = r.range(1, 4);
				if (r.chance(0.25)) { o.p0 = s.size() + r.range(0, 2); lenient = true; }
				if (r.chance(0.05)) o.p1 = 0;
				break;
			default:
				o.k = FLIP;
				for (size_t d = 0; d < s.size(); d++) if (r.chance(0.5)) o.dims.push_back(d);
				r.shuffle(o.dims);
				if (r.chance(0.1)) { o.dims.push_back(s.size() + r.range(0, 2)); lenient = true; }
				break;
		}
		int i = run_op(c, g, o, args, lenient);
		// operations on the result of operations
		if (i >= 0 && !lenient && r.chance(0.3) && o.k != FIT && !g[i].loose)
		{
			Op o2; o2.k = TRANSPOSE;
			RT v; g.value(i, v);
			o2.p0 = r.range(0, v.s.size() - 1); o2.p1 = r.range(0, v.s.size() - 1);
			run_op(c, g, o2, {i});
		}
	}
	if (g[a].args.empty() && g[a].op.k != CONST)
	{
		g.set(c, a, gen_tensor(r, s));
		c.log("set " + g.describe(a));
		for (int i = 0; i < g.size(); i++) if (!g[i].args.empty())
		{
			RT v;
			if (g.value(i, v) && get(g[i].h.get()).has) g.check(c, i, "after assignment");
		}
	}
	leaves_intact(c, g);
}

// O05
void o05_case (Ctx& c)
{
	Graph g;
	Rng& r = c.rng;
	Shp s = gen_shape(r, 4, 5, 120);
	RT t = gen_tensor(r, s);
	switch (r.range(0, 4))
	{
		case 0: for (double& x : t.v) x = -std::fabs(x) - 0.5; break;
		case 1: for (double& x : t.v) x = (double)r.range(0, 2) - 1; break; // ties
		case 2: for (double& x : t.v) x = -1; break;
		default: break;
	}
	int a = any_operand(c, g, t);
	const Kind ks[] = { RSUM, RMEAN, RMAX, ARGMAX, COMPRESS, ARGCOMPRESS };
	size_t nops = r.range(2, 6);
	for (size_t q = 0; q < nops; q++)
	{
		Op o;
		o.k = ks[r.range(0, 5)];
		o.cmp = (int)r.range(0, 11);
		o.p0 = r.chance(0.2) ? NODIM : r.range(0, s.size() - 1);
		bool lenient = false;
		if (r.chance(0.08)) { o.p0 = s.size() + r.range(0, 1); lenient = true; }
		run_op(c, g, o, {a}, lenient);
	}
	if (g[a].args.empty() && g[a].op.k != CONST)
	{
		RT t2 = gen_tensor(r, s);
		g.set(c, a, t2);
		c.log("set " + g.describe(a));
		for (int i = 0; i < g.size(); i++) if (!g[i].args.empty())
		{
			RT v;
			if (g.value(i, v) && get(g[i].h.get()).has) g.check(c, i, "after assignment");
		}
	}
	leaves_intact(c, g);
}

// O06
void o06_case (Ctx& c)
{
	Graph g;
	Rng& r = c.rng;
	size_t rank = r.range(2, 4);
	Shp s(rank);
	for (size_t& d : s) d = r.range(1, 5);
	size_t d0 = r.range(0, rank - 1), d1 = r.range(0, rank - 2);
	if (d1 >= d0) d1++;
	if (r.chance(0.5)) { d0 = 0; d1 = 1; }
	Shp f(std::max(d0, d1) + 1, 1);
	f[d0] = r.range(1, s[d0]); f[d1] = r.range(1, s[d1]);
	if (r.chance(0.15)) f.push_back(1);
	if (r.chance(0.12)) f[r.chance(0.5) ? d0 : d1] = std::max(s[d0], s[d1]) + r.range(1, 2);
	int a = any_operand(c, g, gen_tensor(r, s)), b = any_operand(c, g, gen_tensor(r, f));
	Op o; o.k = r.chance(0.5) ? XCORR : CONV; o.p0 = d0; o.p1 = d1;
	int i = run_op(c, g, o, {a, b});
	Op o2 = o; o2.k = o.k == XCORR ? CONV : XCORR;
	run_op(c, g, o2, {a, b});
	if (i >= 0) for (int k : {a, b})
		if (g[k].args.empty() && g[k].op.k != CONST)
		{
			g.set(c, k, gen_tensor(r, g[k].val.s));
			c.log("set " + g.describe(k));
			RT v;
			if (g.value(i, v)) g.check(c, i, "after assignment");
		}
	leaves_intact(c, g);
}

// R06: many related calls on the same operands, all results kept and checked against the call that returned them
void r06_related (Ctx& c)
{
	Graph g;
	Rng& r = c.rng;
	Shp s = gen_shape(r, 3, 4, 24);
	while (s.size() < 2) s = gen_shape(r, 3, 4, 24);
	int a = operand(c, g, gen_tensor(r, s, 0.3, 2.2), r.chance(0.5) ? K_VAR : K_EXPR);
	int b = operand(c, g, gen_tensor(r, s, 0.3, 2.2), K_VAR);
	int sc = operand(c, g, RT(gen_val(r, 0.3, 2)), K_VAR);
	std::vector<int> pool{a, b, sc};
	std::vector<int> res;
	// nearly equal and exactly equal parameters
	double base = gen_val(r);
	std::vector<double> ps{0, 1, -1, 2, -2, 0.5, base, base + 1e-7, base * (1 + 1e-9), -base, 1.0000001, 1e-9, 1234567.0, 1234567.4};
	auto par = [&]() { return ps[r.range(0, ps.size() - 1)]; };
	size_t nops = r.range(6, 24);
	// a family at a time, so that collisions are likely
	for (size_t q = 0; q < nops; )
	{
		int fam = (int)r.range(0, 9);
		size_t rep = r.range(2, 5);
		int x = r.pick(pool), y = r.pick(pool);
		double p = par();
		for (size_t k = 0; k < rep; k++, q++)
		{
			Op o;
			std::vector<int> args{x};
			bool lenient = false;
			if (r.chance(0.3)) p = par();
			switch (fam)
			{
				case 0: { const Kind ks[] = {S_ADD, ADD_S, S_SUB, SUB_S, S_MUL, MUL_S, S_DIV, DIV_S}; o.k = ks[r.range(0, 7)]; o.d0 = p; lenient = (o.k == DIV_S && p == 0); break; }
				case 1: o.k = r.chance(0.5) ? S_COND : COND_S; o.d0 = p; o.cmp = (int)r.range(0, 2); break;
				case 2: o.k = POW; o.d0 = r.chance(0.5) ? (double)r.range(0, 3) : std::fabs(p) > 3 ? 2.5 : p; break;
				case 3: o.k = CLIPVAL; o.d0 = p; o.d1 = par(); break;
				case 4: { const Kind ks[] = {ADD, SUB, MUL, DIV, COND, EQ, NEQ}; o.k = ks[r.range(0, 6)]; o.cmp = (int)r.range(0, 2); args = r.chance(0.5) ? std::vector<int>{x, y} : std::vector<int>{y, x}; if (r.chance(0.15)) args[1] = args[0]; break; }
				case 5: o.k = TRANSPOSE; o.p0 = r.range(0, s.size() - 1); o.p1 = r.range(0, s.size() - 1); break;
				case 6: { const Kind ks[] = {RSUM, RMEAN, RMAX, ARGMAX, COMPRESS, ARGCOMPRESS}; o.k = ks[r.range(0, 5)]; o.cmp = (int)r.range(0, 3); o.p0 = r.chance(0.3) ? NODIM : r.range(0, 1); RT v; g.value(x, v); if (o.p0 != NODIM && o.p0 >= v.s.size()) o.p0 = 0; break; }
				case 7: o.k = r.chance(0.5) ? FLIP : EXTEND; if (o.k == FLIP) { RT v; g.value(x, v); for (size_t d = 0; d < v.s.size(); d++) if (r.chance(0.5)) o.dims.push_back(d); r.shuffle(o.dims); } else { o.p0 = 0; o.p1 = r.range(1, 3); } break;
				case 8: { const Kind ks[] = {NEG, ABS, IDENT, SIN, COS, TAN, CSC, SEC, COT, EXP, SQRT, LOG, ROUND, SIGMOID, TANH, CLIPNORM}; o.k = ks[r.range(0, 15)]; o.d0 = r.chance(0.5) ? 0.7 : 0.7000001; break; }
				default:
				{
					// axis-aligned operations on matching operands, both orders and axes
					size_t axis = r.range(0, 1);
					const Kind ks[] = {ADD_AA, ADD_AB, SUB_AA, SUB_AB, MUL_AA, MUL_AB, DIV_AA, DIV_AB};
					o.k = ks[r.range(0, 7)]; o.p0 = axis;
					bool left = o.k == ADD_AA || o.k == SUB_AA || o.k == MUL_AA || o.k == DIV_AA;
					args = left ? std::vector<int>{sc, a} : std::vector<int>{a, sc};
					if (r.chance(0.3)) std::swap(args[0], args[1]);
					break;
				}
			}
			if (x == sc && (fam == 5 || fam == 7)) continue;
			RT pv;
			bool usable = true;
			for (int z : args)
			{
				if (g[z].loose && !is_elementwise(o.k)) usable = false;
				if (!g.value(z, pv)) { usable = false; continue; }
				for (double w : pv.v) if (!std::isfinite(w) || std::fabs(w) > 1e7) usable = false;
			}
			if (!usable) continue;
			int i = run_op(c, g, o, args, lenient);
			if (i >= 0)
			{
				res.push_back(i);
				RT v;
				if (pool.size() < 9 && r.chance(0.25) && g.value(i, v) && same_shape(v.s, s) && !g[i].loose) pool.push_back(i);
			}
		}
	}
	// all of them still are what they were asked to be, also on new data
	for (int round = 0; round < 2; round++)
	{
		for (int i : res)
		{
			RT v;
			if (!g.value(i, v)) continue;
			Got q = get(g[i].h.get());
			if (q.has) g.check(c, i, "later");
			else c.fail("lost", g.describe(i) + " can no longer be evaluated");
		}
		for (int i = 0; i < g.size(); i++)
			if (g[i].args.empty() && g[i].op.k != CONST) { g.set(c, i, gen_tensor(r, g[i].val.s, -2.2, 2.2)); c.log("set " + g.describe(i)); }
	}
	leaves_intact(c, g);
}

// R06: tensor constants that are zero or one everywhere, equal operands and double operations
void r06_special (Ctx& c)
{
	Graph g;
	Rng& r = c.rng;
	Shp s = gen_shape(r, 3, 3, 18);
	bool xs = r.chance(0.25);
	int x = operand(c, g, gen_tensor(r, xs ? Shp{1} : s), (int)r.range(0, 3));
	double f = r.chance(0.4) ? 0 : r.chance(0.5) ? 1 : r.chance(0.5) ? -1 : 2;
	int k = g.add_const(c, r.chance(0.5) ? RT(f) : RT(r.chance(0.5) ? s : g[x].args.empty() ? g[x].val.s : s, f));
	if (r.chance(0.2)) { RT t = g[k].val; t.v[t.n() - 1] += 1; k = g.add_const(c, t); }
	c.log(g.describe(k));
	const Kind ks[] = {ADD, SUB, MUL, DIV};
	for (int q = 0; q < 4; q++)
	{
		Op o; o.k = ks[r.range(0, 3)];
		std::vector<int> args = r.chance(0.5) ? std::vector<int>{x, k} : std::vector<int>{k, x};
		bool zero = true;
		RT kv; g.value(args[1], kv);
		bool anyzero = false;
		for (double w : kv.v) { zero = zero && w == 0; anyzero = anyzero || w == 0; }
		if (o.k == DIV && anyzero && !zero) continue;
		int i = run_op(c, g, o, args, o.k == DIV && zero);
		if (i >= 0 && r.chance(0.5))
		{
			RT v;
			bool fin = g.value(i, v);
			for (double w : v.v) fin = fin && std::isfinite(w);
			if (!fin) continue;
			Op o2; o2.k = r.chance(0.5) ? NEG : ADD;
			int j = o2.k == NEG ? run_op(c, g, o2, {i}) : run_op(c, g, o2, {i, x});
			if (j >= 0) { Op o3; o3.k = NEG; run_op(c, g, o3, {j}); }
		}
	}
	leaves_intact(c, g);
}

}

namespace vh {
std::vector<Group> groups = {
	{"O01", "o01_unary", o01_unary, 5, 4, nullptr},
	{"O01", "o01_binary", o01_binary, 5, 4, nullptr},
	{"O01", "o01_divzero", o01_divzero, 1, 4, nullptr},
	{"O02", "o02_axial", o02_axial, 4, 4, nullptr},
	{"O03", "o03_small", o03_small, 20, 4, nullptr},
	{"O03", "o03_mid", o03_mid, 4, 0, nullptr},
	{"O03,noM01", "o03_large", o03_large, 1, 0, nullptr},
	{"O04", "o04_case", o04_case, 4, 4, nullptr},
	{"O05", "o05_case", o05_case, 4, 4, nullptr},
	{"O06", "o06_case", o06_case, 4, 4, nullptr},
	{"R06", "r06_related", r06_related, 5, 4, nullptr},
	{"R06", "r06_special", r06_special, 2, 4, nullptr},
};
void (*on_start)(void) = nullptr;
static void seed (uint64_t s) { nnutils::seed_generator(s); }
void (*on_case)(uint64_t) = seed;
}
