// gb.hpp - pairs nodes of the library under test with reference expressions.
#pragma once
#include "vh.hpp"
#include "ref.hpp"
#include "proto/tenncor.pb.h"
#include "graph/leaf/variable.hpp"
#include "graph/leaf/placeholder.hpp"
#include "graph/leaf/constant.hpp"
#include "graph/operations/operations.hpp"
#include "graph/connector/immutable/generator.hpp"
#include "utils/futils.hpp"
#include "utils/utils.hpp"
#include <list>

namespace gb {

using namespace ref;
using Var = nnet::variable<double>;
using Place = nnet::placeholder<double>;
using Const = nnet::constant<double>;
using Node = nnet::inode<double>;
using Ptr = nnet::varptr<double>;
using Conn = nnet::iconnector<double>;

inline std::function<bool(double,double)> cmp_fn (int c)
{
	return [c](double a, double b) { return ref::compare(c, a, b); };
}
// observes the state between the steps of a session (edges.cpp)
static std::function<void(vh::Ctx&,const char*)> probe;
static std::list<Ptr>* watched = nullptr; // handles on everything ever built
inline void watch (Node* n) { if (watched) { watched->emplace_back(); watched->back() = n; } }
// user-supplied collectors fail while this is set
static bool fault = false;
inline std::string cmp_name (int c) { return "c" + std::to_string(c % 6); }

inline Ptr build (const Op& o, std::vector<Ptr> a)
{
	using namespace nnet;
	optional<size_t> d;
	if (o.p0 != NODIM) d = o.p0;
	std::pair<size_t,size_t> ax{o.p0, o.p1};
	switch (o.k)
	{
		case ABS: return +a[0];
		case NEG: return -a[0];
		case SIN: return nnet::sin(a[0]);
		case COS: return nnet::cos(a[0]);
		case TAN: return nnet::tan(a[0]);
		case CSC: return nnet::csc(a[0]);
		case SEC: return nnet::sec(a[0]);
		case COT: return nnet::cot(a[0]);
		case EXP: return nnet::exp(a[0]);
		case SQRT: return nnet::sqrt(a[0]);
		case ROUND: return nnet::round(a[0]);
		case LOG: return nnet::log(a[0]);
		case POW: return nnet::pow(a[0], o.d0);
		case CLIPVAL: return nnet::clip_val(a[0], o.d0, o.d1);
		case CLIPNORM: return nnet::clip_norm(a[0], o.d0);
		case L2NORM: return nnet::l2norm(a[0]);
		case IDENT: return nnet::identity(a[0]);
		case ASCONST: return nnet::as_constant(a[0]);
		case SIGMOID: return nnet::sigmoid(a[0]);
		case TANH: return nnet::tanh(a[0]);
		case SOFTMAX: return nnet::softmax(a[0]);
		case S_ADD: return o.d0 + a[0];
		case ADD_S: return a[0] + o.d0;
		case S_SUB: return o.d0 - a[0];
		case SUB_S: return a[0] - o.d0;
		case S_MUL: return o.d0 * a[0];
		case MUL_S: return a[0] * o.d0;
		case S_DIV: return o.d0 / a[0];
		case DIV_S: return a[0] / o.d0;
		case S_COND: return conditional<double>(o.d0, a[0], cmp_fn(o.cmp), cmp_name(o.cmp));
		case COND_S: return conditional<double>(a[0], o.d0, cmp_fn(o.cmp), cmp_name(o.cmp));
		case COND: return conditional<double>(a[0], a[1], cmp_fn(o.cmp), cmp_name(o.cmp));
		case ADD: return a[0] + a[1];
		case SUB: return a[0] - a[1];
		case MUL: return a[0] * a[1];
		case DIV: return a[0] / a[1];
		case EQ: return nnet::eq(a[0], a[1]);
		case NEQ: return nnet::neq(a[0], a[1]);
		case ADD_AA: return add_axial_a(a[0], a[1], o.p0);
		case ADD_AB: return add_axial_b(a[0], a[1], o.p0);
		case SUB_AA: return sub_axial_a(a[0], a[1], o.p0);
		case SUB_AB: return sub_axial_b(a[0], a[1], o.p0);
		case MUL_AA: return mul_axial_a(a[0], a[1], o.p0);
		case MUL_AB: return mul_axial_b(a[0], a[1], o.p0);
		case DIV_AA: return div_axial_a(a[0], a[1], o.p0);
		case DIV_AB: return div_axial_b(a[0], a[1], o.p0);
		case MATMUL: return o.f1 ? matmul(a[0], a[1], o.f0, o.f1) : o.f0 ? matmul(a[0], a[1], o.f0) : matmul(a[0], a[1]);
		case TRANSPOSE: return nnet::transpose(a[0], ax);
		case FIT: return fit(a[0], a[1]);
		case EXTEND: return extend(a[0], o.p0, o.p1);
		case FLIP: return nnet::flip(a[0], o.dims);
		case RSUM: return reduce_sum(a[0], d);
		case RMEAN: return reduce_mean(a[0], d);
		case RMAX: return reduce_max(a[0], d);
		case ARGMAX: return arg_max(a[0], d);
		case COMPRESS: { int c = o.cmp; return compress<double>(a[0], [c](double l, double r) { if (fault) throw std::runtime_error("injected fault"); return collect2(c, l, r); }, d, "coll" + std::to_string(c % 4)); }
		case ARGCOMPRESS: { int c = o.cmp; return arg_compress<double>(a[0], [c](std::vector<double> v) { return search1(c, v); }, d, "search" + std::to_string(c % 3)); }
		case XCORR: return cross_corr2d(a[0], a[1], ax);
		case CONV: return conv2d(a[0], a[1], ax);
		default: return Ptr(nullptr);
	}
}

// what the library reports for a node right now
struct Got
{
	bool has = false;	// eval gave a tensor
	bool threw = false;
	std::string err;
	RT t;
};
inline RT to_rt (const nnet::tensor<double>& t)
{
	return RT(t.get_shape().as_list(), t.expose());
}
inline Got get (Node* n)
{
	Got g;
	try
	{
		const nnet::tensor<double>* t = n->eval();
		if (t && t->is_alloc()) { g.has = true; g.t = to_rt(*t); }
	}
	catch (std::exception& e) { g.threw = true; g.err = e.what(); }
	return g;
}

enum LeafKind { LVAR, LPLACE, LCONST };

struct GNode
{
	Op op;
	std::vector<int> args;
	Ptr h;			// handle on the library node
	Node* raw = nullptr;	// address (identity only; never dereferenced after death)
	bool loose = false;	// a scalar may stand for a filled tensor
	bool dead = false;
	// leaves
	LeafKind lk = LVAR;
	Var* var = nullptr;
	Place* place = nullptr;
	bool init = false;
	RT val;			// current value of a leaf
	GNode () {}
};

class Graph
{
public:
	std::vector<std::unique_ptr<GNode> > n;
	uint64_t version = 1;		// bumped when a leaf changes
	size_t name = 0;

	GNode& operator [] (int i) { return *n[i]; }
	int size () const { return (int)n.size(); }

	int add_var (vh::Ctx& c, RT v, bool init = true)
	{
		GNode* g = new GNode;
		g->lk = LVAR;
		g->var = new Var(nnet::tensorshape(v.s), nnet::const_init<double>(0), "v" + std::to_string(name++));
		g->h = g->var; g->raw = g->var;
		n.emplace_back(g);
		int i = size() - 1;
		g->val = v;
		if (init) { g->var->initialize(); g->init = true; set(c, i, v); }
		return i;
	}
	int add_place (vh::Ctx& c, RT v, Shp declared, bool init = true)
	{
		GNode* g = new GNode;
		g->lk = LPLACE;
		g->place = new Place(nnet::tensorshape(declared), "p" + std::to_string(name++));
		g->h = g->place; g->raw = g->place;
		n.emplace_back(g);
		int i = size() - 1;
		g->val = v;
		if (init) set(c, i, v);
		return i;
	}
	int add_const (vh::Ctx&, RT v)
	{
		GNode* g = new GNode;
		g->op.k = CONST;
		g->lk = LCONST;
		g->val = v;
		g->init = true;
		Const* k = v.n() == 1 && v.s == Shp{1} ? Const::get(v.v[0]) : Const::get(v.v, nnet::tensorshape(v.s));
		g->h = k; g->raw = k;
		own(k);
		n.emplace_back(g);
		return size() - 1;
	}
	// write a leaf through the public interface
	void set (vh::Ctx& c, int i, RT v)
	{
		if (probe) probe(c, "before an assignment");
		watch(n[i]->raw);
		GNode& g = *n[i];
		if (g.place)
		{
			nnet::tensor<double> t{nnet::tensorshape(v.s)};
			nnet::assign_func<double> as;
			as(t, v.v);
			*g.place = t;
		}
		else
		{
			if (!g.init) g.var->initialize();
			Ptr k = Const::get(v.v, nnet::tensorshape(v.s));
			g.var->assign(k.get())(true);
		}
		g.val = v;
		g.init = true;
		version++;
	}
	int add_op (vh::Ctx& c, const Op& o, std::vector<int> args)
	{
		std::vector<Ptr> a;
		for (int i : args) a.push_back(n[i]->h);
		std::unique_ptr<GNode> g(new GNode);
		g->op = o;
		g->args = args;
		{
			Ptr r = build(o, a);
			g->h = r.get();
			g->raw = r.get();
			if (Const* k = dynamic_cast<Const*>(g->raw)) own(k);
		}
		if (g->raw == nullptr) c.fail("null-node", "building " + o.str() + " returned no node");
		watch(g->raw);
		n.push_back(std::move(g));
		int i = size() - 1;
		GNode& q = *n[i];
		// a connector above constants only is owned by nobody the library could free it with
		if (!real_leaf(i) && !dynamic_cast<Const*>(q.raw)) c.nobalance = true;
		for (int k : args) if (n[k]->loose) q.loose = true;
		if (!q.loose)
		{
			RT r;
			bool ok = value(i, r);
			// the number of unit dimensions of a single element is not specified
			if (ok && r.n() == 1) q.loose = true;
			else if (dynamic_cast<Const*>(q.raw)) q.loose = !ok || !same_shape(q.h->get_shape().as_list(), r.s);
			else for (int k = 0; k < i; k++)
				if (n[k]->raw == q.raw && !n[k]->dead)
				{
					RT kr;
					q.loose = n[k]->loose || !ok || !value(k, kr) || !same_shape(kr.s, r.s);
					break;
				}
		}
		return i;
	}
	bool real_leaf (int i) const
	{
		const GNode& g = *n[i];
		if (g.args.empty()) return g.lk != LCONST;
		for (int k : g.args) if (real_leaf(k)) return true;
		return false;
	}
	std::string describe (int i) const
	{
		const GNode& g = *n[i];
		std::string o = "n" + std::to_string(i) + "=";
		if (g.args.empty())
		{
			o += g.lk == LVAR ? "var" : g.lk == LPLACE ? "placeholder" : "const";
			return o + (g.init ? tstr(g.val) : sstr(g.val.s) + "(unset)");
		}
		o += g.op.str() + "(";
		for (size_t k = 0; k < g.args.size(); k++) o += (k ? ",n" : "n") + std::to_string(g.args[k]);
		return o + ")";
	}
	// value with every unset leaf at its planned value
	bool planned (int i, RT& out) const
	{
		std::map<int, std::pair<bool,RT> > memo;
		for (int k = 0; k <= i; k++) if (n[k]->args.empty() && !n[k]->init) memo[k] = std::make_pair(true, n[k]->val);
		return value_(i, out, false, memo);
	}
	// reference value; false: undefined (shape conflict or unset leaf)
	bool value (int i, RT& out, int noisy = 0) const
	{
		std::map<int, std::pair<bool,RT> > memo;
		return value_(i, out, noisy, memo);
	}
	bool value_ (int i, RT& out, int noisy, std::map<int, std::pair<bool,RT> >& memo) const
	{
		auto it = memo.find(i);
		if (it != memo.end()) { out = it->second.second; return it->second.first; }
		const GNode& g = *n[i];
		bool ok = true;
		if (g.args.empty()) { ok = g.init; out = g.val; }
		else
		{
			std::vector<RT> av(g.args.size());
			std::vector<const RT*> ap;
			for (size_t k = 0; k < g.args.size(); k++)
			{
				ok = value_(g.args[k], av[k], noisy, memo) && ok;
				ap.push_back(&av[k]);
			}
			if (ok)
			{
				try { out = apply(g.op, ap); } catch (BadShape&) { ok = false; }
			}
		}
		if (ok && noisy)
			for (size_t k = 0; k < out.n(); k++)
				out.v[k] += 1e-11 * (((vh::mix(k + 31 * i + 7919 * (noisy - 1)) & 1023) / 512.0) - 1) * (std::fabs(out.v[k]) + 1e-3);
		memo[i] = std::make_pair(ok, out);
		return ok;
	}
	static Shp squeeze (const Shp& s)
	{
		Shp o;
		for (size_t d : s) if (d != 1) o.push_back(d);
		return o;
	}
	// how far each element may be off because of rounding: spread of the value under tiny perturbations (NaN: unknown)
	RT slack (int i, const RT& want) const
	{
		RT out = want;
		for (double& x : out.v) x = 0;
		for (int k = 1; k <= 6; k++)
		{
			RT z;
			if (!value(i, z, k) || z.n() != want.n()) continue;
			for (size_t e = 0; e < want.n(); e++)
			{
				double d = std::fabs(z.v[e] - want.v[e]);
				if (!(d <= out.v[e])) out.v[e] = std::isfinite(d) && !std::isnan(out.v[e]) ? d : NAN;
			}
		}
		return out;
	}
	typedef std::function<RT(void)> SlackFn;
	// compare a library value with the reference value; `noise` is only asked for on a mismatch
	void compare (vh::Ctx& c, const std::string& what, const RT& got, const RT& want, SlackFn noise, bool loose, double tol = 1e-9)
	{
		c.event();
		bool bcast = false;
		if (!same_shape(got.s, want.s))
		{
			if (loose && (got.n() == 1 || want.n() == 1)) bcast = true;
			else if (loose && got.n() == want.n() && squeeze(got.s) == squeeze(want.s)) {}
			else { c.fail("shape", what + ": shape " + sstr(got.s) + " instead of " + sstr(want.s)); return; }
		}
		size_t m = std::max(got.n(), want.n());
		RT sl;
		bool have = false;
		for (size_t k = 0; k < m; k++)
		{
			double x = got.v[bcast && got.n() == 1 ? 0 : k], y = want.v[bcast && want.n() == 1 ? 0 : k];
			if (close(x, y, tol)) continue;
			if (noise)
			{
				if (!have) { sl = noise(); have = true; }
				double d = sl.v[bcast && sl.n() == 1 ? 0 : k];
				if (!std::isfinite(y) || !std::isfinite(d)) { c.count("nonfinite_skipped"); continue; }
				double slack = 1000 * d;
				if (std::fabs(x - y) <= slack) { c.count("illconditioned"); continue; }
				if (slack > 1e-3 * (1 + std::fabs(y))) { c.count("illconditioned"); continue; }
			}
			std::ostringstream ss;
			ss << what << ": element " << k << " is " << vh::dstr(x) << " instead of " << vh::dstr(y)
				<< "\n  got  " << tstr(got) << "\n  want " << tstr(want);
			c.fail("value", ss.str());
			return;
		}
	}
	// evaluate node i in the library and compare
	void check (vh::Ctx& c, int i, const char* when)
	{
		if (probe) probe(c, when);
		RT want;
		bool ok = value(i, want);
		if (!ok) return;
		Got g = get(n[i]->h.get());
		std::string what = std::string(when) + " " + describe(i);
		if (g.threw) { c.fail("eval-threw", what + ": evaluation failed: " + g.err); return; }
		if (!g.has) { c.fail("eval-null", what + ": evaluation yields nothing"); return; }
		compare(c, what, g.t, want, [this, i, &want]() { return slack(i, want); }, n[i]->loose);
	}
	bool depends (int i, int leaf) const
	{
		if (i == leaf) return true;
		for (int k : n[i]->args) if (depends(k, leaf)) return true;
		return false;
	}
	// destroy a leaf in the library (kills all its dependents)
	void destroy_leaf (int i)
	{
		GNode& g = *n[i];
		if (g.var) delete g.var;
		else if (g.place) delete g.place;
		g.var = nullptr; g.place = nullptr;
		g.dead = true;
		version++;
	}
	// constants nothing else keeps alive (and above them, nodes without any other leaf) belong to the graph
	std::vector<Const*> owned;
	bool own_consts = true;
	void own (Const* k)
	{
		if (!own_consts || k == Const::get_shared_zero() || k == Const::get_shared_one()) return;
		if (std::find(owned.begin(), owned.end(), k) != owned.end()) return;
		k->be_managed();
		owned.push_back(k);
	}
	void clear ()
	{
		for (auto& g : n)
		{
			Var* v = g->var; Place* p = g->place;
			g->var = nullptr; g->place = nullptr;
			if (v) delete v;
			if (p) delete p;
		}
		for (Const* k : owned) delete k;
		owned.clear();
		n.clear();
	}
	~Graph () { clear(); }
};

// ---------- generators ----------

inline Shp gen_shape (vh::Rng& r, size_t maxrank = 4, size_t maxdim = 4, size_t maxelems = 64)
{
	for (;;)
	{
		Shp s(r.range(1, maxrank));
		for (size_t& d : s) d = r.chance(0.15) ? 1 : r.range(1, maxdim);
		if (count(s) <= maxelems) return s;
	}
}
// values away from singularities, distinct magnitudes, occasionally ties / zeros / negatives
inline double gen_val (vh::Rng& r, double lo = -2.5, double hi = 2.5)
{
	double v = r.real(lo, hi);
	if (lo < 0 && std::fabs(v) < 0.05) v = v < 0 ? v - 0.1 : v + 0.1;
	return v;
}
inline RT gen_tensor (vh::Rng& r, const Shp& s, double lo = -2.5, double hi = 2.5)
{
	RT t(s, 0.0);
	for (double& x : t.v) x = gen_val(r, lo, hi);
	return t;
}

}
