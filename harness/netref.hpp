// netref.hpp - reference networks on plain arrays, differentiated exactly by dual numbers; handles on the library's networks
#pragma once
#include "gb.hpp"
#include "layers/fc_layer.hpp"
#include "layers/conv_layer.hpp"
#include "compounds/mlp.hpp"
#include "models/gd_net.hpp"
#include "models/dq_net.hpp"
#include "models/rbm.hpp"
#include "models/db_net.hpp"
using namespace vh;
using namespace gb;

namespace {

typedef std::vector<double> Vec;
typedef std::vector<Vec> Params;

struct Dual { double v, d; Dual (double x = 0, double y = 0) : v(x), d(y) {} };
inline Dual operator + (Dual a, Dual b) { return Dual(a.v + b.v, a.d + b.d); }
inline Dual operator - (Dual a, Dual b) { return Dual(a.v - b.v, a.d - b.d); }
inline Dual operator - (Dual a) { return Dual(-a.v, -a.d); }
inline Dual operator * (Dual a, Dual b) { return Dual(a.v * b.v, a.d * b.v + a.v * b.d); }
inline Dual operator / (Dual a, Dual b) { return Dual(a.v / b.v, (a.d * b.v - a.v * b.d) / (b.v * b.v)); }
inline Dual exp_ (Dual a) { double e = std::exp(a.v); return Dual(e, a.d * e); }
inline Dual log_ (Dual a) { return Dual(std::log(a.v), a.d / a.v); }
inline Dual sin_ (Dual a) { return Dual(std::sin(a.v), a.d * std::cos(a.v)); }
inline double exp_ (double a) { return std::exp(a); }
inline double log_ (double a) { return std::log(a); }
inline double sin_ (double a) { return std::sin(a); }
template <typename S> S sigm (S x) { return S(1) / (S(1) + exp_(-x)); }

enum { A_SIG, A_TANH, A_ID, A_SIN, A_SOFTPLUS, A_SCALE, A_SQUARE, N_ACT };
static const char* act_name[] = {"sigmoid", "tanh", "identity", "sin", "softplus", "half", "square"};
template <typename S> S act (int k, S x)
{
	switch (k)
	{
		case A_SIG: return sigm(x);
		case A_TANH: { S e = exp_(S(2) * x); return (e - S(1)) / (e + S(1)); }
		case A_SIN: return sin_(x);
		case A_SOFTPLUS: return log_(S(1) + exp_(x));
		case A_SCALE: return S(0.5) * x;
		case A_SQUARE: return x * x;
		default: return x;
	}
}
inline rocnnet::VAR_FUNC act_fn (int k)
{
	switch (k)
	{
		case A_SIG: return [](Node* x) -> Ptr { return nnet::sigmoid<double>(Ptr(x)); };
		case A_TANH: return [](Node* x) -> Ptr { return nnet::tanh<double>(Ptr(x)); };
		case A_SIN: return [](Node* x) -> Ptr { return nnet::sin<double>(Ptr(x)); };
		case A_SOFTPLUS: return [](Node* x) -> Ptr { return nnet::log<double>(1.0 + nnet::exp<double>(Ptr(x))); };
		case A_SCALE: return [](Node* x) -> Ptr { return 0.5 * Ptr(x); };
		case A_SQUARE: return [](Node* x) -> Ptr { return Ptr(x) * Ptr(x); };
		default: return [](Node* x) -> Ptr { return Ptr(x); };
	}
}

// x {n, batch} times w {m, n} plus b {m}
template <typename S, typename X> std::vector<S> affine (const std::vector<X>& x, const std::vector<S>& w, const std::vector<S>& b, size_t n, size_t m, size_t batch, bool transposed = false)
{
	std::vector<S> o(m * batch);
	for (size_t q = 0; q < batch; q++) for (size_t j = 0; j < m; j++)
	{
		S s = b.empty() ? S(0) : b[j];
		for (size_t i = 0; i < n; i++) s = s + S(x[i + n * q]) * (transposed ? w[i + n * j] : w[j + m * i]);
		o[j + m * q] = s;
	}
	return o;
}

struct MlpRef
{
	std::vector<size_t> sz;	// input first
	std::vector<int> acts;
	template <typename S> std::vector<S> fwd (const std::vector<std::vector<S> >& p, const Vec& x, size_t batch) const
	{
		std::vector<S> h(x.begin(), x.end());
		for (size_t l = 0; l < acts.size(); l++)
		{
			h = affine<S, S>(h, p[2*l], p[2*l+1], sz[l], sz[l+1], batch);
			for (S& v : h) v = act<S>(acts[l], v);
		}
		return h;
	}
	std::string str () const
	{
		std::string o = std::to_string(sz[0]);
		for (size_t l = 0; l < acts.size(); l++) o += " -" + std::string(act_name[acts[l]]) + "-> " + std::to_string(sz[l+1]);
		return o;
	}
	std::vector<rocnnet::IN_PAIR> hiddens () const
	{
		std::vector<rocnnet::IN_PAIR> h;
		for (size_t l = 0; l < acts.size(); l++) h.push_back(rocnnet::IN_PAIR(sz[l+1], act_fn(acts[l])));
		return h;
	}
	std::vector<Shp> shapes () const
	{
		std::vector<Shp> s;
		for (size_t l = 0; l < acts.size(); l++) { s.push_back(Shp{sz[l+1], sz[l]}); s.push_back(Shp{sz[l+1]}); }
		return s;
	}
};

inline MlpRef gen_mlp (Rng& r, size_t depth, size_t maxw, bool smooth = true)
{
	MlpRef m;
	m.sz.push_back(r.range(1, maxw));
	for (size_t k = 0; k < depth; k++) { m.sz.push_back(r.range(1, maxw)); m.acts.push_back((int) r.range(0, smooth ? N_ACT - 1 : N_ACT - 2)); }
	return m;
}

// gradient of f over all parameters
template <typename F> Params gradient (const Params& p, F f)
{
	std::vector<std::vector<Dual> > d;
	for (auto& v : p) d.push_back(std::vector<Dual>(v.begin(), v.end()));
	Params g;
	for (auto& v : p) g.push_back(Vec(v.size(), 0));
	for (size_t i = 0; i < p.size(); i++) for (size_t k = 0; k < p[i].size(); k++)
	{
		d[i][k].d = 1;
		g[i][k] = f(d).d;
		d[i][k].d = 0;
	}
	return g;
}

inline Params params (const std::vector<Var*>& vs)
{
	Params p;
	for (Var* v : vs)
	{
		Got g = get(v);
		if (!g.has) throw std::runtime_error("variable without data");
		p.push_back(g.t.v);
	}
	return p;
}

inline void set_var (Var* v, const Vec& d)
{
	Place p(v->get_shape(), "feed");
	p = Vec(d);
	v->assign(&p)(true);
}

inline Vec gen_vec (Rng& r, size_t n, double m = 2)
{
	Vec v(n);
	for (double& x : v) x = r.chance(0.1) ? 0 : r.real(-m, m);
	return v;
}

inline std::string vstr (const Vec& v) { std::string o; for (size_t i = 0; i < v.size() && i < 60; i++) o += (i ? " " : "") + dstr(v[i]); return "[" + o + "]"; }

// what a network node computes
inline void same (Ctx& c, const std::string& key, const std::string& what, const Vec& got, const Vec& want, double tol = 1e-8)
{
	c.event();
	if (got.size() != want.size()) { c.fail(key, what + ": " + std::to_string(got.size()) + " values instead of " + std::to_string(want.size())); return; }
	double scale = 0;
	for (double w : want) if (std::isfinite(w)) scale = std::max(scale, std::fabs(w));
	for (size_t i = 0; i < got.size(); i++)
	{
		if (!std::isfinite(want[i]) && !std::isfinite(got[i])) continue;
		c.event();
		if (std::fabs(got[i] - want[i]) <= tol * (1 + std::fabs(want[i]) + 0.01 * scale)) continue;
		c.fail(key, what + ": element " + std::to_string(i) + " is " + dstr(got[i]) + " instead of " + dstr(want[i]) + "\n  got  " + vstr(got) + "\n  want " + vstr(want));
		return;
	}
}
inline bool equal (const Vec& a, const Vec& b, double tol = 1e-8)
{
	if (a.size() != b.size()) return false;
	for (size_t i = 0; i < a.size(); i++) if (!(std::fabs(a[i] - b[i]) <= tol * (1 + std::fabs(b[i])))) return false;
	return true;
}
inline Vec eval_vec (Ctx& c, const std::string& what, Node* n, const Shp& s)
{
	Got g = get(n);
	c.event();
	if (!g.has) { c.fail("noeval", what + (g.threw ? " throws " + g.err : " has no value")); throw Skip{}; }
	if (g.t.s != s && !(g.t.v.size() == 1 && count(s) == 1)) { c.fail("shape", what + " has shape " + sstr(g.t.s) + " instead of " + sstr(s)); throw Skip{}; }
	return g.t.v;
}
inline bool tame (const Vec& v, double cap) { for (double x : v) if (!(std::fabs(x) < cap)) return false; return true; }

// one optimiser per variable
struct Opt
{
	bool rms = false;
	double lr = 0.1, disc = 0.9;
	Params m;
	// the step for gradient g
	void step (Params& p, const Params& g)
	{
		if (rms && m.empty()) for (auto& v : p) m.push_back(Vec(v.size(), 1));
		for (size_t i = 0; i < p.size(); i++) for (size_t k = 0; k < p[i].size(); k++)
		{
			double d = lr * g[i][k];
			if (rms)
			{
				m[i][k] = disc * m[i][k] + (1 - disc) * g[i][k] * g[i][k];
				d /= std::sqrt(m[i][k]) + std::numeric_limits<double>::epsilon();
			}
			p[i][k] -= d;
		}
	}
	std::string str () const { return rms ? "rms " + dstr(lr) + "/" + dstr(disc) : "vgb " + dstr(lr); }
	nnet::gd_updater* make () const { if (rms) return new nnet::rmspropupdater(lr, disc); return new nnet::vgb_updater(lr); }
};
inline Opt gen_opt (Rng& r)
{
	Opt o;
	o.rms = r.chance(0.4);
	o.lr = r.real(0.01, 0.3);
	o.disc = r.real(0.3, 0.99);
	return o;
}

}
