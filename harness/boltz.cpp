// boltz.cpp - N04: Boltzmann machines and belief nets against their definitions; sampled states are recovered by enumeration
#include "netref.hpp"

namespace {

// W is {hidden, visible}
struct Machine
{
	size_t ni, nh;
	Vec W, hb, vb;
	void from (const Params& p, size_t o = 0) { W = p[o]; hb = p[o+1]; vb = p[o+2]; }
	Vec up (const Vec& v, size_t b) const { Vec h = affine<double>(v, W, hb, ni, nh, b); for (double& x : h) x = sigm(x); return h; }
	Vec down (const Vec& h, size_t b) const { Vec v = affine<double>(h, W, vb, nh, ni, b, true); for (double& x : v) x = sigm(x); return v; }
	// gradients of the mean free energy
	void grad (const Vec& v, size_t b, double scale, Vec& dW, Vec& dh, Vec& dv) const
	{
		Vec h = up(v, b);
		for (size_t q = 0; q < b; q++)
		{
			for (size_t j = 0; j < nh; j++)
			{
				dh[j] -= scale * h[j + nh * q] / b;
				for (size_t i = 0; i < ni; i++) dW[j + nh * i] -= scale * h[j + nh * q] * v[i + ni * q] / b;
			}
			for (size_t i = 0; i < ni; i++) dv[i] -= scale * v[i + ni * q] / b;
		}
	}
	// the parameters after one step with data v and reconstruction e
	Params step (const Vec& v, const Vec& e, size_t b, double lr) const
	{
		Vec dW(W.size(), 0), dh(nh, 0), dv(ni, 0);
		grad(v, b, 1, dW, dh, dv);
		grad(e, b, -1, dW, dh, dv);
		Params p{W, hb, vb};
		for (size_t k = 0; k < W.size(); k++) p[0][k] -= lr * dW[k];
		for (size_t k = 0; k < nh; k++) p[1][k] -= lr * dh[k];
		for (size_t k = 0; k < ni; k++) p[2][k] -= lr * dv[k];
		return p;
	}
	double free_energy (const Vec& v, size_t q) const
	{
		double e = 0;
		for (size_t i = 0; i < ni; i++) e -= vb[i] * v[i + ni * q];
		for (size_t j = 0; j < nh; j++)
		{
			double a = hb[j];
			for (size_t i = 0; i < ni; i++) a += W[j + nh * i] * v[i + ni * q];
			e -= std::log(1 + std::exp(a));
		}
		return e;
	}
};
inline Vec bits (size_t m, size_t n) { Vec v(n); for (size_t i = 0; i < n; i++) v[i] = (m >> i) & 1; return v; }
inline Vec hard (Vec p) { for (double& x : p) x = x > 0.5; return p; }

void check_vars (Ctx& c, const std::vector<Var*>& vs, size_t o, size_t ni, size_t nh)
{
	c.event();
	if (vs.size() < o + 3 || vs[o]->get_shape().as_list() != Shp{nh, ni} || vs[o+1]->get_shape().as_list() != Shp{nh} || vs[o+2]->get_shape().as_list() != Shp{ni})
	{ c.fail("variables", "the machine's variables have other shapes"); throw Skip{}; }
}

void randomize (Rng& r, const std::vector<Var*>& vs, size_t o, double m)
{
	for (size_t i = 0; i < 3; i++) set_var(vs[o+i], gen_vec(r, vs[o+i]->get_shape().n_elems(), m));
}

void n04_pass (Ctx& c)
{
	Rng& r = c.rng;
	Machine m;
	m.ni = r.range(1, 5), m.nh = r.range(1, 5);
	size_t b = r.range(1, 4);
	rocnnet::rbm net(m.ni, m.nh, "rbm");
	std::vector<Var*> vs = net.get_variables();
	check_vars(c, vs, 0, m.ni, m.nh);
	c.log("rbm " + std::to_string(m.ni) + "," + std::to_string(m.nh) + " batch " + std::to_string(b));
	c.event();
	if (net.get_ninput() != m.ni || net.get_noutput() != m.nh) { c.fail("sizes", "sizes " + std::to_string(net.get_ninput()) + "," + std::to_string(net.get_noutput())); return; }
	net.initialize();
	m.from(params(vs));
	double lim = 4 * std::sqrt(6.0 / (m.ni + m.nh));
	for (double w : m.W) { c.event(); if (!(std::fabs(w) <= lim)) { c.fail("init", "initial weight " + dstr(w)); return; } }
	for (const Vec& v : {m.hb, m.vb}) for (double w : v) { c.event(); if (w != 0) { c.fail("init", "initial bias " + dstr(w)); return; } }
	Place vis(r.chance(0.5) ? Shp{m.ni, b} : Shp{m.ni, 0}, "vis"), hid(r.chance(0.5) ? Shp{m.nh, b} : Shp{m.nh, 0}, "hid");
	Vec v = gen_vec(r, m.ni * b), h = gen_vec(r, m.nh * b);
	bool late = r.chance(0.3);
	if (!late) { vis = Vec(v); hid = Vec(h); }
	Ptr up = net.prop_up(&vis), down = net.prop_down(&hid);
	Ptr back = net.prop_down(up.get());
	if (late) { vis = Vec(v); hid = Vec(h); }
	for (size_t k = r.range(2, 6); k > 0; k--)
	{
		m.from(params(vs));
		same(c, "up", "upward pass", eval_vec(c, "upward pass", up.get(), Shp{m.nh, b}), m.up(v, b));
		same(c, "down", "downward pass", eval_vec(c, "downward pass", down.get(), Shp{m.ni, b}), m.down(h, b));
		same(c, "back", "upward and downward pass", eval_vec(c, "stacked pass", back.get(), Shp{m.ni, b}), m.down(m.up(v, b), b));
		switch (r.range(0, 2))
		{
			case 0: v = gen_vec(r, m.ni * b); vis = Vec(v); break;
			case 1: h = gen_vec(r, m.nh * b); hid = Vec(h); break;
			default: randomize(r, vs, 0, 2);
		}
	}
	c.count("passes");
}

// the sampled states behind a reconstruction: each column must be the image of one binary state
void n04_reconstruct (Ctx& c)
{
	Rng& r = c.rng;
	Machine m;
	m.ni = r.range(1, 4), m.nh = r.range(1, 4);
	size_t b = r.range(1, 3), N = 250;
	bool visible = r.chance(0.5);
	rocnnet::rbm net(m.ni, m.nh, "rbm");
	std::vector<Var*> vs = net.get_variables();
	check_vars(c, vs, 0, m.ni, m.nh);
	net.initialize();
	randomize(r, vs, 0, 2);
	m.from(params(vs));
	size_t nx = visible ? m.ni : m.nh, ns = visible ? m.nh : m.ni;
	c.log(std::string("reconstruct ") + (visible ? "visible " : "hidden ") + std::to_string(m.ni) + "," + std::to_string(m.nh) + " batch " + std::to_string(b));
	Place in(Shp{nx, b}, "in");
	Vec x = gen_vec(r, nx * b);
	in = Vec(x);
	Ptr out = visible ? net.reconstruct_visible(&in) : net.reconstruct_hidden(&in);
	Vec p = visible ? m.up(x, b) : m.down(x, b);
	std::vector<Vec> images;
	for (size_t s = 0; s < (1u << ns); s++) images.push_back(visible ? m.down(bits(s, ns), 1) : m.up(bits(s, ns), 1));
	for (size_t i = 0; i < images.size(); i++) for (size_t k = 0; k < i; k++) if (equal(images[i], images[k], 1e-4)) throw Skip{};
	size_t n = ns * b;
	Vec ones(n, 0), both(n * n, 0);
	std::set<std::string> states;
	for (size_t t = 0; t < N; t++)
	{
		in = Vec(x);
		Vec got = eval_vec(c, "reconstruction", out.get(), Shp{nx, b});
		Vec s(n);
		for (size_t q = 0; q < b; q++)
		{
			Vec col(got.begin() + nx * q, got.begin() + nx * (q + 1));
			size_t k = 0;
			while (k < images.size() && !equal(col, images[k], 1e-8)) k++;
			c.event();
			if (k == images.size()) { c.fail("sample", "column " + std::to_string(q) + " of the reconstruction, " + vstr(col) + ", is not the image of any binary state"); return; }
			for (size_t i = 0; i < ns; i++) s[i + ns * q] = (k >> i) & 1;
		}
		for (size_t i = 0; i < n; i++) { ones[i] += s[i]; for (size_t k = 0; k < i; k++) both[i * n + k] += s[i] * s[k]; }
	}
	for (size_t i = 0; i < n; i++)
	{
		c.event();
		if (std::fabs(ones[i] - N * p[i]) > 6.5 * std::sqrt(N * p[i] * (1 - p[i])) + 1)
		{ c.fail("probability", "unit " + std::to_string(i) + " was on in " + dstr(ones[i]) + " of " + std::to_string(N) + " reconstructions instead of with probability " + dstr(p[i])); return; }
		for (size_t k = 0; k < i; k++)
		{
			double q = p[i] * p[k];
			c.event();
			if (std::fabs(both[i * n + k] - N * q) > 6.5 * std::sqrt(N * q * (1 - q)) + 1)
			{ c.fail("independence", "units " + std::to_string(i) + " and " + std::to_string(k) + " were both on in " + dstr(both[i * n + k]) + " of " + std::to_string(N) + " reconstructions instead of with probability " + dstr(q)); return; }
		}
	}
	c.count("reconstruction distributions");
}

// parameters whose samples are certain
void saturate (Rng& r, const std::vector<Var*>& vs, size_t ni, size_t nh)
{
	Vec W(ni * nh), hb(nh), vb(ni);
	for (double& w : W) w = r.chance(0.5) ? 50 : -50;
	for (double& w : hb) w = (r.chance(0.5) ? 25 : -25) + r.real(-1, 1);
	for (double& w : vb) w = (r.chance(0.5) ? 25 : -25) + r.real(-1, 1);
	set_var(vs[0], W); set_var(vs[1], hb); set_var(vs[2], vb);
}

void n04_train (Ctx& c)
{
	Rng& r = c.rng;
	Machine m;
	size_t b, steps = r.range(1, 3);
	do { m.ni = r.range(1, 4), m.nh = r.range(1, 4), b = r.range(1, 4); } while (m.ni * b > 8);
	bool sat = r.chance(0.4), pers = r.chance(0.4);
	double lr = r.real(0.01, 0.5);
	rocnnet::rbm net(m.ni, m.nh, "rbm");
	std::vector<Var*> vs = net.get_variables();
	check_vars(c, vs, 0, m.ni, m.nh);
	net.initialize();
	if (sat) saturate(r, vs, m.ni, m.nh); else randomize(r, vs, 0, 2);
	c.log("train " + std::to_string(m.ni) + "," + std::to_string(m.nh) + " batch " + std::to_string(b) + " chain " + std::to_string(steps) + (sat ? " saturated" : "") + (pers ? " persistent" : "") + " rate " + dstr(lr));
	Place in(Shp{m.ni, b}, "in");
	nnet::const_init<double> zero(0);
	std::unique_ptr<Var> chain;
	Vec state;
	if (pers)
	{
		chain.reset(new Var(Shp{m.nh, b}, zero, "chain"));
		chain->initialize();
		state = Vec(m.nh * b);
		for (double& x : state) x = r.range(0, 1);
		set_var(chain.get(), state);
	}
	auto feed = [&] () { Vec v(m.ni * b); bool binary = sat || r.chance(0.5); for (double& x : v) x = binary ? r.range(0, 1) : r.real(0, 1); in = Vec(v); return v; };
	bool late = r.chance(0.3) && !pers;
	Vec v;
	if (!late) v = feed();
	rocnnet::update_cost_t up = net.train(&in, chain.get(), lr, steps);
	if (late) v = feed();
	for (size_t k = r.range(1, c.thorough ? 8 : 5); k > 0; k--)
	{
		m.from(params(vs));
		up.first(true);
		c.log("step");
		Params got = params(vs);
		c.event();
		if (sat)
		{
			Vec h = pers ? state : hard(m.up(v, b)), e;
			for (size_t s = 0; s < steps; s++) { e = hard(m.down(h, b)); h = hard(m.up(e, b)); }
			Params want = m.step(v, e, b, lr);
			for (size_t i = 0; i < 3; i++) same(c, "step", std::string(i == 0 ? "weights" : i == 1 ? "hidden bias" : "visible bias") + " after a training step", got[i], want[i], 1e-7);
			if (pers) { state = params({chain.get()})[0]; same(c, "chain", "persistent chain", state, h, 0); }
			c.count("certain steps");
		}
		else
		{
			size_t fits = 0;
			std::string near;
			double nearest = 1e300;
			for (size_t s = 0; s < (1u << (m.ni * b)); s++)
			{
				Params want = m.step(v, bits(s, m.ni * b), b, lr);
				bool ok = true;
				double far = 0;
				for (size_t i = 0; i < 3; i++) { ok = ok && equal(got[i], want[i], 1e-7); for (size_t q = 0; q < want[i].size(); q++) far = std::max(far, std::fabs(want[i][q] - got[i][q])); }
				fits += ok;
				if (far < nearest) { nearest = far; near.clear(); for (size_t i = 0; i < 3; i++) near += "\n  " + vstr(want[i]) + " got " + vstr(got[i]); }
			}
			if (!fits) { c.fail("step", "no binary reconstruction explains the training step, closest:" + near); return; }
			if (pers)
			{
				state = params({chain.get()})[0];
				for (double x : state) { c.event(); if (x != 0 && x != 1) { c.fail("chain", "persistent chain holds " + dstr(x)); return; } }
			}
			c.count("sampled steps");
		}
		if (r.chance(0.5)) { v = feed(); c.log("feed"); }
		if (!sat && r.chance(0.5))
		{
			// monitored cost of the current parameters
			m.from(params(vs));
			double got = eval_vec(c, "monitored cost", up.second.get(), Shp{1})[0];
			bool ok = false;
			double want = 0;
			if (pers)
			{
				// pseudo-likelihood with the first unit flipped
				Vec x = v;
				for (double& e : x) e = std::round(e);
				Vec f = x;
				for (size_t q = 0; q < b; q++) f[m.ni * q] = 1 - f[m.ni * q];
				for (size_t q = 0; q < b; q++) want += m.ni * std::log(sigm(m.free_energy(f, q) - m.free_energy(x, q))) / b;
				ok = std::fabs(got - want) <= 1e-8 * (1 + std::fabs(want));
			}
			else
			{
				// cross entropy of the input and the reconstruction from some binary hidden state
				if (m.nh * b > 10) continue;
				for (size_t s = 0; s < (1u << (m.nh * b)) && !ok; s++)
				{
					Vec p = m.down(bits(s, m.nh * b), b);
					want = 0;
					for (size_t i = 0; i < p.size(); i++) want += (v[i] * std::log(p[i]) + (1 - v[i]) * std::log(1 - p[i])) / b;
					ok = std::fabs(got - want) <= 1e-8 * (1 + std::fabs(want));
				}
			}
			c.event();
			if (!ok) { c.fail("cost", pers ? "pseudo-likelihood " + dstr(got) + " instead of " + dstr(want) : "no hidden state explains the reconstruction cost " + dstr(got)); return; }
			c.count(pers ? "pseudo-likelihoods" : "reconstruction costs");
		}
	}
}

// the distribution of the reconstruction behind a step
void n04_chain (Ctx& c)
{
	Rng& r = c.rng;
	Machine m;
	m.ni = r.range(1, 2), m.nh = r.range(1, 2);
	size_t steps = r.range(1, 3), N = 120;
	bool pers = r.chance(0.4);
	rocnnet::rbm net(m.ni, m.nh, "rbm");
	std::vector<Var*> vs = net.get_variables();
	net.initialize();
	Params p;
	for (Var* v : vs) p.push_back(gen_vec(r, v->get_shape().n_elems(), 2));
	for (size_t i = 0; i < 3; i++) set_var(vs[i], p[i]);
	m.from(p);
	Place in(Shp{m.ni, 1}, "in");
	Vec v(m.ni);
	for (double& x : v) x = r.range(0, 1);
	in = Vec(v);
	std::unique_ptr<Var> chain;
	Vec state(m.nh);
	for (double& x : state) x = r.range(0, 1);
	nnet::const_init<double> zero(0);
	if (pers) { chain.reset(new Var(Shp{m.nh, 1}, zero, "chain")); chain->initialize(); set_var(chain.get(), state); }
	rocnnet::update_cost_t up = net.train(&in, chain.get(), 0.5, steps);
	c.log("chain " + std::to_string(m.ni) + "," + std::to_string(m.nh) + " steps " + std::to_string(steps) + (pers ? " persistent" : ""));
	// the exact distribution
	auto prob = [] (const Vec& p, size_t s) { double q = 1; for (size_t i = 0; i < p.size(); i++) q *= (s >> i) & 1 ? p[i] : 1 - p[i]; return q; };
	size_t H = 1u << m.nh, V = 1u << m.ni;
	Vec h(H, 0), e(V, 0);
	if (pers) { size_t s = 0; for (size_t i = 0; i < m.nh; i++) s |= (size_t) state[i] << i; h[s] = 1; }
	else for (size_t s = 0; s < H; s++) h[s] = prob(m.up(v, 1), s);
	for (size_t k = 0; k < steps; k++)
	{
		std::fill(e.begin(), e.end(), 0);
		for (size_t s = 0; s < H; s++) for (size_t t = 0; t < V; t++) e[t] += h[s] * prob(m.down(bits(s, m.nh), 1), t);
		std::fill(h.begin(), h.end(), 0);
		for (size_t t = 0; t < V; t++) for (size_t s = 0; s < H; s++) h[s] += e[t] * prob(m.up(bits(t, m.ni), 1), s);
	}
	Vec seen(V, 0), hid(H, 0);
	for (size_t t = 0; t < N; t++)
	{
		for (size_t i = 0; i < 3; i++) set_var(vs[i], p[i]);
		if (pers) set_var(chain.get(), state);
		in = Vec(v);
		up.first(true);
		Params got = params(vs);
		size_t s = 0;
		for (; s < V; s++)
		{
			Params want = m.step(v, bits(s, m.ni), 1, 0.5);
			if (equal(got[2], want[2], 1e-7) && equal(got[0], want[0], 1e-7) && equal(got[1], want[1], 1e-7)) break;
		}
		c.event();
		if (s == V) { c.fail("step", "no binary reconstruction explains the training step"); return; }
		seen[s]++;
		if (pers) { Vec x = params({chain.get()})[0]; size_t k = 0; for (size_t i = 0; i < m.nh; i++) k |= (size_t) (x[i] != 0) << i; hid[k]++; }
	}
	for (size_t s = 0; s < V; s++)
	{
		c.event();
		if (std::fabs(seen[s] - N * e[s]) > 6.5 * std::sqrt(N * e[s] * (1 - e[s])) + 1)
		{ c.fail("chain", "state " + std::to_string(s) + " ended the chain " + dstr(seen[s]) + " of " + std::to_string(N) + " times instead of with probability " + dstr(e[s])); return; }
	}
	if (pers) for (size_t s = 0; s < H; s++)
	{
		c.event();
		if (std::fabs(hid[s] - N * h[s]) > 6.5 * std::sqrt(N * h[s] * (1 - h[s])) + 1)
		{ c.fail("chain", "the persistent chain reached state " + std::to_string(s) + " " + dstr(hid[s]) + " of " + std::to_string(N) + " times instead of with probability " + dstr(h[s])); return; }
	}
	c.count("chain distributions");
}

struct Stack
{
	std::vector<size_t> sz; // input, machines..., output
	size_t machines () const { return sz.size() - 2; }
	template <typename S> std::vector<S> below (const std::vector<std::vector<S> >& p, const Vec& x, size_t b, size_t layers) const
	{
		std::vector<S> h(x.begin(), x.end());
		for (size_t l = 0; l < layers; l++)
		{
			h = affine<S, S>(h, p[3*l], p[3*l+1], sz[l], sz[l+1], b);
			for (S& v : h) v = sigm<S>(v);
		}
		return h;
	}
	template <typename S> std::vector<S> fwd (const std::vector<std::vector<S> >& p, const Vec& x, size_t b) const
	{
		size_t l = machines();
		std::vector<S> h = affine<S, S>(below<S>(p, x, b, l), p[3*l], p[3*l+1], sz[l], sz[l+1], b);
		S sum(0);
		for (S& v : h) { v = exp_(v); sum = sum + v; }
		for (S& v : h) v = v / sum;
		return h;
	}
};

void n04_belief (Ctx& c)
{
	Rng& r = c.rng;
	Stack st;
	for (size_t k = r.range(2, 4); k > 0; k--) st.sz.push_back(r.range(1, 3));
	size_t b = r.range(1, 2), L = st.machines(), steps = r.range(1, 2);
	double lr = r.real(0.01, 0.5), flr = r.real(0.01, 0.5);
	rocnnet::db_net net(st.sz[0], std::vector<size_t>(st.sz.begin() + 1, st.sz.end()), "dbn");
	std::string d = "belief net";
	for (size_t s : st.sz) d += " " + std::to_string(s);
	c.log(d + " batch " + std::to_string(b));
	std::vector<Var*> vs = net.get_variables();
	c.event();
	if (net.get_ninput() != st.sz.front() || net.get_noutput() != st.sz.back()) { c.fail("sizes", "wrong sizes reported"); return; }
	if (vs.size() != 3 * L + 2) { c.fail("variables", std::to_string(vs.size()) + " variables"); return; }
	for (size_t l = 0; l < L; l++) check_vars(c, vs, 3 * l, st.sz[l], st.sz[l+1]);
	net.initialize();
	Place in(Shp{st.sz.front(), b}, "in"), expect(Shp{st.sz.back(), b}, "expected");
	auto feed = [&] () { Vec v(st.sz.front() * b); for (double& x : v) x = r.chance(0.5) ? r.range(0, 1) : r.real(0, 1); in = Vec(v); return v; };
	Vec v = feed(), y = gen_vec(r, st.sz.back() * b, 1);
	expect = Vec(y);
	Ptr out = net.prop_up(&in);
	rocnnet::pretrain_t pre;
	if (r.chance(0.7)) pre = net.pretraining_functions(in, lr, steps);
	rocnnet::update_cost_t fine;
	bool tune = r.chance(0.7);
	std::vector<Ptr> slope;
	if (tune)
	{
		fine = net.build_finetune_functions(in, expect, flr);
		Ptr cost = -nnet::reduce_mean(nnet::log<double>(net.prop_up(&in)));
		for (Var* x : vs) slope.push_back(cost->derive(x));
	}
	c.event();
	if (!pre.empty() && pre.size() != L) { c.fail("pretrain", std::to_string(pre.size()) + " pre-training functions for " + std::to_string(L) + " machines"); return; }
	Params p = params(vs);
	auto rest = [&] (const char* when, size_t lo, size_t hi, Params& q) { for (size_t i = 0; i < q.size(); i++) if (i < lo || i >= hi) same(c, "others", "variable " + std::to_string(i) + " " + when, q[i], p[i], 0); };
	for (size_t k = r.range(3, 10); k > 0; k--)
	{
		size_t what = r.range(0, 4);
		if (what == 0) { v = feed(); c.log("feed"); }
		else if (what == 1) { Var* x = r.pick(vs); set_var(x, gen_vec(r, x->get_shape().n_elems())); p = params(vs); c.log("new weights"); }
		else if (what == 2 && !pre.empty())
		{
			size_t l = r.range(0, L - 1);
			c.log("pretrain " + std::to_string(l));
			Vec h = st.below<double>(p, v, b, l);
			pre[l].first(true);
			Params q = params(vs);
			rest("after pre-training another layer", 3 * l, 3 * l + 3, q);
			Machine m;
			m.ni = st.sz[l], m.nh = st.sz[l+1];
			m.from(p, 3 * l);
			bool ok = false;
			for (size_t s = 0; s < (1u << (m.ni * b)) && !ok; s++)
			{
				Params want = m.step(h, bits(s, m.ni * b), b, lr);
				ok = equal(q[3*l], want[0], 1e-7) && equal(q[3*l+1], want[1], 1e-7) && equal(q[3*l+2], want[2], 1e-7);
			}
			c.event();
			if (!ok) { c.fail("pretrain", "no binary reconstruction explains the pre-training step of layer " + std::to_string(l)); return; }
			p = q;
			c.count("pre-training steps");
		}
		else if (what == 3 && tune)
		{
			c.log("finetune");
			// the library's own derivative of the cost by each parameter; its value is known to be wrong for normalized outputs (known finding)
			Params g;
			for (size_t i = 0; i < vs.size(); i++)
			{
				Got d = get(slope[i].get());
				c.event();
				if (!d.has) { c.fail("finetune", "the cost has no derivative by variable " + std::to_string(i)); return; }
				g.push_back(d.t.v.size() == 1 ? Vec(p[i].size(), d.t.v[0]) : d.t.v);
				if (g[i].size() != p[i].size()) { c.fail("finetune", "derivative by variable " + std::to_string(i) + " has " + std::to_string(g[i].size()) + " elements"); return; }
				if (!tame(g[i], 1e4)) throw Skip{};
			}
			fine.first(true);
			Params q = params(vs);
			for (size_t i = 0; i < p.size(); i++) for (size_t e = 0; e < p[i].size(); e++) p[i][e] -= flr * g[i][e];
			for (size_t i = 0; i < p.size(); i++) same(c, "finetune", "variable " + std::to_string(i) + " after fine-tuning", q[i], p[i], 1e-6);
			p = q;
			c.count("fine-tuning steps");
		}
		same(c, "forward", "output", eval_vec(c, "output", out.get(), Shp{st.sz.back(), b}), st.fwd<double>(p, v, b));
		if (tune && r.chance(0.3))
		{
			Vec o = st.fwd<double>(p, v, b);
			double e = 0;
			for (size_t i = 0; i < o.size(); i++) e += (o[i] - y[i]) * (o[i] - y[i]) / o.size();
			same(c, "error", "fine-tuning error", eval_vec(c, "error", fine.second.get(), Shp{1}), Vec{e}, 1e-7);
		}
	}
}

}
namespace vh {
std::vector<Group> groups = {
	{"N04", "n04_pass", n04_pass, 4, 4, nullptr},
	{"N04", "n04_reconstruct", n04_reconstruct, 1, 4, nullptr},
	{"N04", "n04_train", n04_train, 8, 4, nullptr},
	{"N04", "n04_chain", n04_chain, 1, 4, nullptr},
	{"N04", "n04_belief", n04_belief, 5, 4, nullptr},
};
void (*on_start)(void) = nullptr;
static void seed (uint64_t s) { nnutils::seed_generator(s); }
void (*on_case)(uint64_t) = seed;
}
