// net.cpp - N01 (layers and networks), N02 (gradient descent networks)
#include "netref.hpp"

namespace {

// ---------------------------------------------------------------- N01

void n01_fc (Ctx& c)
{
	Rng& r = c.rng;
	size_t n_in = r.range(1, 3), m = r.range(1, 5), batch = r.range(1, 4);
	std::vector<size_t> ns;
	for (size_t i = 0; i < n_in; i++) ns.push_back(r.range(1, 5));
	rocnnet::fc_layer fc(ns, m, "fc");
	std::vector<Var*> vs = fc.get_variables();
	c.event();
	if (vs.size() != 2 * n_in) { c.fail("variables", std::to_string(vs.size()) + " variables for " + std::to_string(n_in) + " inputs"); return; }
	std::string desc = "fc";
	for (size_t i = 0; i < n_in; i++)
	{
		desc += " " + std::to_string(ns[i]);
		Shp ws = vs[2*i]->get_shape().as_list(), bs = vs[2*i+1]->get_shape().as_list();
		if (ws != Shp{m, ns[i]} || bs != Shp{m}) { c.fail("variables", "weight " + sstr(ws) + " bias " + sstr(bs)); return; }
	}
	c.log(desc + " -> " + std::to_string(m) + " batch " + std::to_string(batch));
	// initial values: within the documented limits, biases zero
	for (Var* v : vs) v->initialize();
	Params p = params(vs);
	for (size_t i = 0; i < n_in; i++)
	{
		double lim = 1 / std::sqrt((double) ns[i]);
		for (double w : p[2*i]) { c.event(); if (!(std::fabs(w) <= lim)) { c.fail("init", "initial weight " + dstr(w) + " for " + std::to_string(ns[i]) + " inputs"); return; } }
		for (double b : p[2*i+1]) { c.event(); if (b != 0) { c.fail("init", "initial bias " + dstr(b)); return; } }
	}
	std::vector<std::unique_ptr<Place> > ins;
	std::vector<Ptr> xs;
	std::vector<bool> neg;
	std::vector<Vec> data;
	for (size_t i = 0; i < n_in; i++)
	{
		ins.emplace_back(new Place(Shp{ns[i], r.chance(0.5) ? batch : 0}, "in"));
		bool late = r.chance(0.3);
		data.push_back(gen_vec(r, ns[i] * batch));
		if (!late) *ins.back() = Vec(data.back());
		neg.push_back(r.chance(0.3));
		xs.push_back(neg.back() ? -Ptr(ins.back().get()) : Ptr(ins.back().get()));
		if (late) *ins.back() = Vec(data.back());
	}
	std::vector<Node*> raw;
	for (Ptr& x : xs) raw.push_back(x.get());
	Ptr out = fc(raw);
	Ptr again;
	for (size_t k = r.range(2, 6); k > 0; k--)
	{
		p = params(vs);
		Vec want(m * batch, 0);
		for (size_t i = 0; i < n_in; i++)
		{
			Vec x = data[i];
			if (neg[i]) for (double& v : x) v = -v;
			Vec h = affine<double>(x, p[2*i], p[2*i+1], ns[i], m, batch);
			for (size_t j = 0; j < h.size(); j++) want[j] += h[j];
		}
		same(c, "fc", "fully connected layer", eval_vec(c, "layer output", out.get(), Shp{m, batch}), want);
		if (again.get()) same(c, "fc", "second output", eval_vec(c, "layer output", again.get(), Shp{m, batch}), want);
		switch (r.range(0, 3))
		{
			case 0: { size_t i = r.range(0, n_in - 1); data[i] = gen_vec(r, ns[i] * batch); *ins[i] = Vec(data[i]); c.log("new input " + std::to_string(i)); break; }
			case 1: { Var* v = r.pick(vs); set_var(v, gen_vec(r, v->get_shape().n_elems())); c.log("new weights"); break; }
			case 2: { Var* v = r.pick(vs); v->initialize(); c.log("initialize"); break; }
			default: if (!again.get()) again = fc(raw);
		}
	}
	c.count("fully connected");
}

void n01_fc_bad (Ctx& c)
{
	Rng& r = c.rng;
	size_t n = r.range(2, 5), m = r.range(1, 4), batch = r.range(1, 3);
	size_t wrong = n + (r.chance(0.5) ? 1 : -1);
	rocnnet::fc_layer fc(std::vector<size_t>{n}, m, "fc");
	for (Var* v : fc.get_variables()) v->initialize();
	Place in(Shp{wrong, batch}, "in");
	bool before = r.chance(0.5), threw = false;
	Vec d = gen_vec(r, wrong * batch);
	c.log("fc " + std::to_string(n) + " fed " + std::to_string(wrong));
	if (before) in = Vec(d);
	Params p = params(fc.get_variables());
	try
	{
		Ptr out = fc({&in});
		if (!before) in = Vec(d);
		Got g = get(out.get());
		threw = g.threw || !g.has;
	}
	catch (std::exception&) { threw = true; }
	c.event();
	if (!threw) { c.fail("accepted", "an input of " + std::to_string(wrong) + " values was accepted by a layer for " + std::to_string(n)); return; }
	same(c, "state", "weights after a rejected input", params(fc.get_variables())[0], p[0], 0);
	c.count("rejected inputs");
}

void n01_conv (Ctx& c)
{
	Rng& r = c.rng;
	size_t fh = r.range(1, 3), fw = r.range(1, 3);
	Shp s{fh + r.range(0, 3), fw + r.range(0, 3)};
	if (r.chance(0.3)) s.push_back(r.range(1, 2));
	rocnnet::conv_layer cl({fh, fw}, 1, 1, "conv");
	std::vector<Var*> vs = cl.get_variables();
	c.event();
	if (vs.size() != 2) { c.fail("variables", std::to_string(vs.size()) + " variables"); return; }
	for (Var* v : vs) v->initialize();
	set_var(vs[1], Vec{r.real(-1, 1)});
	Place in(s, "in");
	Vec d = gen_vec(r, count(s));
	in = Vec(d);
	c.log("conv filter " + std::to_string(fh) + "x" + std::to_string(fw) + " input " + sstr(s));
	Ptr out = cl(&in);
	for (size_t k = r.range(2, 5); k > 0; k--)
	{
		Params p = params(vs);
		RT x(s, d), f(Shp{fh, fw, 1, 1}, p[0]);
		Op o; o.k = CONV; o.p0 = 0; o.p1 = 1;
		RT want = ref::apply(o, {&x, &f});
		for (double& v : want.v) v += p[1][0];
		same(c, "conv", "convolution layer", eval_vec(c, "layer output", out.get(), want.s), want.v);
		switch (r.range(0, 2))
		{
			case 0: d = gen_vec(r, d.size()); in = Vec(d); break;
			case 1: set_var(vs[0], gen_vec(r, fh * fw)); break;
			default: set_var(vs[1], Vec{r.real(-1, 1)});
		}
	}
	c.count("convolutions");
}

void check_mlp_vars (Ctx& c, const std::string& what, rocnnet::icompound* n, const MlpRef& ref)
{
	c.event();
	if (n->get_ninput() != ref.sz.front() || n->get_noutput() != ref.sz.back())
		c.fail("sizes", what + " reports sizes " + std::to_string(n->get_ninput()) + "," + std::to_string(n->get_noutput()) + " for " + ref.str());
	std::vector<Var*> vs = n->get_variables();
	std::vector<Shp> ss = ref.shapes();
	if (vs.size() != ss.size()) { c.fail("variables", what + " lists " + std::to_string(vs.size()) + " variables instead of " + std::to_string(ss.size())); throw Skip{}; }
	std::set<Var*> distinct(vs.begin(), vs.end());
	if (distinct.size() != vs.size()) c.fail("variables", what + " lists a variable twice");
	for (size_t i = 0; i < vs.size(); i++)
	{
		Shp s = vs[i]->get_shape().as_list();
		if (s != ss[i]) c.fail("variables", what + ": variable " + std::to_string(i) + " has shape " + sstr(s) + " instead of " + sstr(ss[i]));
	}
}

void n01_mlp (Ctx& c)
{
	Rng& r = c.rng;
	MlpRef ref = gen_mlp(r, r.range(1, c.thorough ? 5 : 3), 5);
	rocnnet::mlp net(ref.sz[0], ref.hiddens(), "net");
	c.log(ref.str());
	check_mlp_vars(c, "network", &net, ref);
	std::vector<Var*> vs = net.get_variables();
	bool early = r.chance(0.5);
	if (early) net.initialize();
	size_t n_out = r.range(1, 2);
	std::vector<std::unique_ptr<Place> > ins;
	std::vector<size_t> bs;
	std::vector<Vec> data;
	std::vector<Ptr> outs;
	for (size_t k = 0; k < n_out; k++)
	{
		bs.push_back(r.range(1, 4));
		ins.emplace_back(new Place(Shp{ref.sz[0], r.chance(0.5) ? bs[k] : 0}, "in"));
		data.push_back(gen_vec(r, ref.sz[0] * bs[k]));
		bool late = r.chance(0.3);
		if (!late) *ins[k] = Vec(data[k]);
		outs.push_back(net.prop_up(ins[k].get()));
		if (late) *ins[k] = Vec(data[k]);
	}
	if (!early) net.initialize();
	for (size_t k = r.range(2, 8); k > 0; k--)
	{
		size_t o = r.range(0, n_out - 1);
		Params p = params(vs);
		Vec want = ref.fwd<double>(p, data[o], bs[o]);
		if (!tame(want, 1e8)) throw Skip{};
		same(c, "mlp", "network", eval_vec(c, "network output", outs[o].get(), Shp{ref.sz.back(), bs[o]}), want, 1e-7);
		switch (r.range(0, 3))
		{
			case 0: case 1: { size_t i = r.range(0, n_out - 1); data[i] = gen_vec(r, data[i].size()); *ins[i] = Vec(data[i]); break; }
			case 2: { Var* v = r.pick(vs); set_var(v, gen_vec(r, v->get_shape().n_elems(), 1)); break; }
			default: net.initialize();
		}
	}
	c.count("networks");
}

void n01_fun (Ctx& c)
{
	Rng& r = c.rng;
	Shp s;
	for (size_t k = r.range(1, 3); k > 0; k--) s.push_back(r.range(1, 4));
	Place in(s, "in");
	Vec d = gen_vec(r, count(s), 6);
	bool late = r.chance(0.3);
	if (!late) in = Vec(d);
	Ptr x(&in);
	Ptr f[3] = {nnet::softmax<double>(x), nnet::sigmoid<double>(x), nnet::tanh<double>(x)};
	if (late) in = Vec(d);
	c.log("functions of " + sstr(s));
	for (size_t k = r.range(1, 4); k > 0; k--)
	{
		Vec w[3];
		double sum = 0;
		for (double v : d) sum += std::exp(v);
		for (double v : d) { w[0].push_back(std::exp(v) / sum); w[1].push_back(1 / (1 + std::exp(-v))); w[2].push_back(std::tanh(v)); }
		for (int q = 0; q < 3; q++) same(c, "function", q == 0 ? "softmax" : q == 1 ? "sigmoid" : "tanh", eval_vec(c, "function", f[q].get(), s), w[q]);
		d = gen_vec(r, d.size(), 6);
		in = Vec(d);
	}
	c.count("functions");
}

// ---------------------------------------------------------------- N02

void n02 (Ctx& c)
{
	Rng& r = c.rng;
	MlpRef ref = gen_mlp(r, r.range(1, 3), c.thorough ? 5 : 4);
	Opt opt = gen_opt(r);
	rocnnet::mlp* brain = new rocnnet::mlp(ref.sz[0], ref.hiddens(), "brain");
	bool early = r.chance(0.5);
	if (early) brain->initialize();
	std::unique_ptr<nnet::gd_updater> up(opt.make());
	rocnnet::gd_net net(brain, *up, "gd");
	if (r.chance(0.5)) up.reset();
	if (!early) net.initialize();
	std::vector<Var*> vs = brain->get_variables();
	size_t nin = ref.sz.front(), nout = ref.sz.back();
	size_t bp = r.range(1, 3), bt = r.range(1, 4);
	c.log(ref.str() + " " + opt.str() + " batches " + std::to_string(bp) + "," + std::to_string(bt));
	Params p = params(vs);
	bool trained = false, predicted = false;
	auto weights = [&] (const char* when) { Params q = params(vs); for (size_t i = 0; i < q.size(); i++) same(c, "weights", std::string("variable ") + std::to_string(i) + " " + when, q[i], p[i], 0); };
	auto predict = [&] ()
	{
		Vec x = gen_vec(r, nin * bp);
		Vec want = ref.fwd<double>(p, x, bp);
		if (!tame(want, 1e6)) throw Skip{};
		same(c, "predict", "prediction", net(x), want, 1e-7);
		weights("after a prediction");
		predicted = true;
	};
	for (size_t k = r.range(4, c.thorough ? 20 : 10); k > 0; k--)
	{
		switch (r.range(0, 6))
		{
			case 0: case 1: predict(); break;
			case 2:
			{
				bool threw = false;
				if (r.chance(0.4) && predicted)
				{
					Vec x = gen_vec(r, nin * bp + (r.chance(0.5) ? nin : 1));
					c.log("bad prediction");
					try { net(x); } catch (std::exception&) { threw = true; }
				}
				else if (trained)
				{
					c.log("bad batch");
					Vec x = gen_vec(r, nin * bt + (r.chance(0.5) ? 0 : r.chance(0.5) ? nin : 1));
					Vec y = gen_vec(r, nout * bt + (x.size() == nin * bt ? (r.chance(0.5) ? nout : 1) : 0));
					if (r.chance(0.2)) x.clear();
					try { net.train(x, y); } catch (std::exception&) { threw = true; }
				}
				else break;
				c.event();
				if (!threw) { c.fail("accepted", "input of the wrong size was accepted"); return; }
				weights("after rejected input");
				c.count("rejected batches");
				break;
			}
			default:
			{
				Vec x = gen_vec(r, nin * bt), y = gen_vec(r, nout * bt, 1);
				auto loss = [&] (const std::vector<std::vector<Dual> >& q) -> Dual
				{
					std::vector<Dual> o = ref.fwd<Dual>(q, x, bt);
					Dual s(0);
					for (size_t i = 0; i < o.size(); i++) { Dual e = Dual(y[i]) - o[i]; s = s + e * e; }
					return s;
				};
				if (!tame(ref.fwd<double>(p, x, bt), 50)) throw Skip{};
				Params g = gradient(p, loss);
				for (auto& v : g) if (!tame(v, 1e4)) throw Skip{};
				opt.step(p, g);
				c.log("train");
				{ Vec a = x, b = y; net.train(a, b); }
				Params q = params(vs);
				for (size_t i = 0; i < q.size(); i++) same(c, "step", "variable " + std::to_string(i) + " after a training step", q[i], p[i], 1e-6);
				p = q;
				trained = true;
				for (auto& v : p) if (!tame(v, 100)) throw Skip{};
				// the error of this batch now
				Vec o = ref.fwd<double>(p, x, bt), e;
				for (size_t i = 0; i < o.size(); i++) e.push_back((y[i] - o[i]) * (y[i] - o[i]));
				if (tame(e, 1e6) && r.chance(0.7))
					same(c, "error", "reported error", eval_vec(c, "error", const_cast<nnet::iconnector<double>*>(net.get_error()), Shp{nout, bt}), e, 1e-6);
				if (r.chance(0.5)) predict();
				c.count(opt.rms ? "rms training steps" : "training steps");
			}
		}
	}
	if (!trained && r.chance(0.5))
	{
		// batches that do not belong together
		Vec x = gen_vec(r, nin * 2), y = gen_vec(r, nout * 3);
		bool threw = false;
		try { net.train(x, y); } catch (std::exception&) { threw = true; }
		c.event();
		if (!threw) { c.fail("accepted", "inputs and outputs of different batch sizes were accepted"); return; }
		weights("after rejected input");
	}
}

}
namespace vh {
std::vector<Group> groups = {
	{"N01", "n01_fc", n01_fc, 4, 4, nullptr},
	{"N01", "n01_fc_bad", n01_fc_bad, 1, 4, nullptr},
	{"N01", "n01_conv", n01_conv, 2, 4, nullptr},
	{"N01", "n01_mlp", n01_mlp, 5, 4, nullptr},
	{"N01", "n01_fun", n01_fun, 1, 4, nullptr},
	{"N02", "n02", n02, 4, 4, nullptr},
};
void (*on_start)(void) = nullptr;
static void seed (uint64_t s) { nnutils::seed_generator(s); }
void (*on_case)(uint64_t) = seed;
}
