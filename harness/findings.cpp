// findings.cpp - one probe per recorded finding (known_findings.json): the specific input that fails, compared with what it denotes.
// A probe that fails with its key prints the finding's line; nothing else depends on it.
#ifdef WITH_NETS
#include "netref.hpp"
#else
#include "gb.hpp"
#include "utils/gd_utils.hpp"
using namespace vh;
using namespace gb;
namespace {
typedef std::vector<double> Vec;
}
#endif

namespace {

void put (Var* v, const Vec& d)
{
	Place p(v->get_shape(), "feed");
	p = Vec(d);
	v->assign(&p)(true);
}
struct V
{
	std::unique_ptr<Var> v;
	Vec x;
	V (Shp s, Vec d) : x(d)
	{
		v.reset(new Var(nnet::tensorshape(s), nnet::const_init<double>(0), "v"));
		v->initialize();
		set(d);
	}
	void set (Vec d) { x = d; put(v.get(), d); }
	Ptr p () { return Ptr(v.get()); }
};
Vec vals (Node* n)
{
	const nnet::tensor<double>* t = n->eval();
	return t ? t->expose() : Vec();
}
double total (Node* n) { double s = 0; for (double d : vals(n)) s += d; return s; }
// gradient of the sum of n's elements by v, by central differences of the library's own values
Vec slope (V& v, Node* n)
{
	Vec x = v.x, o;
	for (size_t i = 0; i < x.size(); i++)
	{
		Vec y = x;
		double h = 1e-5;
		y[i] = x[i] + h; v.set(y); double a = total(n);
		y[i] = x[i] - h; v.set(y); double b = total(n);
		o.push_back((a - b) / (2 * h));
	}
	v.set(x);
	return o;
}
std::string vtxt (const Vec& v) { std::string s; for (double d : v) s += (s.empty() ? "" : ",") + dstr(d); return "{" + s + "}"; }
void expect (Ctx& c, const char* key, const std::string& what, Vec got, const Vec& want)
{
	if (got.size() == 1 && want.size() > 1) got.resize(want.size(), got[0]);
	bool ok = got.size() == want.size();
	for (size_t i = 0; ok && i < got.size(); i++) ok = std::fabs(got[i] - want[i]) <= 1e-5 * (1 + std::fabs(want[i]));
	c.event();
	if (!ok) c.fail(key, what + ": " + vtxt(got) + " instead of " + vtxt(want));
}
void gradient (Ctx& c, const char* key, const std::string& what, Ptr of, V& by)
{
	Vec want = slope(by, of.get());
	Ptr d;
	try { d = of->derive(by.v.get()); if (d.get()) d->eval(); }
	catch (std::exception& e) { c.fail(key, what + ": " + e.what() + " instead of " + vtxt(want)); }
	expect(c, key, what, d.get() ? vals(d.get()) : Vec(), want);
}

#ifndef WITH_NETS

void kf_const_graph (Ctx& c)
{
	// an expression over constants alone has nobody to free it
	auto kept = [&] (const char* what, std::function<Ptr(Ptr,Ptr)> f)
	{
		size_t live = 0;
		for (int k = 0; k < 4; k++)
		{
			size_t was = live_bytes();
			{
				Ptr a = nnet::constant<double>::get(Vec{1, 2, 3, 4}, nnet::tensorshape(Shp{2, 2})), b = nnet::constant<double>::get(Vec{1, 2, 3, 5}, nnet::tensorshape(Shp{2, 2}));
				Ptr s = f(a, b);
				s->eval();
			}
			live = live_bytes() - was;
		}
		c.event();
		if (getenv("VH_DUMP")) fprintf(stderr, "%s %zu\n", what, live);
		if (live > 0) c.fail("constant-graph-leak", std::string(what) + " of constants keeps " + std::to_string(live) + " bytes");
	};
	kept("sum", [](Ptr a, Ptr b) { return a + b; });
	kept("sin", [](Ptr a, Ptr b) { return nnet::sin<double>(a); });
	kept("product", [](Ptr a, Ptr b) { return nnet::matmul<double>(a, b); });
	kept("reduction", [](Ptr a, Ptr b) { return nnet::reduce_sum<double>(a); });
}
void kf_clip (Ctx& c)
{
	V x({3}, {-2, 0.25, 2});
	gradient(c, "clip-derivative", "derivative of clip_val(x, -1, 1)", nnet::clip_val<double>(x.p(), -1, 1), x);
}
void kf_round (Ctx& c)
{
	V x({3}, {-2.3, 0.25, 2.1});
	gradient(c, "round-derivative", "derivative of round(x)", nnet::round<double>(x.p()), x);
}
void kf_clip_norm (Ctx& c)
{
	V x({3}, {-2, 0.25, 2});
	gradient(c, "clip-norm-derivative", "derivative of clip_norm(x, 1)", nnet::clip_norm<double>(x.p(), 1), x);
}
void kf_abs2 (Ctx& c)
{
	V x({2}, {-1.5, 2});
	Ptr f = nnet::pow<double>(x.p(), 3);
	Ptr g = +f;
	Ptr d = g->derive(x.v.get());
	Ptr dd = d->derive(x.v.get());
	// |x^3|'' = 6|x|
	expect(c, "comparison-second-derivative", "second derivative of |x^3|", vals(dd.get()), Vec{9, 12});
}
void kf_assigned (Ctx& c)
{
	// what depends on an assigned expression keeps the variables it was built with
	V x({2}, {0.5, -1}), y({2}, {0.25, 2});
	Ptr a = nnet::sin<double>(x.p()), b = nnet::cos<double>(y.p());
	Ptr f = nnet::exp<double>(a);
	*static_cast<nnet::immutable<double>*>(a.get()) = *static_cast<nnet::immutable<double>*>(b.get());
	gradient(c, "assigned-argument", "derivative of exp(a) by y after a = sin(x) was assigned cos(y)", f, y);
}
void kf_two_products (Ctx& c)
{
	// the weight enters through two matrix products
	V w({2, 2}, {0.3, -0.4, 0.5, 0.7}), x({2, 2}, {1, 2, -1, 0.5});
	Ptr a = nnet::matmul<double>(x.p(), w.p());
	Ptr b = nnet::matmul<double>(nnet::sin<double>(a), w.p());
	gradient(c, "several-products", "gradient of sum((sin(xw))w) by w", nnet::reduce_sum<double>(b), w);
}
void kf_softmax (Ctx& c)
{
	V w({2, 2}, {0.3, -0.4, 0.5, 0.7}), x({2, 1}, {1, 2});
	Ptr h = nnet::matmul<double>(x.p(), w.p());
	Ptr e = nnet::exp<double>(h);
	Ptr s = e / nnet::reduce_sum<double>(e);
	gradient(c, "several-products", "gradient of sum(log(softmax(xw))) by w", nnet::reduce_sum<double>(nnet::log<double>(s)), w);
}
void kf_transpose (Ctx& c)
{
	V w({3, 2}, {0.3, -0.4, 0.5, 0.7, 1, 2}), x({2, 3}, {1, 2, -1, 0.5, 3, 1});
	gradient(c, "shape-op-gradient", "gradient of sum(transpose(w) * x) by w", nnet::reduce_sum<double>(nnet::transpose<double>(w.p()) * x.p()), w);
}
void kf_reduce_max (Ctx& c)
{
	V w({3}, {0.3, -0.4, 0.5});
	gradient(c, "shape-op-gradient", "gradient of reduce_max(w) by w", nnet::reduce_max<double>(w.p()), w);
}
void kf_extend (Ctx& c)
{
	V w({2}, {0.3, -0.4}), x({2, 3}, {1, 2, -1, 0.5, 3, 1});
	gradient(c, "shape-op-gradient", "gradient of sum(extend(w, 1, 3) * x) by w", nnet::reduce_sum<double>(nnet::extend<double>(w.p(), 1, 3) * x.p()), w);
}
void kf_two_reductions (Ctx& c)
{
	V w({2, 2}, {0.3, -0.4, 0.5, 0.7});
	gradient(c, "reductions-along-dimensions", "gradient of sum(sum(w*w, 0) * sum(w, 1)) by w", nnet::reduce_sum<double>(nnet::reduce_sum<double>(w.p() * w.p(), 0) * nnet::reduce_sum<double>(w.p(), 1)), w);
}
void kf_compress_scalar (Ctx& c)
{
	V w({2, 2}, {0.3, -0.4, 0.5, 0.7});
	gradient(c, "reductions-along-dimensions", "gradient of sum(sin(sum(w, 0))) by w", nnet::reduce_sum<double>(nnet::sin<double>(nnet::reduce_sum<double>(w.p(), 0))), w);
}
void kf_frozen_leaf_gradient (Ctx& c)
{
	// x^2 has the gradient 2x, which is no part of the loss' graph
	V x({2}, {1, 2}), y({2}, {3, 4});
	Ptr loss = x.p() * y.p();
	nnet::vgb_updater gd(0.5);
	auto ups = gd.calculate(loss.get());
	Conn* root = dynamic_cast<Conn*>(loss.get());
	root->freeze_status(true);
	for (auto& u : ups) u(true);
	root->freeze_status(false);
	expect(c, "leaf-gradient-frozen", "x and y after frozen updates of x*y", Vec{vals(x.v.get())[0], vals(y.v.get())[0]}, Vec{1 - 0.5 * 3, 3 - 0.5 * 1});
}

#else

void kf_finetune (Ctx& c)
{
	nnutils::seed_generator(7);
	rocnnet::db_net net(2, {2, 2}, "dbn");
	net.initialize();
	std::vector<Var*> vs = net.get_variables();
	Place in(Shp{2, 1}, "in"), want(Shp{2, 1}, "want");
	in = Vec{1, 0}; want = Vec{0, 1};
	Ptr out = net.prop_up(&in);
	Var* w = vs[3];
	Vec x{0.3, -0.4, 0.5, 0.7};
	auto set = [&] (Vec d) { put(w, d); };
	auto cost = [&] () { double s = 0; for (double d : vals(out.get())) s -= std::log(d) / 2; return s; };
	Vec g;
	for (size_t i = 0; i < 4; i++)
	{
		Vec y = x;
		y[i] = x[i] + 1e-5; set(y); double a = cost();
		y[i] = x[i] - 1e-5; set(y); double b = cost();
		g.push_back((a - b) / 2e-5);
	}
	set(x);
	auto fine = net.build_finetune_functions(in, want, 0.5);
	fine.first(true);
	Vec to = x;
	for (size_t i = 0; i < 4; i++) to[i] -= 0.5 * g[i];
	expect(c, "finetune-gradient", "hidden weights after a fine-tuning step", vals(w), to);
}

#endif
}
namespace vh {
#define KF(ID, FN) {"KF_" ID ",noM01", ID, FN, 1, 0, nullptr}
std::vector<Group> groups = {
#ifndef WITH_NETS
	KF("R04-constant-graph", kf_const_graph),
	KF("D01-clip", kf_clip),
	KF("D01-round", kf_round),
	KF("D01-clip-norm", kf_clip_norm),
	KF("D01-abs-second", kf_abs2),
	KF("D01-assigned", kf_assigned),
	KF("D02-two-products", kf_two_products),
	KF("D02-softmax", kf_softmax),
	KF("D02-transpose", kf_transpose),
	KF("D02-reduce-max", kf_reduce_max),
	KF("D02-extend", kf_extend),
	KF("D02-two-reductions", kf_two_reductions),
	KF("D02-compress", kf_compress_scalar),
	KF("G01-leaf-gradient", kf_frozen_leaf_gradient),
#else
	KF("N04-finetune", kf_finetune),
#endif
};
void (*on_start)(void) = nullptr;
static void seed (uint64_t s) { nnutils::seed_generator(s); }
void (*on_case)(uint64_t) = seed;
}
