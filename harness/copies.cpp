// copies.cpp - N05: clones, copies, moves, assignments, destruction, saving and restoring of layers, networks and trainers
#include "netref.hpp"

namespace {

static std::string scratch ()
{
	static std::string d;
	if (d.empty())
	{
		const char* b = getenv("VH_SCRATCH");
		d = std::string(b && *b ? b : "/tmp") + "/copies." + std::to_string(getpid());
		mkdir(d.c_str(), 0700);
		atexit([] { for (const char* n : {"/a", "/b", "/q"}) { std::string f = d + n; unlink(f.c_str()); } rmdir(d.c_str()); });
	}
	return d;
}
struct Quiet
{
	std::streambuf* o, *e;
	std::ostringstream s;
	Quiet () { o = std::cout.rdbuf(s.rdbuf()); e = std::cerr.rdbuf(s.rdbuf()); }
	~Quiet () { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};

enum { FC, CONVL, MLP, RBM, DBN, GD, DQ, N_KIND };
static const char* kind_name[] = {"fc", "conv", "mlp", "rbm", "dbn", "gd", "dq"};

// structure of a model and the function it computes
struct Form
{
	int kind = FC;
	int brain = MLP;	// of trainers
	std::vector<size_t> sz;
	std::vector<int> acts;
	Shp input;	// conv
	int net () const { return kind == GD || kind == DQ ? brain : kind; }
	bool operator == (const Form& o) const { return kind == o.kind && brain == o.brain && sz == o.sz && (net() != MLP || acts == o.acts) && input == o.input; }
	size_t nin () const { return net() == CONVL ? count(input) : sz[0]; }
	Shp in_shape (size_t b) const { return net() == CONVL ? input : Shp{sz[0], b}; }
	size_t nout () const { return sz.back(); }
	std::vector<Shp> shapes () const
	{
		std::vector<Shp> s;
		switch (net())
		{
			case FC: return {Shp{sz[1], sz[0]}, Shp{sz[1]}};
			case CONVL: return {Shp{sz[0], sz[1], 1, 1}, Shp{1}};
			case RBM: return {Shp{sz[1], sz[0]}, Shp{sz[1]}, Shp{sz[0]}};
			case MLP: for (size_t l = 0; l + 1 < sz.size(); l++) { s.push_back(Shp{sz[l+1], sz[l]}); s.push_back(Shp{sz[l+1]}); } return s;
			default:
				for (size_t l = 0; l + 1 < sz.size(); l++)
				{
					s.push_back(Shp{sz[l+1], sz[l]}); s.push_back(Shp{sz[l+1]});
					if (l + 2 < sz.size()) s.push_back(Shp{sz[l]});
				}
				return s;
		}
	}
	template <typename S> std::vector<S> fwd (const std::vector<std::vector<S> >& p, const Vec& x, size_t b) const
	{
		std::vector<S> h(x.begin(), x.end());
		switch (net())
		{
			case FC: return affine<S, S>(h, p[0], p[1], sz[0], sz[1], b);
			case RBM: h = affine<S, S>(h, p[0], p[1], sz[0], sz[1], b); for (S& v : h) v = sigm<S>(v); return h;
			case MLP:
				for (size_t l = 0; l + 1 < sz.size(); l++)
				{
					h = affine<S, S>(h, p[2*l], p[2*l+1], sz[l], sz[l+1], b);
					for (S& v : h) v = act<S>(acts[l], v);
				}
				return h;
			default:
			{
				size_t L = sz.size() - 2;
				for (size_t l = 0; l < L; l++) { h = affine<S, S>(h, p[3*l], p[3*l+1], sz[l], sz[l+1], b); for (S& v : h) v = sigm<S>(v); }
				h = affine<S, S>(h, p[3*L], p[3*L+1], sz[L], sz[L+1], b);
				S sum(0);
				for (S& v : h) { v = exp_(v); sum = sum + v; }
				for (S& v : h) v = v / sum;
				return h;
			}
		}
	}
	Vec value (const Params& p, const Vec& x, size_t b) const
	{
		if (net() != CONVL) return fwd<double>(p, x, b);
		RT a(input, x), f(Shp{sz[0], sz[1], 1, 1}, p[0]);
		Op o; o.k = CONV; o.p0 = 0; o.p1 = 1;
		RT w = ref::apply(o, {&a, &f});
		for (double& v : w.v) v += p[1][0];
		return w.v;
	}
	std::string str () const
	{
		std::string o = kind_name[kind];
		if (kind == GD || kind == DQ) o += std::string("(") + kind_name[brain] + ")";
		for (size_t s : sz) o += " " + std::to_string(s);
		for (int a : acts) o += std::string(" ") + act_name[a];
		return o;
	}
	std::vector<rocnnet::IN_PAIR> hiddens () const
	{
		std::vector<rocnnet::IN_PAIR> h;
		for (size_t l = 0; l < acts.size(); l++) h.push_back(rocnnet::IN_PAIR(sz[l+1], act_fn(acts[l])));
		return h;
	}
};
Form gen_form (Rng& r, int kind)
{
	Form f;
	f.kind = kind;
	if (kind == GD && r.chance(0.3)) f.brain = RBM;
	switch (f.net())
	{
		case CONVL: f.sz = {r.range(1, 3), r.range(1, 3)}; f.input = Shp{f.sz[0] + r.range(0, 2), f.sz[1] + r.range(0, 2)}; break;
		case MLP: { MlpRef m = gen_mlp(r, r.range(1, 2), 3); f.sz = m.sz; f.acts = m.acts; break; }
		case DBN: for (size_t k = r.range(2, 4); k > 0; k--) f.sz.push_back(r.range(1, 3)); break;
		default: f.sz = {r.range(1, 4), r.range(1, 4)};
	}
	return f;
}
rocnnet::icompound* make_net (const Form& f, std::string scope)
{
	switch (f.net())
	{
		case RBM: return new rocnnet::rbm(f.sz[0], f.sz[1], scope);
		case DBN: return new rocnnet::db_net(f.sz[0], std::vector<size_t>(f.sz.begin() + 1, f.sz.end()), scope);
		default: return new rocnnet::mlp(f.sz[0], f.hiddens(), scope);
	}
}

// the library's object behind one interface
struct Model
{
	virtual ~Model () {}
	virtual Model* clone (const std::string& s) = 0;
	virtual Model* moved () = 0;
	virtual void assign (Model& o) = 0;
	virtual void take (Model& o) = 0;
	virtual void self () = 0;
	virtual void selftake () = 0;
	virtual std::vector<Var*> vars () { return {}; }
	virtual Ptr up (Node*) { return Ptr(); }
	virtual rocnnet::icompound* net () { return nullptr; }
};
template <typename T> struct Wrap : Model
{
	std::unique_ptr<T> t;
	Wrap (T* x) : t(x) {}
	Model* clone (const std::string& s) override { return new Wrap(t->clone(s)); }
	Model* moved () override { return new Wrap(t->move()); }
	void assign (Model& o) override { *t = *static_cast<Wrap&>(o).t; }
	void take (Model& o) override { *t = std::move(*static_cast<Wrap&>(o).t); }
	void self () override { T& x = *t; *t = x; }
	void selftake () override { T& x = *t; *t = std::move(x); }
	std::vector<Var*> vars () override { return t->get_variables(); }
	Ptr up (Node* n) override { return run(*t, n); }
	rocnnet::icompound* net () override { return comp(t.get()); }
	static Ptr run (rocnnet::fc_layer& l, Node* n) { return l({n}); }
	static Ptr run (rocnnet::conv_layer& l, Node* n) { return l(n); }
	static Ptr run (rocnnet::icompound& l, Node* n) { return l.prop_up(n); }
	static rocnnet::icompound* comp (rocnnet::icompound* c) { return c; }
	static rocnnet::icompound* comp (rocnnet::ilayer*) { return nullptr; }
};
struct GdWrap : Model
{
	std::unique_ptr<rocnnet::gd_net> t;
	GdWrap (rocnnet::gd_net* x) : t(x) {}
	Model* clone (const std::string& s) override { return new GdWrap(new rocnnet::gd_net(*t, s)); }
	Model* moved () override { return new GdWrap(new rocnnet::gd_net(std::move(*t))); }
	void assign (Model& o) override { *t = *static_cast<GdWrap&>(o).t; }
	void take (Model& o) override { *t = std::move(*static_cast<GdWrap&>(o).t); }
	void self () override { auto& x = *t; *t = x; }
	void selftake () override { auto& x = *t; *t = std::move(x); }
};
struct DqWrap : Model
{
	std::unique_ptr<rocnnet::dq_net> t;
	DqWrap (rocnnet::dq_net* x) : t(x) {}
	Model* clone (const std::string& s) override { return new DqWrap(new rocnnet::dq_net(*t, s)); }
	Model* moved () override { return new DqWrap(new rocnnet::dq_net(std::move(*t), "moved")); }
	void assign (Model& o) override { *t = *static_cast<DqWrap&>(o).t; }
	void take (Model& o) override { *t = std::move(*static_cast<DqWrap&>(o).t); }
	void self () override { auto& x = *t; *t = x; }
	void selftake () override { auto& x = *t; *t = std::move(x); }
};

struct Exp { Vec s; size_t a; double r; Vec n; };

struct Held { std::unique_ptr<Place> in; Vec x; size_t b; Ptr out; };

struct Obj
{
	std::unique_ptr<Model> m;
	Form f;
	bool valid = true;	// moved-from objects aren't
	bool init = false;
	Params p;
	std::vector<std::unique_ptr<Held> > held;
	// trainers
	double lr = 0.1;
	size_t batch = 0, tests = 0;	// fixed by their first use
	Params tgt;
	std::vector<Exp> mem;
	rocnnet::dqn_param par;
	// what a copy has of it
	void like (const Obj& o) { f = o.f; valid = o.valid; init = o.init; p = o.p; lr = o.lr; batch = o.batch; tests = o.tests; tgt = o.tgt; mem = o.mem; par = o.par; }
};

struct Copies
{
	Ctx& c;
	Rng& r;
	int kind;
	std::vector<std::unique_ptr<Obj> > o;
	size_t made = 0;

	Copies (Ctx& ctx, int k) : c(ctx), r(ctx.rng), kind(k) {}

	Obj* valid () { std::vector<Obj*> v; for (auto& x : o) if (x->valid) v.push_back(x.get()); return v.empty() ? nullptr : r.pick(v); }
	bool trainer () const { return kind == GD || kind == DQ; }
	std::string name (Obj* x) { for (size_t i = 0; i < o.size(); i++) if (o[i].get() == x) return "#" + std::to_string(i); return "?"; }

	void create ()
	{
		std::unique_ptr<Obj> x(new Obj);
		x->f = !o.empty() && r.chance(0.5) ? o[0]->f : gen_form(r, kind);
		const Form& f = x->f;
		std::string scope = "net" + std::to_string(made++);
		c.log("create " + f.str());
		switch (kind)
		{
			case FC: x->m.reset(new Wrap<rocnnet::fc_layer>(new rocnnet::fc_layer({f.sz[0]}, f.sz[1], scope))); break;
			case CONVL: x->m.reset(new Wrap<rocnnet::conv_layer>(new rocnnet::conv_layer({f.sz[0], f.sz[1]}, 1, 1, scope))); break;
			case MLP: x->m.reset(new Wrap<rocnnet::mlp>(new rocnnet::mlp(f.sz[0], f.hiddens(), scope))); break;
			case RBM: x->m.reset(new Wrap<rocnnet::rbm>(new rocnnet::rbm(f.sz[0], f.sz[1], scope))); break;
			case DBN: x->m.reset(new Wrap<rocnnet::db_net>(static_cast<rocnnet::db_net*>(make_net(f, scope)))); break;
			case GD:
			{
				x->lr = r.real(0.01, 0.2);
				nnet::vgb_updater up(x->lr);
				x->m.reset(new GdWrap(new rocnnet::gd_net(make_net(f, "brain"), up, scope)));
				static_cast<GdWrap&>(*x->m).t->initialize();
				break;
			}
			default:
			{
				x->lr = r.real(0.01, 0.2);
				nnet::vgb_updater up(x->lr);
				x->par.train_interval_ = x->par.store_interval_ = 1;
				x->par.mini_batch_size_ = x->par.max_exp_ = r.range(1, 3);
				x->par.rand_action_prob_ = 0;
				x->par.exploration_period_ = 0;
				x->par.discount_rate_ = r.real(0, 1);
				x->par.target_update_rate_ = r.real(0, 1);
				x->m.reset(new DqWrap(new rocnnet::dq_net(static_cast<rocnnet::mlp*>(make_net(f, "brain")), up, x->par, scope)));
				static_cast<DqWrap&>(*x->m).t->initialize();
			}
		}
		if (trainer())
		{
			x->init = true;
			read(x.get(), x->p, x->tgt);
		}
		else
		{
			check_vars(x.get());
			if (r.chance(0.7)) init(x.get());
		}
		o.push_back(std::move(x));
	}
	void check_vars (Obj* x)
	{
		std::vector<Var*> v = x->m->vars();
		std::vector<Shp> s = x->f.shapes();
		c.event();
		if (v.size() != s.size()) { c.fail("variables", x->f.str() + " lists " + std::to_string(v.size()) + " variables instead of " + std::to_string(s.size())); throw Skip{}; }
		for (size_t i = 0; i < v.size(); i++)
		{
			if (v[i]->get_shape().as_list() != s[i]) { c.fail("variables", x->f.str() + ": variable " + std::to_string(i) + " has shape " + sstr(v[i]->get_shape().as_list())); throw Skip{}; }
			if (v[i]->good_status() != x->init) { c.fail("status", x->f.str() + ": variable " + std::to_string(i) + (x->init ? " isn't initialized" : " is initialized")); throw Skip{}; }
		}
		if (rocnnet::icompound* n = x->m->net())
		{
			c.event();
			if (n->get_ninput() != x->f.nin() || n->get_noutput() != x->f.nout())
			{ c.fail("sizes", x->f.str() + " reports sizes " + std::to_string(n->get_ninput()) + "," + std::to_string(n->get_noutput())); throw Skip{}; }
		}
	}
	void init (Obj* x)
	{
		if (x->m->net()) x->m->net()->initialize();
		else for (Var* v : x->m->vars()) v->initialize();
		x->init = true;
		// biases too
		for (Var* v : x->m->vars()) if (r.chance(0.7)) set_var(v, gen_vec(r, v->get_shape().n_elems(), 1));
		x->p = params(x->m->vars());
		c.log("initialize");
	}
	// weights of a trainer, through a file
	void read (Obj* x, Params& p, Params& t)
	{
		Quiet q;
		std::string fn = scratch() + "/q";
		unlink(fn.c_str());
		std::unique_ptr<rocnnet::icompound> probe(make_net(x->f, "probe"));
		if (kind == GD) static_cast<GdWrap&>(*x->m).t->save(fn, "w");
		else static_cast<DqWrap&>(*x->m).t->save(fn, "w");
		probe->initialize(fn, "w");
		p = params(probe->get_variables());
		if (kind == DQ) { probe->initialize(fn, "target_w"); t = params(probe->get_variables()); }
		unlink(fn.c_str());
	}
	Vec fresh_input (Obj* x, size_t b) { return gen_vec(r, x->f.net() == CONVL ? count(x->f.input) : x->f.nin() * b); }

	void check (Obj* x, const char* when)
	{
		if (!x->valid) return;
		std::string who = x->f.str() + " " + when;
		if (trainer())
		{
			Params p, t;
			if (r.chance(0.5))
			{
				read(x, p, t);
				for (size_t i = 0; i < p.size(); i++) same(c, "weights", who + ", variable " + std::to_string(i), p[i], x->p[i], 1e-7);
				for (size_t i = 0; i < t.size(); i++) same(c, "target", who + ", target variable " + std::to_string(i), t[i], x->tgt[i], 1e-7);
			}
			Vec in = fresh_input(x, x->tests ? x->tests : 1);
			x->tests = x->tests ? x->tests : 1;
			Vec want = x->f.value(x->p, in, x->tests);
			if (!tame(want, 1e6)) throw Skip{};
			Vec got = kind == GD ? (*static_cast<GdWrap&>(*x->m).t)(in) : (*static_cast<DqWrap&>(*x->m).t)(in);
			same(c, "predict", who + ", prediction", got, want, 1e-6);
			return;
		}
		check_vars(x);
		if (!x->init) return;
		Params p = params(x->m->vars());
		for (size_t i = 0; i < p.size(); i++) same(c, "weights", who + ", variable " + std::to_string(i), p[i], x->p[i], 0);
		size_t b = r.range(1, 2);
		Vec in = fresh_input(x, b);
		Vec want = x->f.value(x->p, in, b);
		if (!tame(want, 1e6)) throw Skip{};
		{
			Place pl(x->f.in_shape(b), "in");
			pl = Vec(in);
			Got g = get(x->m->up(&pl).get());
			c.event();
			if (!g.has) { c.fail("output", who + " computes nothing"); throw Skip{}; }
			same(c, "output", who + ", output", g.t.v, want, 1e-7);
		}
		for (auto& h : x->held)
		{
			c.event();
			if (!h->out.get()) { c.fail("held", who + ": an output built before is gone"); throw Skip{}; }
			Got g = get(h->out.get());
			if (!g.has) { c.fail("held", who + ": an output built before computes nothing"); throw Skip{}; }
			Vec w = x->f.value(x->p, h->x, h->b);
			if (tame(w, 1e6)) same(c, "held", who + ", output built before", g.t.v, w, 1e-7);
		}
	}
	void check_all (const char* when) { for (auto& x : o) check(x.get(), when); }
	// outputs over parameters that are gone
	void gone (std::vector<std::unique_ptr<Held> >& h, const char* when)
	{
		for (auto& x : h) { c.event(); if (x->out.get()) { c.fail("dangling", std::string("an output of a network is alive after the network was ") + when); throw Skip{}; } }
		h.clear();
	}

	void step ()
	{
		Obj* x = valid();
		if (o.empty() || (o.size() < 3 && r.chance(0.15)) || !x) { if (o.size() < 5) { create(); return; } o.clear(); return; }
		switch (r.range(0, 10))
		{
			case 0: // clone
			{
				if (o.size() >= 5) break;
				std::unique_ptr<Obj> y(new Obj);
				y->like(*x);
				c.log("clone " + name(x));
				y->m.reset(x->m->clone(r.chance(0.5) ? "" : "clone" + std::to_string(made++)));
				y->tests = y->batch = 0;
				fixed(*y, *x);
				o.push_back(std::move(y));
				c.count("clones");
				break;
			}
			case 1: // copy assignment
			{
				Obj* y = r.pick(o).get();
				c.log(name(y) + " = " + name(x) + (y->valid ? "" : " (moved from)"));
				if (x == y)
				{
					x->m->self();
					c.count("self-assignments");
					break;
				}
				y->m->assign(*x->m);
				gone(y->held, "assigned to");
				y->like(*x);
				fixed(*y, *x);
				c.count("copy assignments");
				break;
			}
			case 2: // move
			{
				if (o.size() >= 5) break;
				std::unique_ptr<Obj> y(new Obj);
				y->like(*x);
				c.log("move " + name(x));
				y->m.reset(x->m->moved());
				y->held = std::move(x->held);
				x->held.clear();
				x->valid = false;
				fixed(*y, *x);
				o.push_back(std::move(y));
				c.count("moves");
				break;
			}
			case 3: // move assignment
			{
				Obj* y = r.pick(o).get();
				c.log(name(y) + " = move " + name(x) + (y->valid ? "" : " (moved from)"));
				if (x == y)
				{
					x->m->selftake();
					c.count("self-assignments");
					break;
				}
				y->m->take(*x->m);
				gone(y->held, "assigned to");
				y->like(*x);
				y->held = std::move(x->held);
				x->held.clear();
				x->valid = false;
				fixed(*y, *x);
				c.count("move assignments");
				break;
			}
			case 4: // destruction
			{
				size_t i = r.range(0, o.size() - 1);
				c.log("destroy #" + std::to_string(i));
				auto h = std::move(o[i]->held);
				o.erase(o.begin() + i);
				gone(h, "destroyed");
				c.count("destructions");
				break;
			}
			case 5: // an output that stays
			{
				if (trainer() || !x->init) break;
				std::unique_ptr<Held> h(new Held);
				h->b = r.range(1, 2);
				h->x = fresh_input(x, h->b);
				h->in.reset(new Place(x->f.in_shape(h->b), "held"));
				*h->in = Vec(h->x);
				h->out = x->m->up(h->in.get());
				if (r.chance(0.5)) get(h->out.get());
				x->held.push_back(std::move(h));
				c.log("hold an output of " + name(x));
				break;
			}
			case 6: // save and restore
			{
				if (!trainer() && (!x->m->net() || !x->init)) break;
				Obj* y = r.pick(o).get();
				if (!y->valid) break;
				Quiet q;
				std::string fn = scratch() + (r.chance(0.5) ? "/a" : "/b");
				bool bad = r.chance(0.3), sameform = y->f == x->f;
				c.log("save " + name(x) + " restore " + name(y) + (bad ? " with another label" : ""));
				bool ok = kind == GD ? static_cast<GdWrap&>(*x->m).t->save(fn, "saved") : kind == DQ ? static_cast<DqWrap&>(*x->m).t->save(fn, "saved") : x->m->net()->save(fn, "saved");
				c.event();
				if (!ok) { c.fail("save", x->f.str() + " could not be saved"); throw Skip{}; }
				std::string lab = bad ? "elsewhere" : "saved";
				if (bad && r.chance(0.5)) fn = scratch() + "/missing";
				if (kind == GD) static_cast<GdWrap&>(*y->m).t->initialize(fn, lab);
				else if (kind == DQ) static_cast<DqWrap&>(*y->m).t->initialize(fn, lab);
				else y->m->net()->initialize(fn, lab);
				unlink((scratch() + "/a").c_str());
				unlink((scratch() + "/b").c_str());
				y->init = true;
				if (!bad && sameform)
				{
					y->p = x->p;
					y->tgt = x->tgt;
					c.count("restores");
				}
				else
				{
					// freshly initialized, as far as nothing in the file belongs to it
					if (trainer()) read(y, y->p, y->tgt);
					else y->p = params(y->m->vars());
					for (auto& v : y->p) for (double e : v) { c.event(); if (!std::isfinite(e)) { c.fail("restore", "a failed restore left " + dstr(e)); throw Skip{}; } }
					c.count("failed restores");
				}
				break;
			}
			default: // training or new weights
				train(x);
		}
		check_all("after the last operation");
	}
	// a trainer's inputs keep the batch size of their first use
	void fixed (Obj& y, const Obj& x) { y.batch = x.batch; y.tests = x.tests; if (kind == DQ) y.tests = 1; }

	void train (Obj* x)
	{
		if (!trainer())
		{
			if (!x->init) { init(x); return; }
			std::vector<Var*> v = x->m->vars();
			size_t i = r.range(0, v.size() - 1);
			x->p[i] = gen_vec(r, x->p[i].size());
			set_var(v[i], x->p[i]);
			c.log("new weights for " + name(x));
			return;
		}
		c.log("train " + name(x));
		size_t nin = x->f.nin(), nout = x->f.nout();
		if (kind == GD)
		{
			if (!x->batch) x->batch = r.range(1, 3);
			Vec in = gen_vec(r, nin * x->batch), y = gen_vec(r, nout * x->batch, 1);
			if (!tame(x->f.fwd<double>(x->p, in, x->batch), 50)) throw Skip{};
			Params g = gradient(x->p, [&] (const std::vector<std::vector<Dual> >& q) -> Dual
			{
				std::vector<Dual> out = x->f.fwd<Dual>(q, in, x->batch);
				Dual s(0);
				for (size_t i = 0; i < out.size(); i++) { Dual e = Dual(y[i]) - out[i]; s = s + e * e; }
				return s;
			});
			for (size_t i = 0; i < g.size(); i++) { if (!tame(g[i], 1e4)) throw Skip{}; for (size_t k = 0; k < g[i].size(); k++) x->p[i][k] -= x->lr * g[i][k]; if (!tame(x->p[i], 100)) throw Skip{}; }
			static_cast<GdWrap&>(*x->m).t->train(in, y);
		}
		else
		{
			rocnnet::dq_net& dq = *static_cast<DqWrap&>(*x->m).t;
			if (x->mem.empty() || r.chance(0.5))
			{
				Exp e{gen_vec(r, nin), r.range(0, nout - 1), r.real(-2, 2), r.chance(0.25) ? Vec() : gen_vec(r, nin)};
				dq.store(e.s, e.a, e.r, e.n);
				x->mem.push_back(e);
				if (x->mem.size() > x->par.max_exp_) x->mem.erase(x->mem.begin());
				return;
			}
			if (x->mem.size() >= x->par.mini_batch_size_)
			{
				Params g;
				for (auto& v : x->p) g.push_back(Vec(v.size(), 0));
				for (Exp& e : x->mem)
				{
					double t = e.r;
					if (!e.n.empty()) { Vec q = x->f.fwd<double>(x->tgt, e.n, 1); t += x->par.discount_rate_ * *std::max_element(q.begin(), q.end()); }
					if (!tame(x->f.fwd<double>(x->p, e.s, 1), 1e3) || !(std::fabs(t) < 1e3)) throw Skip{};
					Params one = gradient(x->p, [&] (const std::vector<std::vector<Dual> >& p) -> Dual { Dual d = x->f.fwd<Dual>(p, e.s, 1)[e.a] - Dual(t); return d * d; });
					for (size_t i = 0; i < g.size(); i++) for (size_t k = 0; k < g[i].size(); k++) g[i][k] += one[i][k] / x->mem.size();
				}
				for (size_t i = 0; i < g.size(); i++)
				{
					double n = 0;
					for (double v : g[i]) n += v * v;
					n = std::sqrt(n);
					for (size_t k = 0; k < g[i].size(); k++) x->p[i][k] -= x->lr * g[i][k] * (n > 5 ? 5 / n : 1);
					if (!tame(x->p[i], 100)) throw Skip{};
					for (size_t k = 0; k < g[i].size(); k++) x->tgt[i][k] -= x->par.target_update_rate_ * (x->tgt[i][k] - x->p[i][k]);
				}
			}
			dq.train();
		}
		c.count("training steps");
	}
};

void n05 (Ctx& c)
{
	static const int weight[] = {FC, CONVL, MLP, MLP, RBM, RBM, DBN, DBN, GD, GD, DQ};
	int kind = weight[c.rng.range(0, 10)];
	Copies w(c, kind);
	size_t n = c.rng.range(5, c.thorough ? 50 : 25);
	for (size_t i = 0; i < n; i++) w.step();
	while (!w.o.empty())
	{
		size_t i = c.rng.range(0, w.o.size() - 1);
		auto h = std::move(w.o[i]->held);
		w.o.erase(w.o.begin() + i);
		w.gone(h, "destroyed");
		w.check_all("after another one was destroyed");
	}
}

}
namespace vh {
std::vector<Group> groups = {
	{"N05", "n05", n05, 4, 4, nullptr},
};
void (*on_start)(void) = nullptr;
static void seed (uint64_t s) { nnutils::seed_generator(s); }
void (*on_case)(uint64_t) = seed;
}
