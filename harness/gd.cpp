// gd.cpp - G01 (gradient descent updates) and G02 (RMSprop)
#include "dgraph.hpp"
#include "utils/gd_utils.hpp"

namespace {

static std::vector<Node*> dumps;
using nnet::updates_t;
using nnet::variable_updater;

// post-processing of a gradient, in the library and in the reference
struct Proc
{
	int kind = 0;
	double k = 1;
	std::string str () const { static const char* n[] = {"none", "scaled", "clipped", "decay", "negated", "squared"}; return std::string(n[kind]) + "(" + dstr(k) + ")"; }
	nnet::grad_process fn () const
	{
		int kd = kind; double q = k;
		return [kd, q](Ptr grad, Var* leaf) -> Ptr
		{
			switch (kd)
			{
				case 1: return grad * q;
				case 2: return nnet::clip_norm<double>(grad, q);
				case 3: if (getenv("VH_DUMP")) { fprintf(stderr, "GRAD\n"); dump(grad.get()); } { Ptr z = grad + q * Ptr(leaf); dumps.push_back(z.get()); return z; }
				case 4: return -grad;
				case 5: return grad * grad;
				default: return grad;
			}
		};
	}
	RT ref (const RT& g, const RT& leaf) const
	{
		RT o = g;
		double n = 0;
		for (double x : g.v) n += x * x;
		n = std::sqrt(n);
		for (size_t i = 0; i < o.n(); i++) switch (kind)
		{
			case 1: o.v[i] *= k; break;
			case 2: if (n > k) o.v[i] *= k / n; break;
			case 3: o.v[i] += k * leaf.v[i]; break;
			case 4: o.v[i] = -o.v[i]; break;
			case 5: o.v[i] *= o.v[i]; break;
			default: break;
		}
		return o;
	}
};

// the expression being minimised and how the reference differentiates it
struct Problem
{
	Ctx& c;
	std::unique_ptr<Elem> e;
	std::unique_ptr<Net> n;
	World* w;
	std::vector<int> losses;
	std::set<int> squared;	// losses whose gradients are part of the loss' graph
	bool net;
	std::map<std::pair<int,int>, std::pair<uint64_t, FD> > memo;
	Graph& g () { return w->g; }
	explicit Problem (Ctx& x) : c(x)
	{
		net = c.rng.chance(0.5);
		if (net)
		{
			n.reset(new Net(c));
			w = n.get();
			int h = n->leaf(Shp{c.rng.range(1, 3), c.rng.range(1, 3)}, false);
			for (size_t k = c.rng.range(1, 2); k > 0; k--) h = n->layer(h);
			auto err = [&] () -> int
			{
				if (c.rng.chance(0.4)) return n->error(h);
				int t = n->leaf(n->sh(h), false);
				int d = c.rng.chance(0.5) ? n->op2(SUB, t, h) : n->op2(SUB, h, t);
				int e = c.rng.chance(0.5) ? n->op2(MUL, d, d) : n->op(mk(POW, 2), {d});
				squared.insert(e);
				return e;
			};
			int er = err(), rd = n->reduce(er);
			if (squared.count(er)) squared.insert(rd);
			losses.push_back(rd);
			if (c.rng.chance(0.3)) losses.push_back(err());
		}
		else
		{
			e.reset(new Elem(c));
			w = e.get();
			e->s = gen_shape(c.rng, 3, 3, 6);
			size_t nv = c.rng.range(1, 4);
			for (size_t i = 0; i < nv; i++) { int l = w->g.add_var(c, gen_tensor(c.rng, e->s)); e->leaves.push_back(l); e->pool.push_back(l); }
			if (c.rng.chance(0.5)) e->pool.push_back(w->g.add_place(c, gen_tensor(c.rng, e->s), e->s));
			for (size_t k = c.rng.range(2, 7); k > 0; k--) e->grow();
			for (size_t k = c.rng.range(1, 2); k > 0; k--)
			{
				int a = k > 1 ? c.rng.pick(e->pool) : e->pool.back();
				if (!w->g[a].args.empty() && w->g.real_leaf(a) && !dynamic_cast<Const*>(w->g[a].raw) && !w->has(a, POW)) losses.push_back(a);
			}
			for (int i = (int) losses.size() - 1; i >= 0; i--) if (c.rng.chance(0.6))
			{
				int t = c.rng.chance(0.5) ? c.rng.pick(e->leaves) : w->g.add_place(c, gen_tensor(c.rng, e->s), e->s);
				Op o; o.k = SUB;
				int d = e->add(o, {losses[i], t});
				if (d < 0) continue;
				o.k = MUL;
				int q = e->add(o, {d, d});
				if (q < 0) continue;
				losses[i] = q;
				squared.insert(q);
			}
			if (losses.empty()) throw Skip{};
			// an element of the gradient must not stand for a tensor of another shape
			for (int l : losses) if (w->val(l).s != e->s) throw Skip{};
		}
		c.nobalance = true; // gradients build connectors over constants (known finding)
		c.log(w->dump());
		for (int i = 0; i < g().size(); i++) if (g()[i].args.empty() && g()[i].var) vars.push_back(i);
	}
	std::vector<int> vars;
	FD grad (int loss, int v)
	{
		if (!w->moderate()) throw Skip{};
		auto& m = memo[std::make_pair(loss, v)];
		if (m.second.d.empty() || m.first != g().version)
		{
			m.first = g().version;
			m.second = g().depends(loss, v) ? (net ? w->gradient(loss, v) : w->pointwise(loss, v)) : zero(v);
			for (size_t i = 0; i < m.second.d.size(); i++)
			{
				double tol = 1e-7 * (1 + std::fabs(m.second.d[i])) + 20 * m.second.err[i];
				if (!(tol < 1e-4)) throw Skip{};
			}
		}
		return m.second;
	}
	FD zero (int v) { FD f; f.d.assign(g()[v].val.n(), 0); f.err.assign(g()[v].val.n(), 0); return f; }
	RT lib (int v)
	{
		Got q = get(g()[v].var);
		if (!q.has) { c.fail("lost", "variable " + g().describe(v) + " has no data"); throw Skip{}; }
		return q.t;
	}
};

bool samebits (const RT& a, const RT& b) { return a.s == b.s && !memcmp(a.v.data(), b.v.data(), a.n() * sizeof(double)); }

// a running average of squared gradients
struct Rms { RT m, err; };

// the updates one calculate call returned
struct Session
{
	int loss;
	double lr, disc = 0;
	bool rms = false;
	Proc proc;
	std::set<int> ignored;
	updates_t ups;
	std::vector<int> of;		// which variable each update moves (-1: not seen yet)
	std::map<int, Rms> rm;
	int owner = -1;
	bool touchy () const { return proc.kind == 2; }
};

struct Gd
{
	Ctx& c;
	Rng& r;
	Problem p;
	struct Up { std::unique_ptr<nnet::gd_updater> u; double lr, disc; bool rms; std::set<int> ignored; };
	std::vector<Up> ups;
	std::vector<std::unique_ptr<Session> > ss;
	explicit Gd (Ctx& x) : c(x), r(x.rng), p(x) {}
	~Gd ()
	{
		ss.clear();
		ups.clear();
	}
	void new_updater (bool rms)
	{
		Up u;
		u.rms = rms;
		u.lr = r.chance(0.2) ? 0.5 : r.real(0.01, 0.8);
		u.disc = r.chance(0.2) ? 0.99 : r.chance(0.15) ? (r.chance(0.5) ? 0 : 1) : r.real(0.1, 0.99);
		if (rms) u.u.reset(new nnet::rmspropupdater(u.lr, u.disc));
		else u.u.reset(new nnet::vgb_updater(u.lr));
		c.log("new updater " + std::to_string(ups.size()) + (rms ? " rms lr " : " lr ") + dstr(u.lr) + " discount " + dstr(u.disc));
		ups.push_back(std::move(u));
	}
	void tweak ()
	{
		size_t ui = r.range(0, ups.size() - 1);
		Up& u = ups[ui];
		switch (r.range(0, 5))
		{
			case 0: u.lr = r.real(0.01, 0.8); u.u->set_learning_rate(u.lr); c.log("rate of " + std::to_string(ui) + " = " + dstr(u.lr)); break;
			case 1:
			{
				int i = (int) r.range(0, p.g().size() - 1);
				if (dynamic_cast<Const*>(p.g()[i].raw) || p.g()[i].dead) break;
				// (operations that reduce to something else depend on less)
				std::unordered_set<nnet::ileaf<double>*> ls = p.g()[i].h->get_leaves();
				for (int v : p.vars) if (p.g().depends(i, v))
				{
					bool has = ls.count(p.g()[v].var) > 0;
					if (has) u.ignored.insert(v);
				}
				u.u->ignore_subtree(p.g()[i].h.get());
				c.log("updater " + std::to_string(ui) + " ignores n" + std::to_string(i));
				break;
			}
			case 2: u.u->clear_ignore(); u.ignored.clear(); c.log("updater " + std::to_string(ui) + " ignores nothing"); break;
			case 3:
			case 4:
			{
				if (ups.size() > 3) break;
				Up q;
				q.lr = u.lr; q.disc = u.disc; q.rms = u.rms; q.ignored = u.ignored;
				bool mv = r.chance(0.3);
				q.u.reset(mv ? u.u->move() : u.u->clone());
				if (mv) { u.u->clear_ignore(); u.u->set_learning_rate(u.lr); u.ignored.clear(); }
				c.log(std::string(mv ? "move" : "clone") + " of updater " + std::to_string(ui));
				ups.push_back(std::move(q));
				break;
			}
			default:
				if (u.rms)
				{
					u.disc = r.real(0.1, 0.99);
					static_cast<nnet::rmspropupdater*>(u.u.get())->set_discount_factor(u.disc);
					c.log("discount of " + std::to_string(ui) + " = " + dstr(u.disc));
				}
		}
	}
	bool calc ()
	{
		size_t ui = r.range(0, ups.size() - 1);
		Up& u = ups[ui];
		std::unique_ptr<Session> s(new Session);
		s->loss = r.pick(p.losses);
		s->lr = u.lr; s->disc = u.disc; s->rms = u.rms; s->ignored = u.ignored; s->owner = (int) ui;
		s->proc.kind = r.chance(0.5) ? 0 : (int) r.range(1, 5);
		s->proc.k = s->proc.kind == 3 ? r.real(0.01, 0.3) : r.real(0.2, 2);
		Node* root = p.g()[s->loss].h.get();
		s->ups = s->proc.kind == 0 && r.chance(0.7) ? u.u->calculate(root) : u.u->calculate(root, s->proc.fn());
		// the variables the expression depends on as far as the library's own structure goes
		size_t must = 0, may = 0;
		for (int v : p.vars) if (!s->ignored.count(v) && p.g().depends(s->loss, v))
		{
			may++;
			FD f = p.grad(s->loss, v);
			bool nz = false;
			for (double x : f.d) nz = nz || std::fabs(x) > 1e-4;
			if (nz) must++;
		}
		c.log("calculate n" + std::to_string(s->loss) + " with updater " + std::to_string(ui) + " " + s->proc.str() + ": " + std::to_string(s->ups.size()) + " updates");
		c.event();
		if (s->ups.size() < must || s->ups.size() > may)
		{
			c.fail("count", std::to_string(s->ups.size()) + " updates for " + std::to_string(must) + ".." + std::to_string(may) + " trainable variables");
			return false;
		}
		s->of.assign(s->ups.size(), -1);
		if (s->rms) for (int v : p.vars)
		{
			Rms q;
			q.m = p.g()[v].val; q.err = q.m;
			for (double& x : q.m.v) x = 1;
			for (double& x : q.err.v) x = 0;
			s->rm[v] = q;
		}
		ss.push_back(std::move(s));
		return true;
	}
	// what one step must make of variable v given the gradient and leaf values in force
	void step (Session& s, int v, const FD& f, const RT& cur, RT& want, RT& tol)
	{
		auto go = [&] (double sg, Rms& m) -> RT
		{
			RT gr(cur.s, f.d);
			for (size_t i = 0; i < gr.n(); i++) gr.v[i] += sg * (1e-7 * (1 + std::fabs(gr.v[i])) + 20 * f.err[i]) * (f.err[i] == 0 && f.d[i] == 0 ? 0 : 1);
			gr = s.proc.ref(gr, cur);
			RT d = gr;
			for (size_t i = 0; i < gr.n(); i++)
			{
				d.v[i] *= s.lr;
				if (s.rms)
				{
					m.m.v[i] = s.disc * m.m.v[i] + (1 - s.disc) * gr.v[i] * gr.v[i];
					d.v[i] /= std::sqrt(m.m.v[i]) + std::numeric_limits<double>::epsilon();
				}
			}
			return d;
		};
		Rms mid, lo, hi;
		if (s.rms)
		{
			mid = lo = hi = s.rm[v];
			for (size_t i = 0; i < mid.m.n(); i++) { lo.m.v[i] = std::max(0.0, lo.m.v[i] - mid.err.v[i]); hi.m.v[i] += mid.err.v[i]; }
		}
		Rms a = lo, b = hi, a2 = lo, b2 = hi;
		RT d = go(0, mid), d1 = go(1, a), d2 = go(-1, b), d3 = go(-1, a2), d4 = go(1, b2);
		want = cur; tol = cur;
		for (size_t i = 0; i < want.n(); i++)
		{
			want.v[i] = cur.v[i] - d.v[i];
			double e = 0;
			for (const RT* q : {&d1, &d2, &d3, &d4}) e = std::max(e, std::fabs(q->v[i] - d.v[i]));
			tol.v[i] = 2 * e + 1e-9 * (1 + std::fabs(want.v[i]) + std::fabs(d.v[i]));
			if (!(tol.v[i] < 1e-3)) throw Skip{};
		}
		if (s.rms)
		{
			for (size_t i = 0; i < mid.m.n(); i++)
			{
				double e = 0;
				for (const Rms* q : {&a, &b, &a2, &b2}) e = std::max(e, std::fabs(q->m.v[i] - mid.m.v[i]));
				mid.err.v[i] = e + 1e-12;
			}
			s.rm[v] = mid;
		}
	}
	bool uniform (const FD& f) { for (double x : f.d) if (std::fabs(x - f.d[0]) > 1e-5 * (1 + std::fabs(x))) return false; return true; }
	typedef std::map<int, std::pair<FD, RT> > Frozen; // gradients and values per variable while frozen
	// runs update k of a session and checks what it did
	void run (Session& s, size_t k, Frozen* fz)
	{
		std::map<int, RT> before;
		for (int v : p.vars) { before[v] = p.lib(v); if (!samebits(before[v], p.g()[v].val)) { c.fail("drift", "variable " + p.g().describe(v) + " changed by itself to " + tstr(before[v])); return; } }
		// expectations before the step
		std::map<int, std::pair<FD, RT> > ex;
		for (int v : p.vars) if (!s.ignored.count(v) && (s.of[k] < 0 || s.of[k] == v))
			ex[v] = fz ? (*fz)[v] : std::make_pair(p.grad(s.loss, v), before[v]);
		if (getenv("VH_DUMP")) for (auto& a : dumps) { fprintf(stderr, "--\n"); dump(a); }
		s.ups[k](true);
		int moved = -1;
		for (int v : p.vars)
		{
			RT now = p.lib(v);
			if (samebits(now, before[v])) continue;
			if (moved >= 0) { c.fail("many", "one update changed variables n" + std::to_string(moved) + " and n" + std::to_string(v)); return; }
			moved = v;
		}
		c.log("update " + std::to_string(k) + " moved n" + std::to_string(moved));
		c.event();
		if (moved >= 0 && s.ignored.count(moved)) { c.fail("ignored", "an update moved the ignored variable n" + std::to_string(moved)); return; }
		if (moved >= 0 && s.of[k] >= 0 && s.of[k] != moved) { c.fail("other", "an update of n" + std::to_string(s.of[k]) + " moved n" + std::to_string(moved)); return; }
		if (moved >= 0 && s.of[k] < 0)
		{
			for (int o : s.of) if (o == moved) { c.fail("twice", "two updates move n" + std::to_string(moved)); return; }
			s.of[k] = moved;
		}
		int v = s.of[k];
		if (v < 0)
		{
			c.count("updates that moved nothing");
			if (!s.rms) return;
			// its running average moved all the same: of which variable?
			for (auto& e : ex)
			{
				bool zero = std::find(s.of.begin(), s.of.end(), e.first) == s.of.end() && p.g().depends(s.loss, e.first);
				for (double x : e.second.first.d) zero = zero && std::fabs(x) < 1e-7;
				if (!zero) continue;
				if (v >= 0) throw Skip{};
				v = e.first;
			}
			if (v < 0) throw Skip{};
			s.of[k] = v;
		}
		RT base, tol, now = p.lib(v);
		step(s, v, ex[v].first, ex[v].second, base, tol);
		for (size_t i = 0; i < now.n(); i++)
		{
			// from where the variable is now, by the step of the state in force
			double want = before[v].v[i] + (base.v[i] - ex[v].second.v[i]);
			c.event();
			if (std::fabs(now.v[i] - want) <= tol.v[i] + 1e-9 * (1 + std::fabs(want))) continue;
			// a scalar may stand for a gradient of equal elements, and has another norm
			if (s.proc.kind == 2 && uniform(ex[v].first)) { c.count("clipped scalars"); continue; }
			c.fail("step", "update of n" + std::to_string(v) + " (rate " + dstr(s.lr) + (s.rms ? ", rms discount " + dstr(s.disc) : "") + ", " + s.proc.str() + (fz ? ", frozen" : "") + ") on n" + std::to_string(s.loss) + " made element " + std::to_string(i)
				+ " " + dstr(now.v[i]) + " instead of " + dstr(want) + "\n  before " + tstr(before[v]) + "\n  after  " + tstr(now) + "\n  gradient " + tstr(RT(now.s, ex[v].first.d)));
			return;
		}
		p.g()[v].val = now;
		p.g().version++;
		c.count(s.rms ? "rms steps" : "steps");
		if (!p.w->moderate()) throw Skip{};
	}
	void check_all (const char* when)
	{
		for (int l : p.losses) p.g().check(c, l, when);
		for (int i = 0; i < p.g().size(); i++) if (p.g()[i].args.empty() && r.chance(0.3)) p.g().check(c, i, when);
	}
	// a session is complete when every variable with a gradient has been moved by one of its updates
	void complete (Session& s, Frozen* fz)
	{
		for (int v : p.vars)
		{
			if (s.ignored.count(v)) continue;
			bool seen = std::find(s.of.begin(), s.of.end(), v) != s.of.end();
			if (seen) continue;
			FD f = fz ? (*fz)[v].first : p.grad(s.loss, v);
			RT gr = s.proc.ref(RT(p.g()[v].val.s, f.d), p.g()[v].val);
			if (s.proc.kind == 3 && !p.g().depends(s.loss, v)) continue;
			bool nz = false;
			for (double x : f.d) nz = nz || std::fabs(x) > 1e-3;
			for (double x : gr.v) nz = nz && std::fabs(x) > 1e-4;
			if (nz) { c.fail("missing", "no update moved n" + std::to_string(v) + " with gradient " + tstr(gr)); return; }
		}
	}
	void inputs ()
	{
		std::vector<int> ls;
		for (int i = 0; i < p.g().size(); i++) if (p.g()[i].args.empty() && p.g()[i].lk != LCONST) ls.push_back(i);
		int l = r.pick(ls);
		RT v = p.g()[l].val;
		for (double& x : v.v) x *= r.real(0.8, 1.2);
		p.g().set(c, l, v);
		c.log("set " + p.g().describe(l));
	}
	void sequential (Session& s)
	{
		std::vector<size_t> order;
		for (size_t k = 0; k < s.ups.size(); k++) order.push_back(k);
		r.shuffle(order);
		bool whole = r.chance(0.7);
		for (size_t k : order)
		{
			if (!whole && r.chance(0.4)) continue;
			run(s, k, nullptr);
			if (r.chance(0.3)) check_all("after an update");
		}
		c.count("sequential rounds");
	}
	void frozen (Session& s)
	{
		// gradients over leaves only don't belong to any graph of the loss and are not frozen (known finding)
		if (!p.squared.count(s.loss)) { sequential(s); return; }
		Frozen fz;
		for (int v : p.vars) fz[v] = std::make_pair(p.grad(s.loss, v), p.g()[v].val);
		Conn* root = dynamic_cast<Conn*>(p.g()[s.loss].h.get());
		if (!root) return;
		// (and a decay alone is one over leaves only)
		if (s.proc.kind == 3) for (auto& f : fz)
		{
			bool zero = true;
			for (double x : f.second.first.d) zero = zero && std::fabs(x) < 1e-7;
			if (zero) { sequential(s); return; }
		}
		root->freeze_status(true);
		c.log("freeze");
		std::vector<size_t> order;
		for (size_t k = 0; k < s.ups.size(); k++) order.push_back(k);
		// RMS state is defined per step, so each once
		if (!s.rms && r.chance(0.2)) for (size_t k = 0; k < s.ups.size(); k++) order.push_back(k);
		r.shuffle(order);
		for (size_t k : order) run(s, k, &fz);
		root->freeze_status(false);
		c.log("thaw");
		complete(s, &fz);
		c.count("frozen rounds");
		check_all("after a frozen round");
	}
};

void session (Ctx& c, bool rms)
{
	Gd d(c);
	Rng& r = c.rng;
	if (d.p.vars.empty()) throw Skip{};
	d.new_updater(rms);
	if (r.chance(0.3)) d.new_updater(rms || r.chance(0.3));
	for (size_t k = r.range(0, 3); k > 0; k--) d.tweak();
	if (!d.calc()) return;
	for (size_t k = r.range(3, c.thorough ? 12 : 8); k > 0; k--)
	{
		switch (r.range(0, 9))
		{
			case 0: d.tweak(); break;
			case 1: d.inputs(); break;
			case 2: if (d.ss.size() < 3 && !d.calc()) return; break;
			case 3: case 4: case 5: d.sequential(*r.pick(d.ss)); break;
			default: d.frozen(*r.pick(d.ss)); break;
		}
	}
	d.check_all("at the end");
	// everything goes in some order; nobody may touch what is gone
	if (r.chance(0.5))
	{
		c.log("destroy updaters first");
		d.ups.clear();
		d.check_all("without updaters");
		d.inputs();
		d.check_all("without updaters");
	}
	else if (r.chance(0.5))
	{
		c.log("destroy the graph first");
		d.p.g().clear();
		d.ups.clear();
	}
}

void g01 (Ctx& c) { session(c, false); }
void g02 (Ctx& c) { session(c, true); }

}
namespace vh {
std::vector<Group> groups = {
	{"G01", "g01", g01, 4, 4, nullptr},
	{"G02", "g02", g02, 4, 4, nullptr},
};
void (*on_start)(void) = nullptr;
static void seed (uint64_t s) { nnutils::seed_generator(s); }
void (*on_case)(uint64_t) = seed;
}
