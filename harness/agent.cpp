// agent.cpp - N03: q-learning agents against a model of their memory, their two networks and their exploration schedule
#include "netref.hpp"
#include <list>

namespace {

static std::string scratch ()
{
	static std::string d;
	if (d.empty())
	{
		const char* b = getenv("VH_SCRATCH");
		d = std::string(b && *b ? b : "/tmp") + "/agent." + std::to_string(getpid());
		mkdir(d.c_str(), 0700);
		atexit([] { std::string f = d + "/q"; unlink(f.c_str()); rmdir(d.c_str()); });
	}
	return d;
}

struct Exp { Vec s; size_t a; double r; Vec n; };

// what one agent is
struct Agent
{
	MlpRef ref;
	rocnnet::dqn_param par;
	Opt opt;
	Params src, tgt;
	std::vector<Exp> mem;
	size_t stores = 0, trains = 0, trained = 0, actions = 0;
	bool acted = false, fed = false;

	Vec score (const Params& p, const Vec& x) const { return ref.fwd<double>(p, x, 1); }
	double target (const Exp& e) const
	{
		if (e.n.empty()) return e.r;
		Vec q = score(tgt, e.n);
		return e.r + par.discount_rate_ * *std::max_element(q.begin(), q.end());
	}
	double prob () const
	{
		if (actions >= par.exploration_period_) return par.rand_action_prob_;
		return 1.0 - actions * (1.0 - par.rand_action_prob_) / par.exploration_period_;
	}
};

size_t choose (size_t n, size_t k) { size_t r = 1; for (size_t i = 1; i <= k; i++) { r = r * (n - k + i) / i; if (r > 100000) return r; } return r; }

void read_target (Ctx& c, rocnnet::dq_net& dq, Agent& m, rocnnet::mlp& probe, const std::string& scope, Params* into, Params* source = nullptr)
{
	std::string f = scratch() + "/q";
	if (!dq.save(f, "")) { c.fail("save", "the agent could not be saved"); throw Skip{}; }
	for (int which = 0; which < 2; which++)
	{
		if (which == 1 && !source) break;
		probe.initialize(f, (which ? "" : "target_") + scope);
		*(which ? source : into) = params(probe.get_variables());
	}
	unlink(f.c_str());
	(void) m;
}

void n03_run (Ctx& c, bool copies)
{
	Rng& r = c.rng;
	srand((unsigned) r.next());
	Agent m;
	m.ref = gen_mlp(r, r.range(1, 2), 4);
	m.opt = gen_opt(r);
	m.par.train_interval_ = r.range(1, 3);
	m.par.store_interval_ = r.range(1, 3);
	m.par.mini_batch_size_ = r.range(1, 4);
	m.par.max_exp_ = m.par.mini_batch_size_ + r.range(0, 4);
	if (r.chance(0.1)) m.par.max_exp_ = m.par.mini_batch_size_ - 1; // never enough to train on
	if (m.par.max_exp_ == 0) m.par.max_exp_ = 1;
	m.par.discount_rate_ = r.chance(0.1) ? 0 : r.chance(0.1) ? 1 : r.real(0, 1);
	m.par.target_update_rate_ = r.chance(0.1) ? 1 : r.chance(0.1) ? 0 : r.real(0, 1);
	m.par.rand_action_prob_ = r.chance(0.5) ? 0 : r.chance(0.3) ? 1 : r.real(0, 1);
	m.par.exploration_period_ = r.chance(0.4) ? 0 : r.range(1, 12);
	std::string scope = r.pick(std::vector<std::string>{"DQN", "agent"});
	rocnnet::mlp* brain = new rocnnet::mlp(m.ref.sz[0], m.ref.hiddens(), "brain");
	rocnnet::mlp probe(m.ref.sz[0], m.ref.hiddens(), "probe");
	bool early = r.chance(0.4);
	if (early) brain->initialize();
	std::unique_ptr<nnet::gd_updater> up(m.opt.make());
	std::unique_ptr<rocnnet::dq_net> dqp(new rocnnet::dq_net(brain, *up, m.par, scope));
	if (r.chance(0.5)) up.reset();
	std::vector<Var*> vs = brain->get_variables();
	// a copy's online variables are only seen through save()
	auto online = [&] () -> Params
	{
		if (vs.size()) return params(vs);
		Params t, s;
		read_target(c, *dqp, m, probe, scope, &t, &s);
		return s;
	};
	struct Old { std::unique_ptr<rocnnet::dq_net> dq; Params src, tgt; };
	std::list<Old> olds;
	auto check_old = [&] (Old& o)
	{
		Params t, s;
		read_target(c, *o.dq, m, probe, scope, &t, &s);
		for (size_t i = 0; i < s.size(); i++)
		{
			same(c, "separate", "online variable " + std::to_string(i) + " of a copied agent", s[i], o.src[i], 0);
			same(c, "separate", "target variable " + std::to_string(i) + " of a copied agent", t[i], o.tgt[i], 0);
		}
		c.count("copied agents compared");
	};
#define dq (*dqp)
	size_t nin = m.ref.sz.front(), nout = m.ref.sz.back();
	c.log(m.ref.str() + " " + m.opt.str() + " train/" + std::to_string(m.par.train_interval_) + " store/" + std::to_string(m.par.store_interval_) + " batch " + std::to_string(m.par.mini_batch_size_) +
		" cap " + std::to_string(m.par.max_exp_) + " discount " + dstr(m.par.discount_rate_) + " rate " + dstr(m.par.target_update_rate_) + " random " + dstr(m.par.rand_action_prob_) + "/" + dstr(m.par.exploration_period_));
	if (!early || r.chance(0.5)) { early = false; dq.initialize(); }
	m.src = params(vs);
	double wscale = r.chance(0.3) ? 3 : 1;
	if (wscale != 1) for (size_t i = 0; i < vs.size(); i++) { m.src[i] = gen_vec(r, m.src[i].size(), wscale); set_var(vs[i], m.src[i]); }
	read_target(c, dq, m, probe, scope, &m.tgt);
	if (early && wscale == 1) for (size_t i = 0; i < vs.size(); i++) same(c, "target", "target network of an initialized network", m.tgt[i], m.src[i], 0);
	auto weights = [&] (const char* when) { Params q = online(); for (size_t i = 0; i < q.size(); i++) same(c, "weights", "online variable " + std::to_string(i) + " " + when, q[i], m.src[i], 0); };
	bool quitting = false;
	// go on with a copy or at another address
	auto replace = [&] ()
	{
		auto other = [&] ()
		{
			rocnnet::dqn_param par;
			par.mini_batch_size_ = 2;
			nnet::vgb_updater up(0.01);
			rocnnet::dq_net* q = new rocnnet::dq_net(new rocnnet::mlp(m.ref.sz[0], m.ref.hiddens(), "other"), up, par, r.chance(0.5) ? scope : "other");
			if (r.chance(0.7)) { q->initialize(); Vec x = gen_vec(r, nin); (*q)(x); q->store(x, 0, 1, x); }
			return q;
		};
		std::unique_ptr<rocnnet::dq_net> n;
		size_t how = r.range(0, 3);
		static const char* names[] = {"copy", "copy by assignment", "move", "move by assignment"};
		c.log(names[how]);
		c.count(std::string("agents: ") + names[how]);
		if (how == 0) n.reset(new rocnnet::dq_net(*dqp, scope));
		else if (how == 1) { n.reset(other()); *n = *dqp; }
		else if (how == 2) n.reset(new rocnnet::dq_net(std::move(*dqp), scope));
		else { n.reset(other()); *n = std::move(*dqp); }
		if (how < 2 && r.chance(0.6))
		{
			Params t;
			read_target(c, *dqp, m, probe, scope, &t);
			olds.push_back(Old{std::move(dqp), m.src, t});
		}
		dqp = std::move(n);
		vs.clear();
		m.opt.m.clear(); // (a copied updater's averages start anew)
		Params t, s;
		read_target(c, dq, m, probe, scope, &t, &s);
		for (size_t i = 0; i < s.size(); i++)
		{
			same(c, "copy", "online variable " + std::to_string(i) + " after a " + names[how], s[i], m.src[i], 0);
			same(c, "copy", "target variable " + std::to_string(i) + " after a " + names[how], t[i], m.tgt[i], 1e-6);
		}
	};
	for (size_t k = r.range(10, c.thorough ? 80 : 40); k > 0 && !quitting; k--)
	{
		if (copies && r.chance(0.12)) replace();
		if (olds.size() && r.chance(0.1)) { check_old(olds.front()); if (r.chance(0.5)) olds.pop_front(); }
		switch (r.range(0, 9))
		{
			case 0:
			{
				Vec x = gen_vec(r, nin);
				Vec want = m.score(m.src, x);
				if (!tame(want, 1e6)) throw Skip{};
				same(c, "score", "action scores", dq(x), want, 1e-7);
				c.count("scores");
				break;
			}
			case 1: case 2:
			{
				Vec x = gen_vec(r, nin);
				Vec q = m.score(m.src, x);
				if (!tame(q, 1e6)) throw Skip{};
				m.actions++;
				double p = m.prob();
				double a = dq.action(x);
				c.event();
				c.log("action " + dstr(a));
				if (!(a >= 0 && a < nout && a == std::floor(a))) { c.fail("action", "action " + dstr(a) + " of " + std::to_string(nout)); return; }
				double best = *std::max_element(q.begin(), q.end());
				size_t ties = 0;
				for (double v : q) if (std::fabs(v - best) < 1e-9 * (1 + std::fabs(best))) ties++;
				if (p <= 0 && ties == 1)
				{
					c.event();
					if (q[(size_t) a] != best && std::fabs(q[(size_t) a] - best) > 1e-9 * (1 + std::fabs(best)))
					{ c.fail("greedy", "without exploration action " + dstr(a) + " was taken for scores " + vstr(q)); return; }
					c.count("greedy actions");
				}
				weights("after an action");
				break;
			}
			case 3: case 4: case 5: case 6:
			{
				Exp e{gen_vec(r, nin), r.range(0, nout - 1), r.real(-2, 2), r.chance(0.25) ? Vec() : gen_vec(r, nin)};
				dq.store(e.s, e.a, e.r, e.n);
				if (m.stores++ % m.par.store_interval_ == 0)
				{
					m.mem.push_back(e);
					if (m.mem.size() > m.par.max_exp_) { m.mem.erase(m.mem.begin()); c.count("forgotten experiences"); }
				}
				c.log("store");
				break;
			}
			default:
			{
				bool due = m.trains % m.par.train_interval_ == 0;
				bool enough = m.mem.size() >= m.par.mini_batch_size_;
				size_t B = m.par.mini_batch_size_;
				if (due && enough && choose(m.mem.size(), B) > 300) throw Skip{};
				std::vector<Params> each;
				if (due && enough)
				{
					for (Exp& e : m.mem)
					{
						double t = m.target(e);
						if (!tame(m.score(m.src, e.s), 1e3) || !(std::fabs(t) < 1e3)) throw Skip{};
						each.push_back(gradient(m.src, [&] (const std::vector<std::vector<Dual> >& p) -> Dual
						{
							Dual d = m.ref.fwd<Dual>(p, e.s, 1)[e.a] - Dual(t);
							return d * d;
						}));
						for (auto& v : each.back()) if (!tame(v, 1e5)) throw Skip{};
					}
				}
				dq.train();
				c.log(due && enough ? "train" : "train (nothing to do)");
				if (!due || !enough)
				{
					if (!(due && !enough)) m.trains++;
					weights("after a call that does not train");
					c.count("calls that do not train");
				}
				else
				{
					m.trains++;
					Params got = online();
					// the batches it may have drawn
					std::vector<size_t> pick(B);
					for (size_t i = 0; i < B; i++) pick[i] = i;
					size_t found = 0, tried = 0;
					Params next;
					Opt nopt;
					std::vector<size_t> which;
					std::string near;
					double nearest = 1e300;
					while (true)
					{
						Params g;
						for (auto& v : m.src) g.push_back(Vec(v.size(), 0));
						for (size_t i : pick) for (size_t v = 0; v < g.size(); v++) for (size_t q = 0; q < g[v].size(); q++) g[v][q] += each[i][v][q] / B;
						bool clipped = false;
						for (auto& v : g)
						{
							double n = 0;
							for (double x : v) n += x * x;
							n = std::sqrt(n);
							if (n > 5) { clipped = true; for (double& x : v) x *= 5 / n; }
						}
						Params p = m.src;
						Opt o = m.opt;
						o.step(p, g);
						bool fits = true;
						double far = 0;
						for (size_t v = 0; v < p.size(); v++)
						{
							fits = fits && equal(got[v], p[v], 1e-6);
							for (size_t q = 0; q < p[v].size(); q++) far = std::max(far, std::fabs(p[v][q] - got[v][q]));
						}
						tried++;
						if (far < nearest) { nearest = far; near.clear(); for (size_t v = 0; v < p.size(); v++) near += "\n  " + vstr(p[v]) + " got " + vstr(got[v]); }
						if (fits) { if (clipped) c.count("clipped steps"); if (!found) { next = p; nopt = o; which = pick; } found++; }
						// next combination
						size_t i = B;
						while (i > 0 && pick[i-1] == m.mem.size() - B + i - 1) i--;
						if (!i) break;
						pick[i-1]++;
						for (; i < B; i++) pick[i] = pick[i-1] + 1;
					}
					c.event();
					if (!found)
					{
						c.fail("step", "no mini-batch of " + std::to_string(B) + " of the " + std::to_string(m.mem.size()) + " stored experiences explains the training step (" + std::to_string(tried) + " tried), closest:" + near);
						return;
					}
					c.count(m.opt.rms ? "rms training steps" : "training steps");
					if (tried > 1) c.count("steps on samples");
					if (found > 1) { c.count("ambiguous samples"); quitting = m.opt.rms; }
					m.opt = nopt;
					m.trained++;
					m.src = got;
					for (auto& v : m.src) if (!tame(v, 100)) throw Skip{};
					for (size_t v = 0; v < m.tgt.size(); v++) for (size_t q = 0; q < m.tgt[v].size(); q++)
						m.tgt[v][q] -= m.par.target_update_rate_ * (m.tgt[v][q] - m.src[v][q]);
					c.event();
					if (found == 1 && r.chance(0.5))
					{
						double e = 0;
						for (size_t i : which) { double d = m.score(m.src, m.mem[i].s)[m.mem[i].a] - m.target(m.mem[i]); e += d * d / B; }
						same(c, "error", "reported error", eval_vec(c, "error", const_cast<nnet::iconnector<double>*>(dq.get_error()), Shp{1}), Vec{e}, 1e-6);
					}
				}
				c.event();
				if (dq.get_numtrained() != m.trained) { c.fail("counter", std::to_string(dq.get_numtrained()) + " trainings reported instead of " + std::to_string(m.trained)); return; }
				if (r.chance(0.4))
				{
					Params t, s;
					read_target(c, dq, m, probe, scope, &t, &s);
					for (size_t v = 0; v < t.size(); v++)
					{
						same(c, "target", "target variable " + std::to_string(v), t[v], m.tgt[v], 1e-6);
						same(c, "target", "saved variable " + std::to_string(v), s[v], m.src[v], 0);
					}
					m.tgt = t;
					c.count("target networks compared");
				}
			}
		}
	}
	for (Old& o : olds) check_old(o);
}
#undef dq
void n03 (Ctx& c) { n03_run(c, false); }
void n03_copies (Ctx& c) { n03_run(c, true); }

// exploration follows its schedule
void n03_explore (Ctx& c)
{
	Rng& r = c.rng;
	MlpRef ref;
	ref.sz = {2, r.range(2, 5)};
	ref.acts = {A_ID};
	rocnnet::dqn_param par;
	par.rand_action_prob_ = r.chance(0.3) ? 0 : r.chance(0.3) ? 1 : r.real(0, 1);
	par.exploration_period_ = r.chance(0.3) ? 0 : r.range(1, 300);
	par.mini_batch_size_ = 1;
	nnet::vgb_updater up(0.1);
	rocnnet::mlp* brain = new rocnnet::mlp(2, ref.hiddens(), "brain");
	rocnnet::dq_net dq(brain, up, par);
	dq.initialize();
	std::vector<Var*> vs = brain->get_variables();
	size_t n = ref.sz[1], best = r.range(0, n - 1), N = 600;
	set_var(vs[0], Vec(2 * n, 0));
	Vec b(n, 0);
	b[best] = 1;
	set_var(vs[1], b);
	c.log("explore " + std::to_string(n) + " best " + std::to_string(best) + " " + dstr(par.rand_action_prob_) + "/" + dstr(par.exploration_period_));
	// expected number of each action in the phases of the schedule
	std::vector<std::pair<double, double> > want(3 * n); // mean, variance
	Vec seen(3 * n, 0);
	size_t after = 0;
	for (size_t t = 1; t <= N; t++)
	{
		double p = t >= par.exploration_period_ ? par.rand_action_prob_ : 1 - t * (1 - par.rand_action_prob_) / par.exploration_period_;
		Vec x{r.real(-1, 1), r.real(-1, 1)};
		double a = dq.action(x);
		c.event();
		if (!(a >= 0 && a < n && a == std::floor(a))) { c.fail("action", "action " + dstr(a) + " of " + std::to_string(n)); return; }
		if (p <= 0 && a != best) { c.fail("greedy", "explored at action " + std::to_string(t) + " although exploration is over"); return; }
		size_t phase = t >= par.exploration_period_ ? 2 : 2 * t >= par.exploration_period_ ? 1 : 0;
		after += phase == 2;
		for (size_t i = 0; i < n; i++)
		{
			double q = p / n + (i == best ? 1 - p : 0);
			want[phase * n + i].first += q;
			want[phase * n + i].second += q * (1 - q);
		}
		seen[phase * n + (size_t) a]++;
	}
	for (size_t i = 0; i < 3 * n; i++)
	{
		c.event();
		double sd = std::sqrt(want[i].second);
		if (std::fabs(seen[i] - want[i].first) > 6.5 * sd + 6)
		{ c.fail("exploration", "action " + std::to_string(i % n) + " was taken " + dstr(seen[i]) + " times in phase " + std::to_string(i / n) + " of the schedule instead of about " + dstr(want[i].first)); return; }
	}
	c.count("exploration schedules");
}

// every stored experience is drawn, about equally often
void n03_sampling (Ctx& c)
{
	Rng& r = c.rng;
	srand((unsigned) r.next());
	size_t n = r.range(2, 6), B = r.range(1, n - 1), N = 300;
	rocnnet::dqn_param par;
	par.train_interval_ = par.store_interval_ = 1;
	par.mini_batch_size_ = B;
	par.max_exp_ = n + r.range(0, 3);
	par.target_update_rate_ = 0;
	par.discount_rate_ = 0;
	// one output per experience with score 0 and reward 1: the bias of each drawn experience moves by 2*rate/B
	std::vector<rocnnet::IN_PAIR> h{rocnnet::IN_PAIR(n, act_fn(A_ID))};
	rocnnet::mlp* brain = new rocnnet::mlp(1, h, "brain");
	nnet::vgb_updater up(0.5);
	rocnnet::dq_net dq(brain, up, par);
	dq.initialize();
	std::vector<Var*> vs = brain->get_variables();
	for (size_t i = 0; i < n; i++) dq.store(Vec{0}, i, 1, Vec());
	c.log("sampling " + std::to_string(B) + " of " + std::to_string(n));
	Vec seen(n, 0);
	for (size_t t = 0; t < N; t++)
	{
		set_var(vs[0], Vec(n, 0));
		set_var(vs[1], Vec(n, 0));
		dq.train();
		Vec b = params(vs)[1];
		size_t moved = 0;
		c.event();
		for (size_t i = 0; i < n; i++)
		{
			if (b[i] == 0) continue;
			moved++;
			seen[i]++;
			if (std::fabs(b[i] - 1.0 / B) > 1e-9) { c.fail("sample", "bias moved by " + dstr(b[i]) + " instead of " + dstr(1.0 / B) + " for a batch of " + std::to_string(B)); return; }
		}
		if (moved != B) { c.fail("sample", std::to_string(moved) + " experiences in a batch of " + std::to_string(B)); return; }
	}
	double p = (double) B / n, sd = std::sqrt(N * p * (1 - p));
	for (size_t i = 0; i < n; i++)
	{
		c.event();
		if (std::fabs(seen[i] - N * p) > 6.5 * sd + 2) { c.fail("sampling", "experience " + std::to_string(i) + " of " + std::to_string(n) + " was drawn " + dstr(seen[i]) + " times instead of about " + dstr(N * p)); return; }
	}
	c.count("sampling distributions");
}

}
namespace vh {
std::vector<Group> groups = {
	{"N03", "n03", n03, 10, 4, nullptr},
	{"N03,N05", "n03_copies", n03_copies, 3, 4, nullptr},
	{"N03", "n03_explore", n03_explore, 1, 4, nullptr},
	{"N03", "n03_sampling", n03_sampling, 1, 4, nullptr},
};
void (*on_start)(void) = nullptr;
static void seed (uint64_t s) { nnutils::seed_generator(s); }
void (*on_case)(uint64_t) = seed;
}
