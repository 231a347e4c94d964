// graph2.hpp - R05 (copies, moves, assignments of nodes) and R07 (failing evaluations); included by graph.cpp
namespace {

// ---------- R07 ----------

struct Broken : public Sess
{
	std::map<int, Shp> first;	// shape every node had when it was built
	explicit Broken (Ctx& x) : Sess(x) {}
	void remember (int i)
	{
		RT v;
		if (i >= 0 && !first.count(i) && g.value(i, v)) first[i] = v.s;
	}
	// every node on the way keeps the shape it was first evaluated with
	bool same_shapes (int i)
	{
		RT v;
		if (!g.value(i, v) || !first.count(i) || !same_shape(first[i], v.s)) return false;
		for (int k : g[i].args) if (!same_shapes(k)) return false;
		return true;
	}
	bool user_code (int i)
	{
		for (int k : allops(i)) if (g[k].op.k == COMPRESS) return true;
		return false;
	}
	void put (int l, RT v)
	{
		bool threw = false;
		try
		{
			if (g[l].place)
			{
				nnet::tensor<double> t{nnet::tensorshape(v.s)};
				nnet::assign_func<double> as;
				as(t, v.v);
				*g[l].place = t;
			}
			else
			{
				Ptr k = Const::get(v.v, nnet::tensorshape(v.s));
				g[l].var->assign(k.get())(true);
			}
		}
		catch (std::exception&) { threw = true; }
		g[l].val = v;
		g[l].init = true;
		g.version++;
		c.log("set " + g.describe(l) + (threw ? " (reported an error)" : ""));
		if (threw) c.count("assignments_reporting_errors");
		Got q = get(g[l].h.get());
		c.event();
		if (!q.has || q.t.v != v.v || !same_shape(q.t.s, v.s)) c.fail("leaf-changed", "leaf " + g.describe(l) + " holds " + tstr(q.t) + " after the assignment");
	}
	void look (int i, const char* when)
	{
		RT v;
		bool ok = g.value(i, v);
		if (g[i].loose && !same_shapes(i)) return;
		if (ok && same_shapes(i) && (!gb::fault || !user_code(i))) { g.check(c, i, when); c.count("good_evaluations"); return; }
		if (dynamic_cast<Const*>(g[i].raw)) return;
		Got q = get(g[i].h.get());
		c.event();
		c.count(q.threw ? "evaluations_that_threw" : q.has ? "evaluations_with_new_shape" : "evaluations_without_value");
		if (q.threw || !q.has) return;
		if (!ok) { c.fail("value-from-failure", std::string(when) + " " + g.describe(i) + " has no defined value but evaluates to " + tstr(q.t)); return; }
		g.compare(c, std::string(when) + " " + g.describe(i), q.t, v, [&]() { return g.slack(i, v); }, true);
	}
};

void r07_broken (Ctx& c)
{
	Broken s(c);
	Rng& r = c.rng;
	gb::fault = false;
	struct Off { ~Off () { gb::fault = false; } } off;
	s.start(r.range(1, 3), false);
	std::vector<int> places;
	for (int i : s.pool) if (s.g[i].place) places.push_back(i);
	for (size_t k = r.range(1, 2); k > 0; k--)
	{
		Shp sh = r.pick(s.shapes);
		int i = s.g.add_place(c, gen_tensor(r, sh), sh, true);
		s.pool.push_back(i); s.leaves.push_back(i); places.push_back(i); s.walk(s.g[i].raw, s.anc[i]);
		c.log(s.g.describe(i));
	}
	for (int i : s.pool) s.remember(i);
	std::map<int, Shp> home;
	for (int i : places) home[i] = s.g[i].val.s;
	size_t n = r.range(4, 14);
	for (size_t k = 0; k < n; k++)
	{
		if (r.chance(0.15))
		{
			int x = r.pick(s.pool);
			RT xv;
			if (!s.g.value(x, xv) || s.g[x].loose) continue;
			Op o; o.k = COMPRESS; o.cmp = (int)r.range(0, 3); o.p0 = r.range(0, xv.s.size() - 1);
			s.remember(s.add_given(o, {x}));
		}
		else s.remember(s.add_op());
		if (r.chance(0.3)) s.check_some("before failures");
	}
	// an expression keeps the shape it is first evaluated with
	s.check_all("before failures");
	for (int round = 0; round < 3; round++)
	{
		size_t steps = r.range(3, 12);
		for (size_t k = 0; k < steps; k++)
		{
			switch (r.range(0, 5))
			{
				case 0:
				{
					int p = r.pick(places);
					Shp sh = r.chance(0.5) ? gen_shape(r, 3, 4, 24) : r.pick(s.shapes);
					s.put(p, gen_tensor(r, sh));
					c.count("shape_changes");
					break;
				}
				case 1: { int p = r.pick(places); s.put(p, gen_tensor(r, home[p])); break; }
				case 2: { int l = r.pick(s.leaves); s.put(l, gen_tensor(r, s.g[l].val.s)); break; }
				case 3: gb::fault = !gb::fault; c.log(gb::fault ? "fault on" : "fault off"); c.count("fault_switches"); break;
				default: s.look(r.pick(s.pool), "amid failures");
			}
		}
		gb::fault = false;
		for (int p : places) s.put(p, gen_tensor(r, home[p]));
		s.check_all("after repairing the leaves");
		s.leaves_ok();
		if (r.chance(0.5))
		{
			int i = s.add_op();
			s.remember(i);
			s.check_all("after building on the repaired graph");
		}
	}
	s.finish();
}

// operations that make no sense for their operands, in the middle of a session
void r07_reject (Ctx& c)
{
	Sess s(c);
	Rng& r = c.rng;
	s.start(r.range(3, 5), r.chance(0.2));
	size_t steps = r.range(6, 25);
	std::vector<int> bad;
	for (size_t k = 0; k < steps; k++)
	{
		switch (r.range(0, 6))
		{
			case 0: case 1: s.add_op(); break;
			case 2: s.set_leaf(r.pick(s.leaves)); break;
			case 3: s.check_some("among rejected operations"); break;
			default:
			{
				Op o; o.k = pick_kind(r);
				bool two = o.k == ADD || o.k == SUB || o.k == MUL || o.k == DIV || o.k == COND || o.k == MATMUL || (o.k >= ADD_AA && o.k <= DIV_AB);
				if (!two) break;
				o.cmp = 0; o.p0 = o.k == MATMUL ? NODIM : r.range(0, 2); o.f0 = r.chance(0.4); o.f1 = r.chance(0.4);
				int x = r.pick(s.pool), y = r.pick(s.pool);
				RT xv, yv, out;
				if (!s.g.planned(x, xv) || !s.g.planned(y, yv) || s.g[x].loose || s.g[y].loose) break;
				if (o.k >= ADD_AA && s.g[x].raw == s.g[y].raw) break; // simplified (x-x, x/x, x*x)
				bool sense = true;
				try { out = apply(o, {&xv, &yv}); } catch (BadShape&) { sense = false; }
				if (sense) break;
				c.event();
				int i = -1;
				try { i = s.g.add_op(c, o, {x, y}); }
				catch (std::exception& e) { c.count("rejected_when_built"); c.log(o.str() + " rejected"); break; }
				s.walk(s.g[i].raw, s.anc[i]);
				c.log(s.g.describe(i) + " (ill-shaped)");
				bad.push_back(i);
			}
		}
		if (bad.size() && r.chance(0.4))
		{
			int i = r.pick(bad);
			if (dynamic_cast<Const*>(s.g[i].raw)) { c.fail("value-from-nothing", s.g.describe(i) + " is ill-shaped but was folded into a constant"); return; }
			Got q = get(s.g[i].h.get());
			c.event();
			c.count(q.threw ? "rejected_by_exception" : "no_value");
			if (q.has && !q.threw) { c.fail("value-from-nothing", s.g.describe(i) + " is ill-shaped but evaluates to " + tstr(q.t)); return; }
		}
	}
	for (int i : s.leaves) if (!s.g[i].init) s.set_leaf(i);
	s.check_all("next to ill-shaped expressions");
	s.leaves_ok();
	for (int i : bad) s.pool.push_back(i);
	s.finish();
}

// ---------- R05 ----------

struct Copies : public Sess
{
	std::vector<std::pair<Node*, const char*> > husks;	// moved-from nodes, still to be deleted
	std::map<int, size_t> meta;				// node -> metadata "m"
	explicit Copies (Ctx& x) : Sess(x) {}
	~Copies () { drop_husks(); }

	void drop_husks ()
	{
		while (!husks.empty())
		{
			Node* h = husks.back().first;
			husks.pop_back();
			delete h;
		}
	}
	// the same node under a new address
	void readdress (Node* from, Node* to)
	{
		if (probe) probe(c, "after a move");
		for (auto& a : anc) if (a.second.erase(from)) a.second.insert(to);
		for (auto& d : ders) if (d->anc.erase(from)) d->anc.insert(to);
		for (auto& q : g.n) if (q->raw == from) q->raw = to;
		for (auto& q : g.n) if (!q->dead && q->raw == to && q->h.get() != to) { c.fail("handle", "a handle did not follow the moved node"); return; }
	}
	void same_face (Node* was, Node* now, int i, const char* what)
	{
		c.event();
		if (now->get_label() != label) c.fail("label", std::string(what) + " of " + g.describe(i) + " has label '" + now->get_label() + "' instead of '" + label + "'");
		optional<size_t> m = now->get_metadata("m");
		bool has = (bool)m;
		if (has != hasmeta || (has && *m != metaval)) c.fail("metadata", std::string(what) + " of " + g.describe(i) + " lost its metadata");
		std::vector<Node*> a = now->get_arguments();
		if (a != args) c.fail("arguments", std::string(what) + " of " + g.describe(i) + " has other arguments");
		if (now->good_status() != good) c.fail("status", std::string(what) + " of " + g.describe(i) + (good ? " lost" : " gained") + " its status");
		if (now->get_leaves() != lvs && g[i].args.size()) c.fail("leaves", std::string(what) + " of " + g.describe(i) + " lists other leaves");
		if (was && was->get_uid() == now->get_uid()) c.fail("uid", std::string(what) + " of " + g.describe(i) + " has the identifier of the original");
		if (g[i].var && static_cast<Var*>(now)->can_init() != caninit) c.fail("initializer", std::string(what) + " of " + g.describe(i) + " lost its initializer");
	}
	std::string label; bool hasmeta, good, caninit; size_t metaval; std::vector<Node*> args; std::unordered_set<nnet::ileaf<double>*> lvs;
	void photo (Node* n)
	{
		label = n->get_label();
		optional<size_t> m = n->get_metadata("m");
		hasmeta = (bool)m; metaval = hasmeta ? *m : 0;
		args = n->get_arguments();
		good = n->good_status();
		lvs = n->get_leaves();
		Var* v = dynamic_cast<Var*>(n);
		caninit = v && v->can_init();
	}
	bool plain (int i)
	{
		return g[i].raw && typeid(*g[i].raw) == typeid(nnet::immutable<double>);
	}
	int adopt (int i, Node* n)
	{
		GNode* q = new GNode;
		const GNode& o = g[i];
		q->op = o.op; q->args = o.args; q->loose = o.loose; q->lk = o.lk; q->init = o.init; q->val = o.val;
		q->var = o.var ? static_cast<Var*>(n) : nullptr;
		q->place = o.place ? static_cast<Place*>(n) : nullptr;
		q->h = n; q->raw = n;
		g.n.emplace_back(q);
		watch(n);
		int k = g.size() - 1;
		pool.push_back(k);
		if (o.args.empty()) leaves.push_back(k);
		if (meta.count(i)) meta[k] = meta[i];
		walk(n, anc[k]);
		return k;
	}
	int copy (int i)
	{
		Node* n = g[i].raw;
		bool leaf = g[i].var || g[i].place;
		if (!leaf && !plain(i)) return -1;
		photo(n);
		bool via = r.chance(0.3);
		Node* k = nullptr;
		if (via && g[i].var) k = new Var(*g[i].var);
		else if (via && g[i].place) k = new Place(*g[i].place);
		else k = n->clone();
		if (!k || k == n) { c.fail("clone", "cloning " + g.describe(i) + " gave no new node"); return -1; }
		int q = adopt(i, k);
		c.log("n" + std::to_string(q) + " = copy of n" + std::to_string(i));
		c.count(leaf ? "leaf_copies" : "expression_copies");
		same_face(n, k, i, "the copy");
		if (n->get_label() != label || n->get_arguments() != args || n->good_status() != good) c.fail("source-changed", "copying changed " + g.describe(i));
		return q;
	}
	void move (int i)
	{
		Node* n = g[i].raw;
		bool leaf = g[i].var || g[i].place;
		if (!leaf && !plain(i)) return;
		photo(n);
		size_t aud = n->n_audience();
		bool via = r.chance(0.3);
		Node* k = nullptr;
		if (via && g[i].var) k = new Var(std::move(*g[i].var));
		else if (via && g[i].place) k = new Place(std::move(*g[i].place));
		else k = n->move();
		if (!k || k == n) { c.fail("move", "moving " + g.describe(i) + " gave no new node"); return; }
		c.log("move n" + std::to_string(i));
		c.count(leaf ? "leaf_moves" : "expression_moves");
		if (k->n_audience() != aud) c.fail("audience", "after moving " + g.describe(i) + " its new node has " + std::to_string(k->n_audience()) + " dependents instead of " + std::to_string(aud));
		if (n->n_audience() != 0) c.fail("audience", "after moving " + g.describe(i) + " its old node still has dependents");
		readdress(n, k);
		for (auto& q : g.n)
			if (q->raw == k)
			{
				if (q->var) q->var = static_cast<Var*>(k);
				if (q->place) q->place = static_cast<Place*>(k);
			}
		// the leaf set of dependents is a known finding, its own is what the source had
		if (leaf) lvs = k->get_leaves();
		same_face(n, k, i, "the moved node");
		husks.push_back({n, "moved"});
		c.event();
		n->get_name(); n->get_summaryid(); n->get_leaves(); n->get_arguments(); // a moved-from node still answers
		try { n->good_status(); n->get_shape(); n->eval(); if (auto q = dynamic_cast<Conn*>(n)) { q->get_depth(); q->is_same_graph(dynamic_cast<Conn*>(k)); q->potential_descendent(dynamic_cast<Conn*>(k)); } } catch (std::exception&) { c.count("husk_throws"); }
		if (!leaf && !dynamic_cast<Conn*>(k)) return;
		conns.remove_if([&](Ptr& p) { return p.get() == nullptr; });
	}
	// may node a be assigned from b?
	bool independent (int a, int b) // b doesn't depend on a
	{
		return anc[b].count(g[a].raw) == 0 && !(anc[a].count(g[b].raw) && false);
	}
	std::set<int> twins (int i) // all model nodes on the same library node
	{
		std::set<int> s;
		for (int k = 0; k < g.size(); k++) if (!g[k].dead && g[k].raw == g[i].raw) s.insert(k);
		return s;
	}
	void rewalk ()
	{
		if (probe) probe(c, "after an assignment between nodes");
		anc.clear();
		for (int i = 0; i < g.size(); i++) if (!g[i].dead && g[i].h.get()) walk(g[i].raw, anc[i]);
	}
	void assign_leaf (bool mv)
	{
		int a = r.pick(leaves), b = r.pick(leaves);
		if (a == b || (bool)g[a].var != (bool)g[b].var) return;
		if (!same_shape(g[a].val.s, g[b].val.s)) return;
		// an uninitialised leaf would undo its dependents' status
		if (!g[b].init) return;
		photo(g[b].raw);
		Node* was = g[b].raw; Node* now = g[a].raw;
		size_t aud = was->n_audience() + now->n_audience();
		std::unordered_set<nnet::ileaf<double>*> self = now->get_leaves();
		if (mv)
		{
			if (g[a].var) *g[a].var = std::move(*g[b].var); else *g[a].place = std::move(*g[b].place);
		}
		else
		{
			if (g[a].var) *g[a].var = *g[b].var; else *g[a].place = *g[b].place;
		}
		c.log("n" + std::to_string(a) + (mv ? " = move n" : " = copy n") + std::to_string(b));
		c.count(mv ? "leaf_move_assignments" : "leaf_copy_assignments");
		g[a].val = g[b].val;
		g[a].init = g[b].init;
		g.version++;
		lvs = self;
		same_face(nullptr, now, a, mv ? "the move-assigned leaf" : "the assigned leaf");
		if (mv)
		{
			if (was->n_audience() != 0) c.fail("audience", "a leaf still has dependents after its move-assignment");
			(void)aud;
			// what depended on b depends on a now
			for (auto& q : g.n) for (int& x : q->args) if (x == b) x = a;
			if (g[b].h.get() != now) c.fail("handle", "a handle did not follow the move-assigned leaf");
			for (auto& q : g.n) if (q->raw == was) q->raw = now;
			g[b].dead = true;
			g[b].var = nullptr; g[b].place = nullptr;
			pool.erase(std::remove(pool.begin(), pool.end(), b), pool.end());
			leaves.erase(std::remove(leaves.begin(), leaves.end(), b), leaves.end());
			husks.push_back({was, "move-assigned"});
			rewalk();
		}
	}
	void assign_conn (bool mv)
	{
		for (int t = 0; t < 20; t++)
		{
			int a = r.pick(pool), b = r.pick(pool);
			if (!plain(a) || !plain(b) || g[a].raw == g[b].raw || g[a].loose || g[b].loose) continue;
			RT av, bv;
			if (!g.value(a, av) || !g.value(b, bv) || !same_shape(av.s, bv.s)) continue;
			if (anc[b].count(g[a].raw)) continue;
			// hidden nodes inside composite operations can't be followed by the model
			std::set<int> ta = twins(a), tb = twins(b);
			if (ta.size() > 1 || tb.size() > 1) continue;
			bool hid = false;
			for (int i = 0; i < g.size(); i++)
				if (!g[i].dead && g[i].args.size() && (anc[i].count(g[a].raw) || g.depends(i, a) || (mv && (anc[i].count(g[b].raw) || g.depends(i, b))))) hid = hid || hidden(i);
			if (hid) continue;
			// the model evaluates arguments by index; no node may come to depend on itself
			bool cyc = false;
			for (int x : g[b].args) cyc = cyc || g.depends(x, a);
			if (cyc) continue;
			if (!small_after(a, b, mv)) continue;
			Node* was = g[b].raw; Node* now = g[a].raw;
			photo(was);
			auto* pa = static_cast<nnet::immutable<double>*>(now); auto* pb = static_cast<nnet::immutable<double>*>(was);
			if (mv) *pa = std::move(*pb); else *pa = *pb;
			c.log("n" + std::to_string(a) + (mv ? " = move n" : " = copy n") + std::to_string(b));
			c.count(mv ? "expression_move_assignments" : "expression_copy_assignments");
			same_face(nullptr, now, a, mv ? "the move-assigned expression" : "the assigned expression");
			g[a].op = g[b].op; g[a].args = g[b].args;
			g.version++;
			if (mv)
			{
				if (was->n_audience() != 0) c.fail("audience", "an expression still has dependents after its move-assignment");
				for (auto& q : g.n) for (int& x : q->args) if (x == b) x = a;
				if (g[b].h.get() != now) c.fail("handle", "a handle did not follow the move-assigned expression");
				g[b].dead = true;
				pool.erase(std::remove(pool.begin(), pool.end(), b), pool.end());
				husks.push_back({was, "move-assigned"});
			}
			rewalk();
			return;
		}
	}
	// is the node's library object something else than its own operation on its own arguments?
	bool hidden (int i)
	{
		std::vector<Node*> a = g[i].raw->get_arguments();
		if (a.size() != g[i].args.size()) return true;
		for (size_t k = 0; k < a.size(); k++) if (a[k] != g[g[i].args[k]].raw) return true;
		return false;
	}
	// would every value stay in a comfortable range after a := b (and users of b using a)?
	bool small_after (int a, int b, bool mv)
	{
		std::vector<std::pair<Op, std::vector<int> > > keep;
		for (auto& q : g.n) keep.push_back({q->op, q->args});
		g[a].op = g[b].op; g[a].args = g[b].args;
		if (mv) for (auto& q : g.n) for (int& x : q->args) if (x == b) x = a;
		bool ok = true;
		for (int i : pool)
		{
			RT v;
			if (mv && i == b) continue;
			if (!value_any(i, v)) { ok = false; break; }
			for (double x : v.v) ok = ok && std::isfinite(x) && std::fabs(x) < 1e5;
		}
		for (int i = 0; i < g.size(); i++) { g[i].op = keep[i].first; g[i].args = keep[i].second; }
		return ok;
	}
	bool value_any (int i, RT& v) { return g.value(i, v); }
};

void r05_copies (Ctx& c)
{
	Copies s(c);
	Rng& r = c.rng;
	s.start(r.range(3, 5), r.chance(0.2));
	bool assigned = false;	// model order is no longer topological in index order
	size_t steps = r.range(10, c.thorough ? 70 : 40);
	for (size_t k = 0; k < steps; k++)
	{
		switch (r.range(0, 12))
		{
			case 0: case 1: case 2: s.add_op(); break;
			case 3: s.set_leaf(r.pick(s.leaves)); break;
			case 4: s.check_some("in session"); break;
			case 5: s.copy(r.pick(s.pool)); break;
			case 6: { int i = s.copy(r.pick(s.leaves)); if (i >= 0 && r.chance(0.5)) s.check(i, "copied leaf"); break; }
			case 7: s.move(r.pick(s.pool)); break;
			case 8: s.assign_leaf(r.chance(0.5)); break;
			case 9: s.assign_conn(r.chance(0.5)); assigned = true; break;
			case 10: if (r.chance(0.5)) s.drop_husks(); break;
			case 11:
			{
				int i = r.pick(s.pool);
				if (dynamic_cast<Const*>(s.g[i].raw)) break;
				s.g[i].raw->set_metadata("m", r.range(1, 100));
				c.log("metadata on n" + std::to_string(i));
				break;
			}
			default:
				if (r.chance(0.3))
				{
					// label
					int i = r.pick(s.leaves);
					s.g[i].raw->set_label("relabelled" + std::to_string(k));
				}
				else if (r.chance(0.5)) s.kill_op();
				else s.kill_leaf();
		}
		if (s.pool.empty() || s.leaves.empty()) break;
	}
	(void)assigned;
	s.check_all("at the end");
	s.leaves_ok();
	s.drop_husks();
	for (int i : s.leaves) if (r.chance(0.5)) s.set_leaf(i);
	s.check_all("after the sources of moves were destroyed");
	s.finish();
}

// nodes that generate their data
void r05_generated (Ctx& c)
{
	Rng& r = c.rng;
	Shp sh = gen_shape(r, 3, 4, 24);
	using Gen = nnet::generator<double>;
	using Dep = nnet::shape_dep<double>;
	Place* x = new Place(nnet::tensorshape(sh), "x");
	struct Own { Node* n; ~Own () { delete n; } } own{x};
	auto feed = [&]() { nnet::tensor<double> t{nnet::tensorshape(sh)}; nnet::assign_func<double> as; as(t, gen_tensor(r, sh).v); *x = t; };
	bool early = r.chance(0.7);
	if (early) feed();
	nnet::rand_uniform<double> init(-1, 1);
	nnet::const_init<double> kinit(r.real(-2, 2));
	bool rnd = r.chance(0.5);
	Ptr g;
	g = rnd ? Gen::get(x, init, "g") : Gen::get(x, kinit, "g");
	size_t add = r.range(0, 3);
	Ptr d;
	d = Dep::get({x}, [add](nnet::tensorshape& s) { std::vector<size_t> l = s.as_list(); for (size_t& k : l) k += add; return l; }, nnet::tensorshape(std::vector<size_t>{sh.size()}), "d");
	c.log("generator and shape node over placeholder " + sstr(sh) + (early ? "" : " (unset)"));
	auto dep_ok = [&](Node* n, const char* what)
	{
		Got q = get(n);
		c.event();
		if (!q.has) { c.fail("shape-node", std::string(what) + " has no value"); return; }
		for (size_t k = 0; k < sh.size(); k++) if (q.t.v[k] != double(sh[k] + add)) { c.fail("shape-node", std::string(what) + " is " + tstr(q.t) + " for a placeholder of shape " + sstr(sh)); return; }
	};
	for (size_t k = 0; k < 8; k++)
	{
		switch (r.range(0, 5))
		{
			case 0: feed(); early = true; c.log("feed"); break;
			case 1:
			{
				Gen* o = static_cast<Gen*>(g.get());
				Got a = get(o);
				Gen* n = o->clone();
				Ptr h; h = n;
				Got b = get(n);
				c.event(); c.count("generator_copies");
				if (a.has != b.has || (a.has && (a.t.v != b.t.v || a.t.s != b.t.s))) { c.fail("generator-copy", "the copy of a generator holds " + tstr(b.t) + " instead of " + tstr(a.t)); return; }
				if (n->get_label() != o->get_label()) c.fail("label", "the copy of a generator has another label");
				if (r.chance(0.5)) { *n = *o; Got e = get(n); c.event(); if (a.has && e.t.v != a.t.v) c.fail("generator-copy", "an assigned generator holds other data"); }
				break; // the handle was its only dependent
			}
			case 2:
			{
				Gen* o = static_cast<Gen*>(g.get());
				Got a = get(o);
				Gen* n = o->move();
				c.event(); c.count("generator_moves");
				if (g.get() != n) { c.fail("handle", "the handle did not follow the moved generator"); return; }
				Got b = get(n);
				if (a.has != b.has || (a.has && (a.t.v != b.t.v || a.t.s != b.t.s))) { c.fail("generator-move", "the moved generator holds other data"); return; }
				delete o;
				break;
			}
			case 3:
			{
				Dep* o = static_cast<Dep*>(d.get());
				Dep* n = o->clone();
				Ptr h; h = n;
				c.count("shape_node_copies");
				if (early) dep_ok(n, "the copy of a shape node");
				if (r.chance(0.5)) { *n = *o; if (early) dep_ok(n, "an assigned shape node"); }
				delete n;
				break;
			}
			case 4:
			{
				Dep* o = static_cast<Dep*>(d.get());
				Dep* n = o->move();
				c.event(); c.count("shape_node_moves");
				if (d.get() != n) { c.fail("handle", "the handle did not follow the moved shape node"); return; }
				delete o;
				if (early) dep_ok(n, "the moved shape node");
				break;
			}
			default:
				if (early)
				{
					dep_ok(d.get(), "the shape node");
					Got a = get(g.get());
					c.event();
					if (!a.has || !same_shape(a.t.s, sh)) { c.fail("generator", "the generator holds " + tstr(a.t) + " for a placeholder of shape " + sstr(sh)); return; }
					for (double v : a.t.v) if (rnd ? !(v >= -1 && v <= 1) : v != a.t.v[0]) { c.fail("generator", "the generator holds " + tstr(a.t)); return; }
				}
		}
	}
}

}
