// edges.cpp - E01: the exported edge list against the live graph.
// Built with edge recording on; runs the sessions of graph.cpp (building, assigning, deriving, copying, moving,
// destroying) and compares an export with the arguments of the live nodes between their steps.
#define GRAPH_SESSIONS_ONLY
#include "graph.cpp"
#include <array>
#include "edgeinfo/csv_record.hpp"

namespace {

using Rec = rocnnet_record::csv_record;
using Base = rocnnet_record::igraph_record;
using Status = rocnnet_record::record_status;

std::string out_file ()
{
	static std::string f;
	if (f.empty())
	{
		const char* b = getenv("VH_SCRATCH");
		f = std::string(b && *b ? b : "/tmp") + "/edges." + std::to_string(getpid()) + ".csv";
		atexit([] { unlink(out_file().c_str()); });
	}
	return f;
}

// passes everything on to the recorder and remembers which observers the library told about
struct Tee : public Base
{
	Rec inner;
	std::map<const nnet::iobserver*, std::set<std::pair<const nnet::subject*, size_t> > > seen;
	size_t captures = 0, releases = 0, deaths = 0;
	Tee () : inner(out_file()) {}
	void node_release (const nnet::subject* s) override { deaths++; inner.node_release(s); }
	void edge_capture (const nnet::iobserver* o, const nnet::subject* s, size_t i) override
	{
		captures++;
		if (o->is_recordable()) seen[o].insert({s, i});
		inner.edge_capture(o, s, i);
	}
	void edge_release (const nnet::iobserver* o, const nnet::subject* s, size_t i) override 
	{
		releases++;
		auto it = seen.find(o);
		if (it != seen.end())
		{
			it->second.erase({s, i});
			if (it->second.empty()) seen.erase(it); // the address may be used again
		}
		inner.edge_release(o, s, i);
	}
};

Tee* teer = nullptr;
std::list<Ptr> handles;

std::vector<std::string> lines_of (const std::string& f, bool& ok)
{
	std::vector<std::string> l;
	std::ifstream in(f);
	ok = (bool)in;
	std::string s;
	while (std::getline(in, s)) l.push_back(s);
	std::sort(l.begin(), l.end());
	return l;
}

struct Edge { Conn* obs; Node* sub; size_t idx; };

// every connector known to be alive: reachable from what the session holds, or announced to the recorder
std::set<Conn*> live_connectors ()
{
	std::set<Conn*> out;
	std::vector<Node*> todo;
	for (auto it = handles.begin(); it != handles.end(); )
	{
		if (it->get()) { todo.push_back(it->get()); ++it; }
		else it = handles.erase(it);
	}
	std::set<Node*> done;
	while (!todo.empty())
	{
		Node* n = todo.back(); todo.pop_back();
		if (!n || !done.insert(n).second) continue;
		if (Conn* q = dynamic_cast<Conn*>(n)) out.insert(q);
		for (Node* a : n->get_arguments()) todo.push_back(a);
	}
	return out;
}

std::string tell (const std::string& s) { return s.size() > 300 ? s.substr(0, 300) + "..." : s; }

void compare_export (Ctx& c, const char* when, const Conn* graph, int mode)
{
	bool verbose = mode & 1, shapes = mode & 2;
	teer->inner.setVerbose(verbose);
	teer->inner.setDisplayShape(shapes);
	unlink(out_file().c_str());
	try { teer->inner.to_csv<double>(graph); }
	catch (std::exception&) { if (shapes) return; throw; } // a node without a valid shape
	bool ok;
	std::vector<std::string> got = lines_of(out_file(), ok);
	std::string what = std::string(when) + (graph ? ", export of one graph" : ", export") + (verbose ? " by name" : "") + (shapes ? " with shapes" : "");
	if (!ok) c.fail_("no-file", what + " wrote no file");
	std::set<Conn*> conns = live_connectors();
	size_t announced = 0;
	for (auto& p : teer->seen)
	{
		const nnet::iobserver* o = p.first;
		if (!vh::is_live(o)) continue;
		if (Conn* q = dynamic_cast<Conn*>(const_cast<nnet::iobserver*>(o))) announced += conns.insert(q).second;
	}
	std::vector<Edge> edges;
	for (Conn* q : conns)
	{
		if (graph && !q->is_same_graph(graph)) continue;
		std::vector<Node*> a = q->get_arguments();
		for (size_t i = 0; i < a.size(); i++) if (a[i]) edges.push_back({q, a[i], i});
	}
	c.event(edges.size() + 1);
	c.count("exports"); c.count("edges_compared", edges.size()); c.count("hidden_connectors", announced);
	auto face = [&](Node* n, bool name)
	{
		std::string s = name ? n->get_name() : n->get_label();
		if (shapes)
		{
			std::stringstream ss;
			print_shape(n->get_shape(), ss);
			s += "(" + ss.str() + ")";
		}
		return s;
	};
	if (verbose)
	{
		std::vector<std::string> want;
		for (Edge& e : edges) want.push_back(face(e.obs, true) + "," + face(e.sub, true) + "," + std::to_string(e.idx));
		std::sort(want.begin(), want.end());
		std::vector<std::string> extra, missing;
		std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(extra));
		std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(missing));
		if (!extra.empty()) c.fail_("extra-edge", what + " lists " + std::to_string(extra.size()) + " edges that don't exist: " + tell(extra[0]));
		if (!missing.empty()) c.fail_("missing-edge", what + " lacks " + std::to_string(missing.size()) + " of " + std::to_string(want.size()) + " edges: " + tell(missing[0]));
		return;
	}
	// by number: the numbering is the exporter's, so compare what every number stands for
	if (got.size() != edges.size()) c.fail_(got.size() > edges.size() ? "extra-edge" : "missing-edge", what + " lists " + std::to_string(got.size()) + " edges instead of " + std::to_string(edges.size()));
	auto digest = [](const std::vector<std::array<std::string,3> >& rows, const std::map<std::string,std::string>& label)
	{
		// label and incident edges of every node, neighbours by their label
		std::map<std::string, std::multiset<std::string> > inc;
		for (auto& r : rows)
		{
			inc[r[0]].insert("<" + r[2] + label.at(r[1]));
			inc[r[1]].insert(">" + r[2] + label.at(r[0]));
		}
		std::multiset<std::string> d;
		for (auto& p : inc)
		{
			std::string s = label.at(p.first) + "|";
			for (auto& x : p.second) s += x + "|";
			d.insert(s);
		}
		return d;
	};
	std::vector<std::array<std::string,3> > grows, wrows;
	std::map<std::string,std::string> glab, wlab;
	for (const std::string& l : got)
	{
		// [i]label,[j]label,idx
		size_t last = l.rfind(','), mid = l.find(",[");
		if (last == std::string::npos || mid == std::string::npos || mid >= last || l[0] != '[') c.fail_("format", what + " has the malformed row " + tell(l));
		std::string o = l.substr(0, mid), s = l.substr(mid + 1, last - mid - 1);
		auto cut = [&](const std::string& t, std::string& num, std::string& lab)
		{
			size_t e = t.find(']');
			if (t[0] != '[' || e == std::string::npos) c.fail_("format", what + " has the malformed row " + tell(l));
			num = t.substr(0, e + 1); lab = t.substr(e + 1);
		};
		std::string on, ol, sn, sl;
		cut(o, on, ol); cut(s, sn, sl);
		for (auto& p : {std::make_pair(on, ol), std::make_pair(sn, sl)})
		{
			auto it = glab.find(p.first);
			if (it != glab.end() && it->second != p.second) c.fail_("numbering", what + " gives " + p.first + " to " + it->second + " and " + p.second);
			glab[p.first] = p.second;
		}
		grows.push_back({on, sn, l.substr(last + 1)});
	}
	auto key = [](const void* p) { std::ostringstream ss; ss << p; return ss.str(); };
	for (Edge& e : edges)
	{
		std::string on = key((Node*)e.obs), sn = key(e.sub);
		wlab[on] = face(e.obs, false); wlab[sn] = face(e.sub, false);
		wrows.push_back({on, sn, std::to_string(e.idx)});
	}
	if (glab.size() != wlab.size()) c.fail_("numbering", what + " numbers " + std::to_string(glab.size()) + " nodes instead of " + std::to_string(wlab.size()));
	if (digest(grows, glab) != digest(wrows, wlab)) c.fail_("wrong-edge", what + " connects other nodes than the graph does");
}

struct Recording
{
	Ctx& c;
	Rng r;
	size_t budget;
	bool off = false;
	explicit Recording (Ctx& x) : c(x), r(x.rng.next()), budget(x.thorough ? 60 : 25)
	{
		// one recorder for all cases: expressions over constants only outlive their case
		teer->captures = teer->releases = teer->deaths = 0;
		handles.clear();
		gb::watched = &handles;
		gb::probe = [this](Ctx&, const char* when) { look(when, false); };
	}
	~Recording ()
	{
		stop();
	}
	void stop ()
	{
		if (off) return;
		off = true;
		gb::probe = nullptr;
		gb::watched = nullptr;
		handles.clear();
		// expressions over constants only outlive the case
		while (!teer->seen.empty())
		{
			const nnet::iobserver* o = teer->seen.begin()->first;
			Conn* q = vh::is_live(o) ? dynamic_cast<Conn*>(const_cast<nnet::iobserver*>(o)) : nullptr;
			if (q) { leftovers++; delete q; }
			teer->seen.erase(o);
		}
	}
	size_t leftovers = 0;
	void look (const char* when, bool always)
	{
		if (!always && (budget == 0 || !r.chance(0.3))) return;
		if (budget > 0) budget--;
		// shapes can't be printed while expressions fail
		int mode = (r.chance(0.7) ? 1 : 0) + (r.chance(0.15) ? 2 : 0);
		Conn* one = nullptr;
		if (r.chance(0.35))
		{
			std::set<Conn*> q = live_connectors();
			if (!q.empty()) { auto it = q.begin(); std::advance(it, r.range(0, q.size() - 1)); one = *it; c.count("restricted_exports"); }
		}
		compare_export(c, when, one, mode);
	}
	void done ()
	{
		look("at the end", true);
		c.count("captures", teer->captures); c.count("releases", teer->releases); c.count("node_deaths", teer->deaths);
		stop();
		c.count("left_over_expressions", leftovers);
		teer->inner.setVerbose(true);
		teer->inner.setDisplayShape(false);
		teer->inner.to_csv<double>();
		bool ok;
		std::vector<std::string> l = lines_of(out_file(), ok);
		c.event();
		if (!l.empty()) c.fail_("extra-edge", "after everything was destroyed the export still lists " + std::to_string(l.size()) + " edges: " + tell(l[0]));
	}
};

template <void (*F)(Ctx&)> void recorded (Ctx& c)
{
	Recording rec(c);
	F(c);
	rec.done();
}

// rewiring and repeated arguments
void e01_repeated (Ctx& c)
{
	Recording rec(c);
	Rng& r = c.rng;
	Graph g;
	Shp sh = gen_shape(r, 2, 3, 9);
	std::vector<int> pool;
	for (size_t k = r.range(1, 3); k > 0; k--) pool.push_back(g.add_var(c, gen_tensor(r, sh)));
	for (int i : pool) gb::watch(g[i].raw);
	size_t n = r.range(2, 14);
	for (size_t k = 0; k < n; k++)
	{
		static const Kind ks[] = {ADD, SUB, MUL, EQ, COND, DIV};
		Op o; o.k = ks[r.range(0, 5)]; o.cmp = 0;
		int x = r.pick(pool), y = r.chance(0.5) ? x : r.pick(pool);
		int i = g.add_op(c, o, {x, y});
		if (g[i].loose) continue;
		c.log(g.describe(i));
		pool.push_back(i);
		rec.look("after building", r.chance(0.4));
	}
	// an observer of the user's own next to the graph
	struct Own : public nnet::iobserver
	{
		explicit Own (bool recorded) : nnet::iobserver(recorded) {}
		std::string get_label (void) const override { return "own"; }
		void look_at (nnet::subject* s) { add_dependency(s); }
		void update (std::unordered_set<size_t>) override {}
		void death_on_broken () override {}
	};
	{
		Own o(r.chance(0.3)); // recordable or not, it is no expression
		for (size_t k = r.range(1, 3); k > 0; k--) o.look_at(g[r.pick(pool)].raw);
		rec.look("next to an unrecorded observer", true);
	}
	rec.look("after an unrecorded observer", true);
	while (pool.size() > 1 && r.chance(0.7))
	{
		size_t k = r.range(0, pool.size() - 1);
		int i = pool[k];
		pool.erase(pool.begin() + k);
		if (!g[i].h.get() || g[i].dead) continue;
		if (g[i].args.empty()) { c.log("destroy n" + std::to_string(i)); g.destroy_leaf(i); }
		else if (dynamic_cast<Conn*>(g[i].h.get())) { c.log("destroy n" + std::to_string(i)); delete g[i].h.get(); }
		rec.look("after destroying", true);
	}
	rec.done();
}
}
namespace vh {
std::vector<Group> groups = {
	{"mem:E01,noM01", "e01_values", recorded<r01_session>, 3, 4, nullptr},
	{"mem:E01,noM01", "e01_freeze", recorded<r02_freeze>, 2, 4, nullptr},
	{"mem:E01,noM01", "e01_destroy", recorded<r04_destroy>, 5, 4, nullptr},
	{"mem:E01,noM01", "e01_reject", recorded<r07_reject>, 2, 4, nullptr},
	{"mem:E01,noM01", "e01_broken", recorded<r07_broken>, 1, 4, nullptr},
	{"mem:E01,noM01", "e01_copies", recorded<r05_copies>, 5, 4, nullptr},
	{"mem:E01,noM01", "e01_generated", recorded<r05_generated>, 1, 4, nullptr},
	{"mem:E01,noM01", "e01_repeated", e01_repeated, 4, 4, nullptr},
};
static void start ()
{
	teer = new Tee();
	Status::rec.reset(teer);
	Status::rec_good = true;
}
void (*on_start)(void) = start;
static void seed (uint64_t s) { nnutils::seed_generator(s); }
void (*on_case)(uint64_t) = seed;
}
