// vis.cpp - E02: what subscribers of the visualisation service are told against the live graph.
// Built with EDGE_RCD and RPC_RCD as the repository's own option does; runs the sessions of graph.cpp while clients
// subscribe, read slowly, disconnect and unsubscribe.  Two builds: "vis" links the installed gRPC and talks over a unix
// socket (ASan+UBSan); "visF" puts an in-process stand-in below the service (fakegrpc/) so that ThreadSanitizer sees it all.
#define GRAPH_SESSIONS_ONLY
#include "graph.cpp"
#include <thread>
#include <mutex>
#include <condition_variable>
#include <atomic>
#include "edgeinfo/grpc_vis_record.hpp"

namespace {
std::atomic<uint64_t> g_noise{1};
std::atomic<int> g_level{0};
void delay ()
{
	int lv = g_level.load(std::memory_order_relaxed);
	if (lv == 0) return;
	uint64_t z = vh::mix(g_noise.fetch_add(0x9e3779b97f4a7c15ULL, std::memory_order_relaxed));
	int r = (int)(z % 100);
	if (r < lv * 8) std::this_thread::yield();
	else if (r < lv * 10) usleep((z >> 20) % 60);
	else if (r < lv * 11) usleep((z >> 20) % 400);
}
int64_t now_ms () { return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
}
#ifdef VIS_FAKE
namespace grpc {
namespace fake { void noise () { delay(); } }
static const Status ok_, cancelled_(StatusCode::CANCELLED, "");
const Status& Status::OK = ok_;
const Status& Status::CANCELLED = cancelled_;
std::map<std::string, Server*>& Server::all () { static std::map<std::string, Server*> m; return m; }
std::mutex& Server::mutex () { static std::mutex m; return m; }
}
#endif

namespace {
using Rec = rocnnet_record::rpc_record;
using Status = rocnnet_record::record_status;

// a case that makes no progress for this long is a stall
std::atomic<int64_t> g_start{0};
std::atomic<bool> g_busy{false};
std::atomic<const char*> g_doing{""};
void watchdog ()
{
	std::thread([]
	{
		for (;;)
		{
			usleep(100000);
			if (g_busy.load() && now_ms() - g_start.load() > (getenv("VH_STALL") ? atoll(getenv("VH_STALL")) : 40000))
			{
				fprintf(stderr, "FATAL: stall: %s does not finish\n", g_doing.load());
				_exit(44);
			}
		}
	}).detach();
}
// while waiting for the service; everything else may take its time
struct Doing
{
	explicit Doing (const char* what) { g_doing.store(what); g_start.store(now_ms()); g_busy.store(true); }
	~Doing () { g_busy.store(false); }
};

std::string host ()
{
#ifdef VIS_FAKE
	return "fake";
#else
	static std::string f;
	if (f.empty())
	{
		const char* b = getenv("VH_SCRATCH");
		std::string dir = b && *b ? b : "/tmp";
		if (dir.size() > 60) // a socket's path must be short
		{
			char t[] = "/tmp/visXXXXXX";
			dir = mkdtemp(t);
		}
		f = "unix:" + dir + "/v" + std::to_string(getpid());
	}
	return f;
#endif
}
size_t g_port = 0;
std::string address () { return host() + ":" + std::to_string(g_port); }

struct Msg { bool edge; std::string a, b; uint64_t idx; int status; };
std::string mstr (const Msg& m) { return m.edge ? "edge " + m.a + "-" + m.b + "@" + std::to_string(m.idx) + (m.status == visor::EdgeMessage::ADD ? " added" : " removed") : "node " + m.a + (m.status == visor::NodeMessage::UPDATE ? " updated" : " removed"); }
Msg msg_of (const visor::NodeMessage& m) { return Msg{false, m.id(), "", 0, (int)m.status()}; }
Msg msg_of (const visor::EdgeMessage& m) { return Msg{true, m.obsid(), m.subid(), m.idx(), (int)m.status()}; }

#ifdef VIS_FAKE
struct Stream
{
	bool edge = false;
	std::shared_ptr<grpc::fake::Call> call;
	// false: nobody listens
	bool start (std::string id, bool edges, int patience)
	{
		edge = edges;
		call = std::make_shared<grpc::fake::Call>();
		int64_t t = now_ms();
		auto cl = call;
		while (!grpc::Server::run(address(), call, [cl, id, edges] (grpc::Service* s, grpc::ServerContext* x)
		{
			auto svc = dynamic_cast<visor::GUINotifier::Service*>(s);
			visor::StringId req;
			req.set_id(id);
			if (edges) { grpc::ServerWriter<visor::EdgeMessage> w; w.call_ = cl; return svc->SubscribeEdge(x, &req, &w); }
			grpc::ServerWriter<visor::NodeMessage> w; w.call_ = cl;
			return svc->SubscribeNode(x, &req, &w);
		}))
		{
			if (now_ms() - t > patience) { call = nullptr; return false; }
			usleep(200);
		}
		return true;
	}
	bool read (Msg& m)
	{
		std::string s;
		if (!call || !call->pop(s)) return false;
		if (edge) { visor::EdgeMessage e; e.ParseFromString(s); m = msg_of(e); }
		else { visor::NodeMessage e; e.ParseFromString(s); m = msg_of(e); }
		return true;
	}
	void cancel () { if (call) call->cancel(); }
	void finish () {}
};
bool end_subscription (std::string id)
{
	auto call = std::make_shared<grpc::fake::Call>();
	if (!grpc::Server::run(address(), call, [id] (grpc::Service* s, grpc::ServerContext* x)
	{
		visor::StringId req; visor::Empty e;
		req.set_id(id);
		return dynamic_cast<visor::GUINotifier::Service*>(s)->EndSubscription(x, &req, &e);
	})) return false;
	return call->wait().ok();
}
#else
std::shared_ptr<grpc::Channel> channel ()
{
	grpc::ChannelArguments a;
	a.SetInt(GRPC_ARG_USE_LOCAL_SUBCHANNEL_POOL, 1);
	a.SetInt(GRPC_ARG_INITIAL_RECONNECT_BACKOFF_MS, 20);
	a.SetInt(GRPC_ARG_MIN_RECONNECT_BACKOFF_MS, 20);
	return grpc::CreateCustomChannel(address(), grpc::InsecureChannelCredentials(), a);
}
struct Stream
{
	std::unique_ptr<visor::GUINotifier::Stub> stub;
	std::unique_ptr<grpc::ClientContext> ctx;
	std::unique_ptr<grpc::ClientReader<visor::NodeMessage> > nodes;
	std::unique_ptr<grpc::ClientReader<visor::EdgeMessage> > edges;
	bool start (std::string id, bool e, int patience)
	{
		std::shared_ptr<grpc::Channel> ch = channel();
		if (!ch->WaitForConnected(std::chrono::system_clock::now() + std::chrono::milliseconds(patience))) return false;
		stub = visor::GUINotifier::NewStub(ch);
		ctx.reset(new grpc::ClientContext());
		visor::StringId req;
		req.set_id(id);
		if (e) edges = stub->SubscribeEdge(ctx.get(), req);
		else nodes = stub->SubscribeNode(ctx.get(), req);
		return true;
	}
	bool read (Msg& m)
	{
		if (edges) { visor::EdgeMessage e; if (!edges->Read(&e)) return false; m = msg_of(e); return true; }
		if (nodes) { visor::NodeMessage e; if (!nodes->Read(&e)) return false; m = msg_of(e); return true; }
		return false;
	}
	void cancel () { if (ctx) ctx->TryCancel(); }
	void finish () { if (edges) edges->Finish(); if (nodes) nodes->Finish(); }
};
bool end_subscription (std::string id)
{
	auto stub = visor::GUINotifier::NewStub(channel());
	grpc::ClientContext x;
	x.set_deadline(std::chrono::system_clock::now() + std::chrono::seconds(60));
	visor::StringId req; visor::Empty e;
	req.set_id(id);
	return stub->EndSubscription(&x, req, &e).ok();
}
#endif

// one stream of one client and what it was sent
struct Sub
{
	std::string id;
	bool edge;
	Stream s;
	std::thread th;
	std::mutex m;
	std::condition_variable cv;
	std::vector<Msg> log;
	bool ended = false, paused = false;
	int slow = 0;
	size_t seen = 0; // how much of the log was folded into the view
	std::set<std::string> told; // nodes updated since their value was last seen to change
	std::map<std::string, Msg> view; // latest status of every edge or node
	bool start (int patience = 10000)
	{
		if (!s.start(id, edge, patience)) return false;
		th = std::thread([this]
		{
			Msg q;
			for (;;)
			{
				{
					std::unique_lock<std::mutex> l(m);
					while (paused) cv.wait(l);
				}
				if (!s.read(q)) break;
				if (slow) usleep(slow);
				std::unique_lock<std::mutex> l(m);
				log.push_back(q);
				cv.notify_all();
			}
			s.finish();
			std::unique_lock<std::mutex> l(m);
			ended = true;
			cv.notify_all();
		});
		return true;
	}
	void pause (bool p) { std::unique_lock<std::mutex> l(m); paused = p; cv.notify_all(); }
	// until a message of this key arrives
	bool await (const std::string& a)
	{
		std::unique_lock<std::mutex> l(m);
		size_t at = seen;
		for (;;)
		{
			for (; at < log.size(); at++) if (log[at].a == a) return true;
			if (ended) return false;
			cv.wait(l);
		}
	}
	void await_end () { std::unique_lock<std::mutex> l(m); while (!ended) cv.wait(l); }
	bool is_ended () { std::unique_lock<std::mutex> l(m); return ended; }
	// everything it was sent about one subject
	std::string trail (const std::string& u)
	{
		std::unique_lock<std::mutex> l(m);
		std::string t;
		size_t i = 0;
		for (const Msg& q : log) { if (q.b == u || (!q.edge && q.a == u)) t += "\n" + std::to_string(i) + (i < seen ? " " : " new ") + mstr(q); i++; }
		return t;
	}
	static std::string key (const Msg& q) { return q.edge ? q.a + "|" + q.b + "|" + std::to_string(q.idx) : q.a; }
	// messages since the last call
	std::vector<Msg> fresh ()
	{
		std::unique_lock<std::mutex> l(m);
		std::vector<Msg> out(log.begin() + seen, log.end());
		seen = log.size();
		for (const Msg& q : out) view[key(q)] = q;
		return out;
	}
	~Sub () { if (th.joinable()) th.join(); }
};

struct Own : public nnet::iobserver
{
	Own () {}
	std::string get_label (void) const override { return "own"; }
	void look_at (nnet::subject* s) { add_dependency(s); }
	void look_away (size_t i) { remove_dependency(i); }
	void look_else (nnet::subject* s, size_t i) { replace_dependency(s, i); }
	void update (std::unordered_set<size_t>) override {}
	void death_on_broken () override {}
};
struct Mark : public nnet::subject
{
	std::string get_label (void) const override { return "mark"; }
};

std::list<Ptr> handles;
Rec* rec () { return static_cast<Rec*>(Status::rec.get()); }

void open_service ()
{
	g_port++;
#ifndef VIS_FAKE
	unlink((host().substr(5) + ":" + std::to_string(g_port)).c_str());
#endif
	Status::rec.reset(new Rec(host(), g_port));
	Status::rec_good = true; // the recorder it replaces switched recording off
}

bool same_values (const std::vector<double>& a, const std::vector<double>& b)
{
	if (a.size() != b.size()) return false;
	for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i] && !(a[i] != a[i] && b[i] != b[i])) return false;
	return true;
}

struct Clients
{
	Ctx& c;
	Rng r;
	std::list<std::unique_ptr<Sub> > subs;
	size_t nid = 0;
#ifdef VIS_FAKE
	std::vector<std::shared_ptr<grpc::fake::Call> > dropped;
#endif
	std::map<std::string, RT> values; // by uid, at the last look
	explicit Clients (Ctx& x) : c(x), r(x.rng.next()) {}
	std::string fresh_id () { return "client" + std::to_string(nid++); }
	// a client opens one or both streams
	void join (std::string id)
	{
		int which = (int)r.range(0, 2);
		int slow = r.chance(0.2) ? (int)r.range(1, 300) : 0;
		for (int e = 0; e < 2; e++)
		{
			if (which != 2 && which != e) continue;
			subs.emplace_back(new Sub());
			Sub& s = *subs.back();
			s.id = id; s.edge = e; s.slow = slow;
			Doing d("opening a subscription");
			if (!s.start()) { subs.pop_back(); c.fail_("not-serving", "the service at " + address() + " doesn't accept subscriptions"); }
			c.count(e ? "edge_subscriptions" : "node_subscriptions");
		}
	}
	// one client leaves: tells the service, or just disconnects
	void leave ()
	{
		if (subs.empty()) return;
		auto it = subs.begin();
		std::advance(it, r.range(0, subs.size() - 1));
		std::string id = (*it)->id;
		if (r.chance(0.65))
		{
			settle(); // its call may not have reached the service yet
			bool read = r.chance(0.8);
			if (!read) for (auto& s : subs) if (s->id == id) s->pause(true);
			Doing d("ending a subscription");
			if (!end_subscription(id)) c.fail_("end-failed", "ending a subscription fails");
			if (!read) for (auto& s : subs) if (s->id == id) s->pause(false);
			// its streams end even if nothing happens any more
			for (auto i = subs.begin(); i != subs.end(); )
			{
				if ((*i)->id != id) { ++i; continue; }
				(*i)->await_end();
				c.event(); c.count("ended_subscriptions");
				i = subs.erase(i);
			}
		}
		else
		{
			Doing d("disconnecting");
			for (auto i = subs.begin(); i != subs.end(); )
			{
				if ((*i)->id != id) { ++i; continue; }
				(*i)->s.cancel();
				(*i)->await_end();
				c.count("disconnections");
#ifdef VIS_FAKE
				dropped.push_back((*i)->s.call);
#endif
				i = subs.erase(i);
			}
		}
	}
	void still_open ()
	{
		for (auto& s : subs) if (s->is_ended()) c.fail_("stream-ended", "the stream of " + s->id + " ended although nobody ended it");
	}
	// wait until every stream delivered everything that happened before
	void settle ()
	{
		Doing d("waiting for what a subscriber was not sent yet");
		Mark m;
		Own o;
		std::string oid = o.get_uid(), mid = m.get_uid();
		o.look_at(&m);
		rec()->data_update(&m);
		
		for (auto& s : subs)
			if (!s->await(s->edge ? oid : mid)) c.fail_("stream-ended", "the stream of " + s->id + " ended although nobody ended it");
#ifdef VIS_FAKE
		// whoever disconnected is left at the next message
		Doing e("serving a client that disconnected");
		for (auto& q : dropped) { q->wait(); c.event(); c.count("left_disconnected_clients"); }
		dropped.clear();
#endif
		c.count("settled", subs.size());
	}
	std::vector<Node*> live_nodes ()
	{
		std::vector<Node*> todo, out;
		for (auto it = handles.begin(); it != handles.end(); )
		{
			if (it->get()) { todo.push_back(it->get()); uids[&*it] = it->get()->get_uid(); ++it; }
			else
			{
				auto u = uids.find(&*it);
				if (u != uids.end()) { if (!moves) gone.insert(u->second); uids.erase(u); }
				it = handles.erase(it);
			}
		}
		std::set<Node*> done;
		while (!todo.empty())
		{
			Node* n = todo.back(); todo.pop_back();
			if (!n || !done.insert(n).second) continue;
			out.push_back(n);
			for (Node* a : n->get_arguments()) todo.push_back(a);
		}
		return out;
	}
	void compare (const char* when)
	{
		std::vector<Node*> live = live_nodes();
		std::map<std::string, Node*> by;
		for (Node* n : live) by[n->get_uid()] = n;
		// nodes whose value isn't what it was at the last look
		std::set<std::string> changed;
		std::map<std::string, RT> now;
		for (Node* n : live)
		{
			Got q = get(n);
			if (q.threw || !q.has) continue;
			std::string u = n->get_uid();
			auto it = values.find(u);
			if (it != values.end() && c.tr.find("quiet set") == std::string::npos && (!same_values(it->second.v, q.t.v) || !same_shape(it->second.s, q.t.s))) changed.insert(u);
			now[u] = q.t;
		}
		// over constants only: can be older than the recorder
		std::set<Node*> ancient;
		{
			std::map<Node*, bool> memo;
			std::function<bool(Node*)> old = [&](Node* n) -> bool
			{
				auto it = memo.find(n);
				if (it != memo.end()) return it->second;
				bool o = dynamic_cast<Const*>(n) || dynamic_cast<Conn*>(n);
				for (Node* a : n->get_arguments()) o = (!a || old(a)) && o;
				return memo[n] = o;
			};
			for (Node* n : live) if (old(n)) ancient.insert(n);
		}
		// looking updated what was due
		settle();
		for (auto& s : subs)
		{
			bool first = s->seen == 0;
			std::vector<Msg> f = s->fresh();
			c.event(f.size());
			c.count(s->edge ? "edge_messages" : "node_messages", f.size());
			std::string who = std::string(when) + ", " + s->id + " ";
			if (s->edge)
			{
				std::map<std::string, std::set<std::string> > watchers;
				std::map<std::string, std::multiset<std::pair<std::string, uint64_t> > > args;
				for (auto& p : s->view)
				{
					if (p.second.status != visor::EdgeMessage::ADD) continue;
					watchers[p.second.b].insert(p.second.a);
					args[p.second.a].insert({p.second.b, p.second.idx});
				}
				for (Node* n : live)
				{
					std::string u = n->get_uid();
					bool old = ancient.count(n) > 0;
					if (old ? watchers[u].size() > n->n_audience() : watchers[u].size() != n->n_audience()) c.fail_("audience", who + "knows " + std::to_string(watchers[u].size()) + " dependents of " + n->get_name() + " which has " + std::to_string(n->n_audience()) + ": " + [&] { std::string t; for (auto& w : watchers[u]) { t += w; auto i = by.find(w); if (i != by.end()) t += i->second->get_name(); t += "; "; } return t; }() + s->trail(u));
					Conn* q = dynamic_cast<Conn*>(n);
					if (!q) continue;
					std::multiset<std::pair<std::string, uint64_t> > want;
					std::vector<Node*> a = q->get_arguments();
					for (size_t i = 0; i < a.size(); i++) if (a[i]) want.insert({a[i]->get_uid(), i});
					c.event();
					c.count("edges_compared", want.size());
					if (old ? !args[u].empty() && want != args[u] : want != args[u]) c.fail_("edges", who + "knows " + std::to_string(args[u].size()) + " edges to arguments of " + n->get_name() + ", not its " + std::to_string(want.size()) + " edges");
				}
			}
			else
			{
				// a frozen node is told to change before it does
				for (const Msg& q : f) if (q.status == visor::NodeMessage::UPDATE) s->told.insert(q.a);
				for (Node* n : live)
				{
					auto it = s->view.find(n->get_uid());
					if (it != s->view.end() && it->second.status == visor::NodeMessage::REMOVE) c.fail_("removed", who + "was told that " + n->get_name() + " is gone");
				}
				for (const std::string& u : changed)
				{
					c.event(); c.count("updates_expected");
					if (!s->told.count(u) && !first) c.fail_("update", who + "wasn't told that " + by[u]->get_name() + " changed" + s->trail(u));
					if (s->view.find(u) == s->view.end()) c.fail_("update", who + "never heard of " + by[u]->get_name());
					s->told.erase(u);
				}
				for (const std::string& u : gone)
				{
					c.event(); c.count("removals_expected");
					auto p = s->view.find(u);
					if (p == s->view.end() || p->second.status != visor::NodeMessage::REMOVE) c.fail_("not-removed", who + "wasn't told that a destroyed node is gone");
				}
			}
		}
		values.swap(now);
	}
	std::map<Ptr*, std::string> uids; // of the nodes behind the handles
	std::set<std::string> gone;
	bool moves = false; // handles follow nodes that move, which are known by another name then
	// the recorder closes; some clients don't read at that moment
	void close ()
	{
		std::vector<Sub*> still;
		for (auto& s : subs) if (r.chance(0.2)) { s->pause(true); still.push_back(s.get()); }
		{
			Doing d("closing the recorder");
			Status::rec.reset();
		}
		Status::rec_good = false;
		for (Sub* s : still) s->pause(false);
		Doing d("the end of a stream after the recorder closed");
		for (auto& s : subs) { s->await_end(); c.event(); c.count("streams_closed"); }
		subs.clear();
	}
};

struct Recording
{
	Clients cl;
	Ctx& c;
	size_t budget;
	bool off = false;
	explicit Recording (Ctx& x) : cl(x), c(x), budget(x.thorough ? 25 : 10)
	{
		handles.clear();
		g_level.store((int)cl.r.range(0, 5));
		open_service();
		for (size_t k = cl.r.range(0, 2); k > 0; k--) cl.join(cl.fresh_id());
		gb::watched = &handles;
		gb::probe = [this](Ctx&, const char* when) { look(when, false); };
	}
	~Recording ()
	{
		stop();
		if (Status::rec)
		{
			for (auto& s : cl.subs) { s->pause(false); s->s.cancel(); }
			Doing d("closing the recorder");
			Status::rec.reset(); Status::rec_good = false;
		}
	}
	void stop ()
	{
		if (off) return;
		off = true;
		gb::probe = nullptr;
		gb::watched = nullptr;
		handles.clear();
	}
	void look (const char* when, bool always)
	{
		if (!always && (budget == 0 || !cl.r.chance(0.3))) return;
		if (budget > 0) budget--;
		Rng& r = cl.r;
		if (r.chance(0.3)) cl.join(cl.fresh_id());
		if (r.chance(0.25)) cl.leave();
		cl.still_open();
		if (cl.subs.empty()) cl.join(cl.fresh_id());
		cl.compare(when);
	}
	void done ()
	{
		look("at the end", true);
		stop();
		cl.close();
	}
};

template <void (*F)(Ctx&)> void served (Ctx& c)
{
	Recording rec(c);
	rec.cl.moves = F == r05_copies;
	F(c);
	rec.done();
}

// observers and subjects of the user's own: everything there is to know is known, also at the end
void e02_own (Ctx& c)
{
	Clients cl(c);
	Rng& r = cl.r;
	g_level.store((int)r.range(0, 5));
	open_service();
	struct Off { Clients& cl; ~Off ()
	{
		if (!Status::rec) return;
		for (auto& s : cl.subs) { s->pause(false); s->s.cancel(); }
		Doing d("closing the recorder");
		Status::rec.reset(); Status::rec_good = false;
	} } off{cl};
	for (size_t k = r.range(0, 3); k > 0; k--) cl.join(cl.fresh_id());
	std::vector<std::unique_ptr<Mark> > subj;
	std::vector<std::unique_ptr<Own> > obs;
	std::map<Own*, std::vector<Mark*> > args;
	std::set<std::string> gone;
	std::map<std::string, size_t> updates;
	std::set<std::string> updated;
	auto check = [&](const char* when)
	{
		cl.settle();
		std::set<std::string> want, alive;
		for (auto& o : obs)
			for (size_t i = 0; i < args[o.get()].size(); i++)
				if (args[o.get()][i]) want.insert(o->get_uid() + "|" + args[o.get()][i]->get_uid() + "|" + std::to_string(i));
		for (auto& s : subj) alive.insert(s->get_uid());
		for (auto& s : cl.subs)
		{
			bool first = s->seen == 0;
			std::vector<Msg> f = s->fresh();
			std::string who = std::string(when) + ", " + s->id + " ";
			c.event(f.size() + 1);
			if (s->edge)
			{
				std::set<std::string> got;
				for (auto& p : s->view) if (p.second.status == visor::EdgeMessage::ADD) got.insert(p.first);
				// the marker's own edge is there or already gone
				std::vector<std::string> extra, missing;
				std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(missing));
				for (auto& g : got) if (!want.count(g)) { const Msg& q = s->view[g]; if (alive.count(q.b) || gone.count(q.b)) extra.push_back(g); }
				c.count("edges_compared", want.size());
				if (!missing.empty()) c.fail_("edges", who + "lacks " + std::to_string(missing.size()) + " of " + std::to_string(want.size()) + " edges");
				if (!extra.empty()) c.fail_("edges", who + "knows " + std::to_string(extra.size()) + " edges that don't exist (any more)");
			}
			else
			{
				for (auto& a : alive) { auto it = s->view.find(a); if (it != s->view.end() && it->second.status == visor::NodeMessage::REMOVE) c.fail_("removed", who + "was told that a living node is gone"); }
				for (auto& a : gone) { c.event(); auto it = s->view.find(a); if (it == s->view.end() || it->second.status != visor::NodeMessage::REMOVE) c.fail_("not-removed", who + "wasn't told that a node is gone"); }
				std::map<std::string, size_t> told;
				for (const Msg& q : f) if (q.status == visor::NodeMessage::UPDATE) told[q.a]++;
				for (auto& a : alive)
				{
					if (updates[a] && !told[a]) c.fail_("update", who + "wasn't told that a node changed");
					if (!first && told[a] > updates[a]) c.fail_("repeated", who + "was told of " + std::to_string(told[a]) + " changes of a node that changed " + std::to_string(updates[a]) + " times");
					if (first && updated.count(a) && !told[a]) c.fail_("update", who + "came late and wasn't told that a node changed");
				}
			}
		}
		updates.clear();
	};
	size_t steps = r.range(5, c.thorough ? 200 : 80);
	for (size_t k = 0; k < steps; k++)
	{
		switch (r.range(0, 12))
		{
			case 0: case 1: subj.emplace_back(new Mark()); c.log("subject"); break;
			case 2: obs.emplace_back(new Own()); c.log("observer"); break;
			case 3: case 4: case 5:
				if (subj.empty() || obs.empty()) break;
			{
				Own* o = r.pick(obs).get(); Mark* s = r.pick(subj).get();
				o->look_at(s); args[o].push_back(s);
				c.log("look");
				break;
			}
			case 6:
				if (obs.empty()) break;
			{
				Own* o = r.pick(obs).get();
				if (args[o].empty()) break;
				size_t i = r.range(0, args[o].size() - 1);
				if (!args[o][i]) break;
				o->look_away(i);
				args[o][i] = nullptr;
				while (!args[o].empty() && !args[o].back()) args[o].pop_back();
				c.log("away");
				break;
			}
			case 7:
				if (obs.empty() || subj.empty()) break;
			{
				Own* o = r.pick(obs).get(); Mark* s = r.pick(subj).get();
				if (args[o].empty()) break;
				size_t i = r.range(0, args[o].size() - 1);
				o->look_else(s, i);
				args[o][i] = s;
				c.log("else");
				break;
			}
			case 8: case 9:
				if (subj.empty()) break;
			{
				Mark* s = r.pick(subj).get();
				for (size_t n = r.range(1, 4); n > 0; n--) { s->notify(nnet::UPDATE); updates[s->get_uid()]++; }
				updated.insert(s->get_uid());
				c.log("notify");
				break;
			}
			case 10:
				if (obs.empty() || !r.chance(0.3)) break;
			{
				size_t i = r.range(0, obs.size() - 1);
				args.erase(obs[i].get());
				obs.erase(obs.begin() + i);
				c.log("observer ends");
				break;
			}
			case 11:
				if (subj.empty() || !r.chance(0.3)) break;
			{
				// nobody looks at it any more, or its end tells those who do
				size_t i = r.range(0, subj.size() - 1);
				bool watched = false;
				for (auto& a : args) for (Mark* m : a.second) watched |= m == subj[i].get();
				if (watched) break;
				gone.insert(subj[i]->get_uid());
				subj.erase(subj.begin() + i);
				c.log("subject ends");
				break;
			}
			default:
				if (r.chance(0.4)) cl.join(cl.fresh_id());
				else if (r.chance(0.5)) cl.leave();
				else
				{
					// a client of a known name comes back
					std::string id = "client" + std::to_string(r.range(0, cl.nid));
					bool there = false;
					for (auto& s : cl.subs) there |= s->id == id;
					if (!there) { cl.join(id); c.count("came_back"); }
				}
				if (r.chance(0.6)) { cl.still_open(); check("in session"); }
		}
		delay();
	}
	cl.still_open();
	check("at the end");
	// what is destroyed is told
	bool obs_first = r.chance(0.5);
	if (obs_first) { args.clear(); obs.clear(); check("after the observers ended"); }
	for (auto& s : subj) gone.insert(s->get_uid());
	subj.clear();
	if (!obs_first) { args.clear(); obs.clear(); }
	check("after everything ended");
	// nothing happens: nothing is sent
	cl.settle();
	for (auto& s : cl.subs) s->fresh();
	cl.settle();
	for (auto& s : cl.subs)
	{
		size_t n = 0;
		for (const Msg& q : s->fresh()) n += gone.count(q.edge ? q.b : q.a);
		c.event();
		if (n) c.fail_("repeated", s->id + " was sent " + std::to_string(n) + " messages although nothing happened");
	}
	cl.close();
}

// clients come, go and don't read while the graph changes and the recorder closes
void e02_crowd (Ctx& c)
{
	Rng& r = c.rng;
	g_level.store((int)r.range(0, 6));
	open_service();
	struct Off { ~Off () { if (Status::rec) { Doing d("closing the recorder"); Status::rec.reset(); Status::rec_good = false; } } } off;
	size_t nclients = r.range(1, 5);
	std::atomic<bool> quit{false};
	std::atomic<size_t> opened{0}, ends{0}, cancels{0}, messages{0}, refused{0};
	std::vector<std::thread> clients;
	{
		Doing d("clients coming and going while the recorder closes");
		for (size_t k = 0; k < nclients; k++)
		{
			uint64_t seed = r.next();
			clients.emplace_back([&, k, seed]
			{
				Rng q(seed);
				for (size_t n = 0; !quit.load() && n < 8; n++)
				{
					// sometimes the same name for all
					std::string id = q.chance(0.2) ? "anybody" : "crowd" + std::to_string(k) + "." + std::to_string(n);
					std::list<Sub> subs;
					for (int e = 0; e < 2; e++)
					{
						if (q.chance(0.4)) continue;
						subs.emplace_back();
						subs.back().id = id; subs.back().edge = e;
						if (q.chance(0.2)) subs.back().slow = (int)q.range(1, 400);
						subs.back().paused = q.chance(0.2);
						if (quit.load() || !subs.back().start(600)) { subs.pop_back(); refused++; break; }
						opened++;
					}
					if (q.chance(0.7)) usleep(q.range(0, 3000));
					bool told = q.chance(0.6);
					if (told) { if (!subs.empty() && !quit.load() && end_subscription(id)) ends++; else told = false; }
					for (Sub& s : subs)
					{
						s.pause(false);
						// only who was sent something can know that its subscription arrived before its end
						std::unique_lock<std::mutex> l(s.m);
						bool arrived = !s.log.empty();
						l.unlock();
						if (id == "anybody" || !told || !arrived) { s.s.cancel(); cancels++; }
						s.await_end();
						messages += s.log.size();
					}
				}
			});
		}
		std::list<Mark> marks;
		std::list<Own> owns;
		size_t steps = r.range(0, 400);
		for (size_t k = 0; k < steps; k++)
		{
			if (marks.empty() || r.chance(0.3)) marks.emplace_back();
			if (owns.empty() || r.chance(0.2)) owns.emplace_back();
			owns.back().look_at(&marks.back());
			marks.back().notify(nnet::UPDATE);
			if (r.chance(0.2)) { owns.pop_front(); }
			delay();
		}
		owns.clear();
		marks.clear();
		if (r.chance(0.5)) usleep(r.range(0, 4000));
		quit.store(r.chance(0.5)); // some go on knocking
		Status::rec.reset(); Status::rec_good = false;
		quit.store(true);
		for (auto& t : clients) t.join();
	}
	c.event(opened.load() + 1);
	c.count("crowd_streams", opened); c.count("crowd_ends", ends); c.count("crowd_disconnections", cancels); c.count("crowd_messages", messages); c.count("crowd_refused", refused);
	c.log("crowd " + std::to_string(nclients));
}

// a client that never reads holds up neither the others nor the end of the service
void e02_stalled (Ctx& c)
{
	Clients cl(c);
	Rng& r = cl.r;
	g_level.store((int)r.range(0, 4));
	open_service();
	struct Off { Clients& cl; ~Off ()
	{
		for (auto& s : cl.subs) { s->pause(false); s->s.cancel(); }
		if (!Status::rec) return;
		Doing d("closing the recorder");
		Status::rec.reset(); Status::rec_good = false;
	} } off{cl};
#ifdef VIS_FAKE
	size_t many = r.range(20, 400);
#else
	size_t many = r.range(20, c.thorough ? 60000 : 6000);
#endif
	std::list<std::unique_ptr<Sub> > stuck;
	for (size_t k = r.range(1, 3); k > 0; k--)
	{
		stuck.emplace_back(new Sub());
		Sub& s = *stuck.back();
		s.id = "stuck" + std::to_string(k); s.edge = r.chance(0.5); s.paused = true;
		Doing d("opening a subscription");
		if (!s.start()) { stuck.pop_back(); c.fail_("not-serving", "the service doesn't accept subscriptions"); }
	}
	struct Free { std::list<std::unique_ptr<Sub> >& l; ~Free () { for (auto& s : l) { s->pause(false); s->s.cancel(); } } } fr{stuck};
	for (size_t k = r.range(0, 3); k > 0; k--) cl.join(cl.fresh_id());
	std::list<Mark> marks;
	std::list<Own> owns;
	std::set<std::string> updated;
	for (size_t k = 0; k < many; k++)
	{
		marks.emplace_back();
		if (owns.empty() || r.chance(0.1)) owns.emplace_back();
		owns.back().look_at(&marks.back());
		marks.back().notify(nnet::UPDATE);
		updated.insert(marks.back().get_uid());
	}
	if (r.chance(0.5)) cl.join(cl.fresh_id());
	cl.settle();
	for (auto& s : cl.subs)
	{
		s->fresh();
		size_t n = 0;
		for (auto& p : s->view) n += updated.count(s->edge ? p.second.b : p.second.a);
		c.event();
		if (n != updated.size()) c.fail_("held-up", s->id + " was told of " + std::to_string(n) + " of " + std::to_string(updated.size()) + " nodes while another client doesn't read");
		c.count("messages_past_a_stalled_client", n);
	}
	for (auto& s : stuck)
	{
		int how = (int)r.range(0, 3);
		if (how == 0)
		{
			Doing d("disconnecting a client that doesn't read");
			s->s.cancel(); s->pause(false); s->await_end();
			c.count("stalled_disconnections");
		}
		else if (how == 1)
		{
			// told before the end of the subscription, read after it
			{
				Mark m; Own o;
				o.look_at(&m); m.notify(nnet::UPDATE);
			}
			Doing d("ending the subscription of a client that doesn't read");
			s->pause(false);
			{ std::unique_lock<std::mutex> l(s->m); while (s->log.empty() && !s->ended) s->cv.wait(l); }
			s->pause(true);
			if (!end_subscription(s->id)) c.fail_("end-failed", "ending a subscription fails");
			s->pause(false);
			s->await_end();
			c.event();
			c.count("stalled_ends");
		}
	}
	cl.close();
	c.event();
	c.count("closed_with_stalled_client");
	for (auto& s : stuck) { s->pause(false); Doing d("the end of a stream after the recorder closed"); s->await_end(); }
	// what it watched is still the same
	c.log("stalled " + std::to_string(stuck.size()) + " of " + std::to_string(many));
}

// a service that closes at once, or that can't listen where it should
void e02_address (Ctx& c)
{
	Rng& r = c.rng;
	g_level.store((int)r.range(0, 5));
	size_t n = r.range(1, 4);
	for (size_t k = 0; k < n; k++)
	{
		bool bad = r.chance(0.5);
		g_port++;
		{
			Doing d(bad ? "recording without a service" : "closing the recorder at once");
#ifdef VIS_FAKE
			Status::rec.reset(new Rec(bad ? "nowhere" : host(), g_port));
#else
			Status::rec.reset(new Rec(bad ? "unix:/nowhere/to/listen" : host(), g_port));
#endif
			Status::rec_good = true;
			if (r.chance(0.6))
			{
				Mark m;
				Own o;
				o.look_at(&m);
				m.notify(nnet::UPDATE);
				if (r.chance(0.3)) usleep(r.range(0, 20000));
			}
			Status::rec.reset();
			Status::rec_good = false;
		}
		c.event();
		c.count(bad ? "services_without_address" : "services_closed_at_once");
		c.log(bad ? "bad" : "good");
	}
}
}
namespace vh {
std::vector<Group> groups = {
	{"mem:E02,noM01", "e02_own", e02_own, 6, 0, nullptr},
	{"mem:E02,noM01", "e02_crowd", e02_crowd, 4, 0, nullptr},
	{"mem:E02,noM01", "e02_stalled", e02_stalled, 1, 0, nullptr},
	{"mem:E02,noM01", "e02_address", e02_address, 1, 0, nullptr},
	{"mem:E02,noM01", "e02_values", served<r01_session>, 2, 0, nullptr},
	{"mem:E02,noM01", "e02_destroy", served<r04_destroy>, 3, 0, nullptr},
	{"mem:E02,noM01", "e02_copies", served<r05_copies>, 3, 0, nullptr},
	{"mem:E02,noM01", "e02_freeze", served<r02_freeze>, 1, 0, nullptr},
};
static void start ()
{
	// the recorder the library itself starts with
	Status::rec.reset();
	Status::rec_good = false;
	watchdog();
}
void (*on_start)(void) = start;
static void seed (uint64_t s) { nnutils::seed_generator(s); g_noise.store(s); }
void (*on_case)(uint64_t) = seed;
}
