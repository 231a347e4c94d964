// An in-process stand-in for the parts of gRPC the visualisation service uses: every call runs on a thread of the
// "server", messages go through a bounded queue per call, shutting down waits for running calls as gRPC does.
// ThreadSanitizer can follow it, which it can't with the installed (uninstrumented) libraries.
#pragma once
#include <string>
#include <map>
#include <set>
#include <deque>
#include <memory>
#include <mutex>
#include <thread>
#include <chrono>
#include <atomic>
#include <vector>
#include <cstdlib>
#include <condition_variable>
#include <functional>
#include <unistd.h>
namespace grpc {
enum StatusCode { OK = 0, CANCELLED = 1, UNKNOWN = 2, INVALID_ARGUMENT = 3, DEADLINE_EXCEEDED = 4, NOT_FOUND = 5, ALREADY_EXISTS = 6,
	PERMISSION_DENIED = 7, RESOURCE_EXHAUSTED = 8, FAILED_PRECONDITION = 9, ABORTED = 10, OUT_OF_RANGE = 11, UNIMPLEMENTED = 12,
	INTERNAL = 13, UNAVAILABLE = 14, DATA_LOSS = 15, UNAUTHENTICATED = 16 };
class Status
{
public:
	Status () {}
	Status (StatusCode c, const std::string& m) : code_(c), msg_(m) {}
	static const Status& OK;
	static const Status& CANCELLED;
	StatusCode error_code () const { return code_; }
	std::string error_message () const { return msg_; }
	bool ok () const { return code_ == StatusCode::OK; }
private:
	StatusCode code_ = StatusCode::OK;
	std::string msg_;
};
namespace fake {
void noise (); // delays of the harness
struct Call
{
	std::mutex m;
	std::condition_variable cv;
	std::deque<std::string> q;
	size_t cap = 64;
	bool cancelled = false, done = false, accepted = false;
	Status status;
	bool push (std::string s)
	{
		noise();
		std::unique_lock<std::mutex> l(m);
		while (q.size() >= cap && !cancelled) cv.wait(l);
		if (cancelled) return false;
		q.push_back(std::move(s));
		cv.notify_all();
		return true;
	}
	// false: the stream ended
	bool pop (std::string& s)
	{
		std::unique_lock<std::mutex> l(m);
		while (q.empty() && !done && !cancelled) cv.wait(l);
		if (cancelled || q.empty()) return false;
		s = std::move(q.front());
		q.pop_front();
		cv.notify_all();
		return true;
	}
	void cancel () { std::unique_lock<std::mutex> l(m); cancelled = true; cv.notify_all(); }
	bool is_cancelled () { std::unique_lock<std::mutex> l(m); return cancelled; }
	void finish (Status s) { std::unique_lock<std::mutex> l(m); status = s; done = true; cv.notify_all(); }
	Status wait () { std::unique_lock<std::mutex> l(m); while (!done) cv.wait(l); return status; }
};
}
class ServerContext
{
public:
	std::shared_ptr<fake::Call> call_;
	bool IsCancelled () const { return call_ && call_->is_cancelled(); }
	void TryCancel () const { if (call_) call_->cancel(); }
	std::string peer () const { return "fake:0"; }
	std::chrono::system_clock::time_point deadline () const { return std::chrono::system_clock::time_point::max(); }
};
class WriteOptions { public: WriteOptions& set_buffer_hint () { return *this; } WriteOptions& set_last_message () { return *this; } };
template <typename W> class ServerWriter
{
public:
	std::shared_ptr<fake::Call> call_;
	bool Write (const W& m) { return call_->push(m.SerializeAsString()); }
	bool Write (const W& m, WriteOptions) { return Write(m); }
	void WriteLast (const W& m, WriteOptions) { Write(m); }
	void SendInitialMetadata () {}
};
class Service { public: virtual ~Service () {} };
class ServerCredentials {};
inline std::shared_ptr<ServerCredentials> InsecureServerCredentials () { return std::make_shared<ServerCredentials>(); }
class Server
{
public:
	std::set<std::string> addr_;
	Service* service_ = nullptr;
	~Server () { Shutdown(); }
	void Shutdown () { down(nullptr); }
	template <typename T> void Shutdown (const T& deadline)
	{
		std::function<std::chrono::milliseconds()> left = [deadline] { return std::chrono::duration_cast<std::chrono::milliseconds>(deadline - T::clock::now()); };
		down(&left);
	}
	void Wait ()
	{
		std::unique_lock<std::mutex> l(m_);
		while (!over_) cv_.wait(l);
	}
	// the client's side
	static std::map<std::string, Server*>& all ();
	static std::mutex& mutex ();
	// run `f` on a thread of the server at `addr`; false if nobody listens there
	static bool run (const std::string& addr, std::shared_ptr<fake::Call> call, std::function<Status(Service*, ServerContext*)> f)
	{
		std::unique_lock<std::mutex> g(mutex());
		auto it = all().find(addr);
		if (it == all().end()) return false;
		Server* s = it->second;
		std::unique_lock<std::mutex> l(s->m_);
		if (s->closing_) return false;
		s->running_++;
		s->calls_.insert(call);
		std::thread([s, call, f]
		{
			ServerContext ctx;
			ctx.call_ = call;
			fake::noise();
			call->finish(f(s->service_, &ctx));
			std::unique_lock<std::mutex> l(s->m_);
			s->calls_.erase(call);
			s->running_--;
			s->cv_.notify_all();
		}).detach();
		return true;
	}
private:
	void down (std::function<std::chrono::milliseconds()>* left)
	{
		{
			std::unique_lock<std::mutex> g(mutex());
			for (const std::string& a : addr_) { auto it = all().find(a); if (it != all().end() && it->second == this) all().erase(it); }
		}
		fake::noise();
		std::unique_lock<std::mutex> l(m_);
		closing_ = true;
		if (left)
		{
			while (running_ && (*left)().count() > 0) cv_.wait_for(l, std::min(std::chrono::milliseconds(100), (*left)()));
			for (auto& c : calls_) c->cancel();
		}
		while (running_) cv_.wait(l);
		over_ = true;
		cv_.notify_all();
	}
	std::mutex m_;
	std::condition_variable cv_;
	bool closing_ = false, over_ = false;
	size_t running_ = 0;
	std::set<std::shared_ptr<fake::Call> > calls_;
};
class ServerBuilder
{
public:
	ServerBuilder& AddListeningPort (const std::string& a, std::shared_ptr<ServerCredentials>, int* port = nullptr) { addr_.insert(a); if (port) *port = 1; return *this; }
	ServerBuilder& RegisterService (Service* s) { service_ = s; return *this; }
	ServerBuilder& SetMaxReceiveMessageSize (int) { return *this; }
	ServerBuilder& SetMaxSendMessageSize (int) { return *this; }
	std::unique_ptr<Server> BuildAndStart ()
	{
		fake::noise();
		for (const std::string& a : addr_) if (a.find("nowhere") != std::string::npos) return nullptr;
		std::unique_ptr<Server> s(new Server());
		s->addr_ = addr_;
		s->service_ = service_;
		std::unique_lock<std::mutex> g(Server::mutex());
		for (const std::string& a : addr_) Server::all()[a] = s.get();
		return s;
	}
private:
	std::set<std::string> addr_;
	Service* service_ = nullptr;
};
}
