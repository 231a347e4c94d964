// tensor.cpp - T01 shape algebra, T02 tensor data, T03 allocator balance
#include "vh.hpp"
#include "ref.hpp"
#include "proto/tenncor.pb.h"
#include "tensor/tensor.hpp"
#include "tensor/tensor_handler.hpp"
#include "memory/alloc_builder.hpp"
#include "memory/default_alloc.hpp"
#include <sys/wait.h>

using namespace vh;
using nnet::tensor;
using nnet::tensorshape;
typedef std::vector<size_t> Dims;

static std::string sh (const Dims& d)
{
	std::string s = "<";
	for (size_t i = 0; i < d.size(); i++) s += (i ? "," : "") + std::to_string(d[i]);
	return s + ">";
}
static bool isdef (const Dims& d) { if (d.empty()) return false; for (size_t v : d) if (0 == v) return false; return true; }
static size_t prod (const Dims& d) { if (d.empty()) return 0; size_t p = 1; for (size_t v : d) p *= v; return p; }
static Dims trimmed (const Dims& d)
{
	size_t a = 0, b = d.size();
	while (a < b && 1 == d[a]) a++;
	while (b > a && 1 == d[b-1]) b--;
	return Dims(d.begin() + a, d.begin() + b);
}
// compatibility of shapes: 1 yes, 0 no, -1 the definition leaves it open (unknown dimensions and different ranks)
static int compat (const Dims& a, const Dims& b)
{
	if (a.empty() || b.empty()) return 1;
	if (a.size() == b.size())
	{
		for (size_t i = 0; i < a.size(); i++) if (a[i] && b[i] && a[i] != b[i]) return 0;
		return 1;
	}
	if (isdef(a) && isdef(b)) return trimmed(a) == trimmed(b);
	return -1;
}
// is there a way to fill the unknown dimensions of both that makes them equal up to unit dimensions at the ends?
static bool fillable (const Dims& a, const Dims& b)
{
	std::set<size_t> vals{1};
	for (size_t v : a) if (v) vals.insert(v);
	for (size_t v : b) if (v) vals.insert(v);
	std::vector<size_t> vv(vals.begin(), vals.end());
	auto expand = [&](const Dims& d)
	{
		std::set<Dims> out;
		std::vector<size_t> z;
		for (size_t i = 0; i < d.size(); i++) if (0 == d[i]) z.push_back(i);
		std::vector<size_t> idx(z.size(), 0);
		while (true)
		{
			Dims c = d;
			for (size_t k = 0; k < z.size(); k++) c[z[k]] = vv[idx[k]];
			out.insert(trimmed(c));
			size_t k = 0;
			while (k < z.size() && ++idx[k] == vv.size()) idx[k++] = 0;
			if (k == z.size()) break;
		}
		return out;
	};
	std::set<Dims> ea = expand(a), eb = expand(b);
	for (const Dims& d : ea) if (eb.count(d)) return true;
	return false;
}

static Dims rand_dims (Rng& r, size_t maxrank, size_t maxdim, double pzero, double pempty)
{
	if (r.chance(pempty)) return {};
	Dims d(r.range(1, maxrank));
	for (size_t& v : d)
	{
		if (r.chance(pzero)) v = 0;
		else if (r.chance(0.3)) v = 1;
		else v = r.range(1, maxdim);
	}
	return d;
}
// a shape related to another
static Dims vary (Rng& r, Dims d)
{
	for (size_t k = r.range(0, 2); k-- > 0;)
	{
		switch (r.range(0, 6))
		{
			case 0: d.insert(d.begin(), 1); break;
			case 1: d.push_back(1); break;
			case 2: if (!d.empty()) d[r.range(0, d.size()-1)] = 0; break;
			case 3: if (!d.empty()) d[r.range(0, d.size()-1)] = r.range(1, 5); break;
			case 4: if (d.size() > 1) d.pop_back(); break;
			case 5: if (d.size() > 1) d.erase(d.begin()); break;
			case 6: if (!d.empty()) std::swap(d[0], d[d.size()-1]); break;
		}
	}
	return d;
}

// ---------------------------------------------------------------- T01
static void algebra (Ctx& c)
{
	Rng& r = c.rng;
	Dims a = rand_dims(r, 5, 6, 0.2, 0.08), b = r.chance(0.6) ? vary(r, a) : rand_dims(r, 5, 6, 0.2, 0.08);
	c.log("a=" + sh(a) + " b=" + sh(b));
	tensorshape A(a), B; B = b;
	auto same = [&](const char* what, const Dims& got, const Dims& want)
	{
		c.event();
		if (got != want) c.fail(what, std::string(what) + " of " + sh(a) + " and " + sh(b) + " gave " + sh(got) + " instead of " + sh(want));
	};
	auto eq = [&](const char* what, size_t got, size_t want)
	{
		c.event();
		if (got != want) c.fail(what, std::string(what) + " of " + sh(a) + " and " + sh(b) + " gave " + std::to_string(got) + " instead of " + std::to_string(want));
	};
	same("as_list", A.as_list(), a); same("as_list", B.as_list(), b);
	eq("rank", A.rank(), a.size());
	eq("n_elems", A.n_elems(), prod(a));
	size_t known = a.empty() ? 0 : 1;
	for (size_t v : a) if (v) known *= v;
	eq("n_known", A.n_known(), known);
	eq("is_part_defined", A.is_part_defined(), !a.empty());
	eq("is_fully_defined", A.is_fully_defined(), isdef(a));
	int cm = compat(a, b);
	bool got = A.is_compatible_with(B), rev = B.is_compatible_with(A);
	eq("is_compatible_with symmetry", got, rev);
	if (cm >= 0) { eq("is_compatible_with", got, cm == 1); c.count(cm ? "compatible" : "incompatible"); }
	else if (got) { eq("is_compatible_with unknown dimensions", fillable(a, b), 1); c.count("compatible with unknown dimensions"); }
	eq("is_compatible_with itself", A.is_compatible_with(A), 1);
	same("trim", A.trim().as_list(), trimmed(a));
	Dims cat = a; cat.insert(cat.end(), b.begin(), b.end());
	same("concatenate", A.concatenate(B).as_list(), cat);
	bool threw = false;
	Dims mg;
	try { mg = A.merge_with(B).as_list(); } catch (std::logic_error&) { threw = true; }
	if (a.empty() || b.empty()) { eq("merge_with rejection", threw, 0); same("merge_with", mg, a.empty() ? b : a); }
	else if (a.size() != b.size()) eq("merge_with of different ranks rejected", threw, 1);
	else
	{
		Dims want(a.size());
		for (size_t i = 0; i < a.size(); i++) want[i] = a[i] ? a[i] : b[i];
		eq("merge_with rejection", threw, 0);
		same("merge_with", mg, want);
	}
	size_t k = r.range(0, 7);
	Dims clip(a.begin(), a.begin() + std::min(k, a.size())), pad = a;
	while (pad.size() < k) pad.push_back(1);
	same("with_rank", A.with_rank(k).as_list(), k < a.size() ? clip : pad);
	same("with_rank_at_least", A.with_rank_at_least(k).as_list(), pad);
	same("with_rank_at_most", A.with_rank_at_most(k).as_list(), clip);
	std::ostringstream os;
	nnet::print_shape(A, os);
	std::string want;
	for (size_t v : a) want += std::to_string(v) + " ";
	c.event();
	if (os.str() != (a.empty() ? "undefined " : want)) c.fail("print_shape", "print_shape of " + sh(a) + " gave '" + os.str() + "'");
	same("operands", A.as_list(), a); same("operands", B.as_list(), b);
	tensorshape C(A);
	C.undefine();
	eq("undefine", C.rank(), 0);
	same("operands", A.as_list(), a);
}

static void coords (Ctx& c)
{
	Rng& r = c.rng;
	Dims d = rand_dims(r, c.thorough ? 6 : 5, 6, 0, 0);
	while (prod(d) > 4000) d.pop_back();
	c.log("shape " + sh(d));
	tensorshape s(d);
	size_t n = prod(d);
	Dims want(d.size(), 0);
	size_t visited = 0;
	std::string bad;
	s.iterate([&](std::vector<size_t> co, size_t idx)
	{
		c.event();
		if (!bad.empty()) return;
		if (co != want || idx != visited) bad = "visit " + std::to_string(visited) + " had " + sh(co) + " at " + std::to_string(idx) + " instead of " + sh(want);
		if (s.flat_idx(co) != idx) bad = "flat_idx" + sh(co) + " is " + std::to_string(s.flat_idx(co)) + " instead of " + std::to_string(idx);
		if (s.coordinate_from_idx(idx) != co) bad = "coordinate_from_idx(" + std::to_string(idx) + ") is " + sh(s.coordinate_from_idx(idx));
		// unspecified trailing coordinates are zero
		Dims cut = co;
		while (cut.size() > 1 && 0 == cut.back()) { cut.pop_back(); if (s.flat_idx(cut) != idx) bad = "flat_idx" + sh(cut) + " is not " + std::to_string(idx); }
		visited++;
		for (size_t k = 0; k < d.size() && ++want[k] == d[k]; k++) want[k] = 0;
	});
	if (bad.empty() && visited != n) bad = "iterate visited " + std::to_string(visited) + " elements instead of " + std::to_string(n);
	if (!bad.empty()) c.fail("coordinates", "shape " + sh(d) + ": " + bad);
	if (s.flat_idx({}) != 0) c.fail("coordinates", "flat_idx of no coordinate isn't the first element");
	// unknown dimensions hold nothing to visit
	Dims u = d; u[r.range(0, u.size()-1)] = 0;
	size_t calls = 0;
	tensorshape(u).iterate([&](std::vector<size_t>, size_t) { calls++; });
	tensorshape().iterate([&](std::vector<size_t>, size_t) { calls++; });
	c.event(2);
	if (calls) c.fail("coordinates", "iterate visited elements of an undefined shape");
}

// assertions end the process
static bool dies (std::function<void()> f)
{
	fflush(stdout); fflush(stderr);
	pid_t p = fork();
	if (0 == p)
	{
		int n = open("/dev/null", O_WRONLY);
		dup2(n, 1); dup2(n, 2);
		signal(SIGABRT, SIG_DFL);
		f();
		_exit(0);
	}
	int st = 0;
	waitpid(p, &st, 0);
	return !(WIFEXITED(st) && 0 == WEXITSTATUS(st));
}
static void asserts (Ctx& c)
{
	Rng& r = c.rng;
	Dims a = rand_dims(r, 4, 5, 0.2, 0.2), b = r.chance(0.4) ? a : rand_dims(r, 4, 5, 0.2, 0.2);
	c.log("asserts " + sh(a) + " " + sh(b));
	tensorshape A(a), B(b);
	auto expect = [&](const char* what, bool d, std::function<void()> f)
	{
		c.event();
		if (dies(f) != d) c.fail(what, std::string(what) + (d ? " let pass " : " refused ") + sh(a) + " with " + sh(b));
	};
	size_t k = r.chance(0.5) ? a.size() : r.range(0, 5);
	switch (r.range(0, 2))
	{
		case 0: expect("assert_has_rank", !a.empty() && a.size() != k, [&]{ A.assert_has_rank(k); }); break;
		case 1: expect("assert_same_rank", !a.empty() && !b.empty() && a.size() != b.size(), [&]{ A.assert_same_rank(B); }); break;
		case 2: expect("assert_is_fully_defined", !isdef(a), [&]{ A.assert_is_fully_defined(); }); break;
	}
}

// ---------------------------------------------------------------- tracking allocators
struct Block { size_t bytes; int owner; };
static std::map<void*, Block> blocks;
static std::string alloc_err;
static size_t alloc_calls = 0, alloc_frees = 0, fail_in = 0;
template <int ID>
class track_alloc : public nnet::iallocator
{
	track_alloc (const track_alloc&) = default;
public:
	track_alloc () {}
	virtual bool tracks_size (void) const { return true; }
	virtual size_t requested_size (void* p) const { auto it = blocks.find(p); return blocks.end() == it ? 0 : it->second.bytes; }
protected:
	virtual void* get_raw (size_t, size_t n)
	{
		if (fail_in && --fail_in == 0) return nullptr;
		void* p = malloc(n ? n : 1);
		if (p == nullptr) return p;
		memset(p, 0xee, n);
		alloc_calls++;
		blocks[p] = Block{n, ID};
		return p;
	}
	virtual void del_raw (void* p, size_t n)
	{
		auto it = blocks.find(p);
		std::ostringstream s;
		if (blocks.end() == it) s << "allocator " << ID << " was given back a block it doesn't have (freed twice or of another allocator)";
		else if (it->second.owner != ID) s << "a block of allocator " << it->second.owner << " was returned to allocator " << ID;
		else if (it->second.bytes != n) s << "a block of " << it->second.bytes << " bytes was returned as one of " << n << " bytes";
		if (!s.str().empty()) { if (alloc_err.empty()) alloc_err = s.str(); if (blocks.end() == it) return; }
		blocks.erase(it);
		alloc_frees++;
		free(p);
	}
	virtual nnet::iallocator* clone_impl (void) const { return new track_alloc<ID>(*this); }
	virtual nnet::iallocator* move_impl (void) { return new track_alloc<ID>(*this); }
};
static const size_t IDA = 7701, IDB = 7702;
static void registry_start ()
{
	nnet::alloc_builder& b = nnet::alloc_builder::get_instance();
	b.registertype<track_alloc<1> >(IDA);
	b.registertype<track_alloc<2> >(IDB);
}
void (*vh::on_start)(void) = registry_start;
static void reset_case (uint64_t) { alloc_err.clear(); fail_in = 0; }
void (*vh::on_case)(uint64_t) = reset_case;

// ---------------------------------------------------------------- T02 / T03: histories of tensor operations
struct filler : public nnet::itensor_handler<double>
{
	void fill (tensor<double>& t, const std::vector<double>& v) { double* p = this->get_raw(t); for (size_t i = 0; i < v.size(); i++) p[i] = v[i]; }
	virtual nnet::itensor_handler<double>* clone_impl (void) const { return new filler(*this); }
	virtual nnet::itensor_handler<double>* move_impl (void) { return new filler(*this); }
};
struct MT	// what a tensor must hold
{
	tensor<double>* t = nullptr;
	Dims allowed, shape;
	bool alloc = false;
	size_t id = 0;
	std::vector<double> v;	// contents where known
	std::vector<char> k;	// known?
	void fresh (const Dims& s) { alloc = true; shape = s; v.assign(prod(s), 0); k.assign(prod(s), 0); }
	void clear () { alloc = false; shape.clear(); v.clear(); k.clear(); }
	// growing or shrinking keeps each surviving element at its coordinate and fills with zero
	void resize (const Dims& s)
	{
		std::vector<double> nv(prod(s), 0);
		std::vector<char> nk(prod(s), 1);
		size_t n = prod(shape);
		for (size_t i = 0; i < n; i++)
		{
			size_t x = i, o = 0, mul = 1;
			bool in = true;
			for (size_t d = 0; d < std::max(shape.size(), s.size()); d++)
			{
				size_t dim = d < shape.size() ? shape[d] : 1;
				size_t co = x % dim; x /= dim;
				size_t od = d < s.size() ? s[d] : 1;
				if (co >= od) in = false;
				o += co * mul; mul *= od;
			}
			if (in) { nv[o] = v[i]; nk[o] = k[i]; }
		}
		v.swap(nv); k.swap(nk); shape = s; alloc = true;
	}
};

struct Hist
{
	Ctx& c;
	Rng& r;
	std::vector<MT> ts;
	bool tracked;
	Hist (Ctx& c_, bool tr) : c(c_), r(c_.rng), tracked(tr) {}
	~Hist () { for (MT& m : ts) delete m.t; }
	size_t rid () { return tracked ? (r.chance(0.45) ? IDA : r.chance(0.8) ? IDB : 0) : r.chance(0.5) ? 0 : r.chance(0.5) ? IDA : IDB; }
	int libcompat (const Dims& a, const Dims& b)
	{
		int x = compat(a, b);
		return x >= 0 ? x : tensorshape(a).is_compatible_with(tensorshape(b));
	}
	std::string nm (size_t i) { return "t" + std::to_string(i); }
	void bad (const std::string& k, const std::string& m) { c.fail(k, m); }
	void check (size_t i)
	{
		MT& m = ts[i];
		if (!m.t) return;
		const tensor<double>& t = *m.t;
		c.event();
		std::string who = nm(i) + " ";
		if (t.is_alloc() != m.alloc) bad("allocation", who + (m.alloc ? "isn't allocated" : "is allocated"));
		Dims want = m.alloc ? m.shape : m.allowed;
		if (t.get_shape().as_list() != want) bad("shape", who + "has shape " + sh(t.get_shape().as_list()) + " instead of " + sh(want));
		if (t.dims() != want || t.rank() != want.size()) bad("shape", who + "reports dims " + sh(t.dims()) + " instead of " + sh(want));
		size_t n = m.alloc ? prod(m.shape) : 0;
		if (t.n_elems() != n || t.total_bytes() != n * sizeof(double)) bad("size", who + "reports " + std::to_string(t.n_elems()) + " elements instead of " + std::to_string(n));
		if (!t.is_aligned()) bad("aligned", who + "isn't aligned");
		if (m.alloc)
		{
			std::vector<double> got = t.expose();
			if (got.size() != n) bad("data", who + "exposes " + std::to_string(got.size()) + " elements");
			for (size_t j = 0; j < n; j++) if (m.k[j] && got[j] != m.v[j])
				bad("data", who + sh(m.shape) + " element " + std::to_string(j) + " is " + dstr(got[j]) + " instead of " + dstr(m.v[j]));
			c.event(n);
		}
		if (!alloc_err.empty()) bad("allocator", alloc_err);
	}
	void check_all () { for (size_t i = 0; i < ts.size(); i++) check(i); }
	void write (MT& m)
	{
		if (!m.alloc) return;
		size_t n = m.v.size();
		for (size_t j = 0; j < n; j++) { m.v[j] = r.real(-9, 9); m.k[j] = 1; }
		if (r.chance(0.5)) { filler f; f.fill(*m.t, m.v); }
		else if (r.chance(0.5)) { nnet::assign_func<double> f; f(*m.t, m.v); }
		else
		{
			nnet::const_init<double> ci(m.v[0]);
			ci(*m.t);
			std::fill(m.v.begin(), m.v.end(), m.v[0]);
		}
	}
	size_t add (MT m)
	{
		for (size_t i = 0; i < ts.size(); i++) if (!ts[i].t) { ts[i] = m; return i; }
		ts.push_back(m);
		return ts.size() - 1;
	}
	size_t construct ()
	{
		MT m;
		m.id = rid();
		switch (r.range(0, 3))
		{
			case 0:
				m.id = 0; m.t = new tensor<double>(); c.log("new tensor()"); break;
			case 1:
			{
				double s = r.real(-5, 5);
				m.t = new tensor<double>(s, m.id); m.allowed = {1}; m.fresh({1}); m.v[0] = s; m.k[0] = 1;
				c.log("new tensor(scalar, " + std::to_string(m.id) + ")");
				break;
			}
			default:
				m.allowed = rand_dims(r, 4, 5, r.chance(0.5) ? 0.4 : 0, 0.05);
				m.t = new tensor<double>(tensorshape(m.allowed), m.id);
				if (isdef(m.allowed)) m.fresh(m.allowed);
				c.log("new tensor(" + sh(m.allowed) + ", " + std::to_string(m.id) + ")");
		}
		if (r.chance(0.7)) write(m);
		return add(m);
	}
	size_t pick () { std::vector<size_t> l; for (size_t i = 0; i < ts.size(); i++) if (ts[i].t) l.push_back(i); if (l.empty()) return construct(); return r.pick(l); }
	size_t live () { size_t n = 0; for (MT& m : ts) n += m.t != nullptr; return n; }

	void step ()
	{
		if (live() < 2 || (live() < 6 && r.chance(0.15))) { construct(); return; }
		size_t i = pick(), j = pick();
		MT& m = ts[i];
		switch (r.range(0, 17))
		{
			case 0: // destroy
				c.log("delete " + nm(i)); delete m.t; m = MT(); break;
			case 1: // copy construct
			case 2:
			{
				bool so = r.chance(0.3);
				MT n = m;
				int how = r.range(0, 1);
				c.log("copy of " + nm(i) + (so ? " (shape only)" : ""));
				n.t = how ? m.t->clone(so) : so ? new tensor<double>(*m.t, true) : new tensor<double>(*m.t);
				if (so) std::fill(n.k.begin(), n.k.end(), 0);
				if (live() < 7) add(n);
				else { delete n.t; }
				break;
			}
			case 3: // move construct
			{
				MT n = m;
				c.log("move of " + nm(i));
				n.t = r.chance(0.5) ? m.t->move() : new tensor<double>(std::move(*m.t));
				m.clear(); m.allowed.clear();
				add(n);
				break;
			}
			case 4: // copy assign
				c.log(nm(i) + " = " + nm(j));
				*m.t = *ts[j].t;
				if (i != j) { tensor<double>* p = m.t; m = ts[j]; m.t = p; }
				break;
			case 5: // move assign
				c.log(nm(i) + " = move " + nm(j));
				*m.t = std::move(*ts[j].t);
				if (i != j) { tensor<double>* p = m.t; m = ts[j]; m.t = p; ts[j].clear(); ts[j].allowed.clear(); }
				break;
			case 6: // switch allocators, also while allocated
			{
				size_t id = rid();
				if (r.chance(0.1)) id = 99999;
				c.log(nm(i) + ".set_allocator(" + std::to_string(id) + ")");
				bool threw = false;
				try { m.t->set_allocator(id); } catch (std::runtime_error&) { threw = true; }
				if (threw != (99999 == id)) bad("allocator", threw ? "a registered allocator was refused" : "an unknown allocator was accepted");
				if (!threw) m.id = id;
				c.event();
				break;
			}
			case 7:
			{
				c.log(nm(i) + ".allocate()");
				bool g = m.t->allocate(), w = false;
				if (!m.alloc && isdef(m.allowed)) { w = true; m.fresh(m.allowed); }
				if (g != w) bad("allocate", "allocate() of " + nm(i) + " returned " + (g ? "true" : "false"));
				break;
			}
			case 8:
			{
				c.log(nm(i) + ".deallocate()");
				bool g = m.t->deallocate();
				if (g != m.alloc) bad("deallocate", "deallocate() returned " + std::string(g ? "true" : "false"));
				m.clear();
				break;
			}
			case 9: case 10:
			{
				Dims base = m.alloc && r.chance(0.5) ? m.shape : m.allowed;
				Dims s;
				if (r.chance(0.7)) { s = base; for (size_t& d : s) if (0 == d || r.chance(0.3)) d = r.range(1, 5); if (s.empty()) s = rand_dims(r, 3, 5, 0, 0); }
				else s = r.chance(0.5) ? vary(r, base) : rand_dims(r, 4, 5, 0.1, 0.05);
				c.log(nm(i) + ".allocate(" + sh(s) + ")");
				bool w = false;
				if (m.alloc && libcompat(s, m.shape)) {}
				else if (isdef(s) && libcompat(s, m.allowed)) w = true;
				bool g = m.t->allocate(tensorshape(s));
				if (g != w) bad("allocate", "allocate(" + sh(s) + ") with allowed shape " + sh(m.allowed) + (m.alloc ? " allocated " + sh(m.shape) : "") + " returned " + (g ? "true" : "false"));
				if (w) { if (m.alloc) m.resize(s); else m.fresh(s); c.count("reallocated"); }
				break;
			}
			case 11: case 12:
			{
				Dims base = m.alloc ? m.shape : m.allowed;
				Dims s = r.chance(0.7) ? base : rand_dims(r, 4, 5, 0.1, 0);
				for (size_t& d : s) if (r.chance(0.4)) d = r.range(1, 5);
				if (r.chance(0.3) && !s.empty()) s[r.range(0, s.size()-1)] = 0;
				if (r.chance(0.2)) s.push_back(r.range(1, 3));
				// what unknown dimensions mean for a tensor of another rank isn't defined
				if (m.alloc && !isdef(s) && (s.size() != m.shape.size() || m.allowed.size() != s.size())) break;
				c.log(nm(i) + ".set_shape(" + sh(s) + ")");
				m.t->set_shape(tensorshape(s));
				if (!m.alloc || !libcompat(m.allowed, s)) m.allowed = s;
				if (m.alloc && !libcompat(s, m.shape))
				{
					for (size_t d = 0; d < s.size(); d++) if (0 == s[d]) s[d] = m.shape[d];
					m.resize(s);
					c.count("reshaped");
				}
				break;
			}
			case 13:
			{
				MT& o = ts[j];
				Dims s = r.chance(0.5) ? (o.alloc ? vary(r, o.shape) : rand_dims(r, 3, 5, 0, 0)) : rand_dims(r, 4, 5, 0.1, 0.05);
				c.log(nm(i) + ".copy_from(" + nm(j) + ", " + sh(s) + ")");
				bool w = o.alloc && isdef(s);
				bool g = m.t->copy_from(*o.t, tensorshape(s));
				if (g != w) bad("copy_from", std::string("copy_from returned ") + (g ? "true" : "false"));
				if (w)
				{
					MT n = o;
					n.resize(s);
					if (!libcompat(m.allowed, s)) m.allowed = s;
					m.shape = n.shape; m.v = n.v; m.k = n.k; m.alloc = true;
					c.count("copied with new shape");
				}
				break;
			}
			case 14: write(m); c.log("write " + nm(i)); break;
			case 15: access(i); break;
			case 16: guess(i); break;
			case 17: proto(i, j); break;
		}
	}
	// element access: in range reads the element, out of range is refused
	void access (size_t i)
	{
		MT& m = ts[i];
		for (int rep = 0; rep < 8; rep++)
		{
			Dims s = m.shape, co;
			size_t len = s.empty() ? r.range(0, 2) : r.range(0, s.size() + 1);
			for (size_t d = 0; d < len; d++) co.push_back(d < s.size() ? (r.chance(0.2) ? s[d] + r.range(0, 2) : r.range(0, s[d] - 1)) : r.range(0, 1));
			bool in = m.alloc;
			size_t idx = 0, mul = 1;
			for (size_t d = 0; d < std::max(co.size(), s.size()); d++)
			{
				size_t dim = d < s.size() ? s[d] : 1, x = d < co.size() ? co[d] : 0;
				if (x >= dim) in = false;
				idx += x * mul; mul *= dim;
			}
			bool threw = false;
			double g = 0;
			try { g = m.t->get(co); } catch (std::out_of_range&) { threw = true; }
			c.event();
			if (in && threw) bad("get", "get" + sh(co) + " of " + nm(i) + sh(s) + " was refused");
			if (!in && !threw) bad("get", "get" + sh(co) + " of " + nm(i) + sh(s) + " out of range gave " + dstr(g));
			if (in && m.k[idx] && g != m.v[idx]) bad("get", "get" + sh(co) + " of " + nm(i) + sh(s) + " gave " + dstr(g) + " instead of " + dstr(m.v[idx]));
			c.count(in ? "element reads" : "element reads out of range");
		}
		c.log("access " + nm(i));
	}
	void guess (size_t i)
	{
		MT& m = ts[i];
		size_t known = 1;
		for (size_t d : m.allowed) if (d) known *= d;
		size_t n = r.chance(0.6) ? known * r.range(1, 4) : r.range(1, 40);
		if (r.chance(0.3) && m.alloc) n = prod(m.shape);
		std::vector<double> data(n, 1);
		c.log("guess " + nm(i) + " " + std::to_string(n));
		auto g = m.t->guess_shape(data);
		auto l = m.t->loosely_guess_shape(data);
		c.event(4);
		Dims a = m.allowed;
		bool fits = isdef(a) ? prod(a) == n : a.empty() || n % known == 0;
		std::string who = " of " + std::to_string(n) + " elements for allowed shape " + sh(a);
		if ((bool) g != fits) bad("guess", "guess_shape" + who + (g ? " gave a shape" : " gave none"));
		auto ok = [&](const Dims& s)
		{
			if (!isdef(s)) return false;
			if (a.empty()) return true;
			if (s.size() != a.size()) return false;
			for (size_t d = 0; d < s.size(); d++) if (a[d] && a[d] != s[d]) return false;
			return true;
		};
		if (g && (!ok(g->as_list()) || g->n_elems() != n)) bad("guess", "guess_shape" + who + " gave " + sh(g->as_list()));
		bool loose = !isdef(a) || prod(a) >= n;
		if ((bool) l != loose) bad("guess", "loosely_guess_shape" + who + (l ? " gave a shape" : " gave none"));
		if (l)
		{
			size_t want = isdef(a) ? prod(a) : a.empty() ? n : (n + known - 1) / known * known;
			if (!ok(l->as_list()) || l->n_elems() != want) bad("guess", "loosely_guess_shape" + who + " gave " + sh(l->as_list()));
		}
		Dims s = m.alloc ? m.shape : m.allowed;
		size_t kn = 1;
		for (size_t d : s) if (d) kn *= d;
		bool cw = isdef(s) ? prod(s) == n : s.empty() || n % kn == 0;
		if (m.t->is_compatible_with(data) != cw) bad("guess", "is_compatible_with" + who + " is wrong");
		if (m.t->is_loosely_compatible_with(data) != (!isdef(s) || n <= prod(s))) bad("guess", "is_loosely_compatible_with" + who + " is wrong");
		size_t j = pick();
		MT& o = ts[j];
		Dims os = o.alloc ? o.shape : o.allowed;
		int cm = compat(s, os);
		if (cm >= 0 && m.t->is_compatible_with(*o.t) != (cm == 1)) bad("guess", "is_compatible_with of tensors " + sh(s) + " and " + sh(os) + " is wrong");
		if (m.alloc && o.alloc)
		{
			if (m.t->is_same_size(*o.t) != (trimmed(m.shape) == trimmed(o.shape)))
				bad("guess", "is_same_size of " + sh(m.shape) + " and " + sh(o.shape) + " is wrong");
		}
		else if ((cm = compat(m.allowed, o.allowed)) >= 0 && m.t->is_same_size(*o.t) != (cm == 1)) bad("guess", "is_same_size of allowed shapes " + sh(m.allowed) + " and " + sh(o.allowed) + " is wrong");
	}
	void proto (size_t i, size_t j)
	{
		MT& m = ts[i];
		MT& o = ts[j];
		tenncor::tensor_proto p;
		o.t->serialize(&p);
		c.event();
		if (!o.alloc) { if (p.data().size() || p.alloc_shape_size()) bad("serialize", "an unallocated tensor was serialised"); return; }
		if (p.data().size() != prod(o.shape) * sizeof(double)) bad("serialize", "serialised data of " + nm(j) + " has the wrong size");
		bool alt = r.chance(0.5);
		size_t id = rid();
		bool corrupt = r.chance(0.4);
		if (corrupt)
		{
			switch (r.range(0, 5))
			{
				case 0: p.set_data(p.data() + std::string(r.range(1, 300), 'x')); break;
				case 1: { std::string d = p.data(); d.resize(r.range(0, d.size() - 1)); p.set_data(d); break; }
				case 2: p.add_alloc_shape(r.range(0, 3)); if (p.alloc_shape(p.alloc_shape_size()-1) == 1) p.set_alloc_shape(p.alloc_shape_size()-1, 2); break;
				case 3: p.set_alloc_shape(0, p.alloc_shape(0) + r.range(1, 100)); break;
				case 4: p.clear_alloc_shape(); break;
				case 5: p.clear_alloc_shape(); p.clear_allow_shape(); p.add_alloc_shape(1ull << 32); p.add_alloc_shape(1ull << 32); p.add_allow_shape(0); p.add_allow_shape(0); if (r.chance(0.5)) p.set_data(""); break;
			}
		}
		c.log(nm(i) + ".from_proto(" + nm(j) + (alt ? ", " + std::to_string(id) : "") + ")" + (corrupt ? " corrupted" : ""));
		bool g = alt ? m.t->from_proto(p, id) : m.t->from_proto(p);
		if (alt && (g || m.id == id)) m.id = id;
		else if (alt) { /* allocator of a refused message: not defined */ m.id = id; }
		if (g == corrupt) bad("from_proto", corrupt ? "a corrupted tensor was accepted" : "a serialised tensor was refused");
		if (g) { tensor<double>* q = m.t; size_t mid = m.id; MT n = o; m = n; m.t = q; m.id = mid; }
		c.count(corrupt ? "corrupted messages" : "serialised");
	}
};

static void history (Ctx& c)
{
	alloc_err.clear();
	size_t before = blocks.size();
	{
		Hist h(c, c.rng.chance(0.6));
		size_t steps = c.rng.range(5, c.thorough ? 120 : 50);
		for (size_t s = 0; s < steps; s++)
		{
			h.step();
			h.check_all();
		}
	}
	if (!alloc_err.empty()) c.fail("allocator", alloc_err);
	c.event();
	if (blocks.size() != before) c.fail("allocator", std::to_string(blocks.size() - before) + " blocks were never returned");
	c.count("blocks allocated", alloc_calls); alloc_calls = 0;
}

// an allocator that runs dry: refused without side effect
static void exhausted (Ctx& c)
{
	alloc_err.clear();
	size_t before = blocks.size();
	{
		Hist h(c, true);
		for (size_t s = 0; s < 6; s++) h.construct();
		for (size_t s = 0; s < 20; s++)
		{
			size_t i = h.pick(), j = h.pick();
			MT& m = h.ts[i];
			MT& o = h.ts[j];
			bool wasfail = false, g = false, threw = false;
			Dims s2 = m.alloc ? m.shape : m.allowed;
			for (size_t& d : s2) d = c.rng.range(1, 5);
			if (s2.empty()) s2 = {3};
			size_t kind = c.rng.range(0, 3);
			if (m.id == 0) continue;
			fail_in = 1;
			try
			{
				switch (kind)
				{
					case 0: c.log("dry allocate " + h.nm(i) + sh(s2)); g = m.t->allocate(tensorshape(s2)); break;
					case 1: c.log("dry copy_from " + h.nm(i) + h.nm(j)); g = m.t->copy_from(*o.t, tensorshape(s2)); break;
					case 2: c.log("dry allocate " + h.nm(i)); g = m.t->allocate(); break;
					case 3: { c.log("dry construct"); tensor<double> t(tensorshape(s2), m.id); if (t.is_alloc() || t.n_elems()) c.fail("exhausted", "a tensor without memory counts as allocated"); break; }
				}
			}
			catch (std::exception&) { threw = true; }
			wasfail = fail_in == 0;
			fail_in = 0;
			c.event();
			if (wasfail && g) c.fail("exhausted", "a failed allocation was reported as success");
			if (wasfail) c.count("failed allocations");
			if (!wasfail && !threw)
			{
				// nothing was allocated; nothing may have changed
				if (g) c.fail("exhausted", "success without an allocation");
			}
			h.check_all();
		}
		for (size_t s = 0; s < 10; s++) { h.step(); h.check_all(); }
	}
	if (blocks.size() != before) c.fail("allocator", std::to_string(blocks.size() - before) + " blocks were never returned");
}

// the registry: one allocator per identifier
static void registry (Ctx& c)
{
	nnet::alloc_builder& b = nnet::alloc_builder::get_instance();
	static size_t next = 10000;
	size_t id = next++;
	c.log("register " + std::to_string(id % 1000));
	c.event(8);
	if (b.get(id)) c.fail("registry", "an unregistered identifier has an allocator");
	bool first = c.rng.chance(0.5);
	bool ok = first ? b.registertype<track_alloc<3> >(id) : b.registertype<nnet::default_alloc>(id);
	nnet::iallocator* p = b.get(id);
	if (!ok || !p) c.fail("registry", "registering a new identifier failed");
	bool again = c.rng.chance(0.5) ? b.registertype<track_alloc<1> >(id) : b.registertype<nnet::default_alloc>(id);
	if (again || b.get(id) != p) c.fail("registry", "an identifier was registered twice");
	if (b.check_registry<track_alloc<3> >(id) != first || b.check_registry<nnet::default_alloc>(id) == first) c.fail("registry", "check_registry doesn't know the registered type");
	if (b.registertype<track_alloc<1> >(0) || !b.check_registry<nnet::default_alloc>(nnet::default_alloc::alloc_id)) c.fail("registry", "the default allocator was replaced");
	if (b.get(IDA) == b.get(IDB) || b.get(id) == b.get(0)) c.fail("registry", "two identifiers share an allocator");
	nnet::iallocator* cl = p->clone();
	nnet::iallocator* mv = p->move();
	if (!cl || !mv || cl == p || mv == p || cl == mv) c.fail("registry", "clone or move of an allocator");
	delete cl; delete mv;
}

std::vector<Group> vh::groups = {
	{"T01", "shape_algebra", algebra, 6, 50, nullptr},
	{"T01", "coordinates", coords, 3, 50, nullptr},
	{"T01,noM01", "rank_asserts", asserts, 1, 0, nullptr},
	{"T02,T03", "tensor_history", history, 6, 10, nullptr},
	{"T02,T03", "exhausted_allocator", exhausted, 1, 10, nullptr},
	{"T03", "registry", registry, 1, 0, nullptr},
};
