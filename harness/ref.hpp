// ref.hpp - reference model: tensors as shape + vector<double>, every operation written from its definition.
// Storage order: first dimension varies fastest.
#pragma once
#include "vh.hpp"

namespace ref {

using Shp = std::vector<size_t>;

struct BadShape : public std::runtime_error { BadShape (std::string m) : std::runtime_error(m) {} };

inline size_t count (const Shp& s)
{
	if (s.empty()) return 0;
	size_t n = 1;
	for (size_t d : s) n *= d;
	return n;
}
inline std::string sstr (const Shp& s)
{
	std::string o = "<";
	for (size_t i = 0; i < s.size(); i++) o += (i ? "," : "") + std::to_string(s[i]);
	return o + ">";
}
inline size_t dim (const Shp& s, size_t i) { return i < s.size() ? s[i] : 1; }
inline size_t flat (const Shp& s, const Shp& c)
{
	size_t idx = 0, mul = 1;
	for (size_t i = 0; i < s.size(); i++) { idx += (i < c.size() ? c[i] : 0) * mul; mul *= s[i]; }
	return idx;
}
inline Shp coord (const Shp& s, size_t idx)
{
	Shp c;
	for (size_t d : s) { c.push_back(idx % d); idx /= d; }
	return c;
}
inline Shp trim (const Shp& s)
{
	size_t b = 0, e = s.size();
	while (b < e && s[b] == 1) b++;
	while (e > b && s[e-1] == 1) e--;
	return Shp(s.begin() + b, s.begin() + e);
}
// fully defined shapes: same rank -> equal; different rank -> equal up to leading/trailing unit dimensions
inline bool compat (const Shp& a, const Shp& b)
{
	if (a.empty() || b.empty()) return true;
	if (a.size() == b.size()) return a == b;
	return trim(a) == trim(b);
}

struct RT
{
	Shp s;
	std::vector<double> v;
	RT () {}
	explicit RT (double x) : s{1}, v{x} {}
	RT (Shp sh, double fill) : s(sh), v(count(sh), fill) {}
	RT (Shp sh, std::vector<double> d) : s(sh), v(d) {}
	size_t n () const { return v.size(); }
	double at (const Shp& c) const { return v[flat(s, c)]; }
};

inline std::string tstr (const RT& t)
{
	std::string o = sstr(t.s) + "[";
	for (size_t i = 0; i < t.v.size(); i++)
	{
		if (i > 40) { o += " ..."; break; }
		o += (i ? " " : "") + vh::dstr(t.v[i]);
	}
	return o + "]";
}

enum Kind
{
	LEAF, CONST,
	// unary elementwise
	ABS, NEG, SIN, COS, TAN, CSC, SEC, COT, EXP, SQRT, ROUND, LOG, POW, CLIPVAL, CLIPNORM, IDENT, ASCONST,
	SIGMOID, TANH, SOFTMAX,
	// scalar on the left / right
	S_ADD, ADD_S, S_SUB, SUB_S, S_MUL, MUL_S, S_DIV, DIV_S, S_COND, COND_S,
	// binary elementwise
	ADD, SUB, MUL, DIV, COND, EQ, NEQ,
	// axial: p0 = axis
	ADD_AA, ADD_AB, SUB_AA, SUB_AB, MUL_AA, MUL_AB, DIV_AA, DIV_AB,
	MATMUL, TRANSPOSE, FIT, EXTEND, FLIP,
	RSUM, RMEAN, RMAX, ARGMAX, COMPRESS, ARGCOMPRESS, L2NORM,
	XCORR, CONV,
	NKINDS
};
static const char* const kind_name[NKINDS] = {
	"leaf", "const", "abs", "neg", "sin", "cos", "tan", "csc", "sec", "cot", "exp", "sqrt", "round", "log", "pow",
	"clip_val", "clip_norm", "identity", "as_constant", "sigmoid", "tanh", "softmax",
	"s+x", "x+s", "s-x", "x-s", "s*x", "x*s", "s/x", "x/s", "cond(s,x)", "cond(x,s)",
	"add", "sub", "mul", "div", "cond", "eq", "neq",
	"add_axial_a", "add_axial_b", "sub_axial_a", "sub_axial_b", "mul_axial_a", "mul_axial_b", "div_axial_a", "div_axial_b",
	"matmul", "transpose", "fit", "extend", "flip",
	"reduce_sum", "reduce_mean", "reduce_max", "arg_max", "compress", "arg_compress", "l2norm",
	"cross_corr2d", "conv2d" };

static const size_t NODIM = (size_t)-1;

struct Op
{
	Kind k = LEAF;
	double d0 = 0, d1 = 0;		// scalar, exponent, bounds
	size_t p0 = 0, p1 = 0;		// axes, indices, multipliers, dimension (NODIM: all)
	bool f0 = false, f1 = false;	// transposition flags
	int cmp = 0;			// comparison / collector selector
	std::vector<size_t> dims;	// flip axes
	std::string str () const
	{
		std::ostringstream o;
		o << kind_name[k];
		switch (k)
		{
			case POW: case S_ADD: case ADD_S: case S_SUB: case SUB_S: case S_MUL: case MUL_S: case S_DIV: case DIV_S: case CLIPNORM: o << "{" << vh::dstr(d0) << "}"; break;
			case CLIPVAL: o << "{" << vh::dstr(d0) << ".." << vh::dstr(d1) << "}"; break;
			case S_COND: case COND_S: case COND: o << "{" << vh::dstr(d0) << ",cmp" << cmp << "}"; break;
			case ADD_AA: case ADD_AB: case SUB_AA: case SUB_AB: case MUL_AA: case MUL_AB: case DIV_AA: case DIV_AB: o << "{axis" << p0 << "}"; break;
			case MATMUL: o << "{" << f0 << f1 << "}"; break;
			case TRANSPOSE: case EXTEND: case XCORR: case CONV: o << "{" << p0 << "," << p1 << "}"; break;
			case RSUM: case RMEAN: case RMAX: case ARGMAX: case COMPRESS: case ARGCOMPRESS: o << "{" << (p0 == NODIM ? std::string("all") : std::to_string(p0)) << "}"; break;
			case FLIP: o << sstr(dims); break;
			default: break;
		}
		return o.str();
	}
};

inline size_t arity (Kind k)
{
	switch (k)
	{
		case LEAF: case CONST: return 0;
		case ADD: case SUB: case MUL: case DIV: case COND: case EQ: case NEQ:
		case ADD_AA: case ADD_AB: case SUB_AA: case SUB_AB: case MUL_AA: case MUL_AB: case DIV_AA: case DIV_AB:
		case MATMUL: case FIT: case XCORR: case CONV: return 2;
		default: return 1;
	}
}
inline bool is_elementwise (Kind k) { return (k >= ABS && k <= TANH && k != CLIPNORM) || (k >= S_ADD && k <= NEQ); }

inline bool compare (int c, double a, double b)
{
	switch (c % 6)
	{
		case 0: return a < b;
		case 1: return a > b;
		case 2: return a <= b;
		case 3: return a >= b;
		case 4: return a == b;
		default: return a != b;
	}
}
inline double bin (Kind k, double a, double b, int cmp = 0)
{
	switch (k)
	{
		case ADD: return a + b;
		case SUB: return a - b;
		case MUL: return a * b;
		case DIV: return a / b;
		case EQ: return a == b;
		case NEQ: return a != b;
		case COND: return compare(cmp, a, b);
		default: return NAN;
	}
}
inline double un (const Op& o, double x)
{
	switch (o.k)
	{
		case ABS: return std::fabs(x);
		case NEG: return -x;
		case SIN: return std::sin(x);
		case COS: return std::cos(x);
		case TAN: return std::tan(x);
		case CSC: return 1 / std::sin(x);
		case SEC: return 1 / std::cos(x);
		case COT: return std::cos(x) / std::sin(x);
		case EXP: return std::exp(x);
		case SQRT: return std::sqrt(x);
		case ROUND: return std::round(x);
		case LOG: return std::log(x);
		case POW: return std::pow(x, o.d0);
		case CLIPVAL: { double lo = std::min(o.d0, o.d1), hi = std::max(o.d0, o.d1); return x < lo ? lo : x > hi ? hi : x; }
		case IDENT: case ASCONST: return x;
		case SIGMOID: return 1 / (1 + std::exp(-x));
		case TANH: return std::fabs(x) > 340 ? NAN : std::tanh(x); // the library computes it from exponentials, whose range ends there
		case S_ADD: case ADD_S: return o.d0 + x;
		case S_SUB: return o.d0 - x;
		case SUB_S: return x - o.d0;
		case S_MUL: case MUL_S: return o.d0 * x;
		case S_DIV: return o.d0 / x;
		case DIV_S: return x / o.d0;
		case S_COND: return compare(o.cmp, o.d0, x);
		case COND_S: return compare(o.cmp, x, o.d0);
		default: return NAN;
	}
}

inline RT elem2 (Kind k, const RT& a, const RT& b, int cmp = 0)
{
	Shp s{1};
	if (a.n() != 1 && b.n() != 1)
	{
		if (!compat(a.s, b.s)) throw BadShape("elementwise " + sstr(a.s) + " with " + sstr(b.s));
		s = b.s;
	}
	else if (a.n() != 1) s = a.s;
	else if (b.n() != 1) s = b.s;
	RT r(s, 0.0);
	for (size_t i = 0; i < r.n(); i++) r.v[i] = bin(k, a.v[a.n() == 1 ? 0 : i], b.v[b.n() == 1 ? 0 : i], cmp);
	return r;
}

// shape left after collapsing dimension d: first and last dimensions disappear, inner ones become 1
inline Shp collapse (Shp s, size_t d)
{
	if (d >= s.size()) return s;
	if (s.size() == 1) return Shp{1};
	if (d == 0) return Shp(s.begin() + 1, s.end());
	if (d == s.size() - 1) return Shp(s.begin(), s.end() - 1);
	s[d] = 1;
	return s;
}
inline Shp collapse_coord (Shp c, size_t d, const Shp& s)
{
	if (s.size() == 1) return Shp{0};
	if (d == 0) return Shp(c.begin() + 1, c.end());
	if (d == s.size() - 1) return Shp(c.begin(), c.end() - 1);
	c[d] = 0;
	return c;
}

// small: operand with the axis missing, left: small is the left operand
inline RT axial (Kind k, const RT& a, const RT& b, size_t axis, bool left)
{
	const RT& small = left ? a : b;
	const RT& big = left ? b : a;
	if (small.n() == 1)
	{
		RT r(big.n() == 1 ? big.s : big.s, 0.0);
		for (size_t i = 0; i < r.n(); i++) r.v[i] = left ? bin(k, small.v[0], big.v[i]) : bin(k, big.v[i], small.v[0]);
		return r;
	}
	if (big.n() == 1)
	{
		RT r(small.s, 0.0);
		for (size_t i = 0; i < r.n(); i++) r.v[i] = left ? bin(k, small.v[i], big.v[0]) : bin(k, big.v[0], small.v[i]);
		return r;
	}
	Shp bs = big.s;
	while (bs.size() <= axis) bs.push_back(1);
	Shp want = collapse(bs, axis);
	if (bs.size() == 1 || !compat(small.s, want) || count(want) != small.n())
		throw BadShape("axial " + sstr(a.s) + " with " + sstr(b.s) + " axis " + std::to_string(axis));
	RT r(big.s, 0.0);
	for (size_t i = 0; i < r.n(); i++)
	{
		Shp c = collapse_coord(coord(bs, i), axis, bs);
		double x = small.v[flat(want, c)];
		r.v[i] = left ? bin(k, x, big.v[i]) : bin(k, big.v[i], x);
	}
	return r;
}

inline RT transpose (const RT& a, size_t x, size_t y)
{
	Shp s = a.s;
	if (x > y) std::swap(x, y);
	while (s.size() <= y) s.push_back(1);
	Shp o = s;
	std::swap(o[x], o[y]);
	RT r(o, 0.0);
	for (size_t i = 0; i < r.n(); i++)
	{
		Shp c = coord(o, i);
		std::swap(c[x], c[y]);
		r.v[i] = a.v[flat(s, c)];
	}
	return r;
}

// <cols, rows, batch...>
inline RT matmul (const RT& a, const RT& b, bool ta, bool tb)
{
	Shp as = a.s, bs = b.s;
	size_t ax = dim(as, 0), ay = dim(as, 1), bx = dim(bs, 0), by = dim(bs, 1);
	size_t rank = std::max(as.size(), bs.size());
	Shp os;
	size_t batch = 1;
	for (size_t i = 2; i < rank; i++) if (dim(as, i) != dim(bs, i)) throw BadShape("matmul batch " + sstr(as) + " " + sstr(bs));
	for (size_t i = 2; i < as.size(); i++) batch *= as[i];
	if (ta) std::swap(ax, ay);
	if (tb) std::swap(bx, by);
	if (ax != by) throw BadShape("matmul " + sstr(as) + " " + sstr(bs));
	os = {bx, ay};
	for (size_t i = 2; i < std::min(as.size(), bs.size()); i++) os.push_back(dim(as, i));
	RT r(os, 0.0);
	size_t an = ax * ay, bn = bx * by;
	for (size_t n = 0; n < batch; n++)
	for (size_t y = 0; y < ay; y++)
	for (size_t x = 0; x < bx; x++)
	{
		double acc = 0;
		for (size_t z = 0; z < ax; z++)
		{
			double av = a.v[n * an + (ta ? y + z * ay : z + y * ax)];
			double bv = b.v[n * bn + (tb ? z + x * by : x + z * bx)];
			acc += av * bv;
		}
		r.v[n * bx * ay + y * bx + x] = acc;
	}
	return r;
}

template <typename F>
inline RT reduce (const RT& a, size_t d, F f)
{
	if (d == NODIM)
	{
		return RT(f(a.v));
	}
	if (d >= a.s.size()) { RT r = a; for (double& x : r.v) x = f(std::vector<double>{x}); return r; }
	RT r(collapse(a.s, d), 0.0);
	std::vector<std::vector<double> > groups(r.n());
	for (size_t i = 0; i < a.n(); i++)
		groups[flat(r.s, collapse_coord(coord(a.s, i), d, a.s))].push_back(a.v[i]);
	for (size_t i = 0; i < r.n(); i++) r.v[i] = f(groups[i]);
	return r;
}
inline double fsum (const std::vector<double>& v) { double s = v[0]; for (size_t i = 1; i < v.size(); i++) s += v[i]; return s; }
inline double fmean (const std::vector<double>& v) { return fsum(v) / v.size(); }
inline double fmax_ (const std::vector<double>& v) { double s = v[0]; for (double x : v) if (x > s) s = x; return s; }
inline double fargmax (const std::vector<double>& v) { size_t b = 0; for (size_t i = 1; i < v.size(); i++) if (v[i] > v[b]) b = i; return b; }
// user supplied collectors for the general reductions (order dependent on purpose)
inline double collect2 (int c, double l, double r)
{
	switch (c % 4)
	{
		case 0: return l * r;
		case 1: return std::min(l, r);
		case 2: return l - r;
		default: return 0.5 * l + r;
	}
}
inline double search1 (int c, const std::vector<double>& v)
{
	switch (c % 3)
	{
		case 0: { size_t b = 0; for (size_t i = 1; i < v.size(); i++) if (v[i] < v[b]) b = i; return b; }
		case 1: return v.size();
		default: { double s = 0; for (size_t i = 0; i < v.size(); i++) s = s * 0.5 + v[i]; return s; }
	}
}

inline RT flip (const RT& a, const std::vector<size_t>& dims)
{
	RT r(a.s, 0.0);
	for (size_t i = 0; i < r.n(); i++)
	{
		Shp c = coord(a.s, i);
		for (size_t d : dims) if (d < c.size()) c[d] = a.s[d] - 1 - c[d];
		r.v[i] = a.v[flat(a.s, c)];
	}
	return r;
}

inline RT xcorr (const RT& a, const RT& f, size_t d0, size_t d1)
{
	size_t rank = a.s.size();
	if (d0 == d1 || d0 >= rank || d1 >= rank) throw BadShape("correlation dims");
	if (f.s.size() <= std::max(d0, d1) ) throw BadShape("correlation filter rank");
	if (f.s[d0] > a.s[d0] || f.s[d1] > a.s[d1]) throw BadShape("filter larger than input");
	for (size_t i = 0; i < f.s.size(); i++) if (i != d0 && i != d1 && f.s[i] != 1) throw BadShape("filter spans other dimensions");
	Shp o = a.s;
	o[d0] = a.s[d0] - f.s[d0] + 1;
	o[d1] = a.s[d1] - f.s[d1] + 1;
	RT r(o, 0.0);
	for (size_t i = 0; i < r.n(); i++)
	{
		Shp c = coord(o, i);
		double acc = 0;
		for (size_t j = 0; j < f.s[d0]; j++)
		for (size_t k = 0; k < f.s[d1]; k++)
		{
			Shp ac = c, fc(f.s.size(), 0);
			ac[d0] += j; ac[d1] += k;
			fc[d0] = j; fc[d1] = k;
			acc += a.at(ac) * f.at(fc);
		}
		r.v[i] = acc;
	}
	return r;
}

inline RT apply (const Op& o, const std::vector<const RT*>& a)
{
	switch (o.k)
	{
		case CLIPNORM:
		{
			double n = 0;
			for (double x : a[0]->v) n += x * x;
			n = std::sqrt(n);
			RT r = *a[0];
			if (r.n() == 1) r.s = Shp{1};
			if (n > o.d0) for (double& x : r.v) x = x * o.d0 / n;
			return r;
		}
		case L2NORM:
		{
			double n = 0;
			for (double x : a[0]->v) n += x * x;
			return RT(std::sqrt(n));
		}
		case SOFTMAX:
		{
			RT r = *a[0];
			double s = 0;
			for (double& x : r.v) { x = std::exp(x); s += x; }
			for (double& x : r.v) x /= s;
			return r;
		}
		case ADD: case SUB: case MUL: case DIV: case COND: case EQ: case NEQ:
			return elem2(o.k, *a[0], *a[1], o.cmp);
		case ADD_AA: return axial(ADD, *a[0], *a[1], o.p0, true);
		case ADD_AB: return axial(ADD, *a[0], *a[1], o.p0, false);
		case SUB_AA: return axial(SUB, *a[0], *a[1], o.p0, true);
		case SUB_AB: return axial(SUB, *a[0], *a[1], o.p0, false);
		case MUL_AA: return axial(MUL, *a[0], *a[1], o.p0, true);
		case MUL_AB: return axial(MUL, *a[0], *a[1], o.p0, false);
		case DIV_AA: return axial(DIV, *a[0], *a[1], o.p0, true);
		case DIV_AB: return axial(DIV, *a[0], *a[1], o.p0, false);
		case MATMUL: return matmul(*a[0], *a[1], o.f0, o.f1);
		case TRANSPOSE: return transpose(*a[0], o.p0, o.p1);
		case FIT:
		{
			RT r(a[1]->s, 0.0);
			for (size_t i = 0; i < r.n(); i++)
			{
				Shp c = coord(r.s, i);
				bool in = true;
				for (size_t j = 0; j < c.size(); j++) in = in && c[j] < dim(a[0]->s, j);
				r.v[i] = in ? a[0]->at(c) : 0;
			}
			return r;
		}
		case EXTEND:
		{
			if (o.p1 == 0) return RT(0.0);
			Shp s = a[0]->s;
			while (s.size() <= o.p0) s.push_back(1);
			Shp os = s;
			os[o.p0] *= o.p1;
			RT r(os, 0.0);
			for (size_t i = 0; i < r.n(); i++)
			{
				Shp c = coord(os, i);
				c[o.p0] %= s[o.p0];
				r.v[i] = a[0]->v[flat(s, c)];
			}
			return o.p1 == 1 ? *a[0] : r;
		}
		case FLIP: return flip(*a[0], o.dims);
		case RSUM: return reduce(*a[0], o.p0, fsum);
		case RMEAN: return reduce(*a[0], o.p0, fmean);
		case RMAX: return reduce(*a[0], o.p0, fmax_);
		case ARGMAX:
			if (o.p0 != NODIM && o.p0 >= a[0]->s.size()) throw BadShape("arg dimension");
			return reduce(*a[0], o.p0, fargmax);
		case COMPRESS:
			return reduce(*a[0], o.p0, [&](const std::vector<double>& v) { double s = v[0]; for (size_t i = 1; i < v.size(); i++) s = collect2(o.cmp, s, v[i]); return s; });
		case ARGCOMPRESS:
			if (o.p0 != NODIM && o.p0 >= a[0]->s.size()) throw BadShape("arg dimension");
			return reduce(*a[0], o.p0, [&](const std::vector<double>& v) { return search1(o.cmp, v); });
		case XCORR: return xcorr(*a[0], *a[1], o.p0, o.p1);
		case CONV: return xcorr(*a[0], flip(*a[1], {o.p0, o.p1}), o.p0, o.p1);
		default:
		{
			RT r = *a[0];
			if (r.n() == 1) r.s = Shp{1};
			for (double& x : r.v) x = un(o, x);
			return r;
		}
	}
}

inline bool close (double a, double b, double tol = 1e-9)
{
	if (a == b) return true;
	if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
	if (std::isinf(a) || std::isinf(b)) return false;
	double m = std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
	return std::fabs(a - b) <= tol * m;
}
// shapes count as equal when identical, or when both denote one element
inline bool same_shape (const Shp& a, const Shp& b) { return a == b || (count(a) == 1 && count(b) == 1); }

}
