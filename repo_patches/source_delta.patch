From 5bfb04dbc0a709493552600ce419bf84becfdaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 01/74] fix: unary plus is documented as the absolute value but
 passed negative values through

---
 app/tenncor/src/graph/operations/elementary.ipp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 17caa94..ba38894 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -461,12 +461,16 @@ varptr<T> operator + (const varptr<T> a)
 		assert(1 == src.size());
 		size_t n_elems = shape.outs_.n_elems();
 		std::transform(src[0], src[0] + n_elems, dest,
-		[](const T data) { return +data; });
+		[](const T data) { return std::abs(data); });
 	}),
 	[](std::vector<std::pair<inode<T>*,inode<T>*> > args)
 	{
+		// |f(x)|' = sign(f(x)) * f'(x)
+		varptr<T> a = args.front().first;
 		varptr<T> grad = args.front().second;
-		return +grad;
+		return grad * (
+			conditional<T>(a, 0, [](T left, T right) { return left > right; }, "gt") -
+			conditional<T>(a, 0, [](T left, T right) { return left < right; }, "lt"));
 	}, opname);
 	out->extract_metadata(a.get());
 	return out;
-- 
2.43.0


From 52ed05778ad6c48a5952572a2007443925716b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 02/74] fix: l2norm of a node only looked at its first element,
 of a constant missed the square root

---
 app/tenncor/src/graph/operations/elementary.ipp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index ba38894..d6f5d4d 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -1010,6 +1010,7 @@ varptr<T> l2norm (const varptr<T> a)
 		{
 			l2norm += acv * acv;
 		}
+		l2norm = std::sqrt(l2norm);
 		return constant<T>::get(l2norm);
 	}
 	std::string opname = "l2norm";
@@ -1023,7 +1024,7 @@ varptr<T> l2norm (const varptr<T> a)
 	[](T* dest, std::vector<const T*> src, shape_io shape)
 	{
 		assert(1 == src.size());
-		size_t n_elems = shape.outs_.n_elems();
+		size_t n_elems = shape.ins_[0].n_elems();
 		// l2norm = sqrt(sum_i=0:n(sqr(xi)))
 		dest[0] = std::sqrt(std::accumulate(src[0], src[0] + n_elems, (T) 0,
 		[](const T left, const T right)
@@ -1033,8 +1034,10 @@ varptr<T> l2norm (const varptr<T> a)
 	}),
 	[](std::vector<std::pair<inode<T>*,inode<T>*> > args)
 	{
+		// h'(f(x)) = f(x)*f'(x)/||f(x)||
+		varptr<T> a = args.front().first;
 		varptr<T> grad = args.front().second;
-		return l2norm(grad);
+		return grad * a / l2norm(a);
 	}, opname);
 	out->extract_metadata(a.get());
 	return out;
-- 
2.43.0


From 246183102334b39045cfad6f0f70e95a8a02f83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 03/74] fix: clip_norm rescaled values whose norm is within the
 cap and used the squared norm for constants

---
 app/tenncor/src/graph/operations/elementary.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index d6f5d4d..7499529 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -1056,6 +1056,7 @@ varptr<T> clip_norm (const varptr<T> a, T cap)
 		{
 			l2norm += acv * acv;
 		}
+		l2norm = std::sqrt(l2norm);
 		for (T& acv : acvec)
 		{
 			if (l2norm > cap)
@@ -1082,7 +1083,7 @@ varptr<T> clip_norm (const varptr<T> a, T cap)
 		std::transform(srcs[1], srcs[1] + n_out, dest,
 		[cap, l2norm](const T data)
 		{
-			return data * cap / l2norm;
+			return l2norm > cap ? data * cap / l2norm : data;
 		});
 	}),
 	[cap](std::vector<std::pair<inode<T>*,inode<T>*> > args)
-- 
2.43.0


From 500666f9c5e663ee9823bdb4512377f570d30a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 04/74] fix: conditional(scalar, node) and conditional(node,
 scalar) were merged into the same node

---
 app/tenncor/src/graph/operations/elementary.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 7499529..f0774b3 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -1109,7 +1109,7 @@ varptr<T> conditional (T a, const varptr<T> b, std::function<bool(T,T)> compare,
 		}
 		return constant<T>::get(bcvec, bconst->get_shape());
 	}
-	std::string opname = nnutils::formatter() << "conditional_" << name << "_" << a;
+	std::string opname = nnutils::formatter() << "conditional_" << a << "_" << name;
 	if (inode<T>* parent = unary_parent_search(b.get(), opname))
 	{
 		return parent;
-- 
2.43.0


From 672951a166775dc2b77530c48f76253d7f7f9177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 05/74] fix: node labels kept six digits, so operations with
 nearly equal scalar parameters were merged

---
 app/tenncor/include/utils/utils.hpp |  4 ++++
 app/tenncor/src/utils/utils.cpp     | 18 ++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/app/tenncor/include/utils/utils.hpp b/app/tenncor/include/utils/utils.hpp
index 3d84dcd..d7ce23b 100644
--- a/app/tenncor/include/utils/utils.hpp
+++ b/app/tenncor/include/utils/utils.hpp
@@ -60,6 +60,10 @@ public:
 		return *this;
 	}
 
+	//! overload << operator for doubles, using as many digits as identify the value
+	//! (nodes are looked up by labels containing their parameters)
+	formatter& operator << (const double& value);
+
 	//! overload << operator for vectors
 	//! add values to string delimited by comma
 	template <typename T>
diff --git a/app/tenncor/src/utils/utils.cpp b/app/tenncor/src/utils/utils.cpp
index 1b26582..e61f8f5 100644
--- a/app/tenncor/src/utils/utils.cpp
+++ b/app/tenncor/src/utils/utils.cpp
@@ -1,5 +1,9 @@
 #include <iostream>
 
+#include <cstdlib>
+#include <iomanip>
+#include <limits>
+
 #include "utils/utils.hpp"
 
 #ifdef TENNCOR_UTILS_HPP
@@ -11,6 +15,20 @@ formatter::formatter (void) {}
 
 formatter::~formatter (void) {}
 
+formatter& formatter::operator << (const double& value)
+{
+	std::string repr;
+	for (int digits = 6; digits <= std::numeric_limits<double>::max_digits10; digits++)
+	{
+		std::stringstream ss;
+		ss << std::setprecision(digits) << value;
+		repr = ss.str();
+		if (std::strtod(repr.c_str(), nullptr) == value) break;
+	}
+	stream_ << repr;
+	return *this;
+}
+
 std::string formatter::str (void) const
 {
 	return stream_.str();
-- 
2.43.0


From 14e4f2476f2ccdc1f562a5836a2eb834cc1fee39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:50 +0000
Subject: [PATCH 06/74] fix: axial operations indexed the smaller operand out
 of bounds for square shapes and missing axes

---
 .../src/graph/operations/elementary.ipp       | 59 ++++++++-----------
 1 file changed, 26 insertions(+), 33 deletions(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index f0774b3..62e2f28 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -58,8 +58,12 @@ static inline SHAPER binary_axial_shape (size_t axis, bool left)
 		if (shape1.n_elems() == 1) return shape2;
 		if (shape2.n_elems() == 1) return shape1;
 
+		// a dimension shape2 does not have is a unit dimension
 		std::vector<size_t> s2list = shape2.as_list();
-
+		if (axis >= s2list.size())
+		{
+			s2list.resize(axis + 1, 1);
+		}
 		if (axis == 0)
 		{
 			s2list = std::vector<size_t>(s2list.begin()+1, s2list.end());
@@ -72,6 +76,10 @@ static inline SHAPER binary_axial_shape (size_t axis, bool left)
 		{
 			s2list[axis] = 1;
 		}
+		if (s2list.empty())
+		{
+			s2list.push_back(1);
+		}
 		if (false == shape1.is_compatible_with(tensorshape(s2list)))
 		{
 			std::stringstream ss;
@@ -122,45 +130,30 @@ static TRANSFER_FUNC<T> binary_axial (AGGREGATE<T> aggregate, size_t axis, bool
 	{
 		assert(2 == srcs.size());
 		size_t n_elems = shapes.outs_.n_elems();
+		size_t n_axial = shapes.ins_[idx].n_elems();
+		size_t n_real = shapes.ins_[(idx + 1) % 2].n_elems();
 		std::vector<size_t> olist = shapes.outs_.as_list();
-		std::vector<size_t> ilist = shapes.ins_[idx].as_list();
 
-		if (1 == shapes.ins_[idx].n_elems())
+		// number of elements below axis, and along axis
+		size_t below = 1;
+		size_t along = axis < olist.size() ? olist[axis] : 1;
+		for (size_t d = 0; d < axis && d < olist.size(); d++)
 		{
-			for (size_t i = 0; i < n_elems; i++)
-			{
-				dest[i] = aggregate(srcs[idx][0], srcs[(idx + 1) % 2][i]);
-			}
+			below *= olist[d];
 		}
-		else
+		for (size_t i = 0; i < n_elems; i++)
 		{
-			for (size_t i = 0; i < n_elems; i++)
+			size_t axis_idx = i;
+			if (n_axial == 1)
+			{
+				axis_idx = 0;
+			}
+			else if (n_real > 1)
 			{
-				size_t axis_idx = i;
-				if (axis == 0 && ilist[axis] != olist[axis])
-				{
-					std::vector<size_t> coords = shapes.outs_.coordinate_from_idx(i);
-					if (ilist[axis] != olist[axis+1])
-					{
-						std::stringstream ss;
-						ss << "failed to map ";
-						print_shape(shapes.outs_, ss);
-						ss << " to ";
-						print_shape(shapes.ins_[idx], ss);
-						ss << " along axis 0";
-						throw std::logic_error(ss.str());
-					}
-					coords = std::vector<size_t>(coords.begin()+1, coords.end());
-					axis_idx = shapes.ins_[idx].flat_idx(coords);
-				}
-				else if (axis >= ilist.size() || (ilist[axis] == 1 && olist[axis] > 1))
-				{
-					std::vector<size_t> coords = shapes.outs_.coordinate_from_idx(i);
-					coords[axis] = 0;
-					axis_idx = shapes.ins_[idx].flat_idx(coords);
-				}
-				dest[i] = aggregate(srcs[idx][axis_idx], srcs[(idx + 1) % 2][i]);
+				// index of the coordinate without axis
+				axis_idx = (i / (below * along)) * below + i % below;
 			}
+			dest[i] = aggregate(srcs[idx][axis_idx], srcs[(idx + 1) % 2][n_real > 1 ? i : 0]);
 		}
 	};
 }
-- 
2.43.0


From 107a82b7dd5d40b3bea0e2974c44e942c6e50a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:50 +0000
Subject: [PATCH 07/74] fix: axial addition and multiplication were merged with
 the same operation on swapped operands

---
 app/tenncor/src/graph/operations/elementary.ipp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 62e2f28..24cc900 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -184,7 +184,10 @@ static varptr<T> add_helper (const varptr<T>& a, const varptr<T>& b,
 		return a + outconst[0];
 	}
 
-	if (inode<T>* parent = unordered_binary_parent_search(a.get(), b.get(), opname))
+	// axial operands aren't interchangeable
+	if (inode<T>* parent = left_axis ?
+		ordered_binary_parent_search(a.get(), b.get(), opname) :
+		unordered_binary_parent_search(a.get(), b.get(), opname))
 	{
 		return parent;
 	}
@@ -284,7 +287,10 @@ static varptr<T> mul_helper (const varptr<T>& a, const varptr<T>& b,
 		return a * outconst[0];
 	}
 
-	if (inode<T>* parent = unordered_binary_parent_search(a.get(), b.get(), opname))
+	// axial operands aren't interchangeable
+	if (inode<T>* parent = left_axis ?
+		ordered_binary_parent_search(a.get(), b.get(), opname) :
+		unordered_binary_parent_search(a.get(), b.get(), opname))
 	{
 		return parent;
 	}
-- 
2.43.0


From 31adec76a2f38a394c2e650b6ac349d538fcd3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:50 +0000
Subject: [PATCH 08/74] fix: dividing a constant node by a zero scalar was not
 rejected

---
 app/tenncor/src/graph/operations/elementary.ipp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 24cc900..2bced31 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -1786,6 +1786,10 @@ template<typename T>
 varptr<T> operator / (const varptr<T> a, T b)
 {
 	if (nullptr == a.get()) return nullptr;
+	if (b == (T) 0)
+	{
+		throw std::logic_error("divide by zero");
+	}
 	constant<T>* aconst = dynamic_cast<constant<T>*>(a.get());
 	if (aconst)
 	{
@@ -1800,10 +1804,6 @@ varptr<T> operator / (const varptr<T> a, T b)
 		}
 		return constant<T>::get(acvec, aconst->get_shape());
 	}
-	if (b == (T) 0)
-	{
-		throw std::logic_error("divide by zero");
-	}
 	if (b == (T) 1) return a;
 	std::string opname = nnutils::formatter() << "div_" << b;
 	if (inode<T>* parent = unary_parent_search(a.get(), opname))
-- 
2.43.0


From b9dae6290d0e2c5bd78fb69da3ac40255abd3f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:00 +0000
Subject: [PATCH 09/74] fix: matmul accepted operands with different numbers of
 matrices when one is at most 2-d

---
 app/tenncor/src/graph/operations/matmul.ipp | 28 +++++++++++----------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/app/tenncor/src/graph/operations/matmul.ipp b/app/tenncor/src/graph/operations/matmul.ipp
index 158b380..eefbc45 100644
--- a/app/tenncor/src/graph/operations/matmul.ipp
+++ b/app/tenncor/src/graph/operations/matmul.ipp
@@ -205,19 +205,21 @@ static inline tensorshape matmul_shaper (std::vector<tensorshape> shapes)
 			print_shape(t2s, ss);
 			throw std::logic_error(ss.str());
 		}
-		// check that remaining shape values are ones,
-		// otherwise one shape is larger than the other
-		auto it = rank1 > rank2 ? al.begin() : bl.begin();
-		auto et = rank1 > rank2 ? al.end() : bl.end();
-		if (!std::all_of(it + minend, et, [](size_t e) { return e == 1; }))
-		{
-			std::stringstream ss;
-			ss << "attempting to matrix multiple different sized shapes ";
-			print_shape(t1s, ss);
-			ss << " and ";
-			print_shape(t2s, ss);
-			throw std::logic_error(ss.str());
-		}
+	}
+	// check that remaining shape values are ones,
+	// otherwise one shape is larger than the other
+	auto it = rank1 > rank2 ? al.begin() : bl.begin();
+	auto et = rank1 > rank2 ? al.end() : bl.end();
+	size_t minbeyond = std::max(minend, (size_t) 2);
+	if (std::max(rank1, rank2) > minbeyond &&
+		!std::all_of(it + minbeyond, et, [](size_t e) { return e == 1; }))
+	{
+		std::stringstream ss;
+		ss << "attempting to matrix multiple different sized shapes ";
+		print_shape(t1s, ss);
+		ss << " and ";
+		print_shape(t2s, ss);
+		throw std::logic_error(ss.str());
 	}
 
 	// get resulting shape
-- 
2.43.0


From cea239ae6a55992bb62226455bcf844235d28cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:00 +0000
Subject: [PATCH 10/74] fix: transposing two dimensions beyond the operand's
 rank left the result uninitialised

---
 app/tenncor/src/graph/operations/transform.ipp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/app/tenncor/src/graph/operations/transform.ipp b/app/tenncor/src/graph/operations/transform.ipp
index 6e8095e..a94f0f2 100644
--- a/app/tenncor/src/graph/operations/transform.ipp
+++ b/app/tenncor/src/graph/operations/transform.ipp
@@ -58,10 +58,6 @@ varptr<T> transpose (const varptr<T> a, std::pair<size_t,size_t> axis_swap)
 		assert(1 == src.size());
 		size_t n_elems = shape.outs_.n_elems();
 		size_t rank = shape.ins_[0].rank();
-		if (axis_swap.first >= rank)
-		{
-			return;
-		}
 		std::vector<size_t> coords;
 		if (axis_swap.second >= rank)
 		{
-- 
2.43.0


From 8470acb9537ac0798c3ae0c92de11787a7dcc601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:00 +0000
Subject: [PATCH 11/74] fix: extending along a new dimension read beyond the
 operand's shape

---
 app/tenncor/src/graph/operations/transform.ipp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/operations/transform.ipp b/app/tenncor/src/graph/operations/transform.ipp
index a94f0f2..1881715 100644
--- a/app/tenncor/src/graph/operations/transform.ipp
+++ b/app/tenncor/src/graph/operations/transform.ipp
@@ -168,8 +168,9 @@ varptr<T> extend (const varptr<T> a, size_t index, size_t multiplier)
 	{
 		assert(1 == src.size());
 		size_t n_elems = shape.outs_.n_elems();
-		size_t dim = shape.ins_[0].as_list()[index];
-		std::vector<size_t> coords;
+		std::vector<size_t> inlist = shape.ins_[0].as_list();
+		// a dimension the operand does not have is a unit dimension
+		size_t dim = index < inlist.size() ? inlist[index] : 1;
 		for (size_t i = 0; i < n_elems; i++)
 		{
 			std::vector<size_t> coords = shape.outs_.coordinate_from_idx(i);
-- 
2.43.0


From aaaa8b06d34cfa416b6919677cdd6930324e856a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:00 +0000
Subject: [PATCH 12/74] fix: reduce_mean dereferenced a null operand and read
 beyond the shape for a dimension out of rank

---
 app/tenncor/src/graph/operations/transform.ipp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/operations/transform.ipp b/app/tenncor/src/graph/operations/transform.ipp
index 1881715..fe6666e 100644
--- a/app/tenncor/src/graph/operations/transform.ipp
+++ b/app/tenncor/src/graph/operations/transform.ipp
@@ -327,13 +327,15 @@ varptr<T> reduce_sum (const varptr<T> a, optional<size_t> dimension)
 template <typename T>
 varptr<T> reduce_mean (const varptr<T> a, optional<size_t> dimension)
 {
+	if (nullptr == a.get()) return nullptr;
 	varptr<T> denom;
 	if (dimension)
 	{
 		denom = shape_dep<T>::get({ a },
 		[dimension](tensorshape& s) -> std::vector<size_t>
 		{
-			return { s.as_list()[*dimension] };
+			// a dimension the operand does not have is a unit dimension
+			return { *dimension < s.rank() ? s.as_list()[*dimension] : 1 };
 		}, std::vector<size_t>{1},
 		nnutils::formatter() << "axis_" << *dimension << "_size");
 	}
-- 
2.43.0


From fbd7e5f9953605419637fdd1b912f77d6ed373ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:00 +0000
Subject: [PATCH 13/74] fix: arg_compress over all dimensions left all but its
 first element uninitialised instead of being a scalar

---
 app/tenncor/src/graph/operations/transform.ipp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/app/tenncor/src/graph/operations/transform.ipp b/app/tenncor/src/graph/operations/transform.ipp
index fe6666e..8e571f3 100644
--- a/app/tenncor/src/graph/operations/transform.ipp
+++ b/app/tenncor/src/graph/operations/transform.ipp
@@ -422,10 +422,7 @@ varptr<T> arg_compress (const varptr<T> a, REDUCE<T> search,
 	}
 	else
 	{
-		shaper = [](std::vector<tensorshape> inshapes) -> tensorshape
-		{
-			return std::vector<size_t>{inshapes[0].rank()};
-		};
+		shaper = [](std::vector<tensorshape>) -> tensorshape { return std::vector<size_t>{1}; };
 		// scalar shape
 		forward = new transfer_func<T>(
 		[search](T* dest, std::vector<const T*> src, shape_io shape)
-- 
2.43.0


From 0d6bae2c1c5d058d1be80e572daae0b960540f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:00 +0000
Subject: [PATCH 14/74] fix: flipping a dimension beyond the operand's rank
 wrote out of bounds

---
 app/tenncor/src/graph/operations/transform.ipp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/app/tenncor/src/graph/operations/transform.ipp b/app/tenncor/src/graph/operations/transform.ipp
index 8e571f3..2988990 100644
--- a/app/tenncor/src/graph/operations/transform.ipp
+++ b/app/tenncor/src/graph/operations/transform.ipp
@@ -486,6 +486,8 @@ varptr<T> flip (const varptr<T> a, std::vector<size_t> dims)
 			std::vector<size_t> coord = shape.outs_.coordinate_from_idx(i);
 			for (size_t d : dims)
 			{
+				// a dimension the operand does not have is a unit dimension
+				if (d >= outlist.size()) continue;
 				coord[d] = outlist[d] - coord[d] - 1;
 			}
 			dest[i] = src[0][shape.ins_[0].flat_idx(coord)];
-- 
2.43.0


From 1b4c12f0e9be45adf6fbe844ee7be00b1c90e30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:00 +0000
Subject: [PATCH 15/74] fix: cross_corr2d correlated the input with itself, out
 of bounds and in the wrong output shape

---
 .../src/graph/operations/transform.ipp        | 44 ++++++++++++++-----
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/app/tenncor/src/graph/operations/transform.ipp b/app/tenncor/src/graph/operations/transform.ipp
index 2988990..bd132a6 100644
--- a/app/tenncor/src/graph/operations/transform.ipp
+++ b/app/tenncor/src/graph/operations/transform.ipp
@@ -517,8 +517,28 @@ varptr<T> cross_corr2d (const varptr<T> a, const varptr<T> filter,
 	{
 		std::vector<size_t> outshape = shapes[0].as_list();
 		std::vector<size_t> filtshape = shapes[1].as_list();
-		outshape[dims.first] -= filtshape[dims.first] + 1;
-		outshape[dims.second] -= filtshape[dims.second] + 1;
+		bool fits = dims.first != dims.second;
+		for (size_t d : { dims.first, dims.second })
+		{
+			fits = fits && d < outshape.size() && d < filtshape.size() &&
+				filtshape[d] <= outshape[d];
+		}
+		for (size_t d = 0; d < filtshape.size(); d++)
+		{
+			fits = fits && (d == dims.first || d == dims.second || filtshape[d] == 1);
+		}
+		if (false == fits)
+		{
+			std::stringstream ss;
+			ss << "filter of shape ";
+			print_shape(shapes[1], ss);
+			ss << " does not fit shape ";
+			print_shape(shapes[0], ss);
+			ss << " along dimensions " << dims.first << " and " << dims.second;
+			throw std::logic_error(ss.str());
+		}
+		outshape[dims.first] -= filtshape[dims.first] - 1;
+		outshape[dims.second] -= filtshape[dims.second] - 1;
 		return outshape;
 	},
 	new transfer_func<T>(
@@ -526,24 +546,28 @@ varptr<T> cross_corr2d (const varptr<T> a, const varptr<T> filter,
 	{
 		assert(2 == src.size());
 		size_t n_elems = shape.outs_.n_elems();
-		std::vector<size_t> outlist = shape.outs_.as_list();
-		std::vector<size_t> inlist = shape.ins_[0].as_list();
-		size_t firstn = inlist[dims.first] - outlist[dims.first];
-		size_t secondn = inlist[dims.second] - outlist[dims.second];
+		std::vector<size_t> filtlist = shape.ins_[1].as_list();
+		size_t firstn = filtlist[dims.first];
+		size_t secondn = filtlist[dims.second];
 		std::vector<size_t> coord;
+		std::vector<size_t> filtcoord(filtlist.size(), 0);
 		for (size_t i = 0; i < n_elems; i++)
 		{
 			dest[i] = 0;
 			coord = shape.outs_.coordinate_from_idx(i);
+			size_t first = coord[dims.first];
+			size_t second = coord[dims.second];
 			for (size_t j = 0; j < firstn; j++)
 			{
 				for (size_t k = 0; k < secondn; k++)
 				{
-					dest[i] += src[0][shape.ins_[0].flat_idx(coord)] * src[0][k * firstn + j];
-
-					coord[dims.second]++;
+					coord[dims.first] = first + j;
+					coord[dims.second] = second + k;
+					filtcoord[dims.first] = j;
+					filtcoord[dims.second] = k;
+					dest[i] += src[0][shape.ins_[0].flat_idx(coord)] *
+						src[1][shape.ins_[1].flat_idx(filtcoord)];
 				}
-				coord[dims.first]++;
 			}
 		}
 	}),
-- 
2.43.0


From 29bd509a3efd709e5d46383262ac1b15e7430726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:19 +0000
Subject: [PATCH 16/74] fix: rejecting the shape of an operation while
 constructing its node leaked the transfer function

---
 .../src/graph/connector/immutable/immutable.ipp    | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/connector/immutable/immutable.ipp b/app/tenncor/src/graph/connector/immutable/immutable.ipp
index e0a5432..ee10a10 100644
--- a/app/tenncor/src/graph/connector/immutable/immutable.ipp
+++ b/app/tenncor/src/graph/connector/immutable/immutable.ipp
@@ -84,7 +84,19 @@ immutable<T>::immutable (
 	BACK_MAP<T> ginit, std::string label) :
 base_immutable<T>(args, label),
 shaper_(shaper), Nf_(Nf),
-ginit_(ginit) { this->update(std::unordered_set<size_t>{}); }
+ginit_(ginit)
+{
+	try
+	{
+		this->update(std::unordered_set<size_t>{});
+	}
+	catch (...)
+	{
+		// the destructor won't run
+		delete Nf_;
+		throw;
+	}
+}
 
 template <typename T>
 immutable<T>::immutable (const immutable<T>& other) :
-- 
2.43.0


From d25bf4d78d04e0359025d74e209a30b12fbaf77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:19 +0000
Subject: [PATCH 17/74] fix: transposing a dimension with one beyond the
 operand's rank didn't move the elements

---
 app/tenncor/src/graph/operations/transform.ipp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/operations/transform.ipp b/app/tenncor/src/graph/operations/transform.ipp
index bd132a6..82e3cda 100644
--- a/app/tenncor/src/graph/operations/transform.ipp
+++ b/app/tenncor/src/graph/operations/transform.ipp
@@ -59,9 +59,9 @@ varptr<T> transpose (const varptr<T> a, std::pair<size_t,size_t> axis_swap)
 		size_t n_elems = shape.outs_.n_elems();
 		size_t rank = shape.ins_[0].rank();
 		std::vector<size_t> coords;
-		if (axis_swap.second >= rank)
+		if (axis_swap.second >= rank && axis_swap.first + 1 >= rank)
 		{
-			// we're transposing with a previously non-existent dimension,
+			// we're transposing the last dimension with a previously non-existent dimension,
 			// so there is a 1-1 correspondence between src and dest
 			std::memcpy(dest, src[0], n_elems * sizeof(T));
 		}
@@ -71,6 +71,8 @@ varptr<T> transpose (const varptr<T> a, std::pair<size_t,size_t> axis_swap)
 			{
 				coords = shape.outs_.coordinate_from_idx(i);
 				std::swap(coords[axis_swap.first], coords[axis_swap.second]);
+				// dimensions beyond rank are unit dimensions
+				coords.resize(rank);
 				dest[i] = src[0][shape.ins_[0].flat_idx(coords)];
 			}
 		}
-- 
2.43.0


From 7ae282c7d9191143361027025355777932013978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:51 +0000
Subject: [PATCH 18/74] fix: destroying a node with a queued update left it
 dangling in its graph's update queue

---
 app/tenncor/src/graph/connector/iconnector.ipp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/app/tenncor/src/graph/connector/iconnector.ipp b/app/tenncor/src/graph/connector/iconnector.ipp
index f8ef05f..519dec7 100644
--- a/app/tenncor/src/graph/connector/iconnector.ipp
+++ b/app/tenncor/src/graph/connector/iconnector.ipp
@@ -380,6 +380,16 @@ struct iconnector<T>::graph_manager
 	void suicide (iconnector<T>* user)
 	{
 		users_.erase(user);
+		// user's queued update must not outlive it
+		if (update_map_.erase(user) > 0)
+		{
+			std::vector<iconnector<T>*> remaining;
+			for (; false == updates_.empty(); updates_.pop())
+			{
+				if (updates_.top() != user) remaining.push_back(updates_.top());
+			}
+			for (iconnector<T>* r : remaining) updates_.push(r);
+		}
 		if (users_.empty()) delete this;
 	}
 
-- 
2.43.0


From b2a924f3c8ba713430c02a9330a941dde4288209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:40 +0000
Subject: [PATCH 19/74] fix: a failing node update was lost, left other
 dependents stale and failed the evaluation of unrelated nodes

---
 .../src/graph/connector/iconnector.ipp        | 53 ++++++++++++++++---
 .../connector/immutable/base_immutable.ipp    | 17 +++++-
 app/tenncor/src/graph/react/subject.cpp       | 14 ++++-
 3 files changed, 75 insertions(+), 9 deletions(-)

diff --git a/app/tenncor/src/graph/connector/iconnector.ipp b/app/tenncor/src/graph/connector/iconnector.ipp
index 519dec7..03231ad 100644
--- a/app/tenncor/src/graph/connector/iconnector.ipp
+++ b/app/tenncor/src/graph/connector/iconnector.ipp
@@ -7,6 +7,7 @@
 //
 
 #include <queue>
+#include <exception>
 
 #ifdef TENNCOR_ICONNECTOR_HPP
 
@@ -122,7 +123,7 @@ const tensor<T>* iconnector<T>::eval (void)
 {
 	if (this->g_man_ && false == this->g_man_->freeze_)
 	{
-		this->g_man_->update();
+		this->g_man_->update(this);
 	}
 	return this->get_eval();
 }
@@ -175,7 +176,7 @@ void iconnector<T>::freeze_status (bool freeze)
 	assert(this->g_man_);
 	if (freeze)
 	{
-		this->g_man_->update();
+		this->g_man_->update(this);
 	}
 	this->g_man_->freeze_ = freeze;
 }
@@ -421,18 +422,45 @@ struct iconnector<T>::graph_manager
 		}
 	}
 
-	void update (void)
+	//! run all queued updates, throws if an update that user depends on fails
+	void update (const iconnector<T>* user)
 	{
 		// todo: add multithreading
+		std::vector<std::pair<iconnector<T>*,std::exception_ptr> > failures;
 		while (false == updates_.empty())
 		{
 			iconnector<T>* iconn = updates_.top();
 			auto updater = update_map_[iconn];
 			updates_.pop();
-			updater();
-			iconn->notify(UPDATE);
+			try
+			{
+				updater();
+			}
+			catch (...)
+			{
+				failures.push_back({iconn, std::current_exception()});
+				continue;
+			}
+			update_map_.erase(iconn);
+			try
+			{
+				iconn->notify(UPDATE);
+			}
+			catch (...) {} // observers that fail queue themselves
+		}
+		// failed nodes remain queued until they succeed
+		for (auto& fpair : failures)
+		{
+			updates_.push(fpair.first);
+		}
+		for (auto& fpair : failures)
+		{
+			std::unordered_set<const iconnector<T>*> visited;
+			if (depends_on(user, fpair.first, visited))
+			{
+				std::rethrow_exception(fpair.second);
+			}
 		}
-		update_map_.clear();
 	}
 
 	bool freeze_ = false;
@@ -443,6 +471,19 @@ private:
 	std::unordered_map<iconnector<T>*,std::function<void(void)> > update_map_;
 
 	std::unordered_set<iconnector<T>*> users_;
+
+	static bool depends_on (const iconnector<T>* user, const iconnector<T>* node,
+		std::unordered_set<const iconnector<T>*>& visited)
+	{
+		if (user == node) return true;
+		if (false == visited.insert(user).second) return false;
+		for (inode<T>* arg : user->get_arguments())
+		{
+			iconnector<T>* conn = dynamic_cast<iconnector<T>*>(arg);
+			if (conn && depends_on(conn, node, visited)) return true;
+		}
+		return false;
+	}
 	
 	graph_manager (void) {}
 	
diff --git a/app/tenncor/src/graph/connector/immutable/base_immutable.ipp b/app/tenncor/src/graph/connector/immutable/base_immutable.ipp
index 1d10a3a..3e65bc5 100644
--- a/app/tenncor/src/graph/connector/immutable/base_immutable.ipp
+++ b/app/tenncor/src/graph/connector/immutable/base_immutable.ipp
@@ -97,7 +97,7 @@ void base_immutable<T>::temporary_eval (const iconnector<T>* target, inode<T>*&
 template <typename T>
 tensorshape base_immutable<T>::get_shape (void) const
 {
-	if (this->g_man_) this->g_man_->update();
+	if (this->g_man_) this->g_man_->update(this);
 	if (nullptr == data_)
 	{
 		return tensorshape();
@@ -168,7 +168,20 @@ void base_immutable<T>::update (std::unordered_set<size_t>)
 		// unaries are push update
 		{
 			// forward pass
-			forward_pass();
+			try
+			{
+				forward_pass();
+			}
+			catch (...)
+			{
+				// keep reporting failure on evaluation until the update succeeds
+				this->g_man_->add_update(this,
+				[this]
+				{
+					forward_pass();
+				});
+				throw;
+			}
 			this->notify(UPDATE);
 		}
 	}
diff --git a/app/tenncor/src/graph/react/subject.cpp b/app/tenncor/src/graph/react/subject.cpp
index fc298da..371a85f 100644
--- a/app/tenncor/src/graph/react/subject.cpp
+++ b/app/tenncor/src/graph/react/subject.cpp
@@ -8,6 +8,8 @@
 
 #include "graph/react/iobserver.hpp"
 
+#include <exception>
+
 #ifdef TENNCOR_SUBJECT_HPP
 
 #ifdef EDGE_RCD
@@ -79,14 +81,24 @@ if (rocnnet_record::record_status::rec_good && UPDATE == msg)
 		obs.push_back(it->first);
 	}
 
+	// a failing viewer doesn't keep the others from being notified
+	std::exception_ptr failure = nullptr;
 	for (iobserver* viewer : obs)
 	{
 		auto it = audience_.find(viewer);
 		if (it != audience_.end())
 		{
-			viewer->update(it->second, msg);
+			try
+			{
+				viewer->update(it->second, msg);
+			}
+			catch (...)
+			{
+				if (nullptr == failure) failure = std::current_exception();
+			}
 		}
 	}
+	if (failure) std::rethrow_exception(failure);
 }
 
 bool subject::no_audience (void) const
-- 
2.43.0


From e628dd9acc9a294c5285ea430d134e44ec0d7f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:21 +0000
Subject: [PATCH 20/74] fix: a node recomputed with a shape of other unit
 dimensions used its old shape, out of bounds

---
 .../graph/connector/immutable/immutable.ipp   | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/app/tenncor/src/graph/connector/immutable/immutable.ipp b/app/tenncor/src/graph/connector/immutable/immutable.ipp
index ee10a10..4e59ebd 100644
--- a/app/tenncor/src/graph/connector/immutable/immutable.ipp
+++ b/app/tenncor/src/graph/connector/immutable/immutable.ipp
@@ -165,13 +165,20 @@ void immutable<T>::forward_pass (void)
 		if (this->data_->is_alloc())
 		{
 			tensorshape oshape = this->data_->get_shape();
-			if (false == s.is_compatible_with(oshape))
+			// shapes compatible with the output can still differ in their unit dimensions
+			if (s.as_list() != oshape.as_list())
 			{
-				std::stringstream ss;
-				print_shape(s, ss);
-				ss << " is incompatible with output shape ";
-				print_shape(oshape, ss);
-				throw std::runtime_error(ss.str());
+				tensor<T> reshaped(*this->data_, true);
+				reshaped.deallocate();
+				if (false == reshaped.allocate(s))
+				{
+					std::stringstream ss;
+					print_shape(s, ss);
+					ss << " is incompatible with output shape ";
+					print_shape(oshape, ss);
+					throw std::runtime_error(ss.str());
+				}
+				*this->data_ = std::move(reshaped);
 			}
 		}
 		// otherwise allocate data_
-- 
2.43.0


From f7b00599c939d222b104adc5a3ee35795f596e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:21 +0000
Subject: [PATCH 21/74] fix: a copied variable shared the unique identifier of
 its source

---
 app/tenncor/include/graph/react/identifiable.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/app/tenncor/include/graph/react/identifiable.hpp b/app/tenncor/include/graph/react/identifiable.hpp
index 678a0ff..55ba7a3 100644
--- a/app/tenncor/include/graph/react/identifiable.hpp
+++ b/app/tenncor/include/graph/react/identifiable.hpp
@@ -26,6 +26,11 @@ namespace nnet
 class identifiable
 {
 public:
+	identifiable (void) {}
+
+	//! copies and moved nodes are identified separately
+	identifiable (const identifiable&) {}
+
 	virtual ~identifiable (void) {}
 
 	//! get the unique hash value
-- 
2.43.0


From 7c6e6e5afb6a89e663f2dcbe3cd519e23d454b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:21 +0000
Subject: [PATCH 22/74] fix: copies and moves of nodes lost their metadata

---
 app/tenncor/src/graph/inode.ipp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/inode.ipp b/app/tenncor/src/graph/inode.ipp
index 78e47fb..b06f1e6 100644
--- a/app/tenncor/src/graph/inode.ipp
+++ b/app/tenncor/src/graph/inode.ipp
@@ -33,6 +33,7 @@ inode<T>& inode<T>::operator = (const inode<T>& other)
 	{
 		subject::operator = (other);
 		label_ = other.label_;
+		metadata_ = other.metadata_;
 	}
 	return *this;
 }
@@ -44,6 +45,7 @@ inode<T>& inode<T>::operator = (inode<T>&& other)
 	{
 		subject::operator = (other);
 		label_ = std::move(other.label_);
+		metadata_ = std::move(other.metadata_);
 	}
 	return *this;
 }
@@ -132,12 +134,14 @@ inode<T>::inode (std::string label) :
 template <typename T>
 inode<T>::inode (const inode<T>& other) :
 	subject(other),
-	label_(other.label_) {}
+	label_(other.label_),
+	metadata_(other.metadata_) {}
 
 template <typename T>
 inode<T>::inode (inode<T>&& other) :
 	subject(std::move(other)),
-	label_(std::move(other.label_)) {}
+	label_(std::move(other.label_)),
+	metadata_(std::move(other.metadata_)) {}
 
 template <typename T>
 const tensor<T>* inode<T>::take_eval (inode<T>* source) const
-- 
2.43.0


From 5d5259816d41129c416917f7e01a13c2633d5a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:21 +0000
Subject: [PATCH 23/74] fix: move-assigned nodes didn't take over the
 dependents of their source

---
 app/tenncor/src/graph/inode.ipp      | 2 +-
 app/tenncor/src/graph/leaf/ileaf.ipp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/inode.ipp b/app/tenncor/src/graph/inode.ipp
index b06f1e6..f16d39e 100644
--- a/app/tenncor/src/graph/inode.ipp
+++ b/app/tenncor/src/graph/inode.ipp
@@ -43,7 +43,7 @@ inode<T>& inode<T>::operator = (inode<T>&& other)
 {
 	if (this != &other)
 	{
-		subject::operator = (other);
+		subject::operator = (std::move(other));
 		label_ = std::move(other.label_);
 		metadata_ = std::move(other.metadata_);
 	}
diff --git a/app/tenncor/src/graph/leaf/ileaf.ipp b/app/tenncor/src/graph/leaf/ileaf.ipp
index 9d6b49e..553f1cd 100644
--- a/app/tenncor/src/graph/leaf/ileaf.ipp
+++ b/app/tenncor/src/graph/leaf/ileaf.ipp
@@ -46,7 +46,7 @@ ileaf<T>& ileaf<T>::operator = (ileaf<T>&& other)
 {
 	if (this != &other)
 	{
-		inode<T>::operator = (other);
+		inode<T>::operator = (std::move(other));
 		move_helper(std::move(other));
 		this->notify(UPDATE); // content changed
 	}
-- 
2.43.0


From 32684221d8c68c55c6f1caf904f718c10412ed58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:02 +0000
Subject: [PATCH 24/74] fix: moving a node that dies with its last dependent
 destroyed it while it was moved from

---
 app/tenncor/include/graph/react/subject.hpp |  3 +++
 app/tenncor/src/graph/react/subject.cpp     | 18 ++++++++----------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/app/tenncor/include/graph/react/subject.hpp b/app/tenncor/include/graph/react/subject.hpp
index bad72d9..cbd989f 100644
--- a/app/tenncor/include/graph/react/subject.hpp
+++ b/app/tenncor/include/graph/react/subject.hpp
@@ -100,6 +100,9 @@ protected:
 	std::unordered_map<iobserver*, std::unordered_set<size_t> > audience_;
 
 private:
+	//! take over all observers of other
+	void take_audience (subject& other);
+
 	//! observers that kills this on death
 	std::unordered_set<iobserver*> killers_;
 };
diff --git a/app/tenncor/src/graph/react/subject.cpp b/app/tenncor/src/graph/react/subject.cpp
index 371a85f..34d75ed 100644
--- a/app/tenncor/src/graph/react/subject.cpp
+++ b/app/tenncor/src/graph/react/subject.cpp
@@ -48,16 +48,7 @@ subject& subject::operator = (subject&& other)
 {
 	if (this != &other)
 	{
-		std::unordered_map<iobserver*, std::unordered_set<size_t> > temp = other.audience_;
-		for (auto& audpair : temp)
-		{
-			iobserver* aud = audpair.first;
-			for (size_t idx : audpair.second)
-			{
-				aud->replace_dependency(this, idx);
-			}
-		}
-		other.audience_.clear();
+		take_audience(other);
 	}
 	return *this;
 }
@@ -146,8 +137,15 @@ void subject::detach_killer (iobserver* killer)
 subject::subject (const subject&) {}
 
 subject::subject (subject&& other)
+{
+	take_audience(other);
+}
+
+void subject::take_audience (subject& other)
 {
 	std::unordered_map<iobserver*, std::unordered_set<size_t> > temp = other.audience_;
+	// other is still being moved from: it must not die of losing its audience
+	other.audience_[nullptr].emplace(0);
 	for (auto& audpair : temp)
 	{
 		iobserver* aud = audpair.first;
-- 
2.43.0


From 34b4e0eaab83d59d605f38435d40d80fb12a59a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:16 +0000
Subject: [PATCH 25/74] fix: assigning or moving a shape_dep leaked its shape
 extracter

---
 app/tenncor/src/graph/connector/immutable/shape_dep.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/connector/immutable/shape_dep.ipp b/app/tenncor/src/graph/connector/immutable/shape_dep.ipp
index 88bd1e4..93511fb 100644
--- a/app/tenncor/src/graph/connector/immutable/shape_dep.ipp
+++ b/app/tenncor/src/graph/connector/immutable/shape_dep.ipp
@@ -62,6 +62,7 @@ shape_dep<T>& shape_dep<T>::operator = (const shape_dep<T>& other)
 	{
 		base_immutable<T>::operator = (other);
 		shape_ = other.shape_;
+		delete shape_info;
 		shape_info = other.shape_info->clone();
 	}
 	return *this;
@@ -74,8 +75,8 @@ shape_dep<T>& shape_dep<T>::operator = (shape_dep<T>&& other)
 	{
 		base_immutable<T>::operator = (std::move(other));
 		shape_ = std::move(other.shape_);
+		delete shape_info;
 		shape_info = other.shape_info->move();
-		other.shape_info = nullptr;
 	}
 	return *this;
 }
@@ -106,7 +107,6 @@ shape_dep<T>::shape_dep (shape_dep<T>&& other) :
 {
 	shape_ = std::move(other.shape_);
 	shape_info = other.shape_info->move();
-	other.shape_info = nullptr;
 }
 
 template <typename T>
-- 
2.43.0


From b2709efdf5ca3a4049b18b12eccafae0324f516e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:22 +0000
Subject: [PATCH 26/74] fix: copied and moved connectors lost depth, queued
 updates, dependents' graph and jacobian origins

---
 .../include/graph/connector/iconnector.hpp    |  6 ++-
 .../connector/immutable/base_immutable.hpp    |  3 ++
 .../src/graph/connector/iconnector.ipp        | 54 ++++++++++++-------
 .../connector/immutable/base_immutable.ipp    | 19 +++++++
 4 files changed, 63 insertions(+), 19 deletions(-)

diff --git a/app/tenncor/include/graph/connector/iconnector.hpp b/app/tenncor/include/graph/connector/iconnector.hpp
index 5eef3f9..d653cfd 100644
--- a/app/tenncor/include/graph/connector/iconnector.hpp
+++ b/app/tenncor/include/graph/connector/iconnector.hpp
@@ -149,7 +149,11 @@ private:
 
 	void move_helper (iconnector<T>&& other);
 
-	void jacobian_correction (const inode<T>* other);
+	//! replace before by after as the origin of jacobians, returns true if there was any
+	bool jacobian_correction (const inode<T>* before, inode<T>* after);
+
+	//! correct jacobians inherited by dependents
+	void dependents_correction (const inode<T>* before, inode<T>* after);
 
 	//! the distance between this node and the furthest dependent leaf (maximum spanning tree height)
 	size_t depth_ = 0;
diff --git a/app/tenncor/include/graph/connector/immutable/base_immutable.hpp b/app/tenncor/include/graph/connector/immutable/base_immutable.hpp
index 4913123..1abe8bc 100644
--- a/app/tenncor/include/graph/connector/immutable/base_immutable.hpp
+++ b/app/tenncor/include/graph/connector/immutable/base_immutable.hpp
@@ -128,6 +128,9 @@ private:
 	//! move helper
 	void move_helper (base_immutable&& other);
 
+	//! queue a forward pass if arguments are good
+	void queue_update (void);
+
 	//! temporary_eval helper
 	inode<T>* temp_eval_helper (const iconnector<T>* target, constant<T>*& out) const;
 };
diff --git a/app/tenncor/src/graph/connector/iconnector.ipp b/app/tenncor/src/graph/connector/iconnector.ipp
index 03231ad..5bbdc7c 100644
--- a/app/tenncor/src/graph/connector/iconnector.ipp
+++ b/app/tenncor/src/graph/connector/iconnector.ipp
@@ -299,24 +299,27 @@ varptr<T> iconnector<T>::jacobian_call (varptr<T> out, variable<T>* leaf) const
 template <typename T>
 void iconnector<T>::copy_helper (const iconnector<T>& other)
 {
+	depth_ = other.depth_;
 	jacobians_ = other.jacobians_;
-	jacobian_correction(&other);
-	// this copies other's dependencies so, this and other share a graph
-	if (g_man_) g_man_->suicide(this);
+	jacobian_correction(&other, this);
+	// this copies other's dependencies so, this, its dependents and other share a graph
+	graph_manager* mine = g_man_;
 	g_man_ = graph_manager::get(const_cast<iconnector<T>*>(&other), this);
+	if (mine) g_man_->consume(mine);
 }
 
 template <typename T>
 void iconnector<T>::move_helper (iconnector<T>&& other)
 {
+	depth_ = other.depth_;
 	jacobians_ = std::move(other.jacobians_);
-	jacobian_correction(&other);
-	// this copies other's dependencies so, this and other share a graph
-	if (g_man_)
-	{
-		g_man_->suicide(this);
-	}
+	jacobian_correction(&other, this);
+	// dependents moved from other to this
+	dependents_correction(&other, this);
+	// this copies other's dependencies so, this, its dependents and other share a graph
+	graph_manager* mine = g_man_;
 	g_man_ = graph_manager::get(&other, this);
+	if (mine) g_man_->consume(mine);
 	if (other.g_man_)
 	{
 		other.g_man_->suicide(&other);
@@ -325,19 +328,34 @@ void iconnector<T>::move_helper (iconnector<T>&& other)
 }
 
 template <typename T>
-void iconnector<T>::jacobian_correction (const inode<T>* other)
+bool iconnector<T>::jacobian_correction (const inode<T>* before, inode<T>* after)
 {
-	// todo: move this down to immutable,
-	// since if mutable, parent can have existing jacobian_ with references to other
-	// assert this node has no parent (true when copying immutables)
-
-	// check other's jacobians leafset for references to other and set to this
+	bool found = false;
+	// check jacobians leafset for references to before and set to after
 	for (auto& jpair : jacobians_)
 	{
-		std::list<std::pair<JTRANSFER<T>,inode<T>*> >& js = jpair.second.list_;
-		if (js.back().second == other)
+		for (auto& j : jpair.second.list_)
+		{
+			if (j.second == before)
+			{
+				j.second = after;
+				found = true;
+			}
+		}
+	}
+	return found;
+}
+
+template <typename T>
+void iconnector<T>::dependents_correction (const inode<T>* before, inode<T>* after)
+{
+	for (auto& audpair : this->audience_)
+	{
+		iconnector<T>* dependent = dynamic_cast<iconnector<T>*>(audpair.first);
+		// jacobians are inherited from arguments
+		if (dependent && dependent->jacobian_correction(before, after))
 		{
-			js.back().second = this;
+			dependent->dependents_correction(before, after);
 		}
 	}
 }
diff --git a/app/tenncor/src/graph/connector/immutable/base_immutable.ipp b/app/tenncor/src/graph/connector/immutable/base_immutable.ipp
index 3e65bc5..e24bb23 100644
--- a/app/tenncor/src/graph/connector/immutable/base_immutable.ipp
+++ b/app/tenncor/src/graph/connector/immutable/base_immutable.ipp
@@ -257,6 +257,7 @@ void base_immutable<T>::copy_helper (const base_immutable& other)
 		data_ = other.data_->clone();
 	}
 	gcache_ = other.gcache_;
+	queue_update();
 }
 
 template <typename T>
@@ -269,6 +270,24 @@ void base_immutable<T>::move_helper (base_immutable&& other)
 	data_ = std::move(other.data_);
 	other.data_ = nullptr;
 	gcache_ = std::move(other.gcache_);
+	queue_update();
+}
+
+template <typename T>
+void base_immutable<T>::queue_update (void)
+{
+	if (this->dependencies_.empty()) return;
+	// the source's data could be due for an update, and dependents don't know this data
+	for (subject* sub : this->dependencies_)
+	{
+		inode<T>* arg = static_cast<inode<T>*>(sub);
+		if (nullptr == arg || false == arg->good_status()) return;
+	}
+	this->g_man_->add_update(this,
+	[this]
+	{
+		forward_pass();
+	});
 }
 
 template <typename T>
-- 
2.43.0


From ec4eefe1a2a29d197a9e1353f6e38111ccd34c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:29 +0000
Subject: [PATCH 27/74] fix: dependents of a moved leaf kept the address of its
 source in their leaf sets and gradients

---
 .../connector/immutable/base_immutable.hpp    |  3 ++
 app/tenncor/include/graph/inode.hpp           |  3 ++
 app/tenncor/include/graph/leaf/variable.hpp   | 14 +++++++-
 .../connector/immutable/base_immutable.ipp    | 35 +++++++++++++++++++
 app/tenncor/src/graph/inode.ipp               | 12 +++++++
 app/tenncor/src/graph/leaf/placeholder.ipp    |  6 +++-
 app/tenncor/src/graph/leaf/variable.ipp       | 30 ++++++++++++++++
 7 files changed, 101 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/include/graph/connector/immutable/base_immutable.hpp b/app/tenncor/include/graph/connector/immutable/base_immutable.hpp
index 1abe8bc..56e9b1c 100644
--- a/app/tenncor/include/graph/connector/immutable/base_immutable.hpp
+++ b/app/tenncor/include/graph/connector/immutable/base_immutable.hpp
@@ -104,6 +104,9 @@ protected:
 	//! delay instantiate gcache elements if target leaf was never instantiated
 	virtual inode<T>* get_gradient (variable<T>* leaf);
 
+	//! leaf before moved to after, after takes its place in the leaf set
+	virtual void leaf_moved (inode<T>* before, inode<T>* after);
+
 	// >>>> FORWARD & BACKWARD <<<<
 	//! forward pass step: populate data_
 	virtual void forward_pass (void) = 0;
diff --git a/app/tenncor/include/graph/inode.hpp b/app/tenncor/include/graph/inode.hpp
index 1475287..73d8199 100644
--- a/app/tenncor/include/graph/inode.hpp
+++ b/app/tenncor/include/graph/inode.hpp
@@ -141,6 +141,9 @@ protected:
 	//! allow inheritants to access source's get_gradient with parameter leaf
 	inode<T>* take_gradient (inode<T>* source, variable<T>* leaf) const;
 
+	//! leaf before moved to after, let dependents know
+	virtual void leaf_moved (inode<T>* before, inode<T>* after);
+
 private:
 	//! describes this node's purpose
 	std::string label_;
diff --git a/app/tenncor/include/graph/leaf/variable.hpp b/app/tenncor/include/graph/leaf/variable.hpp
index a260c44..17ae088 100644
--- a/app/tenncor/include/graph/leaf/variable.hpp
+++ b/app/tenncor/include/graph/leaf/variable.hpp
@@ -43,13 +43,25 @@ public:
 	variable (const tensorshape& shape,
 		const initializer<T>& init, std::string name = "");
 
-	// >>>> CLONER <<<<
+	//! explicitly declare copy constructor since move constructor is declared
+	variable (const variable<T>& other);
+
+	//! declare move constructor to let dependents know of the move
+	variable (variable<T>&& other);
+
+	// >>>> CLONER & ASSIGNMENT OPERATORS <<<<
 	//! clone function
 	variable<T>* clone (void) const;
 
 	//! move function
 	variable<T>* move (void);
 
+	//! declare copy assignment since move assignment is declared
+	virtual variable<T>& operator = (const variable<T>& other);
+
+	//! declare move assignment to let dependents know of the move
+	virtual variable<T>& operator = (variable<T>&& other);
+
 	// >>>> VARIABLE SPECIAL <<<<
 	//! copy over initializer, replace current initializer
 	void set_initializer (const initializer<T>& init);
diff --git a/app/tenncor/src/graph/connector/immutable/base_immutable.ipp b/app/tenncor/src/graph/connector/immutable/base_immutable.ipp
index e24bb23..00e435e 100644
--- a/app/tenncor/src/graph/connector/immutable/base_immutable.ipp
+++ b/app/tenncor/src/graph/connector/immutable/base_immutable.ipp
@@ -244,6 +244,41 @@ inode<T>* base_immutable<T>::get_gradient (variable<T>* leaf)
 	return gcache_[leaf];
 }
 
+template <typename T>
+void base_immutable<T>::leaf_moved (inode<T>* before, inode<T>* after)
+{
+	ileaf<T>* aleaf = static_cast<ileaf<T>*>(after);
+	auto it = gcache_.find(static_cast<ileaf<T>*>(before));
+	if (gcache_.end() == it) return; // not a dependent of before
+	varptr<T> grad = it->second;
+	gcache_.erase(it);
+	bool had_after = gcache_.end() != gcache_.find(aleaf);
+	// gradients of nodes that depended on both have to be derived again
+	gcache_[aleaf] = had_after ? varptr<T>() : grad;
+
+	variable<T>* bvar = dynamic_cast<variable<T>*>(before);
+	variable<T>* avar = dynamic_cast<variable<T>*>(after);
+	if (bvar && avar)
+	{
+		auto jit = this->jacobians_.find(bvar);
+		bool branched = had_after && (this->jacobians_.end() != jit ||
+			this->jacobians_.end() != this->jacobians_.find(avar));
+		if (branched)
+		{
+			this->jacobians_[avar].terminal_ = true;
+			this->jacobians_[avar].list_.clear();
+			this->jacobians_.erase(bvar);
+		}
+		else if (this->jacobians_.end() != jit)
+		{
+			auto jlist = jit->second;
+			this->jacobians_.erase(jit);
+			this->jacobians_[avar] = jlist;
+		}
+	}
+	iconnector<T>::leaf_moved(before, after);
+}
+
 template <typename T>
 void base_immutable<T>::copy_helper (const base_immutable& other)
 {
diff --git a/app/tenncor/src/graph/inode.ipp b/app/tenncor/src/graph/inode.ipp
index f16d39e..8491168 100644
--- a/app/tenncor/src/graph/inode.ipp
+++ b/app/tenncor/src/graph/inode.ipp
@@ -155,6 +155,18 @@ inode<T>* inode<T>::take_gradient (inode<T>* source, variable<T>* leaf) const
 	return source->get_gradient(leaf);
 }
 
+template <typename T>
+void inode<T>::leaf_moved (inode<T>* before, inode<T>* after)
+{
+	for (auto& audpair : audience_)
+	{
+		if (inode<T>* dependent = dynamic_cast<inode<T>*>(audpair.first))
+		{
+			dependent->leaf_moved(before, after);
+		}
+	}
+}
+
 template <typename T>
 std::vector<T> expose (inode<T>* var)
 {
diff --git a/app/tenncor/src/graph/leaf/placeholder.ipp b/app/tenncor/src/graph/leaf/placeholder.ipp
index fcc34bd..c5d39c4 100644
--- a/app/tenncor/src/graph/leaf/placeholder.ipp
+++ b/app/tenncor/src/graph/leaf/placeholder.ipp
@@ -19,7 +19,10 @@ template <typename T>
 placeholder<T>::placeholder (const placeholder<T>& other) : ivariable<T>(other) {}
 
 template <typename T>
-placeholder<T>::placeholder (placeholder<T>&& other) : ivariable<T>(std::move(other)) {}
+placeholder<T>::placeholder (placeholder<T>&& other) : ivariable<T>(std::move(other))
+{
+	this->leaf_moved(&other, this);
+}
 
 template <typename T>
 placeholder<T>* placeholder<T>::clone (void) const
@@ -49,6 +52,7 @@ placeholder<T>& placeholder<T>::operator = (placeholder<T>&& other)
 	if (this != &other)
 	{
 		ivariable<T>::operator = (std::move(other));
+		this->leaf_moved(&other, this);
 	}
 	return *this;
 }
diff --git a/app/tenncor/src/graph/leaf/variable.ipp b/app/tenncor/src/graph/leaf/variable.ipp
index c28ddc5..2ee12fb 100644
--- a/app/tenncor/src/graph/leaf/variable.ipp
+++ b/app/tenncor/src/graph/leaf/variable.ipp
@@ -28,6 +28,15 @@ variable<T>::variable (const tensorshape& shape,
 	const initializer<T>& init, std::string name) :
 ivariable<T>(shape, init.clone(), name) {}
 
+template <typename T>
+variable<T>::variable (const variable<T>& other) : ivariable<T>(other) {}
+
+template <typename T>
+variable<T>::variable (variable<T>&& other) : ivariable<T>(std::move(other))
+{
+	this->leaf_moved(&other, this);
+}
+
 template <typename T>
 variable<T>* variable<T>::clone (void) const
 {
@@ -40,6 +49,27 @@ variable<T>* variable<T>::move (void)
 	return static_cast<variable<T>*>(move_impl());
 }
 
+template <typename T>
+variable<T>& variable<T>::operator = (const variable<T>& other)
+{
+	if (this != &other)
+	{
+		ivariable<T>::operator = (other);
+	}
+	return *this;
+}
+
+template <typename T>
+variable<T>& variable<T>::operator = (variable<T>&& other)
+{
+	if (this != &other)
+	{
+		ivariable<T>::operator = (std::move(other));
+		this->leaf_moved(&other, this);
+	}
+	return *this;
+}
+
 template <typename T>
 void variable<T>::set_initializer (const initializer<T>& init)
 {
-- 
2.43.0


From 8d6e357616272c2ba58f117ebc01c9ab28172d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:32 +0000
Subject: [PATCH 28/74] fix: updates that failed because they ran before a
 deeper assigned argument weren't retried

---
 app/tenncor/src/graph/connector/iconnector.ipp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/connector/iconnector.ipp b/app/tenncor/src/graph/connector/iconnector.ipp
index 5bbdc7c..1f155e5 100644
--- a/app/tenncor/src/graph/connector/iconnector.ipp
+++ b/app/tenncor/src/graph/connector/iconnector.ipp
@@ -445,8 +445,21 @@ struct iconnector<T>::graph_manager
 	{
 		// todo: add multithreading
 		std::vector<std::pair<iconnector<T>*,std::exception_ptr> > failures;
-		while (false == updates_.empty())
+		bool progress = false; // since the first failure
+		while (false == updates_.empty() || progress)
 		{
+			if (updates_.empty())
+			{
+				// assigned connectors can be deeper than their dependents know,
+				// so failures could have been waiting for the updates after them
+				for (auto& fpair : failures)
+				{
+					updates_.push(fpair.first);
+				}
+				failures.clear();
+				progress = false;
+				continue;
+			}
 			iconnector<T>* iconn = updates_.top();
 			auto updater = update_map_[iconn];
 			updates_.pop();
@@ -460,6 +473,7 @@ struct iconnector<T>::graph_manager
 				continue;
 			}
 			update_map_.erase(iconn);
+			progress = false == failures.empty();
 			try
 			{
 				iconn->notify(UPDATE);
-- 
2.43.0


From 9a40e5b4eff37afa5913d5bdce0da9bf64625380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:14 +0000
Subject: [PATCH 29/74] fix: flat index of the empty coordinate read out of
 bounds

---
 app/tenncor/src/tensor/tensorshape.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/app/tenncor/src/tensor/tensorshape.cpp b/app/tenncor/src/tensor/tensorshape.cpp
index cd113cb..66f81de 100644
--- a/app/tenncor/src/tensor/tensorshape.cpp
+++ b/app/tenncor/src/tensor/tensorshape.cpp
@@ -280,6 +280,7 @@ tensorshape tensorshape::with_rank_at_most (size_t rank) const
 
 size_t tensorshape::flat_idx (std::vector<size_t> coord) const
 {
+	if (coord.empty()) return 0; // unspecified coordinates are implied as 0
 	size_t n = std::min(dimensions_.size(), coord.size());
 	size_t index = 0;
 	for (size_t i = 1; i < n; i++)
-- 
2.43.0


From 66b3d6e3153e886b489e950fd4c38d9f09c105a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:14 +0000
Subject: [PATCH 30/74] fix: tensor access at coordinates outside of the shape
 returned other elements

---
 app/tenncor/src/tensor/tensor.ipp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/tensor/tensor.ipp b/app/tenncor/src/tensor/tensor.ipp
index 5cb649c..3028f16 100644
--- a/app/tenncor/src/tensor/tensor.ipp
+++ b/app/tenncor/src/tensor/tensor.ipp
@@ -341,8 +341,14 @@ size_t tensor<T>::total_bytes (void) const
 template <typename T>
 T tensor<T>::get (std::vector<size_t> coord) const
 {
+	std::vector<size_t> limits = alloc_shape_.as_list();
+	bool inbound = is_alloc();
+	for (size_t i = 0; i < coord.size(); i++)
+	{
+		inbound = inbound && coord[i] < (i < limits.size() ? limits[i] : 1);
+	}
 	size_t raw_idx = alloc_shape_.flat_idx(coord);
-	if (raw_idx >= alloc_shape_.n_elems())
+	if (false == inbound || raw_idx >= alloc_shape_.n_elems())
 	{
 		throw std::out_of_range(nnutils::formatter() <<
 		"out of bound coordinate: " << coord);
-- 
2.43.0


From 512e38f52384d498405813ce686cd47f2d772c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:14 +0000
Subject: [PATCH 31/74] fix: switching the allocator of an allocated tensor
 returned its data to the wrong allocator

---
 app/tenncor/src/tensor/tensor.ipp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/app/tenncor/src/tensor/tensor.ipp b/app/tenncor/src/tensor/tensor.ipp
index 3028f16..576a9c7 100644
--- a/app/tenncor/src/tensor/tensor.ipp
+++ b/app/tenncor/src/tensor/tensor.ipp
@@ -386,6 +386,16 @@ void tensor<T>::set_allocator (size_t alloc_id)
 	if (iallocator* alloc =
 		alloc_builder::get_instance().get(alloc_id))
 	{
+		if (raw_data_ && alloc != alloc_)
+		{
+			// raw data must return to the allocator it came from
+			size_t n = alloc_shape_.n_elems();
+			T* temp = alloc->template allocate<T>(n);
+			if (nullptr == temp) throw std::bad_alloc();
+			std::memcpy(temp, raw_data_, sizeof(T) * n);
+			alloc_->dealloc(raw_data_, n);
+			raw_data_ = temp;
+		}
 		alloc_ = alloc;
 	}
 	else
-- 
2.43.0


From 0b9d94ae8c3d5377f54f03b70918855c149cb151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:35 +0000
Subject: [PATCH 32/74] fix: reading a tensor from a corrupt message overflowed
 its memory, aborted or changed its allowed shape

---
 app/tenncor/src/tensor/tensor.ipp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/app/tenncor/src/tensor/tensor.ipp b/app/tenncor/src/tensor/tensor.ipp
index 576a9c7..fd35b7e 100644
--- a/app/tenncor/src/tensor/tensor.ipp
+++ b/app/tenncor/src/tensor/tensor.ipp
@@ -528,19 +528,26 @@ bool tensor<T>::from_proto (const tenncor::tensor_proto& other)
 {
 	std::string protostr = other.data();
 	const char* protoraw = protostr.c_str();
-	// shapes must have same dimensionality... (otherwise, input data is definitely corrupt)
-	assert(other.alloc_shape_size() == other.allow_shape_size());
 	std::vector<size_t> allow(other.allow_shape().begin(), other.allow_shape().end());
 	std::vector<size_t> alloc(other.alloc_shape().begin(), other.alloc_shape().end());
-	allowed_shape_ = tensorshape(allow);
+	tensorshape temp_allow_shape(allow);
 	tensorshape temp_alloc_shape(alloc);
-	// another sanity check, be less stringent, since this may represent some less evident issue
-	if (false == temp_alloc_shape.is_compatible_with(allowed_shape_) ||
+	// sanity check, since other may be corrupt or come from another tensor type
+	if (false == temp_alloc_shape.is_compatible_with(temp_allow_shape) ||
 		false == temp_alloc_shape.is_fully_defined()) return false;
+	// data must fill the shape exactly
+	size_t nelems = protostr.size() / sizeof(T);
+	for (size_t dim : alloc)
+	{
+		if (0 != nelems % dim) return false;
+		nelems /= dim;
+	}
+	if (1 != nelems || 0 != protostr.size() % sizeof(T)) return false;
 
 	deallocate();
+	allowed_shape_ = temp_allow_shape;
 	alloc_shape_ = temp_alloc_shape;
-	assert(allocate());
+	if (false == allocate()) return false;
 
 	// copy data over from protoraw
 	std::memcpy(raw_data_, protoraw, protostr.size());
-- 
2.43.0


From 3c5c9ccedd1692ff11214cbf2e190964d3d40a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:35 +0000
Subject: [PATCH 33/74] fix: loosely guessing the shape of a tensor without
 allowed shape wrote out of bounds

---
 app/tenncor/src/tensor/tensor.ipp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/app/tenncor/src/tensor/tensor.ipp b/app/tenncor/src/tensor/tensor.ipp
index fd35b7e..24a9be0 100644
--- a/app/tenncor/src/tensor/tensor.ipp
+++ b/app/tenncor/src/tensor/tensor.ipp
@@ -294,6 +294,11 @@ optional<tensorshape> tensor<T>::loosely_guess_shape(const std::vector<T>& data)
 		}
 		return bestshape;
 	}
+	// if allowed is undefined
+	if (false == allowed_shape_.is_part_defined())
+	{
+		return optional<tensorshape>(tensorshape({ndata}));
+	}
 	std::vector<size_t> my_shape = allowed_shape_.as_list();
 	size_t first_undef = my_shape.size();
 	size_t known = 1;
-- 
2.43.0


From 97d8b4ae8eff55c9c2125262e76644165f004fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:36 +0000
Subject: [PATCH 34/74] fix: allocated scalars had the same size as every
 tensor

---
 app/tenncor/src/tensor/tensor.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/tensor/tensor.ipp b/app/tenncor/src/tensor/tensor.ipp
index 24a9be0..37d943c 100644
--- a/app/tenncor/src/tensor/tensor.ipp
+++ b/app/tenncor/src/tensor/tensor.ipp
@@ -178,7 +178,8 @@ bool tensor<T>::is_same_size (const tensor<T>& other) const
 	{
 		tensorshape simp_shape = alloc_shape_.trim();
 		tensorshape other_simp = other.alloc_shape_.trim();
-		return simp_shape.is_compatible_with(other_simp);
+		// scalars trim to undefined shapes, which are compatible with anything
+		return n_elems() == other.n_elems() && simp_shape.is_compatible_with(other_simp);
 	}
 
 	return allowed_shape_.is_compatible_with(other.allowed_shape_);
-- 
2.43.0


From cc34081f5729abef19a3ce37a3a65b0c52ef0a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:51 +0000
Subject: [PATCH 35/74] fix: a failed allocation was reported as success or
 written through

---
 app/tenncor/src/tensor/tensor.ipp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/app/tenncor/src/tensor/tensor.ipp b/app/tenncor/src/tensor/tensor.ipp
index 37d943c..cd15f9d 100644
--- a/app/tenncor/src/tensor/tensor.ipp
+++ b/app/tenncor/src/tensor/tensor.ipp
@@ -73,6 +73,7 @@ template <typename T>
 tensor<T>::tensor (T scalar, size_t alloc_id) :
 	tensor<T>(std::vector<size_t>{1}, alloc_id)
 {
+	if (nullptr == raw_data_) throw std::bad_alloc();
 	raw_data_[0] = scalar;
 }
 
@@ -481,21 +482,19 @@ bool tensor<T>::allocate (const tensorshape shape)
 	if (shape.is_compatible_with(allowed_shape_) &&
 		shape.is_fully_defined())
 	{
+		T* temp = alloc_->template allocate<T>(shape.n_elems());
+		// out of memory
+		if (nullptr == temp) return success;
 		success = true;
 		// dealloc before reallocation
 		if (is_alloc())
 		{
-			T* temp = alloc_->template allocate<T>(shape.n_elems());
 			// move raw_data to temp matching new shape
 			// we want to only copy over the minimum data to lower cost
 			fit_toshape(temp, shape, raw_data_, alloc_shape_);
 			alloc_->dealloc(raw_data_, alloc_shape_.n_elems());
-			raw_data_ = temp;
-		}
-		else
-		{
-			raw_data_ = alloc_->template allocate<T>(shape.n_elems());
 		}
+		raw_data_ = temp;
 		alloc_shape_ = shape;
 	}
 	return success;
@@ -508,6 +507,9 @@ bool tensor<T>::copy_from (const tensor<T>& other, const tensorshape shape)
 	if (other.is_alloc() &&
 		shape.is_fully_defined())
 	{
+		T* temp = alloc_->template allocate<T>(shape.n_elems());
+		// out of memory
+		if (nullptr == temp) return success;
 		// allowed shape update
 		if (!allowed_shape_.is_compatible_with(shape))
 		{
@@ -516,7 +518,6 @@ bool tensor<T>::copy_from (const tensor<T>& other, const tensorshape shape)
 
 		success = true;
 		tensorshape olds = other.get_shape();
-		T* temp = alloc_->template allocate<T>(shape.n_elems());
 		fit_toshape(temp, shape, other.raw_data_, olds);
 		
 		if (is_alloc())
@@ -611,6 +612,7 @@ void tensor<T>::copy_helper (const tensor<T>& other, bool shapeonly)
 	{
 		size_t ns = alloc_shape_.n_elems();
 		raw_data_ = alloc_->template allocate<T>(ns);
+		if (nullptr == raw_data_) throw std::bad_alloc();
 		if (false == shapeonly)
 		{
 			std::memcpy(raw_data_, other.raw_data_, sizeof(T) * ns);
-- 
2.43.0


From 886837c2795e06dc46e0bffce63fc2d7088e459b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:20 +0000
Subject: [PATCH 36/74] fix: formatting an empty vector read out of bounds

---
 app/tenncor/include/utils/utils.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/app/tenncor/include/utils/utils.hpp b/app/tenncor/include/utils/utils.hpp
index d7ce23b..14ad361 100644
--- a/app/tenncor/include/utils/utils.hpp
+++ b/app/tenncor/include/utils/utils.hpp
@@ -70,6 +70,7 @@ public:
 	formatter& operator << (const std::vector<T>& values)
 	{
 		auto it = values.begin();
+		if (values.end() == it) return *this;
 		stream_ << *it;
 		it++;
 		while (it != values.end())
-- 
2.43.0


From fa2cf7a5c545b4c1bcad6aba75217428492ed913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:56 +0000
Subject: [PATCH 37/74] fix: destroying an observer with empty arguments threw
 out of its destructor

---
 app/tenncor/src/graph/react/iobserver.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/app/tenncor/src/graph/react/iobserver.cpp b/app/tenncor/src/graph/react/iobserver.cpp
index 5e9ca90..57fef65 100644
--- a/app/tenncor/src/graph/react/iobserver.cpp
+++ b/app/tenncor/src/graph/react/iobserver.cpp
@@ -15,10 +15,11 @@ namespace nnet
 
 iobserver::~iobserver (void)
 {
-	size_t ndeps = dependencies_.size();
-	for (size_t i = 0; i < ndeps; i++)
+	// removing dependencies drops trailing empty arguments
+	while (false == dependencies_.empty())
 	{
-		remove_dependency(i);
+		if (nullptr == dependencies_.back()) dependencies_.pop_back();
+		else remove_dependency(dependencies_.size() - 1);
 	}
 
 	// kill all descendent dependents
-- 
2.43.0


From 1d163ae4202c400ebce235708c4bc398ad430d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:56 +0000
Subject: [PATCH 38/74] fix: copied observers shifted the positions of
 arguments behind an empty one

---
 app/tenncor/src/graph/react/iobserver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/react/iobserver.cpp b/app/tenncor/src/graph/react/iobserver.cpp
index 57fef65..fae1355 100644
--- a/app/tenncor/src/graph/react/iobserver.cpp
+++ b/app/tenncor/src/graph/react/iobserver.cpp
@@ -179,7 +179,7 @@ void iobserver::copy_helper (const iobserver& other)
 	dependencies_.clear();
 	for (subject* dep : other.dependencies_)
 	{
-		if (dep) add_dependency(dep);
+		add_dependency(dep);
 	}
 }
 
-- 
2.43.0


From 0d97ca6dcc3a31238a8fe5c02b40835f563c9a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:56 +0000
Subject: [PATCH 39/74] fix: moved observers left the subjects that die with
 them behind

---
 app/tenncor/src/graph/react/iobserver.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/app/tenncor/src/graph/react/iobserver.cpp b/app/tenncor/src/graph/react/iobserver.cpp
index fae1355..e5a4231 100644
--- a/app/tenncor/src/graph/react/iobserver.cpp
+++ b/app/tenncor/src/graph/react/iobserver.cpp
@@ -191,6 +191,13 @@ void iobserver::move_helper (iobserver&& other)
 		if (dependencies_[i]) dependencies_[i]->detach(this, i);
 	}
 	dependencies_ = std::move(other.dependencies_);
+	// what dies with other has to die with this
+	std::unordered_set<subject*> deps = other.ondeath_deps_;
+	for (subject* dep : deps)
+	{
+		add_ondeath_dependent(dep);
+		other.remove_ondeath_dependent(dep);
+	}
 	// replace subs audience from other to this
 	for (size_t i = 0, n = dependencies_.size();
 		i < n; i++)
-- 
2.43.0


From dfbca65b2f97531ccf2eb15b5cdb760483caf3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:04 +0000
Subject: [PATCH 40/74] fix: observers destroyed twice what dies with them when
 one destruction triggers another

---
 app/tenncor/src/graph/react/iobserver.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/react/iobserver.cpp b/app/tenncor/src/graph/react/iobserver.cpp
index e5a4231..7301738 100644
--- a/app/tenncor/src/graph/react/iobserver.cpp
+++ b/app/tenncor/src/graph/react/iobserver.cpp
@@ -23,9 +23,11 @@ iobserver::~iobserver (void)
 	}
 
 	// kill all descendent dependents
-	std::unordered_set<subject*> deps = ondeath_deps_;
-	for (subject* dep : deps)
+	// (destroying one of them can destroy others)
+	while (false == ondeath_deps_.empty())
 	{
+		subject* dep = *ondeath_deps_.begin();
+		remove_ondeath_dependent(dep);
 		delete dep;
 	}
 }
-- 
2.43.0


From ef784a78f8567657520b23e5a5a362423f6b53de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:13 +0000
Subject: [PATCH 41/74] fix: random initializers drew from a copy of the
 generator, giving every variable the same data

---
 app/tenncor/src/tensor/tensor_handler.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/tensor/tensor_handler.ipp b/app/tenncor/src/tensor/tensor_handler.ipp
index 5c8e66a..f9a6dbc 100644
--- a/app/tenncor/src/tensor/tensor_handler.ipp
+++ b/app/tenncor/src/tensor/tensor_handler.ipp
@@ -268,7 +268,7 @@ template <typename T>
 void rand_uniform<T>::calc_data (T* dest, tensorshape outshape)
 {
 	size_t len = outshape.n_elems();
-	auto gen = std::bind(distribution_, nnutils::get_generator());
+	auto gen = std::bind(distribution_, std::ref(nnutils::get_generator()));
 	std::generate(dest, dest+len, gen);
 }
 
@@ -304,7 +304,7 @@ template <typename T>
 void rand_normal<T>::calc_data (T* dest, tensorshape outshape)
 {
 	size_t len = outshape.n_elems();
-	auto gen = std::bind(distribution_, nnutils::get_generator());
+	auto gen = std::bind(distribution_, std::ref(nnutils::get_generator()));
 	std::generate(dest, dest+len, gen);
 }
 
-- 
2.43.0


From 4a812e5c8542953cd101b73407464ae7614f1b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:25 +0000
Subject: [PATCH 42/74] fix: binomial sampling of constants and of sample
 counts used wrongly sized vectors and missing arguments

---
 .../src/graph/operations/elementary.ipp       | 26 +++++++------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 2bced31..90066d7 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -1232,7 +1232,7 @@ varptr<T> binomial_sample (T n, const varptr<T> p)
 	{
 		std::default_random_engine& gen = nnutils::get_generator();
 		std::vector<T> pcvec = expose<T>(pconst);
-		std::vector<T> pvec((T) 0, pcvec.size());
+		std::vector<T> pvec(pcvec.size(), (T) 0);
 		std::transform(pcvec.begin(), pcvec.end(), pvec.begin(),
 		[&gen, n](T pcv)
 		{
@@ -1270,7 +1270,7 @@ varptr<T> binomial_sample (const varptr<T> n, T p)
 	{
 		std::default_random_engine& gen = nnutils::get_generator();
 		std::vector<T> ncvec = expose<T>(nconst);
-		std::vector<T> nvec((T) 0, ncvec.size());
+		std::vector<T> nvec(ncvec.size(), (T) 0);
 		std::transform(ncvec.begin(), ncvec.end(), nvec.begin(),
 		[&gen, p](T ncv)
 		{
@@ -1284,7 +1284,7 @@ varptr<T> binomial_sample (const varptr<T> n, T p)
 	{
 		return parent;
 	}
-	return immutable<T>::get(std::vector<inode<T>*>{p}, elementary_shaper,
+	return immutable<T>::get(std::vector<inode<T>*>{n}, elementary_shaper,
 	new transfer_func<T>([p](T* dest, std::vector<const T*> srcs, shape_io shapes)
 	{
 		size_t n_out = shapes.outs_.n_elems();
@@ -1319,20 +1319,14 @@ varptr<T> binomial_sample (const varptr<T> n, const varptr<T> p)
 	{
 		return parent;
 	}
-	return immutable<T>::get(std::vector<inode<T>*>{p}, elementary_shaper,
-	new transfer_func<T>([](T* dest, std::vector<const T*> srcs, shape_io shapes)
+	return immutable<T>::get(std::vector<inode<T>*>{n, p}, elementary_shaper,
+	new transfer_func<T>(binary_elem(
+	AGGREGATE<T>([](T n, T p) -> T
 	{
-		size_t n_out = shapes.outs_.n_elems();
-		std::default_random_engine& gen = nnutils::get_generator();
-		for (size_t i = 0; i < n_out; i++)
-		{
-			size_t n = srcs[0][i];
-			T p = srcs[1][i];
-			assert(p >= 0 && p <= 1);
-			std::binomial_distribution<int> dist(n, p);
-			dest[i] = dist(gen);
-		}
-	}), sample_back_prop<T>, opname);
+		assert(p >= 0 && p <= 1);
+		std::binomial_distribution<int> dist(n, p);
+		return dist(nnutils::get_generator());
+	}))), sample_back_prop<T>, opname);
 }
 
 template<typename T>
-- 
2.43.0


From d9abb0f9e75fc34294dbdd83ee34bccbe3368984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:38 +0000
Subject: [PATCH 43/74] fix: feeding placeholders nothing or data that doesn't
 fit aborted or marked them initialized

---
 app/tenncor/src/graph/leaf/placeholder.ipp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/app/tenncor/src/graph/leaf/placeholder.ipp b/app/tenncor/src/graph/leaf/placeholder.ipp
index c5d39c4..712a251 100644
--- a/app/tenncor/src/graph/leaf/placeholder.ipp
+++ b/app/tenncor/src/graph/leaf/placeholder.ipp
@@ -63,18 +63,18 @@ placeholder<T>& placeholder<T>::operator = (std::vector<T> data)
 {
 	// note: if this is allocated,
 	// compatibility is compared to allocated shape instead of allowed
-	assert(this->data_->is_compatible_with(data));
+	if (data.empty() || false == this->data_->is_compatible_with(data))
+	{
+		throw std::logic_error(nnutils::formatter() << "attempting to assign "
+			<< data.size() << " values to " << this->get_label());
+	}
 
 	if (false == this->data_->is_alloc())
 	{
-		if (optional<tensorshape> cand_shape = this->data_->guess_shape(data))
-		{
-			this->data_->allocate(*cand_shape);
-		}
-		// we would reach here if data is empty... (todo: test. currently never reached)
-		else
+		optional<tensorshape> cand_shape = this->data_->guess_shape(data);
+		if (false == (bool) cand_shape || false == this->data_->allocate(*cand_shape))
 		{
-			throw std::logic_error("attempting to assign no data to an unallocated tensor");
+			throw std::logic_error("failed to allocate " + this->get_label());
 		}
 	}
 	this->assigner_(*(this->data_), data);
@@ -88,6 +88,10 @@ placeholder<T>& placeholder<T>::operator = (std::vector<T> data)
 template <typename T>
 placeholder<T>& placeholder<T>::operator = (tensor<T>& data)
 {
+	if (false == data.is_alloc())
+	{
+		throw std::logic_error("attempting to assign no data to " + this->get_label());
+	}
 	*this->data_ = std::move(data);
 	this->is_init_ = true;
 	this->notify(UPDATE);
-- 
2.43.0


From 8ff451741323afc141ad8e91968b72c2c75dc1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:56 +0000
Subject: [PATCH 44/74] fix: assigning scalars to tensors aborted and constants
 of the wrong size were silently cut

---
 app/tenncor/src/graph/leaf/variable.ipp   |  6 +++---
 app/tenncor/src/tensor/tensor_handler.ipp | 13 ++++++++++---
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/app/tenncor/src/graph/leaf/variable.ipp b/app/tenncor/src/graph/leaf/variable.ipp
index 2ee12fb..05ace15 100644
--- a/app/tenncor/src/graph/leaf/variable.ipp
+++ b/app/tenncor/src/graph/leaf/variable.ipp
@@ -122,7 +122,7 @@ variable_updater<T> variable<T>::assign (inode<T>* input) const
 	assert(input);
 	if (constant<T>* con = dynamic_cast<constant<T>*>(input))
 	{
-		std::vector<T> data = expose<T>(con);
+		tensor<T> data(*con->eval());
 		return [this, data](bool notify)
 		{
 			tensor<T>* out_tens = this->data_;
@@ -157,7 +157,7 @@ variable_updater<T> variable<T>::assign_add (inode<T>* input) const
 		{
 			return [](bool) {};
 		}
-		std::vector<T> data = expose<T>(con);
+		tensor<T> data(*con->eval());
 		return [this, data](bool notify)
 		{
 			tensor<T>* out_tens = this->data_;
@@ -194,7 +194,7 @@ variable_updater<T> variable<T>::assign_sub (inode<T>* input) const
 		{
 			return [](bool) {};
 		}
-		std::vector<T> data = expose<T>(con);
+		tensor<T> data(*con->eval());
 		return [this, data](bool notify)
 		{
 			tensor<T>* out_tens = this->data_;
diff --git a/app/tenncor/src/tensor/tensor_handler.ipp b/app/tenncor/src/tensor/tensor_handler.ipp
index f9a6dbc..65b22fd 100644
--- a/app/tenncor/src/tensor/tensor_handler.ipp
+++ b/app/tenncor/src/tensor/tensor_handler.ipp
@@ -104,13 +104,20 @@ void assign_func<T>::operator () (tensor<T>& out, const tensor<T>& arg,
 	std::function<T(const T&,const T&)> f) const
 {
 	tensorshape outshape = out.get_shape();
-	size_t n = arg.n_elems();
-	assert(n == outshape.n_elems());
+	size_t n = outshape.n_elems();
+	size_t n_arg = arg.n_elems();
+	// scalars fill the entire tensor
+	bool mul = n_arg > 1;
+	if (n_arg != n && n_arg != 1)
+	{
+		throw std::logic_error(nnutils::formatter() << "attempting to assign "
+			<< n_arg << " values to tensor of " << n << " elements");
+	}
 	T* dest = this->get_raw(out);
 	const T* src = this->get_raw(arg);
 	for (size_t i = 0; i < n; i++)
 	{
-		dest[i] = f(dest[i], src[i]);
+		dest[i] = f(dest[i], src[i * mul]);
 	}
 }
 
-- 
2.43.0


From 0e523da9689eade11e6eef6e42c48eab10964ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:03 +0000
Subject: [PATCH 45/74] fix: variables stayed uninitialized after being
 assigned

---
 app/tenncor/include/graph/leaf/ileaf.hpp  | 2 +-
 app/tenncor/src/graph/leaf/variable.ipp   | 4 ++++
 app/tenncor/src/tensor/tensor_handler.ipp | 2 +-
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/include/graph/leaf/ileaf.hpp b/app/tenncor/include/graph/leaf/ileaf.hpp
index b69e9b9..bb65241 100644
--- a/app/tenncor/include/graph/leaf/ileaf.hpp
+++ b/app/tenncor/include/graph/leaf/ileaf.hpp
@@ -92,7 +92,7 @@ protected:
 	//! is the tensor initialized?
 	//! TRUE = initialized/good,
 	//! FALSE = uninitialized/bad
-	bool is_init_ = false;
+	mutable bool is_init_ = false;
 
 	//! common assignment tensor handler
 	assign_func<T> assigner_;
diff --git a/app/tenncor/src/graph/leaf/variable.ipp b/app/tenncor/src/graph/leaf/variable.ipp
index 05ace15..be13cc2 100644
--- a/app/tenncor/src/graph/leaf/variable.ipp
+++ b/app/tenncor/src/graph/leaf/variable.ipp
@@ -126,7 +126,9 @@ variable_updater<T> variable<T>::assign (inode<T>* input) const
 		return [this, data](bool notify)
 		{
 			tensor<T>* out_tens = this->data_;
+			if (false == out_tens->is_alloc()) out_tens->allocate(data.get_shape());
 			this->assigner_(*out_tens, data);
+			this->is_init_ = true;
 			if (notify)
 			{
 				this->notify(notification::UPDATE);
@@ -139,7 +141,9 @@ variable_updater<T> variable<T>::assign (inode<T>* input) const
 		tensor<T>* out_tens = this->data_;
 		const tensor<T>* in_tens = input->eval();
 		assert(in_tens);
+		if (false == out_tens->is_alloc()) out_tens->allocate(in_tens->get_shape());
 		this->assigner_(*out_tens, *in_tens);
+		this->is_init_ = true;
 		if (notify)
 		{
 			this->notify(notification::UPDATE);
diff --git a/app/tenncor/src/tensor/tensor_handler.ipp b/app/tenncor/src/tensor/tensor_handler.ipp
index 65b22fd..eeee703 100644
--- a/app/tenncor/src/tensor/tensor_handler.ipp
+++ b/app/tenncor/src/tensor/tensor_handler.ipp
@@ -108,7 +108,7 @@ void assign_func<T>::operator () (tensor<T>& out, const tensor<T>& arg,
 	size_t n_arg = arg.n_elems();
 	// scalars fill the entire tensor
 	bool mul = n_arg > 1;
-	if (n_arg != n && n_arg != 1)
+	if (false == out.is_alloc() || (n_arg != n && n_arg != 1))
 	{
 		throw std::logic_error(nnutils::formatter() << "attempting to assign "
 			<< n_arg << " values to tensor of " << n << " elements");
-- 
2.43.0


From 817392359d2ceb74ccbecb8e42006b10f1bc92b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:03 +0000
Subject: [PATCH 46/74] fix: initializing a variable with the shape it already
 has failed

---
 app/tenncor/src/graph/leaf/variable.ipp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/leaf/variable.ipp b/app/tenncor/src/graph/leaf/variable.ipp
index be13cc2..4112a23 100644
--- a/app/tenncor/src/graph/leaf/variable.ipp
+++ b/app/tenncor/src/graph/leaf/variable.ipp
@@ -101,7 +101,9 @@ template <typename T>
 tensor<T>& variable<T>::initialize (tensorshape shape)
 {
 	assert(this->init_ != nullptr);
-	if (false == this->data_->allocate(shape))
+	// allocation fails if there is nothing to reallocate
+	bool allocated = this->data_->is_alloc() && this->data_->dims() == shape.as_list();
+	if (false == allocated && false == this->data_->allocate(shape))
 	{
 		std::stringstream ss;
 		ss << "shape ";
-- 
2.43.0


From 65b580efe829b1479cbc519469a2bd74f31d0191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:07 +0000
Subject: [PATCH 47/74] fix: loading a tensor of another shape replaced the
 shape of leaves

---
 app/tenncor/src/graph/leaf/ileaf.ipp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/leaf/ileaf.ipp b/app/tenncor/src/graph/leaf/ileaf.ipp
index 553f1cd..19fe2d7 100644
--- a/app/tenncor/src/graph/leaf/ileaf.ipp
+++ b/app/tenncor/src/graph/leaf/ileaf.ipp
@@ -102,7 +102,10 @@ bool ileaf<T>::good_status (void) const
 template <typename T>
 bool ileaf<T>::read_proto (const tenncor::tensor_proto& proto)
 {
-	bool success = data_->from_proto(proto);
+	// what doesn't fit this leaf (and its dependents) must not replace its data
+	tensor<T> candidate;
+	bool success = candidate.from_proto(proto) &&
+		data_->is_compatible_with(candidate) && data_->from_proto(proto);
 	if (success)
 	{
 		is_init_ = true;
-- 
2.43.0


From 3e458b6aabba871a9285b9974e9d333e490fc3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:44 +0000
Subject: [PATCH 48/74] fix: gradients through transposed matmul operands
 multiplied transposed with untransposed gradients

---
 app/tenncor/src/graph/operations/matmul.ipp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/operations/matmul.ipp b/app/tenncor/src/graph/operations/matmul.ipp
index eefbc45..af15b5d 100644
--- a/app/tenncor/src/graph/operations/matmul.ipp
+++ b/app/tenncor/src/graph/operations/matmul.ipp
@@ -392,6 +392,9 @@ varptr<T> matmul (const varptr<T> a, const varptr<T> b, bool transposeA, bool tr
 		}
 		varptr<T> mA = matmul<T>(root, argb, false, true);
 		varptr<T> mB = matmul<T>(arga, root, true);
+		// args and grads are of the (already transposed) arguments
+		mA = mA * grada;
+		mB = mB * gradb;
 		if (transposeA)
 		{
 			mA = transpose<T>(mA);
@@ -400,7 +403,7 @@ varptr<T> matmul (const varptr<T> a, const varptr<T> b, bool transposeA, bool tr
 		{
 			mB = transpose<T>(mB);
 		}
-		return mA * grada + mB * gradb;
+		return mA + mB;
 	}, leef);
 	return mmul;
 }
-- 
2.43.0


From 95060a081ade31da5ec778a961a947db6aceac21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:31 +0000
Subject: [PATCH 49/74] fix: gradients of axial operations lost the shape of
 the larger operand when its own gradient is a scalar

---
 .../src/graph/operations/elementary.ipp       | 26 ++++++++++++++++---
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 90066d7..af19138 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -96,6 +96,24 @@ static inline SHAPER binary_axial_shape (size_t axis, bool left)
 	};
 }
 
+// a scalar gradient of an axial operand has to keep the shape of that operand,
+// otherwise the gradient of the operation loses the elements along axis
+template <typename T>
+static varptr<T> axial_grad (const varptr<T>& grad, const varptr<T>& arg)
+{
+	constant<T>* gconst = dynamic_cast<constant<T>*>(grad.get());
+	if (nullptr == gconst || 1 != gconst->get_shape().n_elems()) return grad;
+	T scalar = expose<T>(gconst)[0];
+	if (constant<T>* aconst = dynamic_cast<constant<T>*>(arg.get()))
+	{
+		tensorshape shape = aconst->get_shape();
+		return constant<T>::get(std::vector<T>(shape.n_elems(), scalar), shape);
+	}
+	// arg's shape may not be defined at this point
+	if (scalar == (T) 0) return neq(arg, arg);
+	return eq(arg, arg) * scalar;
+}
+
 template <typename T>
 static TRANSFER_FUNC<T> binary_elem (AGGREGATE<T> aggregate)
 {
@@ -1873,7 +1891,7 @@ varptr<T> add_axial_a (const varptr<T> a, const varptr<T> b, size_t axis_a)
 	[axis_a](std::vector<std::pair<inode<T>*,inode<T>*> > args)
 	{
 		varptr<T> ag = args.at(0).second;
-		varptr<T> bg = args.at(1).second;
+		varptr<T> bg = axial_grad<T>(args.at(1).second, args.at(1).first);
 		return add_axial_a(ag, bg, axis_a);
 	}, std::pair<bool, size_t>{ true, axis_a });
 }
@@ -1890,7 +1908,7 @@ varptr<T> add_axial_b (const varptr<T> a, const varptr<T> b, size_t axis_b)
 	}), axis_b, false),
 	[axis_b](std::vector<std::pair<inode<T>*,inode<T>*> > args)
 	{
-		varptr<T> ag = args.at(0).second;
+		varptr<T> ag = axial_grad<T>(args.at(0).second, args.at(0).first);
 		varptr<T> bg = args.at(1).second;
 		return add_axial_b(ag, bg, axis_b);
 	}, std::pair<bool, size_t>{ false, axis_b });
@@ -1909,7 +1927,7 @@ varptr<T> sub_axial_a (const varptr<T> a, const varptr<T> b, size_t axis_a)
 	[axis_a](std::vector<std::pair<inode<T>*,inode<T>*> > args)
 	{
 		varptr<T> ag = args.at(0).second;
-		varptr<T> bg = args.at(1).second;
+		varptr<T> bg = axial_grad<T>(args.at(1).second, args.at(1).first);
 		return sub_axial_a(ag, bg, axis_a);
 	}, std::pair<bool, size_t>{ true, axis_a });
 }
@@ -1926,7 +1944,7 @@ varptr<T> sub_axial_b (const varptr<T> a, const varptr<T> b, size_t axis_b)
 	}), axis_b, false),
 	[axis_b](std::vector<std::pair<inode<T>*,inode<T>*> > args)
 	{
-		varptr<T> ag = args.at(0).second;
+		varptr<T> ag = axial_grad<T>(args.at(0).second, args.at(0).first);
 		varptr<T> bg = args.at(1).second;
 		return sub_axial_b(ag, bg, axis_b);
 	}, std::pair<bool, size_t>{ false, axis_b });
-- 
2.43.0


From 78376b7b05025827886098aa5a74140e63b60812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:50 +0000
Subject: [PATCH 50/74] fix: gradients of axial products and quotients had the
 shape of the smaller operand, or could not be evaluated

---
 .../src/graph/operations/elementary.ipp       | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index af19138..832e2d0 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -114,6 +114,15 @@ static varptr<T> axial_grad (const varptr<T>& grad, const varptr<T>& arg)
 	return eq(arg, arg) * scalar;
 }
 
+// a zero gradient takes its terms away
+template <typename T>
+static varptr<T> nonzero_axial_grad (const varptr<T>& grad, const varptr<T>& arg)
+{
+	constant<T>* gconst = dynamic_cast<constant<T>*>(grad.get());
+	if (gconst && *gconst == (T) 0) return grad;
+	return axial_grad<T>(grad, arg);
+}
+
 template <typename T>
 static TRANSFER_FUNC<T> binary_elem (AGGREGATE<T> aggregate)
 {
@@ -1966,7 +1975,7 @@ varptr<T> mul_axial_a (const varptr<T> a, const varptr<T> b, size_t axis_a)
 		varptr<T> a = args.at(0).first;
 		varptr<T> b = args.at(1).first;
 		varptr<T> ag = args.at(0).second;
-		varptr<T> bg = args.at(1).second;
+		varptr<T> bg = nonzero_axial_grad<T>(args.at(1).second, b);
 		return mul_axial_a(ag, b, axis_a) + mul_axial_a(a, bg, axis_a);
 	}, std::pair<bool, size_t>{ true, axis_a });
 }
@@ -1986,7 +1995,7 @@ varptr<T> mul_axial_b (const varptr<T> a, const varptr<T> b, size_t axis_b)
 		// h'(f(x), g(x)) = f'(x)*g(x) + f(x)*g'(x)
 		varptr<T> a = args.at(0).first;
 		varptr<T> b = args.at(1).first;
-		varptr<T> ag = args.at(0).second;
+		varptr<T> ag = nonzero_axial_grad<T>(args.at(0).second, a);
 		varptr<T> bg = args.at(1).second;
 		return mul_axial_b(ag, b, axis_b) + mul_axial_b(a, bg, axis_b);
 	}, std::pair<bool, size_t>{ false, axis_b });
@@ -2008,7 +2017,7 @@ varptr<T> div_axial_a (const varptr<T> a, const varptr<T> b, size_t axis_a)
 		varptr<T> a = args.at(0).first;
 		varptr<T> b = args.at(1).first;
 		varptr<T> ag = args.at(0).second;
-		varptr<T> bg = args.at(1).second;
+		varptr<T> bg = nonzero_axial_grad<T>(args.at(1).second, b);
 		return (mul_axial_a(ag, b, axis_a) - mul_axial_b(bg, a, axis_a)) / pow(b, 2);
 	}, std::pair<bool, size_t>{ true, axis_a });
 }
@@ -2028,9 +2037,9 @@ varptr<T> div_axial_b (const varptr<T> a, const varptr<T> b, size_t axis_b)
 		// h'(f(x), g(x)) = (f'(x)*g(x) - f(x)*g'(x))/g^2(x)
 		varptr<T> a = args.at(0).first;
 		varptr<T> b = args.at(1).first;
-		varptr<T> ag = args.at(0).second;
+		varptr<T> ag = nonzero_axial_grad<T>(args.at(0).second, a);
 		varptr<T> bg = args.at(1).second;
-		return (mul_axial_b(ag, b, axis_b) - mul_axial_a(bg, a, axis_b)) / pow(b, 2);
+		return div_axial_b(mul_axial_b(ag, b, axis_b) - mul_axial_a(bg, a, axis_b), pow(b, 2), axis_b);
 	}, std::pair<bool, size_t>{ false, axis_b });
 }
 
-- 
2.43.0


From 1549686a71d916fbf3fdf7e333517afd6e71e266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:29 +0000
Subject: [PATCH 51/74] fix: arithmetic on gradients of reductions failed for
 operands that have the reduced dimension

---
 .../src/graph/operations/elementary.ipp       | 153 ++++++++++--------
 .../src/graph/operations/transform.ipp        |   9 +-
 2 files changed, 92 insertions(+), 70 deletions(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 832e2d0..01b7c0c 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -185,6 +185,71 @@ static TRANSFER_FUNC<T> binary_axial (AGGREGATE<T> aggregate, size_t axis, bool
 	};
 }
 
+using GROUPING = optional<std::pair<bool, size_t> >;
+
+// gradients of reductions are grouped: they keep the elements along the reduced axis.
+// finds out whether an operand (true for the left one) could miss the axis the other is grouped by
+template <typename T>
+static GROUPING binary_grouping (const varptr<T>& a, const varptr<T>& b)
+{
+	optional<size_t> aaxis = a->get_metadata("grouping");
+	optional<size_t> baxis = b->get_metadata("grouping");
+	GROUPING group;
+	if (aaxis && false == (bool) baxis)
+	{
+		group = std::pair<bool, size_t>{ false, *aaxis };
+	}
+	else if (baxis && false == (bool) aaxis)
+	{
+		group = std::pair<bool, size_t>{ true, *baxis };
+	}
+	return group;
+}
+
+static inline std::string group_name (std::string opname, const GROUPING& group)
+{
+	if (false == (bool) group) return opname;
+	return nnutils::formatter() << opname << (group->first ? "_group_a_" : "_group_b_") << group->second;
+}
+
+static inline SHAPER group_shape (const GROUPING& group)
+{
+	if (false == (bool) group) return elementary_shaper;
+	SHAPER axial = binary_axial_shape(group->second, group->first);
+	size_t full = group->first ? 1 : 0;
+	return [axial, full](std::vector<tensorshape> shapes) -> tensorshape
+	{
+		if (false == shapes[0].is_compatible_with(shapes[1])) return axial(shapes);
+		return elementary_shaper(std::vector<tensorshape>{shapes[1 - full], shapes[full]});
+	};
+}
+
+template <typename T>
+static TRANSFER_FUNC<T> group_elem (AGGREGATE<T> aggregate, const GROUPING& group)
+{
+	TRANSFER_FUNC<T> elem = binary_elem<T>(aggregate);
+	if (false == (bool) group) return elem;
+	TRANSFER_FUNC<T> axial = binary_axial<T>(aggregate, group->second, group->first);
+	return [elem, axial](T* dest, std::vector<const T*> srcs, shape_io shapes)
+	{
+		if (shapes.ins_[0].is_compatible_with(shapes.ins_[1])) elem(dest, srcs, shapes);
+		else axial(dest, srcs, shapes);
+	};
+}
+
+// results keep the elements along the axis too
+template <typename T>
+static varptr<T> regroup (varptr<T> out, const varptr<T>& a, const varptr<T>& b)
+{
+	if (out.get() == a.get() || out.get() == b.get() ||
+		nullptr != dynamic_cast<constant<T>*>(out.get())) return out;
+	optional<size_t> aaxis = a->get_metadata("grouping");
+	optional<size_t> baxis = b->get_metadata("grouping");
+	if (aaxis) out->set_metadata("grouping", *aaxis);
+	else if (baxis) out->set_metadata("grouping", *baxis);
+	return out;
+}
+
 template <typename T>
 static varptr<T> add_helper (const varptr<T>& a, const varptr<T>& b,
 	std::string opname, SHAPER shaper, TRANSFER_FUNC<T> Nf, BACK_MAP<T> ginit,
@@ -1452,32 +1517,20 @@ template <typename T>
 varptr<T> operator + (const varptr<T> a, const varptr<T> b)
 {
 	if (nullptr == a.get() || nullptr == b.get()) return nullptr;
-	optional<size_t> aaxis = a->get_metadata("grouping");
-	optional<size_t> baxis = b->get_metadata("grouping");
-	if (aaxis)
-	{
-		if (false == (bool)baxis || *aaxis == *baxis)
-		{
-			return add_axial_b(a, b, *aaxis);
-		}
-	}
-	else if (baxis)
-	{
-		return add_axial_a(a, b, *baxis);
-	}
-	return add_helper<T>(a, b, "add", elementary_shaper,
-	binary_elem(
+	GROUPING group = binary_grouping<T>(a, b);
+	return regroup<T>(add_helper<T>(a, b, group_name("add", group), group_shape(group),
+	group_elem(
 	AGGREGATE<T>([](const T left, const T right) -> T
 	{
 		return left + right;
-	})),
+	}), group),
 	[](std::vector<std::pair<inode<T>*,inode<T>*> > args)
 	{
 		// h'(f(x), g(x)) = f'(x) + g'(x)
 		varptr<T> ag = args.at(0).second;
 		varptr<T> bg = args.at(1).second;
 		return ag + bg;
-	});
+	}), a, b);
 }
 
 template<typename T>
@@ -1576,32 +1629,20 @@ template <typename T>
 varptr<T> operator - (const varptr<T> a, const varptr<T> b)
 {
 	if (nullptr == a.get() || nullptr == b.get()) return nullptr;
-	optional<size_t> aaxis = a->get_metadata("grouping");
-	optional<size_t> baxis = b->get_metadata("grouping");
-	if (aaxis)
-	{
-		if (false == (bool)baxis || *aaxis == *baxis)
-		{
-			return sub_axial_b(a, b, *aaxis);
-		}
-	}
-	else if (baxis)
-	{
-		return sub_axial_a(a, b, *baxis);
-	}
-	return sub_helper<T>(a, b, "sub", elementary_shaper,
-	binary_elem(
+	GROUPING group = binary_grouping<T>(a, b);
+	return regroup<T>(sub_helper<T>(a, b, group_name("sub", group), group_shape(group),
+	group_elem(
 	AGGREGATE<T>([](const T left, const T right) -> T
 	{
 		return left - right;
-	})),
+	}), group),
 	[](std::vector<std::pair<inode<T>*,inode<T>*> > args)
 	{
 		// h'(f(x), g(x)) = f'(x) - g'(x)
 		varptr<T> ag = args.at(0).second;
 		varptr<T> bg = args.at(1).second;
 		return ag - bg;
-	});
+	}), a, b);
 }
 
 template<typename T>
@@ -1716,25 +1757,13 @@ template <typename T>
 varptr<T> operator * (const varptr<T> a, const varptr<T> b)
 {
 	if (nullptr == a.get() || nullptr == b.get()) return nullptr;
-	optional<size_t> aaxis = a->get_metadata("grouping");
-	optional<size_t> baxis = b->get_metadata("grouping");
-	if (aaxis)
-	{
-		if (false == (bool)baxis || *aaxis == *baxis)
-		{
-			return mul_axial_b(a, b, *aaxis);
-		}
-	}
-	else if (baxis)
-	{
-		return mul_axial_a(a, b, *baxis);
-	}
-	return mul_helper<T>(a, b, "mul", elementary_shaper,
-	binary_elem(
+	GROUPING group = binary_grouping<T>(a, b);
+	return regroup<T>(mul_helper<T>(a, b, group_name("mul", group), group_shape(group),
+	group_elem(
 	AGGREGATE<T>([](const T left, const T right) -> T
 	{
 		return left * right;
-	})),
+	}), group),
 	[](std::vector<std::pair<inode<T>*,inode<T>*> > args)
 	{
 		// h'(f(x), g(x)) = f'(x)*g(x) + f(x)*g'(x)
@@ -1743,7 +1772,7 @@ varptr<T> operator * (const varptr<T> a, const varptr<T> b)
 		varptr<T> ag = args.at(0).second;
 		varptr<T> bg = args.at(1).second;
 		return ag * b + bg * a;
-	});
+	}), a, b);
 }
 
 template<typename T>
@@ -1857,25 +1886,13 @@ template <typename T>
 varptr<T> operator / (const varptr<T> a, const varptr<T> b)
 {
 	if (nullptr == a.get() || nullptr == b.get()) return nullptr;
-	optional<size_t> aaxis = a->get_metadata("grouping");
-	optional<size_t> baxis = b->get_metadata("grouping");
-	if (aaxis)
-	{
-		if (false == (bool)baxis || *aaxis == *baxis)
-		{
-			return div_axial_b(a, b, *aaxis);
-		}
-	}
-	else if (baxis)
-	{
-		return div_axial_a(a, b, *baxis);
-	}
-	return div_helper<T>(a, b, "div", elementary_shaper,
-	binary_elem(
+	GROUPING group = binary_grouping<T>(a, b);
+	return regroup<T>(div_helper<T>(a, b, group_name("div", group), group_shape(group),
+	group_elem(
 	AGGREGATE<T>([](const T left, const T right) -> T
 	{
 		return left / right;
-	})),
+	}), group),
 	[](std::vector<std::pair<inode<T>*,inode<T>*> > args)
 	{
 		// h'(f(x), g(x)) = (f'(x)*g(x) - f(x)*g'(x))/g^2(x)
@@ -1884,7 +1901,7 @@ varptr<T> operator / (const varptr<T> a, const varptr<T> b)
 		varptr<T> ag = args.at(0).second;
 		varptr<T> bg = args.at(1).second;
 		return (ag * b - bg * a) / (b * b);
-	});
+	}), a, b);
 }
 
 template <typename T>
diff --git a/app/tenncor/src/graph/operations/transform.ipp b/app/tenncor/src/graph/operations/transform.ipp
index 82e3cda..6795124 100644
--- a/app/tenncor/src/graph/operations/transform.ipp
+++ b/app/tenncor/src/graph/operations/transform.ipp
@@ -296,9 +296,14 @@ varptr<T> compress (const varptr<T> a, AGGREGATE<T> collector,
 		varptr<T> bnode = args.front().second;
 		if (index)
 		{
-			if (bnode.get() == bnode.get())
+			bnode = identity<T>(bnode);
+			// reductions along other dimensions share the identity of their gradients
+			for (optional<size_t> group = bnode->get_metadata("grouping");
+				group && *group != *index; group = bnode->get_metadata("grouping"))
 			{
-				bnode = identity<T>(bnode);
+				varptr<T> next = identity<T>(bnode);
+				if (next->get_metadata("grouping") == group) next->set_metadata("grouping", *index);
+				bnode = next;
 			}
 			bnode->set_metadata("grouping", *index);
 		}
-- 
2.43.0


From 46a50cf7de1c36fbc8aa9090bcc5405b8bd422dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:29 +0000
Subject: [PATCH 52/74] fix: rmsprop steps never accumulated their momentum

---
 app/tenncor/src/utils/gd_utils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/app/tenncor/src/utils/gd_utils.cpp b/app/tenncor/src/utils/gd_utils.cpp
index 2da02d5..2043f53 100644
--- a/app/tenncor/src/utils/gd_utils.cpp
+++ b/app/tenncor/src/utils/gd_utils.cpp
@@ -230,6 +230,8 @@ variable_updater<double> rmspropupdater::process_update (varptr<double>& gres,
 	{
 		momentum_update(false);
 		leaf_update(notify);
+		// the next step starts from the updated momentum
+		momentum->notify(notification::UPDATE);
 	};
 }
 
-- 
2.43.0


From 94346a0bbbb640be38113aa8641baace10bebd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:32 +0000
Subject: [PATCH 53/74] fix: a full experience store replaced its newest
 experience instead of its oldest

---
 app/rocnnet/include/models/dq_net.hpp | 3 ++-
 app/rocnnet/src/models/dq_net.cpp     | 3 +--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/app/rocnnet/include/models/dq_net.hpp b/app/rocnnet/include/models/dq_net.hpp
index f3cd8f3..12dbf45 100644
--- a/app/rocnnet/include/models/dq_net.hpp
+++ b/app/rocnnet/include/models/dq_net.hpp
@@ -14,6 +14,7 @@
 #define ROCNNET_DQN_HPP
 
 #include <algorithm>
+#include <deque>
 #include <numeric>
 #include <vector>
 #include <cassert>
@@ -175,7 +176,7 @@ private:
 
 	std::uniform_real_distribution<double> explore_;
 
-	std::vector<exp_batch> experiences_;
+	std::deque<exp_batch> experiences_;
 
 	std::string scope_;
 };
diff --git a/app/rocnnet/src/models/dq_net.cpp b/app/rocnnet/src/models/dq_net.cpp
index 61d6a27..56e3d7c 100644
--- a/app/rocnnet/src/models/dq_net.cpp
+++ b/app/rocnnet/src/models/dq_net.cpp
@@ -92,8 +92,7 @@ void dq_net::store (std::vector<double> observation, size_t action_idx,
 		experiences_.push_back(exp_batch{observation, action_idx, reward, new_obs});
 		if (experiences_.size() > params_.max_exp_)
 		{
-			experiences_.front() = std::move(experiences_.back());
-			experiences_.pop_back();
+			experiences_.pop_front(); // forget the oldest
 		}
 	}
 	n_store_called_++;
-- 
2.43.0


From e810d6618ddd5b09c5aabc627ed407493538cb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:32 +0000
Subject: [PATCH 54/74] fix: copied and moved q-learning agents lost their
 stored experiences

---
 app/rocnnet/src/models/dq_net.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/app/rocnnet/src/models/dq_net.cpp b/app/rocnnet/src/models/dq_net.cpp
index 56e3d7c..2b788bd 100644
--- a/app/rocnnet/src/models/dq_net.cpp
+++ b/app/rocnnet/src/models/dq_net.cpp
@@ -231,6 +231,7 @@ void dq_net::copy_helper (const dq_net& other, std::string scope)
 	n_train_called_ = other.n_train_called_;
 	explore_ = other.explore_;
 	generator_ = other.generator_;
+	experiences_ = other.experiences_;
 
 	// copy over actors
 	updater_ = other.updater_->clone();
@@ -254,6 +255,7 @@ void dq_net::move_helper (dq_net&& other, std::string scope)
 	n_train_called_ = std::move(other.n_train_called_);
 	explore_ = std::move(other.explore_);
 	generator_ = std::move(other.generator_);
+	experiences_ = std::move(other.experiences_);
 
 	// move over actors
 	updater_ = other.updater_->move();
-- 
2.43.0


From d3d9a0f66f5cee2357b3d42a5e43329564e80f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:22 +0000
Subject: [PATCH 55/74] fix: the pseudo-likelihood of rbms negated the units it
 doesn't flip

---
 app/rocnnet/src/models/rbm.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/rocnnet/src/models/rbm.cpp b/app/rocnnet/src/models/rbm.cpp
index 10052e8..df6fa74 100644
--- a/app/rocnnet/src/models/rbm.cpp
+++ b/app/rocnnet/src/models/rbm.cpp
@@ -249,7 +249,8 @@ nnet::varptr<double> rbm::get_pseudo_likelihood_cost (nnet::inode<double>* input
 	nnet::varptr<double> one_i = nnet::const_axis<double>(0, 0, 1, input->get_shape());
 
 	nnet::varptr<double> xi = nnet::round(nnet::varptr<double>(input)); // xi = [0|1...]
-	nnet::varptr<double> xi_flip = one_i - xi;
+	// flip xi where one_i is one: xi_flip = xi + one_i * (1 - 2 * xi)
+	nnet::varptr<double> xi_flip = xi + one_i * (1.0 - 2.0 * xi);
 
 	nnet::varptr<double> fe_xi = free_energy(xi);
 	nnet::varptr<double> fe_xi_flip = free_energy(xi_flip);
-- 
2.43.0


From 8bec550f4512670ed00d8bfdd91d9772864b4548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:22 +0000
Subject: [PATCH 56/74] fix: const_axis of a dimension beyond the shape's rank
 read out of bounds

---
 app/tenncor/src/graph/leaf/constant.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/leaf/constant.ipp b/app/tenncor/src/graph/leaf/constant.ipp
index 8b503e2..619fe8b 100644
--- a/app/tenncor/src/graph/leaf/constant.ipp
+++ b/app/tenncor/src/graph/leaf/constant.ipp
@@ -141,7 +141,8 @@ constant<T>* const_axis (size_t dimension, size_t index, T scalar, tensorshape s
 {
 	std::vector<T> data(shape.n_elems(), 0);
 	shape.iterate([&data, dimension, index, scalar](std::vector<size_t> coord, size_t idx) {
-		if (coord[dimension] == index)
+		// coordinates are zero in dimensions beyond the rank
+		if (index == (dimension < coord.size() ? coord[dimension] : 0))
 		{
 			data[idx] = scalar;
 		}
-- 
2.43.0


From 52caf0f9b427018ad4a5b7952a7d63605ed3c291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:22 +0000
Subject: [PATCH 57/74] fix: assigning a rbm did nothing, and assigning it to
 itself destroyed it

---
 app/rocnnet/src/models/rbm.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/rocnnet/src/models/rbm.cpp b/app/rocnnet/src/models/rbm.cpp
index df6fa74..141f6da 100644
--- a/app/rocnnet/src/models/rbm.cpp
+++ b/app/rocnnet/src/models/rbm.cpp
@@ -48,7 +48,7 @@ rbm* rbm::move (void)
 
 rbm& rbm::operator = (const rbm& other)
 {
-	if (this == &other)
+	if (this != &other)
 	{
 		ilayer::operator = (other);
 		clean_up();
@@ -59,7 +59,7 @@ rbm& rbm::operator = (const rbm& other)
 
 rbm& rbm::operator = (rbm&& other)
 {
-	if (this == &other)
+	if (this != &other)
 	{
 		ilayer::operator = (std::move(other));
 		clean_up();
-- 
2.43.0


From eef4a29f1fe1dc3d7ec77e11b5aaef30f13949b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:22 +0000
Subject: [PATCH 58/74] fix: copied and moved rbms had no number of hidden
 units

---
 app/rocnnet/src/models/rbm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/app/rocnnet/src/models/rbm.cpp b/app/rocnnet/src/models/rbm.cpp
index 141f6da..7ee4def 100644
--- a/app/rocnnet/src/models/rbm.cpp
+++ b/app/rocnnet/src/models/rbm.cpp
@@ -209,6 +209,7 @@ ilayer* rbm::move_impl (void)
 void rbm::copy_helper (const rbm& other)
 {
 	n_input_ = other.n_input_;
+	n_hidden_ = other.n_hidden_;
 	weight_ = other.weight_->clone();
 	hbias_ = other.hbias_->clone();
 	vbias_ = other.vbias_->clone();
@@ -217,6 +218,7 @@ void rbm::copy_helper (const rbm& other)
 void rbm::move_helper (rbm&& other)
 {
 	n_input_ = std::move(other.n_input_);
+	n_hidden_ = std::move(other.n_hidden_);
 	weight_ = other.weight_->move();
 	hbias_ = other.hbias_->move();
 	vbias_ = other.vbias_->move();
-- 
2.43.0


From 2d33f7d94ad927d5211ac3311bde0489c5f8766f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:22 +0000
Subject: [PATCH 59/74] fix: copied and moved belief nets had no output layer

---
 app/rocnnet/src/models/db_net.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/app/rocnnet/src/models/db_net.cpp b/app/rocnnet/src/models/db_net.cpp
index c531ba3..5019fc2 100644
--- a/app/rocnnet/src/models/db_net.cpp
+++ b/app/rocnnet/src/models/db_net.cpp
@@ -176,6 +176,7 @@ void db_net::copy_helper (const db_net& other)
 			nnutils::formatter() << scope_ << ":rbm_" << i);
 		layers_.push_back(rlayer);
 	}
+	log_layer_ = other.log_layer_->clone(scope_ + ":logres");
 }
 
 void db_net::move_helper (db_net&& other)
@@ -184,6 +185,8 @@ void db_net::move_helper (db_net&& other)
 	n_input_ = std::move(other.n_input_);
 	n_output_ = std::move(other.n_output_);
 	layers_ = std::move(other.layers_);
+	log_layer_ = other.log_layer_;
+	other.log_layer_ = nullptr;
 }
 
 void db_net::clean_up (void)
-- 
2.43.0


From 70535910ec9de4b010452b3e00edea450bdc8e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:05 +0000
Subject: [PATCH 60/74] fix: moving a gradient descent net leaked its output
 node

---
 app/rocnnet/src/models/gd_net.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/app/rocnnet/src/models/gd_net.cpp b/app/rocnnet/src/models/gd_net.cpp
index 8f9f786..6277c10 100644
--- a/app/rocnnet/src/models/gd_net.cpp
+++ b/app/rocnnet/src/models/gd_net.cpp
@@ -126,7 +126,6 @@ void gd_net::move_helper (gd_net&& other)
 	scope_ = std::move(other.scope_);
 	updater_ = other.updater_->move();
 	test_in_ = other.test_in_->move();
-	test_out_ = other.test_out_->move();
 	train_in_ = other.train_in_->move();
 	expected_out_ = other.expected_out_->move();
 	brain_ = other.brain_->move();
-- 
2.43.0


From b5291cb9af54df55821eca05883aa764691a737d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:24 +0000
Subject: [PATCH 61/74] fix: consumers of the shared cache crashed, lost or
 repeated items once their position was superseded

---
 .../include/thread/shareable_cache.hpp        |  6 ++--
 app/tenncor/src/thread/shareable_cache.ipp    | 36 +++++++++----------
 2 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/app/tenncor/include/thread/shareable_cache.hpp b/app/tenncor/include/thread/shareable_cache.hpp
index e95a484..2ddfc10 100644
--- a/app/tenncor/include/thread/shareable_cache.hpp
+++ b/app/tenncor/include/thread/shareable_cache.hpp
@@ -30,6 +30,9 @@ struct cache_node
 	std::shared_ptr<cache_node<T> > next_ = nullptr;
 	std::shared_ptr<cache_node<T> > prev_;
 	T data_;
+
+	size_t order_ = 0; // position among all nodes ever cached
+	bool obsolete_ = false; // no longer cached
 };
 
 // shared_cache considers 2 types of actors: consumers and producers
@@ -38,8 +41,7 @@ struct cache_node
 // key is unique, meaning when a new key-value pair is inserted,
 // the old pair with the same key is obsolete
 // because producers may reference some obsolete pairs, we handle obsolecse by shared_pointers to nodes
-// obsolete nodes always link to a valid node or nullptr
-// obsolete nodes have prev of null
+// obsolete nodes link to no other node, what follows them is found by their order
 // the producer determines a key-value relationship using hash function (hasher_)
 // each consumer holds one shared_ptr to some node in the cache (content_)
 // if the shared_ptr is null, the consumer is expected to consume from the start of the cache
diff --git a/app/tenncor/src/thread/shareable_cache.ipp b/app/tenncor/src/thread/shareable_cache.ipp
index 78912d5..b2bc151 100644
--- a/app/tenncor/src/thread/shareable_cache.ipp
+++ b/app/tenncor/src/thread/shareable_cache.ipp
@@ -30,22 +30,21 @@ public:
 		{
 			tail_ = tail_->next_ = std::make_shared<cache_node<T> >(tail_, data);
 		}
+		tail_->order_ = norder_++;
 		return tail_;
 	}
 
 	// remove it node from the link
-	// invariant: broken it chain always ends in an unbroken node or null
-	// after: if it == nullptr, then everything starting from head_ is unread
+	// invariant: broken nodes have no links
 	void unlink (std::shared_ptr<cache_node<T> > it)
 	{
 		if (nullptr != it)
 		{
-			bool is_tail = tail_ == it;
 			if (head_ == it)
 			{
 				head_ = it->next_;
 			}
-			if (is_tail)
+			if (tail_ == it)
 			{
 				tail_ = it->prev_;
 			}
@@ -58,33 +57,34 @@ public:
 				it->next_->prev_ = it->prev_;
 			}
 			it->prev_ = nullptr;
-			if (is_tail)
-			{
-				// if broken node was a tail, link to the closest unbroken (new tail)
-				it->next_ = tail_;
-			}
-			// invariant: if (tail_ == nullptr) then head_ == nullptr && it == nullptr
+			it->next_ = nullptr;
+			it->obsolete_ = true;
 		}
 	}
 
-	// sometimes, nodes can be broken (if it->prev_ is null and is not head)
-	// update input it shared_ptr to reference the next unbroken node
-	// return true if it was broken
+	// sometimes, nodes can be broken (obsolete)
+	// update input it shared_ptr to reference the unbroken node following it, if there is one
+	// return true if it was updated
 	bool grab_truth (std::shared_ptr<cache_node<T> >& it) const
 	{
-		if (head_ == it || nullptr == it) return false;
-		bool broken = nullptr == it->prev_;
-		while (nullptr == it->prev_)
+		if (nullptr == it || false == it->obsolete_) return false;
+		std::shared_ptr<cache_node<T> > following = nullptr;
+		for (std::shared_ptr<cache_node<T> > node = tail_;
+			nullptr != node && node->order_ > it->order_; node = node->prev_)
 		{
-			it = it->next_;
+			following = node;
 		}
-		return broken;
+		if (nullptr == following) return false;
+		it = following;
+		return true;
 	}
 
 private:
 	std::shared_ptr<cache_node<T> > head_ = nullptr;
 
 	std::shared_ptr<cache_node<T> > tail_ = nullptr; // time saving for pushback
+
+	size_t norder_ = 0; // number of nodes cached so far
 };
 
 template <typename K, typename T>
-- 
2.43.0


From fae78d5fa44c3779f3830e2bc1baae580d78f4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:24 +0000
Subject: [PATCH 62/74] fix: the nodes of a shared cache kept each other alive
 after its destruction

---
 .../include/thread/shareable_cache.hpp        |  2 +-
 app/tenncor/src/thread/shareable_cache.ipp    | 22 ++++++++++++++-----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/app/tenncor/include/thread/shareable_cache.hpp b/app/tenncor/include/thread/shareable_cache.hpp
index 2ddfc10..47670b8 100644
--- a/app/tenncor/include/thread/shareable_cache.hpp
+++ b/app/tenncor/include/thread/shareable_cache.hpp
@@ -28,7 +28,7 @@ struct cache_node
 	cache_node (std::shared_ptr<cache_node<T> > prev, T data);
 
 	std::shared_ptr<cache_node<T> > next_ = nullptr;
-	std::shared_ptr<cache_node<T> > prev_;
+	std::weak_ptr<cache_node<T> > prev_; // doesn't own: neighbors would keep each other alive
 	T data_;
 
 	size_t order_ = 0; // position among all nodes ever cached
diff --git a/app/tenncor/src/thread/shareable_cache.ipp b/app/tenncor/src/thread/shareable_cache.ipp
index b2bc151..94e3eb1 100644
--- a/app/tenncor/src/thread/shareable_cache.ipp
+++ b/app/tenncor/src/thread/shareable_cache.ipp
@@ -15,6 +15,15 @@ template <typename K, typename T>
 class shareable_cache<K, T>::cache_list
 {
 public:
+	// nodes one by one, letting each destroy the next recurses once for every node
+	~cache_list (void)
+	{
+		while (nullptr != head_)
+		{
+			head_ = std::move(head_->next_);
+		}
+	}
+
 	std::shared_ptr<cache_node<T> > begin (void) const
 	{
 		return head_;
@@ -40,23 +49,24 @@ public:
 	{
 		if (nullptr != it)
 		{
+			std::shared_ptr<cache_node<T> > prev = it->prev_.lock();
 			if (head_ == it)
 			{
 				head_ = it->next_;
 			}
 			if (tail_ == it)
 			{
-				tail_ = it->prev_;
+				tail_ = prev;
 			}
-			if (nullptr != it->prev_)
+			if (nullptr != prev)
 			{
-				it->prev_->next_ = it->next_;
+				prev->next_ = it->next_;
 			}
 			if (nullptr != it->next_)
 			{
-				it->next_->prev_ = it->prev_;
+				it->next_->prev_ = prev;
 			}
-			it->prev_ = nullptr;
+			it->prev_.reset();
 			it->next_ = nullptr;
 			it->obsolete_ = true;
 		}
@@ -70,7 +80,7 @@ public:
 		if (nullptr == it || false == it->obsolete_) return false;
 		std::shared_ptr<cache_node<T> > following = nullptr;
 		for (std::shared_ptr<cache_node<T> > node = tail_;
-			nullptr != node && node->order_ > it->order_; node = node->prev_)
+			nullptr != node && node->order_ > it->order_; node = node->prev_.lock())
 		{
 			following = node;
 		}
-- 
2.43.0


From b797df670effba653643f5a858a9e01294e90e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:24 +0000
Subject: [PATCH 63/74] fix: data added to a shared cache only woke one of its
 waiting consumers

---
 app/tenncor/src/thread/shareable_cache.ipp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/thread/shareable_cache.ipp b/app/tenncor/src/thread/shareable_cache.ipp
index 94e3eb1..d80dbb7 100644
--- a/app/tenncor/src/thread/shareable_cache.ipp
+++ b/app/tenncor/src/thread/shareable_cache.ipp
@@ -148,13 +148,14 @@ void shareable_cache<K, T>::add_latest (T data)
 		content_.unlink(iter->second);
 	}
 	umap_[key] = content_.push_back(data);
-	cond_.notify_one();
+	cond_.notify_all(); // every consumer receives the data
 }
 
 template <typename K, typename T>
 void shareable_cache<K, T>::escape_wait (void)
 {
-	cond_.notify_one();
+	std::unique_lock<std::mutex> locker(mutex_);
+	cond_.notify_all();
 }
 
 }
-- 
2.43.0


From 386cb8ea7719e5ae4e76deaecb69bb5458a20796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:05 +0000
Subject: [PATCH 64/74] fix: a stop request was lost by a thread that was about
 to wait for it

---
 app/tenncor/include/thread/stop_flag.hpp |  5 +++++
 app/tenncor/src/thread/stop_flag.cpp     | 13 ++++++++-----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/app/tenncor/include/thread/stop_flag.hpp b/app/tenncor/include/thread/stop_flag.hpp
index 3708213..5e94374 100755
--- a/app/tenncor/include/thread/stop_flag.hpp
+++ b/app/tenncor/include/thread/stop_flag.hpp
@@ -4,6 +4,7 @@
 
 #include <atomic>
 #include <condition_variable>
+#include <mutex>
 
 #pragma once
 #ifndef STOP_FLAG_HPP
@@ -19,11 +20,15 @@ public:
 
 	bool is_set (void) const;
 
+	void wait (void); // wait until set
+
 	std::condition_variable& get_condition (void) { return cond_; }
 
 private:
 	std::atomic<bool> flag_;
 
+	std::mutex mutex_; // between checking the flag and waiting for it
+
 	std::condition_variable cond_;
 };
 
diff --git a/app/tenncor/src/thread/stop_flag.cpp b/app/tenncor/src/thread/stop_flag.cpp
index 9d52bb0..d26cf3e 100755
--- a/app/tenncor/src/thread/stop_flag.cpp
+++ b/app/tenncor/src/thread/stop_flag.cpp
@@ -2,7 +2,6 @@
 // Created by Mingkai Chen on 2017-10-01.
 //
 
-#include <mutex>
 #include "thread/stop_flag.hpp"
 
 #ifdef STOP_FLAG_HPP
@@ -14,6 +13,7 @@ thread_local stop_flag thread_stop_flag;
 
 void stop_flag::set (void)
 {
+	std::unique_lock<std::mutex> lk(mutex_);
 	flag_.store(true, std::memory_order_relaxed); // no constraints
 	cond_.notify_one(); // should have only stopped once per thread
 }
@@ -23,6 +23,12 @@ bool stop_flag::is_set (void) const
 	return flag_.load(std::memory_order_relaxed);
 }
 
+void stop_flag::wait (void)
+{
+	std::unique_lock<std::mutex> lk(mutex_);
+	cond_.wait(lk, [this]{ return is_set(); });
+}
+
 void stop_throw (void)
 {
 	if (thread_stop_flag.is_set())
@@ -33,10 +39,7 @@ void stop_throw (void)
 
 void stop_wait (void)
 {
-	std::mutex mut;
-	std::unique_lock<std::mutex> lk(mut);
-	thread_stop_flag.get_condition().wait(lk,
-	[]{ return thread_stop_flag.is_set(); });
+	thread_stop_flag.wait();
 }
 
 }
-- 
2.43.0


From fc89b27e2dc50bff2c14e4d9bb0728add5e67459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:05 +0000
Subject: [PATCH 65/74] fix: stopping a thread that ended, was never started or
 was moved away accessed an invalid stop flag

---
 .../include/thread/stoppable_thread.hpp       | 31 +++++++++++++++----
 app/tenncor/src/thread/stoppable_thread.cpp   | 15 +++++++++
 2 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/app/tenncor/include/thread/stoppable_thread.hpp b/app/tenncor/include/thread/stoppable_thread.hpp
index eacc01c..d52df92 100755
--- a/app/tenncor/include/thread/stoppable_thread.hpp
+++ b/app/tenncor/include/thread/stoppable_thread.hpp
@@ -4,6 +4,8 @@
 
 #include <thread>
 #include <future>
+#include <memory>
+#include <mutex>
 #include <experimental/tuple>
 
 #include "thread/stop_flag.hpp"
@@ -23,23 +25,27 @@ public:
 	template <typename FUNC, typename... ARGS>
 	explicit stoppable_thread (FUNC&& f, ARGS&&... args)
 	{
-		std::promise<stop_flag*> promise_flag;
+		std::promise<void> promise_flag;
+		flag_ = std::make_shared<flag_access>();
 
-		internal_op_ = std::thread([&promise_flag,
+		internal_op_ = std::thread([&promise_flag, access = flag_,
 			f = std::forward<FUNC>(f),
 			args = std::make_tuple(std::forward<ARGS>(args)...)]
 		{
-			promise_flag.set_value(&thread_stop_flag);
+			access->expose(&thread_stop_flag);
+			promise_flag.set_value();
 
 			try
 			{
 				std::experimental::apply(f, args);
 			}
 			catch (thread_interrupted const&) {}
+
+			access->expose(nullptr); // the flag is destroyed with this thread
 		});
 
-		// expose flag to main thread
-		flag_ = promise_flag.get_future().get();
+		// wait until flag is exposed to main thread
+		promise_flag.get_future().get();
 	}
 
 	~stoppable_thread (void);
@@ -57,9 +63,22 @@ public:
 	void stop (void);
 
 private:
+	// access to the flag of a thread while the thread runs
+	struct flag_access
+	{
+		void expose (stop_flag* flag);
+
+		void stop (void);
+
+	private:
+		std::mutex mutex_;
+
+		stop_flag* flag_ = nullptr;
+	};
+
 	std::thread internal_op_;
 	
-	stop_flag* flag_;
+	std::shared_ptr<flag_access> flag_ = nullptr;
 };
 
 }
diff --git a/app/tenncor/src/thread/stoppable_thread.cpp b/app/tenncor/src/thread/stoppable_thread.cpp
index 1cd23b3..148a813 100755
--- a/app/tenncor/src/thread/stoppable_thread.cpp
+++ b/app/tenncor/src/thread/stoppable_thread.cpp
@@ -51,6 +51,21 @@ bool stoppable_thread::joinable (void) const
 
 void stoppable_thread::stop (void)
 {
+	if (flag_)
+	{
+		flag_->stop();
+	}
+}
+
+void stoppable_thread::flag_access::expose (stop_flag* flag)
+{
+	std::unique_lock<std::mutex> lk(mutex_);
+	flag_ = flag;
+}
+
+void stoppable_thread::flag_access::stop (void)
+{
+	std::unique_lock<std::mutex> lk(mutex_);
 	if (flag_)
 	{
 		flag_->set();
-- 
2.43.0


From 756814428e6913453c679cbee0d05a6da1a61ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:05 +0000
Subject: [PATCH 66/74] fix: assigning a thread to one that wasn't joined
 aborted

---
 app/tenncor/src/thread/stoppable_thread.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/app/tenncor/src/thread/stoppable_thread.cpp b/app/tenncor/src/thread/stoppable_thread.cpp
index 148a813..7063d01 100755
--- a/app/tenncor/src/thread/stoppable_thread.cpp
+++ b/app/tenncor/src/thread/stoppable_thread.cpp
@@ -27,6 +27,10 @@ stoppable_thread& stoppable_thread::operator = (stoppable_thread&& other) noexce
 {
 	if (this != &other)
 	{
+		if (joinable())
+		{
+			join(); // as if destroyed
+		}
 		internal_op_ = std::move(other.internal_op_);
 		flag_ = std::move(other.flag_);
 	}
-- 
2.43.0


From ef94e7fac958fb58344de3bdbb12ec5bd659cc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:44 +0000
Subject: [PATCH 67/74] fix: recording edges failed to compile for lack of
 included headers

---
 app/tenncor/include/thread/shareable_cache.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/app/tenncor/include/thread/shareable_cache.hpp b/app/tenncor/include/thread/shareable_cache.hpp
index 47670b8..eedcff1 100644
--- a/app/tenncor/include/thread/shareable_cache.hpp
+++ b/app/tenncor/include/thread/shareable_cache.hpp
@@ -6,6 +6,8 @@
 //  Copyright © 2017 Mingkai Chen. All rights reserved.
 //
 
+#include <condition_variable>
+#include <functional>
 #include <mutex>
 #include <memory>
 #include <unordered_map>
-- 
2.43.0


From d42180b21f05cd3e884424d03c1213f908c70013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:02 +0000
Subject: [PATCH 68/74] fix: exporting edges of observers that are no
 connectors read beyond them

---
 app/tenncor/include/edgeinfo/csv_record.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/include/edgeinfo/csv_record.hpp b/app/tenncor/include/edgeinfo/csv_record.hpp
index 15a1f81..114e681 100644
--- a/app/tenncor/include/edgeinfo/csv_record.hpp
+++ b/app/tenncor/include/edgeinfo/csv_record.hpp
@@ -46,7 +46,11 @@ public:
 				auto& obs_infos = sub2obs.second;
 				for (auto info : obs_infos)
 				{
-					const nnet::iconnector<T>* obs = static_cast<const nnet::iconnector<T>*>(info.obs_);
+					const nnet::iconnector<T>* obs = dynamic_cast<const nnet::iconnector<T>*>(info.obs_);
+					if (nullptr == obs)
+					{
+						continue; // skip if not iconnector of type T
+					}
 					if (consider_graph && !obs->is_same_graph(consider_graph))
 					{
 						continue;
-- 
2.43.0


From 3b6f760ab8a9f0435450103aa126e5d35f5f687e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:44 +0000
Subject: [PATCH 69/74] fix: naming a connector without arguments read beyond
 its dependencies

---
 app/tenncor/src/graph/connector/iconnector.ipp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/app/tenncor/src/graph/connector/iconnector.ipp b/app/tenncor/src/graph/connector/iconnector.ipp
index 1f155e5..3fd573d 100644
--- a/app/tenncor/src/graph/connector/iconnector.ipp
+++ b/app/tenncor/src/graph/connector/iconnector.ipp
@@ -76,10 +76,11 @@ std::string iconnector<T>::get_name (void) const
 	std::string args = "";
 	auto it = this->dependencies_.begin();
 	auto et = this->dependencies_.end();
-	const inode <T>* arg = dynamic_cast<const inode<T>*>(*it);
-	while (args.empty() && nullptr == arg)
+	const inode <T>* arg = nullptr;
+	// a moved connector depends on nothing
+	while (it != et && nullptr == (arg = dynamic_cast<const inode<T>*>(*it)))
 	{
-		arg = dynamic_cast<const inode<T>*>(*++it);
+		++it;
 	}
 	if (arg)
 	{
-- 
2.43.0


From 8a32144478daab62c2c93828b97ac86c50683330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:34 +0000
Subject: [PATCH 70/74] fix: guard the subscriptions of the visualisation
 service against its concurrent calls

---
 .../edgeinfo/grpc_vis/gui_notifier.hpp        |  9 ++++++
 .../src/edgeinfo/grpc_vis/gui_notifier.cpp    | 28 ++++++++++++++-----
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/app/tenncor/include/edgeinfo/grpc_vis/gui_notifier.hpp b/app/tenncor/include/edgeinfo/grpc_vis/gui_notifier.hpp
index 6f27490..893e26b 100644
--- a/app/tenncor/include/edgeinfo/grpc_vis/gui_notifier.hpp
+++ b/app/tenncor/include/edgeinfo/grpc_vis/gui_notifier.hpp
@@ -10,6 +10,8 @@
 #ifdef EDGE_RCD
 
 #include <experimental/optional>
+#include <mutex>
+#include <unordered_set>
 
 #include <grpc++/grpc++.h>
 #include <grpc/support/log.h>
@@ -53,6 +55,10 @@ public:
 	void clear_subscriptions (void);
 
 private:
+	void subscribe (const std::string& client);
+
+	bool is_subscribed (const std::string& client) const;
+
 	// shared with graph_vis_record
 	nodecache_t* node_src_;
 
@@ -60,6 +66,9 @@ private:
 
 	// own
 	std::unordered_set<std::string> subscriptions_;
+
+	// calls of different clients run in threads of their own
+	mutable std::mutex mutex_;
 };
 
 void spawn_server (std::string addr, nodecache_t& node_src, edgecache_t& edge_src);
diff --git a/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp b/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp
index 85c5068..4cfbf3d 100644
--- a/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp
+++ b/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp
@@ -20,11 +20,10 @@ grpc::Status gui_notifier::SubscribeNode (grpc::ServerContext*,
 	grpc::ServerWriter<visor::NodeMessage>* writer)
 {
 	std::string cli_id = client->id();
-	subscriptions_.emplace(cli_id);
-	auto et = subscriptions_.end();
+	subscribe(cli_id);
 	std::shared_ptr<nnet::cache_node<visor::NodeMessage> > iter = nullptr;
 
-	while (et != subscriptions_.find(cli_id))
+	while (is_subscribed(cli_id))
 	{
 		if (optional<visor::NodeMessage> msg = node_src_->get_latest(iter))
 		{
@@ -39,11 +38,10 @@ grpc::Status gui_notifier::SubscribeEdge (grpc::ServerContext*,
 	grpc::ServerWriter<visor::EdgeMessage>* writer)
 {
 	std::string cli_id = client->id();
-	subscriptions_.emplace(cli_id);
-	auto et = subscriptions_.end();
+	subscribe(cli_id);
 	std::shared_ptr<nnet::cache_node<visor::EdgeMessage> > iter = nullptr;
 
-	while (et != subscriptions_.find(cli_id))
+	while (is_subscribed(cli_id))
 	{
 		if (optional<visor::EdgeMessage> msg = edge_src_->get_latest(iter))
 		{
@@ -56,6 +54,7 @@ grpc::Status gui_notifier::SubscribeEdge (grpc::ServerContext*,
 grpc::Status gui_notifier::EndSubscription (grpc::ServerContext*,
 	const visor::StringId* client, visor::Empty*)
 {
+	std::unique_lock<std::mutex> lk(mutex_);
 	subscriptions_.erase(client->id());
 	return grpc::Status::OK;
 }
@@ -70,11 +69,26 @@ grpc::Status gui_notifier::GetNodeData (grpc::ServerContext* context,
 
 void gui_notifier::clear_subscriptions (void)
 {
-	subscriptions_.clear();
+	{
+		std::unique_lock<std::mutex> lk(mutex_);
+		subscriptions_.clear();
+	}
 	node_src_->escape_wait();
 	edge_src_->escape_wait();
 }
 
+void gui_notifier::subscribe (const std::string& client)
+{
+	std::unique_lock<std::mutex> lk(mutex_);
+	subscriptions_.emplace(client);
+}
+
+bool gui_notifier::is_subscribed (const std::string& client) const
+{
+	std::unique_lock<std::mutex> lk(mutex_);
+	return subscriptions_.end() != subscriptions_.find(client);
+}
+
 void spawn_server (std::string addr, nodecache_t& node_src, edgecache_t& edge_src)
 {
 	gui_notifier service(node_src, edge_src);
-- 
2.43.0


From a761032db0e76e6454e55fd92f20bce01765463f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:44 +0000
Subject: [PATCH 71/74] fix: ending a subscription, or closing the
 visualisation service, left streams waiting that had nothing to send

---
 .../edgeinfo/grpc_vis/gui_notifier.hpp        |  2 ++
 .../include/thread/shareable_cache.hpp        |  5 +++-
 .../src/edgeinfo/grpc_vis/gui_notifier.cpp    | 24 +++++++++++++------
 app/tenncor/src/thread/shareable_cache.ipp    |  5 ++--
 4 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/app/tenncor/include/edgeinfo/grpc_vis/gui_notifier.hpp b/app/tenncor/include/edgeinfo/grpc_vis/gui_notifier.hpp
index 893e26b..ae4ca0f 100644
--- a/app/tenncor/include/edgeinfo/grpc_vis/gui_notifier.hpp
+++ b/app/tenncor/include/edgeinfo/grpc_vis/gui_notifier.hpp
@@ -67,6 +67,8 @@ private:
 	// own
 	std::unordered_set<std::string> subscriptions_;
 
+	bool closed_ = false; // accept no more subscriptions
+
 	// calls of different clients run in threads of their own
 	mutable std::mutex mutex_;
 };
diff --git a/app/tenncor/include/thread/shareable_cache.hpp b/app/tenncor/include/thread/shareable_cache.hpp
index eedcff1..b032031 100644
--- a/app/tenncor/include/thread/shareable_cache.hpp
+++ b/app/tenncor/include/thread/shareable_cache.hpp
@@ -57,7 +57,10 @@ public:
 	// assert that iter's data has been read
 	// grab data from iter->next_ and increment iter if possible
 	// if value is unavailable wait until the next value is available and return unset optional
-	optional<T> get_latest (std::shared_ptr<cache_node<T> >& iter) const;
+	// don't wait if keep_waiting is set and denies it: what it depends on can change before
+	// escape_wait without being missed
+	optional<T> get_latest (std::shared_ptr<cache_node<T> >& iter,
+		std::function<bool(void)> keep_waiting = nullptr) const;
 
 	// add data mapped by key remove previous iterators mapped by it if necessary
 	void add_latest (T data);
diff --git a/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp b/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp
index 4cfbf3d..ee2d18e 100644
--- a/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp
+++ b/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp
@@ -20,12 +20,13 @@ grpc::Status gui_notifier::SubscribeNode (grpc::ServerContext*,
 	grpc::ServerWriter<visor::NodeMessage>* writer)
 {
 	std::string cli_id = client->id();
+	std::function<bool(void)> subscribed = [&] { return is_subscribed(cli_id); };
 	subscribe(cli_id);
 	std::shared_ptr<nnet::cache_node<visor::NodeMessage> > iter = nullptr;
 
-	while (is_subscribed(cli_id))
+	while (subscribed())
 	{
-		if (optional<visor::NodeMessage> msg = node_src_->get_latest(iter))
+		if (optional<visor::NodeMessage> msg = node_src_->get_latest(iter, subscribed))
 		{
 			writer->Write(*msg);
 		}
@@ -38,12 +39,13 @@ grpc::Status gui_notifier::SubscribeEdge (grpc::ServerContext*,
 	grpc::ServerWriter<visor::EdgeMessage>* writer)
 {
 	std::string cli_id = client->id();
+	std::function<bool(void)> subscribed = [&] { return is_subscribed(cli_id); };
 	subscribe(cli_id);
 	std::shared_ptr<nnet::cache_node<visor::EdgeMessage> > iter = nullptr;
 
-	while (is_subscribed(cli_id))
+	while (subscribed())
 	{
-		if (optional<visor::EdgeMessage> msg = edge_src_->get_latest(iter))
+		if (optional<visor::EdgeMessage> msg = edge_src_->get_latest(iter, subscribed))
 		{
 			writer->Write(*msg);
 		}
@@ -54,8 +56,12 @@ grpc::Status gui_notifier::SubscribeEdge (grpc::ServerContext*,
 grpc::Status gui_notifier::EndSubscription (grpc::ServerContext*,
 	const visor::StringId* client, visor::Empty*)
 {
-	std::unique_lock<std::mutex> lk(mutex_);
-	subscriptions_.erase(client->id());
+	{
+		std::unique_lock<std::mutex> lk(mutex_);
+		subscriptions_.erase(client->id());
+	}
+	node_src_->escape_wait();
+	edge_src_->escape_wait();
 	return grpc::Status::OK;
 }
 
@@ -72,6 +78,7 @@ void gui_notifier::clear_subscriptions (void)
 	{
 		std::unique_lock<std::mutex> lk(mutex_);
 		subscriptions_.clear();
+		closed_ = true;
 	}
 	node_src_->escape_wait();
 	edge_src_->escape_wait();
@@ -80,7 +87,10 @@ void gui_notifier::clear_subscriptions (void)
 void gui_notifier::subscribe (const std::string& client)
 {
 	std::unique_lock<std::mutex> lk(mutex_);
-	subscriptions_.emplace(client);
+	if (false == closed_)
+	{
+		subscriptions_.emplace(client);
+	}
 }
 
 bool gui_notifier::is_subscribed (const std::string& client) const
diff --git a/app/tenncor/src/thread/shareable_cache.ipp b/app/tenncor/src/thread/shareable_cache.ipp
index d80dbb7..eb86f7e 100644
--- a/app/tenncor/src/thread/shareable_cache.ipp
+++ b/app/tenncor/src/thread/shareable_cache.ipp
@@ -102,7 +102,8 @@ shareable_cache<K, T>::shareable_cache (std::function<K(const T&)> hasher) :
 	hasher_(hasher) {}
 
 template <typename K, typename T>
-optional<T> shareable_cache<K, T>::get_latest (std::shared_ptr<cache_node<T> >& iter) const
+optional<T> shareable_cache<K, T>::get_latest (std::shared_ptr<cache_node<T> >& iter,
+	std::function<bool(void)> keep_waiting) const
 {
 	std::unique_lock<std::mutex> locker(mutex_);
 
@@ -129,7 +130,7 @@ optional<T> shareable_cache<K, T>::get_latest (std::shared_ptr<cache_node<T> >&
 		value = iter->next_->data_;
 		iter = iter->next_;
 	}
-	if (!value)
+	if (!value && (nullptr == keep_waiting || keep_waiting()))
 	{
 		cond_.wait(locker); // no current wait to check for spurious wait
 	}
-- 
2.43.0


From 3702f26de5a9d3e0cbdff873aa806d5be447f114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:06 +0000
Subject: [PATCH 72/74] fix: a visualisation service that can't listen on its
 address ended the program

---
 app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp b/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp
index ee2d18e..4df312f 100644
--- a/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp
+++ b/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp
@@ -108,6 +108,11 @@ void spawn_server (std::string addr, nodecache_t& node_src, edgecache_t& edge_sr
 	builder.RegisterService(&service);
 
 	std::unique_ptr<grpc::Server> server(builder.BuildAndStart());
+	if (nullptr == server)
+	{
+		std::cerr << "server failed to listen on " << addr << std::endl;
+		return;
+	}
 	std::cout << "server listening on " << addr << std::endl;
 	std::thread server_wait([&server]
 	{
-- 
2.43.0


From 9734f65803dd78cd56966e5f9d1cff256d52674e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:17 +0000
Subject: [PATCH 73/74] fix: a client that doesn't read its stream kept the
 visualisation service from closing

---
 app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp b/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp
index 4df312f..e733079 100644
--- a/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp
+++ b/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp
@@ -2,6 +2,7 @@
 //  Created by Ming Kai Chen on 2017-11-12.
 //
 
+#include <chrono>
 #include <thread>
 
 #include "thread/stop_flag.hpp"
@@ -121,7 +122,8 @@ void spawn_server (std::string addr, nodecache_t& node_src, edgecache_t& edge_sr
 
 	nnet::stop_wait(); // wait until stop flag is set
 	service.clear_subscriptions();
-	server->Shutdown();
+	// streams whose clients don't read never finish on their own
+	server->Shutdown(std::chrono::system_clock::now() + std::chrono::seconds(1));
 	server_wait.join();
 }
 
-- 
2.43.0


From 9048c6af7a2f3641071fee342efc870795d9b4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:06 +0000
Subject: [PATCH 74/74] fix: streams of disconnected clients went on until the
 visualisation service closed

---
 app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp b/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp
index e733079..6384ab0 100644
--- a/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp
+++ b/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp
@@ -29,7 +29,7 @@ grpc::Status gui_notifier::SubscribeNode (grpc::ServerContext*,
 	{
 		if (optional<visor::NodeMessage> msg = node_src_->get_latest(iter, subscribed))
 		{
-			writer->Write(*msg);
+			if (false == writer->Write(*msg)) break; // the client is gone
 		}
 	}
 	return grpc::Status::OK;
@@ -48,7 +48,7 @@ grpc::Status gui_notifier::SubscribeEdge (grpc::ServerContext*,
 	{
 		if (optional<visor::EdgeMessage> msg = edge_src_->get_latest(iter, subscribed))
 		{
-			writer->Write(*msg);
+			if (false == writer->Write(*msg)) break; // the client is gone
 		}
 	}
 	return grpc::Status::OK;
-- 
2.43.0

