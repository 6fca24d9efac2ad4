From 5f4b108d5f22e5ddb1d761ad6f3f036d184dea41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 01/34] fix: powMod() returned 1 instead of 0 for exponent 0
 modulo 1

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index cdf5cc2..0924f45 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1018,7 +1018,7 @@ namespace details {
 	}
 
 	constexpr UInteger powMod(UInteger base, UInteger exp, UInteger mod) {
-		UInteger res = 1;
+		UInteger res = 1 % mod;
 		if (mod <= 0x1'0000'0000) {
 			while (exp > 0) {
 				if (exp & 1) res = (base * res) % mod;
-- 
2.43.0


From eb3a47eb9c27819568a9cf7252319180359386f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 02/34] fix: expectReal() accepted wrong and rejected right
 values

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 0924f45..791e598 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -2651,7 +2651,7 @@ public:
 
 	void expectReal(Real expected) {
 		Real seen = real();
-		if (details::floatEqual(seen, expected, floatAbsTol, floatRelTol)) {
+		if (!details::floatEqual(seen, expected, floatAbsTol, floatRelTol)) {
 			*out << "Expected " << expected << " but got " << seen << "!";
 			if (std::isfinite(seen) and std::isfinite(expected)) {
 				Real absDiff = std::abs(seen-expected);
-- 
2.43.0


From a8d794c9ccaeab8af9be256f49a2a4bc04cd17d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 03/34] fix: allAdjacent() on containers evaluated
 noneAdjacent()

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 791e598..f6ee0f0 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -630,7 +630,7 @@ constexpr boolean<Integer> allAdjacent(RandomIt first, RandomIt last, BinaryPred
 }
 template<typename C, typename BinaryPredicate>
 constexpr boolean<Integer> allAdjacent(const C& c, BinaryPredicate p) {
-	return noneAdjacent(std::begin(c), std::end(c), p);
+	return allAdjacent(std::begin(c), std::end(c), p);
 }
 
 template<typename RandomIt>
-- 
2.43.0


From 3d14b327999a5d34556f1e290fa5efb5ca94574d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 04/34] fix: multInv() returned -1 for some invertible negative
 numbers

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index f6ee0f0..38f669e 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1078,7 +1078,7 @@ constexpr Integer multInv(Integer n, Integer mod) {
 	judgeAssert<std::domain_error>(mod > 0, "multInv(): mod must be positive!");
 	Integer x = 0;
 	Integer y = 0;
-	Integer g = details::extendedEuclid(n, mod, x, y);
+	Integer g = details::extendedEuclid(applyMod(n, mod), mod, x, y);
 	if (g != 1) return -1;
 	else return applyMod(x, mod);
 }
-- 
2.43.0


From 5f9902b4b252565ce06971c353bacc71123eeab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 05/34] fix: Random::prime() returned 2 for ranges with upper 2

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 38f669e..76a410b 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1592,7 +1592,7 @@ namespace Random {
 		if (sampleL < sampleU) {
 			for (Integer i = 0; i < details::PRIME_TRIALS and i < 4 * (upper - lower); i++) {
 				Integer res = std::max<Integer>(2, 2*integer(sampleL, sampleU) | 1);
-				if (isPrime(res)) return res;
+				if (res < upper and isPrime(res)) return res;
 			}
 		}
 		judgeAssert<std::domain_error>(false, "Random::prime(): range contains no primes?");
-- 
2.43.0


From a71a7e3167e14cf669fc34089392a4af07e23b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 06/34] fix: Random::prime() overflowed for large ranges and
 then found no prime

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 76a410b..1edeefc 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1590,7 +1590,7 @@ namespace Random {
 		Integer sampleL = lower <= 2 ? 0 : (lower / 2);
 		Integer sampleU = upper / 2;
 		if (sampleL < sampleU) {
-			for (Integer i = 0; i < details::PRIME_TRIALS and i < 4 * (upper - lower); i++) {
+			for (Integer i = 0; i < details::PRIME_TRIALS and i / 4 < upper - lower; i++) {
 				Integer res = std::max<Integer>(2, 2*integer(sampleL, sampleU) | 1);
 				if (res < upper and isPrime(res)) return res;
 			}
-- 
2.43.0


From ea9192ff465c4c783f50436e6ed7fb61e01ffc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 07/34] fix: Random::perm() did not fix points that were listed
 twice

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 1edeefc..03cf281 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1731,7 +1731,7 @@ namespace Random {
 		std::vector<Integer> res(count, -1);
 		for (Integer x : fix) {
 			judgeAssert<std::invalid_argument>(offset <= x and x < offset + count, "Random::perm(): fix point outside of permutation!");
-			std::swap(tmp[x - offset], res[x - offset]);
+			if (res[x - offset] < 0) std::swap(tmp[x - offset], res[x - offset]);
 		}
 		shuffle(tmp);
 		std::size_t i = 0;
-- 
2.43.0


From 0a58e213d8c1249c0c2cfae784f88ff73d8b69f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 08/34] fix: Random::perm() accessed out of bounds before
 rejecting negative cycle lengths

---
 src/validate.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 03cf281..4d25c98 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1712,11 +1712,13 @@ namespace Random {
 	}
 
 	std::vector<Integer> perm(const std::vector<Integer>& cycles, Integer offset = 0) {
+		for (Integer cycle : cycles) {
+			judgeAssert<std::invalid_argument>(cycle > 0, "Random::perm(): Cycle lengths must be positive!");
+		}
 		auto p = perm(std::accumulate(cycles.begin(), cycles.end(), 0_int));
 		std::vector<Integer> res(p.size());
 		Integer tmp = 0;
 		for (std::size_t i = 0; i < cycles.size(); tmp += cycles[i], i++) {
-			judgeAssert<std::invalid_argument>(cycles[i] > 0, "Random::perm(): Cycle lengths must be positive!");
 			for (Integer j = tmp; j + 1 < tmp + cycles[i]; j++) {
 				res[p[j]] = p[j + 1] + offset;
 			}
-- 
2.43.0


From 4d9423caed7ee4bd1dac9c8003a408cf914b3dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 09/34] fix: isPerm() overflowed and accessed out of bounds for
 values far above a negative offset

---
 src/validate.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 4d25c98..a82aee0 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -564,10 +564,11 @@ auto isPerm(RandomIt first, RandomIt last, typename std::iterator_traits<RandomI
 	std::vector<bool> seen(count, false);
 	for (; first != last; first++) {
 		const T& x = *first;
-		if (x < offset or x - offset >= count or seen[x - offset]) {
+		UInteger pos = static_cast<UInteger>(x) - static_cast<UInteger>(offset);
+		if (x < offset or pos >= seen.size() or seen[pos]) {
 			return boolean<T>(false, x);
 		}
-		seen[x - offset] = true;
+		seen[pos] = true;
 	}
 	return boolean<T>(true);
 }
-- 
2.43.0


From 2692265309af28a2461e571d60cdde78ce7b1d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 10/34] fix: Random::nonCollinearPoints() used primes for which
 the points do not fit and threw

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index a82aee0..4b7e8de 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1884,7 +1884,7 @@ namespace Random {
 		judgeAssert<std::invalid_argument>(dim <= 0x1FFF'FFFF, "Random::nonCollinearPoints(): dim too large!");
 		judgeAssert<std::invalid_argument>(n >= 0, "Random::nonCollinearPoints(): dim must be non negative!");
 		judgeAssert<std::invalid_argument>(dim > n, "Random::nonCollinearPoints(): dim too small!");
-		Integer p = prime(dim - 1, 2*dim + 2);
+		Integer p = prime(dim - 1, 2*dim - 1);
 		Integer rotA = 0;
 		Integer rotB = 0;
 		while (rotA == 0 and rotB == 0) {
-- 
2.43.0


From d47927a3577b0430314f1e90b2f1a4128367d24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 11/34] fix: Random::nonCollinearPoints() used singular
 rotations, which produce collinear and duplicate points

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 4b7e8de..d583273 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1887,7 +1887,7 @@ namespace Random {
 		Integer p = prime(dim - 1, 2*dim - 1);
 		Integer rotA = 0;
 		Integer rotB = 0;
-		while (rotA == 0 and rotB == 0) {
+		while ((rotA * rotA + rotB * rotB) % p == 0) {
 			rotA = integer(0, p);
 			rotB = integer(0, p);
 		}
-- 
2.43.0


From c31223281ac8b7c768fe1dd05385786e91066eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 12/34] fix: primes() accessed out of bounds for ranges longer
 than 2^30

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index d583273..5ae316b 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1121,7 +1121,7 @@ std::vector<Integer> primes(Integer lower, Integer upper) {
 	Integer count = std::min<Integer>(0x3FFF'FFFF, upper - lower);
 	Integer cache = (count + 1) / 2;
 
-	std::vector<bool> notPrime(cache), notPrimeSegment(cache);
+	std::vector<bool> notPrime(cache), notPrimeSegment((upper - lower + 1) / 2);
 	for (Integer i = 3; i < count; i += 2) {
 		if (!notPrime[i / 2]) {
 			for (Integer j = i * i; j < count; j += 2 * i) {
-- 
2.43.0


From 6999c3e3fae3ebe8a5440d74f2c9c5a3496b2f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 13/34] fix: realStrict() accepted leading zeros

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 5ae316b..f2f8971 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -140,7 +140,7 @@ constexpr std::string_view TEXT_ELLIPSIS                = "[...]";
 constexpr auto REGEX_OPTIONS                            = std::regex::nosubs | std::regex::optimize;
 inline const std::regex INTEGER_REGEX("0|-?[1-9][0-9]*", REGEX_OPTIONS);
 inline const std::regex REAL_REGEX("[+-]?(([0-9]*\\.[0-9]+)|([0-9]+\\.)|([0-9]+))([eE][+-]?[0-9]+)?", REGEX_OPTIONS);
-inline const std::regex STRICT_REAL_REGEX("-?(0|([1-9][0-9]*))\\.?[0-9]*", REGEX_OPTIONS);
+inline const std::regex STRICT_REAL_REGEX("-?(0|([1-9][0-9]*))(\\.[0-9]*)?", REGEX_OPTIONS);
 
 static_assert(2'000'000'000'000'000'000_int < LARGE / 2, "LARGE too small");
 static_assert(LARGE <= std::numeric_limits<Integer>::max() / 2, "LARGE too big");
-- 
2.43.0


From d1b6645e904bd105b937f05b51c2f40c4a9aabd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:48 +0000
Subject: [PATCH 14/34] fix: DiGraph::isDAG() counted out degrees instead of in
 degrees

---
 src/graph_val.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_val.h b/src/graph_val.h
index 23ce11e..0186219 100644
--- a/src/graph_val.h
+++ b/src/graph_val.h
@@ -191,7 +191,7 @@ public:
 		std::vector<std::size_t> deg(adj.size());
 		std::vector<Integer> order, todo;
 		for (std::size_t i = 0; i < adj.size(); i++) {
-			deg[i] = adj[i].size();
+			deg[i] = rev[i].size();
 			if (deg[i] == 0) todo.push_back(i);
 		}
 		while (!todo.empty()) {
-- 
2.43.0


From e9689e105b015e2d01e0c75a8a344e95924aadb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:48 +0000
Subject: [PATCH 15/34] fix: DiGraph::isTree() accepted graphs with a cycle

---
 src/graph_val.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_val.h b/src/graph_val.h
index 0186219..f1037cf 100644
--- a/src/graph_val.h
+++ b/src/graph_val.h
@@ -209,7 +209,7 @@ public:
 	}
 
 	std::optional<Integer> isTree() const {
-		if (rootCount == 1 and edgeCount() + 1 == nodeCount()) return root + offset;
+		if (rootCount == 1 and root < nodeCount() and edgeCount() + 1 == nodeCount()) return root + offset;
 		return std::nullopt;
 	}
 
-- 
2.43.0


From f1149e7ca48e8f5a91f4a82ed45955d450e8d2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:48 +0000
Subject: [PATCH 16/34] fix: wheel() added a path instead of a cycle

---
 src/graph_gen.h | 1968 +++++++++++++++++++++++------------------------
 1 file changed, 984 insertions(+), 984 deletions(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index e9d0259..36b7fa3 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -1,984 +1,984 @@
-//============================================================================//
-// graph_gen.h                                                                //
-//============================================================================//
-// This header can be used to Generate graphs. We support:                    //
-// - directed, undirected and weighted graphs                                 //
-// - uniform tree sampling                                                    //
-// - erdös renyi random graphs                                                //
-// - random graphs with a given degree sequence                               //
-// - random graphs with a power low distribution                              //
-// - various operations to construct graphs                                   //
-// This header requires validate.h zo to generate random graphs in a          //
-// deterministic and reproducable fashion.                                    //
-//============================================================================//
-//version 1.0.11                                                              //
-//https://github.com/mzuenni/icpc-header                                      //
-//============================================================================//
-
-#ifndef GRAPH_GENERATOR_H
-#define GRAPH_GENERATOR_H
-
-#include <cassert>
-#include <cstddef>
-#include <deque>
-#include <iostream>
-#include <ostream>
-#include <optional>
-#include <ostream>
-#include <queue>
-#include <random>
-#include <set>
-#include <utility>
-#include <ranges>
-#include <vector>
-#include "validate.h"
-
-namespace GraphDetail {
-	struct NoData final {};
-	constexpr NoData NOTHING;
-
-	// EdgeWrapper may be returned by some function
-	template<typename E, typename = void>
-	struct EdgeWrapper final {
-		const Integer from, to;
-		E& data;
-		EdgeWrapper(Integer from_, Integer to_, E& data_) : from(from_), to(to_), data(data_) {}
-
-		E& operator*() {
-			return data;
-		}
-		const E& operator*() const {
-			return data;
-		}
-
-		friend std::ostream& operator<<(std::ostream& os, const EdgeWrapper& e) {
-			os << e.from << " " << e.to;
-			os << " " << *e;
-			return os;
-		}
-
-		friend OutputStream& operator<<(OutputStream& os, const EdgeWrapper& e) {
-			os << e.from << " " << e.to;
-			os << " " << *e;
-			return os;
-		}
-	};
-	template<typename E>
-	struct EdgeWrapper<E, typename std::enable_if_t<std::is_same_v<std::remove_cv_t<E>, NoData>>> final {
-		const Integer from, to;
-		EdgeWrapper(Integer from_, Integer to_) : from(from_), to(to_) {}
-		EdgeWrapper(Integer from_, Integer to_, E& /**/) : EdgeWrapper(from_, to_) {}
-
-		E& operator*() const {return NOTHING;}
-
-		friend std::ostream& operator<<(std::ostream& os, const EdgeWrapper& e) {
-			os << e.from << " " << e.to;
-			return os;
-		}
-
-		friend OutputStream& operator<<(OutputStream& os, const EdgeWrapper& e) {
-			os << e.from << " " << e.to;
-			return os;
-		}
-	};
-
-	// EdgeType is the internel representation of an edge that should never get exposed!
-	template<typename E>
-	struct EdgeType final {
-		// we use key(from, to) = from^to for efficiency
-		// the key function must have the following properties:
-		// key(a, b) == key(b, a)
-		// to1 != to2 <=> key(from, to1) != key(from, to2)
-		// from1 != from2 <=> key(from1, to) != key(from2, to)
-		Integer fromXorTo, to;
-		E data;
-		EdgeType(Integer fromXorTo_, Integer to_, const E& data_) : fromXorTo(fromXorTo_), to(to_), data(data_) {}
-		EdgeType(Integer fromXorTo_, Integer to_, E&& data_) : fromXorTo(fromXorTo_), to(to_), data(std::forward<E>(data_)) {}
-	};
-
-	template<typename E>
-	struct EdgePointerCompair final {
-		using is_transparent = std::true_type;
-		constexpr bool operator()(const EdgeType<E>* t, const EdgeType<E>* u) const {
-			return t->fromXorTo < u->fromXorTo;
-		}
-		constexpr bool operator()(const EdgeType<E>* t, Integer u) const {
-			return t->fromXorTo < u;
-		}
-		constexpr bool operator()(Integer t, const EdgeType<E>* u) const {
-			return t < u->fromXorTo;
-		}
-	};
-
-	template<typename E, bool DIR>
-	class GraphType final {
-		// do not change!
-		static constexpr Integer DEFAULT_MIN_ID = 0;
-
-		template<typename, bool> friend class GraphType;
-		using EdgeTypeValue = E;
-		using Edge = EdgeWrapper<E>;
-		using ConstEdge = EdgeWrapper<const E>;
-		using InternalEdge = EdgeType<E>;
-		using Graph = GraphType<E, DIR>;
-
-		std::deque<std::set<InternalEdge*, EdgePointerCompair<E>>> adj;
-		std::deque<InternalEdge> edges;
-		Integer minId;
-
-		inline void assertNode(Integer id) const {
-			if (id < minId or id >= minId + nodeCount()) {
-				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [" + std::to_string(minId) + ", " + std::to_string(minId + nodeCount()) + ") !");
-			}
-		}
-
-		auto addEdge(InternalEdge* e) {
-			Integer from = e->fromXorTo ^ e->to;
-			Integer to = e->to;
-			if constexpr (!DIR) if (from != to) adj[to - minId].emplace(e);
-			return adj[from - minId].emplace(e).first;
-		}
-
-		void emplaceEdge(Integer from, Integer to, const E& data = {}) {
-			edges.emplace_back(from ^ to, to, data);
-		}
-
-		void buildAdj() {
-			for (auto& e : edges) addEdge(&e);
-		}
-	public:
-		// construct empty graph with vertices in [from, to)
-		explicit GraphType(Integer from, Integer to) :
-			adj(to - from),
-			minId(from) {
-			judgeAssert<std::invalid_argument>(from <= to, "Graph::from must not be greater than to!");
-		}
-		// construct empty graph with vertices in [0, n)
-		explicit GraphType(Integer n = 0) :
-			GraphType(DEFAULT_MIN_ID, n) {}
-
-		// copy graphs without breaking pointers
-		GraphType(const Graph& o) :
-			adj(o.size()),
-			edges(o.edges),
-			minId(o.minId) {
-			buildAdj();
-		}
-		Graph& operator=(const Graph& o) {
-			if (&o != this) {
-				adj.clear();
-				adj.resize(o.size());
-				edges = o.edges;
-				minId = o.minId;
-				buildAdj();
-			}
-			return *this;
-		}
-		Graph copy() const {
-			return *this;
-		}
-
-		//basic graph parameters
-		std::size_t size() const {
-			return adj.size();
-		}
-
-		Integer nodeCount() const {
-			return static_cast<Integer>(adj.size());
-		}
-
-		Integer edgeCount() const {
-			return static_cast<Integer>(edges.size());
-		}
-
-		Integer degree(Integer id) const {
-			assertNode(id);
-			return static_cast<Integer>(adj[id - minId].size());
-		}
-
-		Integer getMinId() const {
-			return minId;
-		}
-
-		Graph& setMinId(Integer newminId) {
-			for (auto& n : adj) n.clear();
-			for (auto& e : edges) {
-				Integer from = e.fromXorTo ^ e.to;
-				Integer to = e.to;
-				from = from - minId + newminId;
-				to = to - minId + newminId;
-				e.fromXorTo = from ^ to;
-				e.to = to;
-			}
-			minId = newminId;
-			buildAdj();
-			return *this;
-		}
-
-		Integer getNextId() const {
-			return minId + nodeCount();
-		}
-
-		Graph& normalize() {
-			return setMinId(DEFAULT_MIN_ID);
-		}
-
-		Graph range(Integer from, Integer to) const {
-			judgeAssert<std::invalid_argument>(from <= to, "Graph: from must not be greater than to!");
-			Graph res(from, to);
-			from = std::max(static_cast<Integer>(0), from - minId);
-			to = std::min(nodeCount(), to - minId);
-			for (const auto& e : getEdges()) {
-				if (e.from >= from and e.from < to and e.to >= from and e.to < to) {
-					res.addEdge(e.from, e.to, e.data);
-				}
-			}
-			return res;
-		}
-
-		// basic graph operations
-		std::optional<Edge> findEdge(Integer from, Integer to) & {
-			assertNode(from);
-			assertNode(to);
-			auto it = adj[from - minId].find(from ^ to);
-			if (it != adj[from - minId].end()) {
-				return Edge(from, to, (*it)->data);
-			} else {
-				return {};
-			}
-		}
-
-		std::optional<ConstEdge> findEdge(Integer from, Integer to) const & {
-			assertNode(from);
-			assertNode(to);
-			auto it = adj[from - minId].find(from ^ to);
-			if (it != adj[from - minId].end()) {
-				return ConstEdge(from, to, (*it)->data);
-			} else {
-				return {};
-			}
-		}
-
-		// ids may change!
-		Edge getEdgeById(std::size_t id) & {
-			if (id >= edges.size()) {
-				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [0, " + std::to_string(edges.size()) + ") !");
-			}
-			return Edge(edges[id].fromXorTo ^ edges[id].to, edges[id].to, edges[id].data);
-		}
-
-		ConstEdge getEdgeById(std::size_t id) const & {
-			if (id >= edges.size()) {
-				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [0, " + std::to_string(edges.size()) + ") !");
-			}
-			return ConstEdge(edges[id].fromXorTo ^ edges[id].to, edges[id].to, edges[id].data);
-		}
-
-		bool hasEdge(Integer from, Integer to) const {
-			assertNode(from);
-			assertNode(to);
-			return adj[from - minId].find(from ^ to) != adj[from - minId].end();
-		}
-
-		Edge addEdge(Integer from, Integer to, const E& data = {}) & {
-			assertNode(from);
-			assertNode(to);
-			judgeAssert(from != to, "Graph: invalid selfloop!");
-			auto it = adj[from - minId].find(from ^ to);
-			if (it == adj[from - minId].end()) {
-				emplaceEdge(from, to, data);
-				it = addEdge(&(edges.back()));
-			} else {
-				(*it)->data = data;
-			}
-			return Edge(from, to, (*it)->data);
-		}
-
-		bool eraseEdge(Integer from, Integer to) {
-			assertNode(from);
-			assertNode(to);
-			auto it = adj[from - minId].find(from ^ to);
-			if (it != adj[from - minId].end()) {
-				InternalEdge* a = *it;
-				InternalEdge* b = &(edges.back());
-				adj[from - minId].erase(a);
-				if constexpr (!DIR) adj[to - minId].erase(a);
-				from = b->fromXorTo ^ b->to;
-				to = b->to;
-				adj[from - minId].erase(b);
-				if constexpr (!DIR) adj[to - minId].erase(b);
-				std::swap(*a, *b);
-				edges.pop_back();
-				if (a != b) addEdge(a);
-				return true;
-			} else {
-				return false;
-			}
-		}
-
-		bool eraseEdge(const Edge& edge) {
-			return eraseEdge(edge.from, edge.to);
-		}
-
-		std::ranges::view auto getEdges() const & {
-			return std::views::all(edges)
-				 | std::views::transform([](const InternalEdge& edge){
-				return ConstEdge(edge.fromXorTo ^ edge.to, edge.to, edge.data);
-			});
-		}
-
-		std::ranges::view auto getEdges() & {
-			return std::views::all(edges)
-				 | std::views::transform([](InternalEdge& edge){
-				return Edge(edge.fromXorTo ^ edge.to, edge.to, edge.data);
-			});
-		}
-
-		std::ranges::view auto operator[](Integer id) const & {
-			assertNode(id);
-			return std::views::all(adj[id-minId])
-				 | std::views::transform([id](InternalEdge* edge){
-				return ConstEdge(id, edge->fromXorTo ^ id, edge->data);
-			});
-		}
-
-		std::ranges::view auto operator[](Integer id) & {
-			assertNode(id);
-			return std::views::all(adj[id-minId])
-				 | std::views::transform([id](InternalEdge* edge){
-				return Edge(id, edge->fromXorTo ^ id, edge->data);
-			});
-		}
-
-		std::ranges::view auto getDegrees() const & {
-			return std::views::all(adj)
-				 | std::views::transform([](auto& n){
-				return n.size();
-			});
-		}
-
-		// more basic graph operations
-		Graph& combine(const Graph& o) {
-			if (&o != this) {
-				while (minId > o.minId) {
-					minId--;
-					adj.emplace_front();
-				}
-				while (minId + nodeCount() < o.minId + o.nodeCount()) {
-					adj.emplace_back();
-				}
-				for (const auto& e : o.edges) {
-					addEdge(e.fromXorTo ^ e.to, e.to, e.data);
-				}
-			}
-			return *this;
-		}
-
-		Graph& append(const Graph& o) {
-			//assert(&o != this); // should work
-			Integer diff = nodeCount() + minId - o.minId;
-			adj.resize(nodeCount() + o.nodeCount());
-			for (std::size_t i = 0, j = o.edges.size(); i < j; i++) {
-				Integer to = o.edges[i].to;
-				Integer from = o.edges[i].fromXorTo ^ to;
-				addEdge(from + diff, to + diff, o.edges[i].data);
-			}
-			return *this;
-		}
-
-		Graph& permutateEdges() {
-			for (auto& n : adj) n.clear();
-			Random::shuffle(edges.begin(), edges.end());
-			if constexpr(!DIR) {
-				for (auto& e : edges) {
-					if (Random::bit()) {
-						e.to ^= e.fromXorTo;
-					}
-				}
-			}
-			buildAdj();
-			return *this;
-		}
-
-		Graph& permutate(const std::vector<Integer>& perm) {
-			judgeAssert<std::invalid_argument>(isPerm(perm, minId), "Graph: not a permutation");
-			for (auto& n : adj) n.clear();
-			Random::shuffle(edges.begin(), edges.end());
-			for (auto& e : edges) {
-				if constexpr (!DIR) {
-					if (Random::bit()) {
-						e.to ^= e.fromXorTo;
-					}
-				}
-				e.fromXorTo ^= e.to;
-				e.fromXorTo = perm[e.fromXorTo - minId];
-				e.to = perm[e.to - minId];
-				e.fromXorTo ^= e.to;
-			}
-			buildAdj();
-			return *this;
-		}
-
-		Graph& permutate() {
-			std::vector<Integer> perm(size());
-			std::iota(perm.begin(), perm.end(), minId);
-			Random::shuffle(perm.begin(), perm.end());
-			return permutate(perm);
-		}
-
-		Graph subgraph(Integer m) const {
-			if (m >= edgeCount()) return *this;
-			Graph res(minId, minId + nodeCount());
-			auto todo = Random::distinct(m, 0, edgeCount());
-			for (auto id : todo) res.edges.emplace_back(edges[id]);
-			res.buildAdj();
-			return res;
-		}
-
-		GraphType<E, true>& reverse() {
-			static_assert(DIR, "Graph: reverse() is only available on directed graphs!");
-			for (auto& n : adj) n.clear();
-			for (auto& e : edges) {
-				e.to ^= e.fromXorTo;
-			}
-			buildAdj();
-			return *this;
-		}
-
-		GraphType<E, false> undirected() const {
-			static_assert(DIR, "Graph: undirected() is only available on directed graphs!");
-			GraphType<E, false> res(minId, minId + nodeCount());
-			for (const auto e : getEdges()) {
-				res.addEdge(e.from, e.to, *e);
-			}
-			return res;
-		}
-
-		template<typename PRED>
-		GraphType<E, true> directed(const PRED&& p) const {
-			static_assert(!DIR, "Graph: directed() is only available on undirected graphs!");
-			GraphType<E, true> res(minId, minId + nodeCount());
-			for (const auto& e : getEdges()) {
-				if constexpr (std::is_invocable_r_v<bool, PRED, Integer, Integer, const E&>) {
-					if (p(e.from, e.to, *e)) res.emplaceEdge(e.from, e.to, *e);
-					if (p(e.to, e.from, *e)) res.emplaceEdge(e.to, e.from, *e);
-				} else {
-					static_assert(std::is_invocable_r_v<bool, PRED, Integer, Integer>, "Graph: pred has wrong signature!");
-					if (p(e.from, e.to)) res.emplaceEdge(e.from, e.to, *e);
-					if (p(e.to, e.from)) res.emplaceEdge(e.to, e.from, *e);
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		GraphType<E, true> directed() const {
-			return directed([](Integer /**/, Integer /**/){
-				return true;
-			});
-		}
-
-		Graph complement() const {
-			Graph res(minId, minId + nodeCount());
-			for (Integer i = 0; i < nodeCount(); i++) {
-				for (Integer j = 0; j < i; j++) {
-					if (!hasEdge(i + minId, j + minId)) {
-						res.emplaceEdge(i + minId, j + minId);
-					}
-					if constexpr (DIR) {
-						if (!hasEdge(j + minId, i + minId)) {
-							res.emplaceEdge(j + minId, i + minId);
-						}
-					}
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		// advanced graph operations
-		Graph power(Integer k) const {
-			Graph res(minId, minId + nodeCount());
-			std::vector<bool> seen(nodeCount());
-			for (Integer i = 0; i < nodeCount(); i++) {
-				std::vector<std::pair<Integer, Integer>> queue = {{i, 0}};
-				for (std::size_t j = 0; j < queue.size(); j++) {
-					auto [c, d] = queue[j];
-					if (d < k) {
-						for (const auto& e : (*this)[c + minId]) {
-							if (!seen[e.to - minId]) {
-								seen[e.to - minId] = true;
-								queue.emplace_back(e.to - minId, d + 1);
-							}
-						}
-					}
-				}
-				for (auto [c, d] : queue) {
-					seen[c] = false;
-					if (i != c) {
-						res.emplaceEdge(i + minId, c + minId);
-					}
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		Graph& transitiveClosure() const {
-			return power(nodeCount());
-		}
-
-		Graph product(const Graph& o) const {
-			static_assert(!DIR, "Graph: product() is only available on undirected graphs!");
-			Graph res(nodeCount() * o.nodeCount());
-			auto newId = [&](Integer a, Integer b){
-				return (b - o.minId) * nodeCount() + (a - minId);
-			};
-			for (const auto& e1 : getEdges()) {
-				for (const auto& e2 : o.getEdges()) {
-					res.emplaceEdge(newId(e1.from, e2.from), newId(e1.to, e2.to));
-					res.emplaceEdge(newId(e1.from, e2.to), newId(e1.to, e2.from));
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		Graph cartesian(const Graph& o) const {
-			Graph res(nodeCount() * o.nodeCount());
-			auto newId = [&](Integer a, Integer b){
-				return (b-o.minId) * nodeCount() + (a-minId);
-			};
-			for (const auto& e : o.getEdges()) {
-				for (Integer i = 0; i < nodeCount(); i++) {
-					Integer from = newId(i + minId, e.from);
-					Integer to = newId(i + minId, e.to);
-					res.emplaceEdge(from, to);
-				}
-			}
-			for (const auto& e : getEdges()) {
-				for (Integer i = 0; i < o.nodeCount(); i++) {
-					Integer from = newId(e.from, i + o.minId);
-					Integer to = newId(e.to, i + o.minId);
-					res.emplaceEdge(from, to);
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		Graph strongProduct(const Graph& o) const {
-			static_assert(!DIR, "Graph: product() is only available on undirected graphs!");
-			return o.cartesian(*this).combine(o.product(*this));
-		}
-
-		Graph lineGraph() const {
-			Graph tmp(minId, minId + nodeCount());
-			Integer nextEdge = 0;
-			for (const auto& e : getEdges()) {
-				tmp.emplaceEdge(e.from, e.to, nextEdge);
-				nextEdge++;
-			}
-			tmp.buildAdj();
-			Graph res(nextEdge);
-			for (const auto& e1 : tmp.getEdges()) {
-				if constexpr (DIR) {
-					for (const auto& e2 : tmp[e1.to]) {
-						res.emplaceEdge(*e1, *e2);
-					}
-				} else {
-					for (const auto& e2 : tmp[e1.to]) {
-						if (*e1 < *e2) res.emplaceEdge(*e1, *e2);
-					}
-					for (const auto& e2 : tmp[e1.from]) {
-						if (*e1 < *e2) res.emplaceEdge(*e1, *e2);
-					}
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		friend std::ostream& operator<<(std::ostream& os, const Graph& g) {
-			os << g.nodeCount() << " " << g.edgeCount();
-			for (const auto& e : g.getEdges()) os << '\n' << e;
-			return os;
-		}
-
-		friend OutputStream& operator<<(OutputStream& os, const Graph& g) {
-			os << g.nodeCount() << " " << g.edgeCount();
-			for (const auto& e : g.getEdges()) os << '\n' << e;
-			return os;
-		}
-
-	};
-} // GraphDetail
-
-using NoData = GraphDetail::NoData;
-
-template<typename E = GraphDetail::NoData>
-using Edge = GraphDetail::EdgeWrapper<E>;
-
-template<typename E = GraphDetail::NoData>
-using Graph = GraphDetail::GraphType<E, false>;
-
-template<typename E = GraphDetail::NoData>
-using DiGraph = GraphDetail::GraphType<E, true>;
-
-// n independed vertices in range [0, n)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> independent(Integer n) {
-	return GraphDetail::GraphType<E, DIR>(n);
-}
-
-// n connected vertices in range [0, n)
-// if directed all edges go from i to j with i < j
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> clique(Integer n) {
-	// could be implemented as linegraph of a star.
-	GraphDetail::GraphType<E, DIR> res(n);
-	for (Integer j = 0; j < n; j++) {
-		for (Integer i = 0; i < j; i++) {
-			res.addEdge(i, j);
-		}
-	}
-	return res;
-}
-
-// complete bipartite graph with partition [0, n) and [n, n+m)
-// if directed all edges go from [0, n) to [n, n+m)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> bipartite(Integer n, Integer m) {
-	GraphDetail::GraphType<E, DIR> res(n+m);
-	for (Integer i = 0; i < n; i++) {
-		for (Integer j = 0; j < m; j++) {
-			res.addEdge(i, n + j);
-		}
-	}
-	return res;
-}
-
-// generate a random bipartite graph (like Erdös-Renyi) with partitions [0, n) and [n, n+m)
-// each edge exists with a given number of edges k
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Integer k) {
-	GraphDetail::GraphType<E, DIR> res(n+m);
-	Integer lim = n * m;
-	if constexpr (DIR) lim *= 2;
-	auto edges = Random::distinct(k, 0, lim);
-	for (Integer x : edges) {
-		Integer i = x % n;
-		Integer j = x / n + n;
-		if constexpr(DIR) {
-			if (x >= n * m) {
-				j -= m;
-				std::swap(i, j);
-			}
-		}
-		res.addEdge(i, j);
-	}
-	return res;
-}
-
-// generate a random bipartite graph (like Erdös-Renyi) with partitions [0, n) and [n, n+m)
-// each edge exists with probability p
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Real p) {
-	return randomBipartite<E, DIR>(n, m, Random::binomial(n * m, p));
-}
-
-// star with root = 0 and chilrden [1, leaves]
-// if directed all edges go the root to [1, leaves)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> star(Integer leaves) {
-	return bipartite<E, DIR>(1, leaves);
-}
-
-// path 0-1-2-...-edges with vertices [0, edges]
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> path(Integer edges) {
-	GraphDetail::GraphType<E, DIR> res(edges+1);
-	for (Integer i = 0; i < edges; i++) {
-		res.addEdge(i, i + 1);
-	}
-	return res;
-}
-
-// path 0-1-2-...-n-1-0 with vertices [0, n)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> cycle(Integer n) {
-	auto p = path<E>(n-1);
-	p.addEdge(n - 1, 0);
-	return p;
-}
-
-// wheel with root = 1 and outer vertices 1-2-...-outer-1 with vertices [0, outer]
-template<typename E = NoData>
-Graph<E> wheel(Integer outer) {
-	return star<E>(outer).combine(path<E>(outer).setMinId(1));
-}
-
-// lolly graph with a path with p edges [0, p] and a clique [p, p+c) and
-// p is the vertex where clique and path are connected
-template<typename E = NoData>
-Graph<E> lolly(Integer p, Integer c) {
-	return path<E>(p).combine(clique<E>(c).setMinId(p));
-}
-
-// broom graph with a path with p edges [0, p] and a star [p, p+l]
-// p is the vertex where star and path are connected
-template<typename E = NoData>
-Graph<E> broom(Integer p, Integer l) {
-	return path<E>(p).combine(star<E>(l).setMinId(p));
-}
-
-// n times m grid
-// 0-1-...-n-1
-// | |      |
-// n- ... -2*n-1
-// |        |
-// .        .
-//          |
-//        -n*m-1
-template<typename E = NoData>
-Graph<E> grid(Integer n, Integer m) {
-	return path<E>(n-1).cartesian(path<E>(m-1));
-}
-template<typename E = NoData>
-Graph<E> grid(Integer n) {
-	return grid<E>(n, n);
-}
-
-// n dimensional hyper cube with vertices [0, 2^dimension)
-// a-b <=> |a^b|=1
-template<typename E = NoData>
-Graph<E> hypercube(Integer dimension) {
-	if (dimension < 2) return clique<E>(dimension+1);
-	return hypercube<E>(dimension-1).cartesian(clique<E>(2));
-}
-
-// complete tree with root at 0 and all subtrees are consecutive
-// vertices in [0, (children^{level+1}-1)/(children-1))
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> completeTree(Integer level, Integer children = 2) {
-	if (level <= 2) return star<E, DIR>(children);
-	GraphDetail::GraphType<E, DIR> res(1);
-	GraphDetail::GraphType<E, DIR> sub = completeTree<E, DIR>(level - 1, children);
-	for (Integer i = 0; i < children; i++) {
-		Integer next = res.nodeCount();
-		res.append(sub);
-		res.addEdge(0, next);
-	}
-	return res;
-}
-
-
-// complete boolean lattice i->j <=> i|j==j
-// vertices in [0, 2^level)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> booleanLattice(Integer level) {
-	GraphDetail::GraphType<E, DIR> res(1 << level);
-	for (Integer i = 0; i < res.nodeCount(); i++) {
-		for (Integer j = 1; j < res.nodeCount(); j*=2) {
-			if ((i | j) == i) {
-				res.addEdge(i, i^j);
-			}
-		}
-	}
-	return res;
-}
-
-// prefix of the rado graph i->j <=> i<j and j[i] == true;
-// vertices in [0, n)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> rado(Integer n) {
-	GraphDetail::GraphType<E, DIR> res(n);
-	for (Integer i = 0; i < n; i++) {
-		for (Integer j = 0; (1 << j) < i; j++) {
-			if ((i | (1 << j)) == i) {
-				res.addEdge(i, j);
-			}
-		}
-	}
-	return res;
-}
-
-// generate a tree from a pruefer code
-// values should be in [0, sz(code)+2)
-template<typename E = NoData>
-Graph<E> pruefer(const std::vector<Integer>& code) {
-	Graph<E> res(code.size() + 2);
-	std::vector<Integer> count(res.nodeCount());
-	for (Integer x : code) count[x]++;
-	Integer current = -1;
-	Integer skip = -1;
-	auto getNext = [&](){
-		Integer oldSkip = skip;
-		skip = -1;
-		if (0 <= oldSkip and oldSkip <= current) return oldSkip;
-		for (current++; count[current] > 0; current++) {}
-		return current;
-	};
-	for (Integer x : code) {
-		Integer y = getNext();
-		res.addEdge(x, y);
-		count[x]--;
-		if (count[x] == 0) skip = x;
-	}
-	Integer x = getNext();
-	Integer y = getNext();
-	res.addEdge(x, y);
-	return res;
-}
-
-// generate a random tree with vertices [0, n)
-// if directed 0 is the root
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> randomTree(Integer n) {
-	if constexpr (!DIR) {
-		if (n <= 2) return clique<E>(n);
-		std::vector<Integer> code(n - 2);
-		for (Integer& x : code) x = Random::integer(n);
-		return pruefer<E>(code);
-	} else {
-		Graph<NoData> tmp = randomTree<NoData, false>(n);
-		DiGraph<E> res(n);
-		auto dfs = [&tmp, &res](auto&& self, Integer cur, Integer pref) -> void {
-			for (auto edge : tmp[cur]) {
-				if (edge.to == pref) continue;
-				res.addEdge(cur, edge.to);
-				self(self, edge.to, cur);
-			}
-		};
-		dfs(dfs, tmp.getMinId(), tmp.getMinId() - 1);
-		return res;
-	}
-}
-
-// generate a random graph (Erdös-Renyi)
-// each edge exists with a given number of edges m
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Integer m) {
-	GraphDetail::GraphType<E, DIR> res(n);
-	Integer lim = n * (n-1);
-	if constexpr (!DIR) lim /= 2;
-	auto edges = Random::distinct(m, 0, lim);
-	for (Integer x : edges) {
-		Integer i = x / n;
-		Integer j = x % n;
-		if constexpr(DIR) {
-			if (i == j) i = n - 1;
-		} else {
-			if (j <= i) {
-				i = n - 2 - i;
-				j = n - 1 - j;
-			}
-		}
-		res.addEdge(i, j);
-	}
-	return res;
-}
-
-// generate a random graph (Erdös-Renyi)
-// each edge exists with probability p
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Real p) {
-	return randomGraph<E, DIR>(n, Random::binomial(n * (n - 1) / 2, p));
-}
-
-// generate a random graph with linear growing degrees
-template<typename E = NoData>
-Graph<E> randomGrowingGraph(Integer n, Real p) {
-	judgeAssert<std::domain_error>(0.0_real <= p and p <= 1.0_real, "randomGrowingGraph(): p must be in [0,1]!");
-	Graph<E> res(n);
-	for (Integer i = 0; i < n; i++) {
-		Integer deg = p * Random::real(0, i+1);
-		auto neighbours = Random::distinct(deg, 0, i);
-		for (Integer j : neighbours) res.addEdge(i, j);
-	}
-	return res;
-}
-
-// generate a random graph with a given degree sequence
-// (not uniform...)
-template<typename E = NoData>
-Graph<E> randomGraph(const std::vector<Integer>& degree, Integer averageFlips = 10) {
-	Graph<E> res(std::ssize(degree));
-	// havel hakimi in O(m*log(n))
-	std::priority_queue<std::pair<Integer, Integer>> pq;
-	for (Integer i = 0; i < std::ssize(degree); i++) {
-		if (degree[i] > 0) {
-			pq.emplace(degree[i], i);
-		}
-	}
-	while (!pq.empty()) {
-		auto [d, c] = pq.top();
-		pq.pop();
-		if (std::ssize(pq) < d or d < 0) {
-			throw std::invalid_argument("randomGraph(): Invalid degree sequence!");
-		}
-		std::vector<std::pair<Integer, Integer>> todo;
-		for (Integer i = 0; i < d; i++) {
-			auto [dd, cc] = pq.top();
-			pq.pop();
-			res.addEdge(c, cc);
-			dd--;
-			if (dd > 0) todo.emplace_back(dd, cc);
-		}
-		for (const auto& e : todo) pq.push(e);
-	}
-	// randomly flip edges O(m*log(n))
-	for (Integer i = 0; i < averageFlips*res.nodeCount(); i++) {
-		auto a = res.getEdgeById(Random::integer(res.edgeCount()));
-		auto b = res.getEdgeById(Random::integer(res.edgeCount()));
-		if (a.from == b.to or res.hasEdge(a.from, b.to)) continue;
-		if (b.from == a.to or res.hasEdge(b.from, a.to)) continue;
-		res.eraseEdge(a.from, a.to);
-		res.eraseEdge(b.from, b.to);
-		res.addEdge(a.from, b.to);
-		res.addEdge(b.from, a.to);
-	}
-	return res;
-}
-
-// generates a worstcase instance for Ford Fulkerson with dfs.
-// The graph contains 2*n vertices and has 2^n flow from 0 to 2*n-1.
-// Figure 2: https://people.computing.clemson.edu/~bcdean/iterm.pdf
-// Note that the specific order of edghes is required
-DiGraph<Integer> ffWorstcase(Integer n) {
-	judgeAssert(0 < n && n <= 63, "ffWorstcase(): n out of bounds");
-	DiGraph<Integer> res(2 * n);
-	res.addEdge(n-1, n, 1);
-	for (Integer i = n - 2, j = n+1, c = 1; j < 2 * n; i--, j++, c *= 2) {
-		res.addEdge(i, i+1, c);
-		res.addEdge(i, j-1, c);
-		res.addEdge(i+1, j, c);
-		res.addEdge(j-1, j, c);
-	}
-	return res;
-}
-
-// generates a worstcase instance for various min cost max flow algorithms.
-// The graph contains 2*n+2 vertices and has flow from 0 to 2*n+1.
-// Figure 4: https://link.springer.com/article/10.1007/BF01580132
-DiGraph<std::pair<Integer, Integer>> mcmfWorstcase(Integer n) {
-	judgeAssert(0 < n && n <= 60, "mcmfWorstcase(): n out of bounds");
-	DiGraph<std::pair<Integer, Integer>> res(2 * n + 2);
-	Integer inf = 5 * (1ll << n) / 4;
-	for (Integer i = 0; i < n; i++) {
-		res.addEdge(0, i + 1, {i < 2 ? 2 * i + 1 : 5ll << (i - 2), 0});
-	}
-	res.addEdge(1, n + 1, {inf, 0});
-	for (Integer i = 0; i < n; i++) {
-		for (Integer j = 0; j < n; j++) {
-			if (i == j) continue;
-			res.addEdge(i + 1, j + 1 + n, {inf, (1ll << std::max(i, j)) - 1});
-		}
-	}
-	for (Integer i = 0; i < n; i++) {
-		res.addEdge(i + 1 + n, 2 * n + 1, {i < 2 ? 2: 5ll << (i - 2), 0});
-	}
-	return res;
-}
-
-#endif
+//============================================================================//
+// graph_gen.h                                                                //
+//============================================================================//
+// This header can be used to Generate graphs. We support:                    //
+// - directed, undirected and weighted graphs                                 //
+// - uniform tree sampling                                                    //
+// - erdös renyi random graphs                                                //
+// - random graphs with a given degree sequence                               //
+// - random graphs with a power low distribution                              //
+// - various operations to construct graphs                                   //
+// This header requires validate.h zo to generate random graphs in a          //
+// deterministic and reproducable fashion.                                    //
+//============================================================================//
+//version 1.0.11                                                              //
+//https://github.com/mzuenni/icpc-header                                      //
+//============================================================================//
+
+#ifndef GRAPH_GENERATOR_H
+#define GRAPH_GENERATOR_H
+
+#include <cassert>
+#include <cstddef>
+#include <deque>
+#include <iostream>
+#include <ostream>
+#include <optional>
+#include <ostream>
+#include <queue>
+#include <random>
+#include <set>
+#include <utility>
+#include <ranges>
+#include <vector>
+#include "validate.h"
+
+namespace GraphDetail {
+	struct NoData final {};
+	constexpr NoData NOTHING;
+
+	// EdgeWrapper may be returned by some function
+	template<typename E, typename = void>
+	struct EdgeWrapper final {
+		const Integer from, to;
+		E& data;
+		EdgeWrapper(Integer from_, Integer to_, E& data_) : from(from_), to(to_), data(data_) {}
+
+		E& operator*() {
+			return data;
+		}
+		const E& operator*() const {
+			return data;
+		}
+
+		friend std::ostream& operator<<(std::ostream& os, const EdgeWrapper& e) {
+			os << e.from << " " << e.to;
+			os << " " << *e;
+			return os;
+		}
+
+		friend OutputStream& operator<<(OutputStream& os, const EdgeWrapper& e) {
+			os << e.from << " " << e.to;
+			os << " " << *e;
+			return os;
+		}
+	};
+	template<typename E>
+	struct EdgeWrapper<E, typename std::enable_if_t<std::is_same_v<std::remove_cv_t<E>, NoData>>> final {
+		const Integer from, to;
+		EdgeWrapper(Integer from_, Integer to_) : from(from_), to(to_) {}
+		EdgeWrapper(Integer from_, Integer to_, E& /**/) : EdgeWrapper(from_, to_) {}
+
+		E& operator*() const {return NOTHING;}
+
+		friend std::ostream& operator<<(std::ostream& os, const EdgeWrapper& e) {
+			os << e.from << " " << e.to;
+			return os;
+		}
+
+		friend OutputStream& operator<<(OutputStream& os, const EdgeWrapper& e) {
+			os << e.from << " " << e.to;
+			return os;
+		}
+	};
+
+	// EdgeType is the internel representation of an edge that should never get exposed!
+	template<typename E>
+	struct EdgeType final {
+		// we use key(from, to) = from^to for efficiency
+		// the key function must have the following properties:
+		// key(a, b) == key(b, a)
+		// to1 != to2 <=> key(from, to1) != key(from, to2)
+		// from1 != from2 <=> key(from1, to) != key(from2, to)
+		Integer fromXorTo, to;
+		E data;
+		EdgeType(Integer fromXorTo_, Integer to_, const E& data_) : fromXorTo(fromXorTo_), to(to_), data(data_) {}
+		EdgeType(Integer fromXorTo_, Integer to_, E&& data_) : fromXorTo(fromXorTo_), to(to_), data(std::forward<E>(data_)) {}
+	};
+
+	template<typename E>
+	struct EdgePointerCompair final {
+		using is_transparent = std::true_type;
+		constexpr bool operator()(const EdgeType<E>* t, const EdgeType<E>* u) const {
+			return t->fromXorTo < u->fromXorTo;
+		}
+		constexpr bool operator()(const EdgeType<E>* t, Integer u) const {
+			return t->fromXorTo < u;
+		}
+		constexpr bool operator()(Integer t, const EdgeType<E>* u) const {
+			return t < u->fromXorTo;
+		}
+	};
+
+	template<typename E, bool DIR>
+	class GraphType final {
+		// do not change!
+		static constexpr Integer DEFAULT_MIN_ID = 0;
+
+		template<typename, bool> friend class GraphType;
+		using EdgeTypeValue = E;
+		using Edge = EdgeWrapper<E>;
+		using ConstEdge = EdgeWrapper<const E>;
+		using InternalEdge = EdgeType<E>;
+		using Graph = GraphType<E, DIR>;
+
+		std::deque<std::set<InternalEdge*, EdgePointerCompair<E>>> adj;
+		std::deque<InternalEdge> edges;
+		Integer minId;
+
+		inline void assertNode(Integer id) const {
+			if (id < minId or id >= minId + nodeCount()) {
+				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [" + std::to_string(minId) + ", " + std::to_string(minId + nodeCount()) + ") !");
+			}
+		}
+
+		auto addEdge(InternalEdge* e) {
+			Integer from = e->fromXorTo ^ e->to;
+			Integer to = e->to;
+			if constexpr (!DIR) if (from != to) adj[to - minId].emplace(e);
+			return adj[from - minId].emplace(e).first;
+		}
+
+		void emplaceEdge(Integer from, Integer to, const E& data = {}) {
+			edges.emplace_back(from ^ to, to, data);
+		}
+
+		void buildAdj() {
+			for (auto& e : edges) addEdge(&e);
+		}
+	public:
+		// construct empty graph with vertices in [from, to)
+		explicit GraphType(Integer from, Integer to) :
+			adj(to - from),
+			minId(from) {
+			judgeAssert<std::invalid_argument>(from <= to, "Graph::from must not be greater than to!");
+		}
+		// construct empty graph with vertices in [0, n)
+		explicit GraphType(Integer n = 0) :
+			GraphType(DEFAULT_MIN_ID, n) {}
+
+		// copy graphs without breaking pointers
+		GraphType(const Graph& o) :
+			adj(o.size()),
+			edges(o.edges),
+			minId(o.minId) {
+			buildAdj();
+		}
+		Graph& operator=(const Graph& o) {
+			if (&o != this) {
+				adj.clear();
+				adj.resize(o.size());
+				edges = o.edges;
+				minId = o.minId;
+				buildAdj();
+			}
+			return *this;
+		}
+		Graph copy() const {
+			return *this;
+		}
+
+		//basic graph parameters
+		std::size_t size() const {
+			return adj.size();
+		}
+
+		Integer nodeCount() const {
+			return static_cast<Integer>(adj.size());
+		}
+
+		Integer edgeCount() const {
+			return static_cast<Integer>(edges.size());
+		}
+
+		Integer degree(Integer id) const {
+			assertNode(id);
+			return static_cast<Integer>(adj[id - minId].size());
+		}
+
+		Integer getMinId() const {
+			return minId;
+		}
+
+		Graph& setMinId(Integer newminId) {
+			for (auto& n : adj) n.clear();
+			for (auto& e : edges) {
+				Integer from = e.fromXorTo ^ e.to;
+				Integer to = e.to;
+				from = from - minId + newminId;
+				to = to - minId + newminId;
+				e.fromXorTo = from ^ to;
+				e.to = to;
+			}
+			minId = newminId;
+			buildAdj();
+			return *this;
+		}
+
+		Integer getNextId() const {
+			return minId + nodeCount();
+		}
+
+		Graph& normalize() {
+			return setMinId(DEFAULT_MIN_ID);
+		}
+
+		Graph range(Integer from, Integer to) const {
+			judgeAssert<std::invalid_argument>(from <= to, "Graph: from must not be greater than to!");
+			Graph res(from, to);
+			from = std::max(static_cast<Integer>(0), from - minId);
+			to = std::min(nodeCount(), to - minId);
+			for (const auto& e : getEdges()) {
+				if (e.from >= from and e.from < to and e.to >= from and e.to < to) {
+					res.addEdge(e.from, e.to, e.data);
+				}
+			}
+			return res;
+		}
+
+		// basic graph operations
+		std::optional<Edge> findEdge(Integer from, Integer to) & {
+			assertNode(from);
+			assertNode(to);
+			auto it = adj[from - minId].find(from ^ to);
+			if (it != adj[from - minId].end()) {
+				return Edge(from, to, (*it)->data);
+			} else {
+				return {};
+			}
+		}
+
+		std::optional<ConstEdge> findEdge(Integer from, Integer to) const & {
+			assertNode(from);
+			assertNode(to);
+			auto it = adj[from - minId].find(from ^ to);
+			if (it != adj[from - minId].end()) {
+				return ConstEdge(from, to, (*it)->data);
+			} else {
+				return {};
+			}
+		}
+
+		// ids may change!
+		Edge getEdgeById(std::size_t id) & {
+			if (id >= edges.size()) {
+				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [0, " + std::to_string(edges.size()) + ") !");
+			}
+			return Edge(edges[id].fromXorTo ^ edges[id].to, edges[id].to, edges[id].data);
+		}
+
+		ConstEdge getEdgeById(std::size_t id) const & {
+			if (id >= edges.size()) {
+				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [0, " + std::to_string(edges.size()) + ") !");
+			}
+			return ConstEdge(edges[id].fromXorTo ^ edges[id].to, edges[id].to, edges[id].data);
+		}
+
+		bool hasEdge(Integer from, Integer to) const {
+			assertNode(from);
+			assertNode(to);
+			return adj[from - minId].find(from ^ to) != adj[from - minId].end();
+		}
+
+		Edge addEdge(Integer from, Integer to, const E& data = {}) & {
+			assertNode(from);
+			assertNode(to);
+			judgeAssert(from != to, "Graph: invalid selfloop!");
+			auto it = adj[from - minId].find(from ^ to);
+			if (it == adj[from - minId].end()) {
+				emplaceEdge(from, to, data);
+				it = addEdge(&(edges.back()));
+			} else {
+				(*it)->data = data;
+			}
+			return Edge(from, to, (*it)->data);
+		}
+
+		bool eraseEdge(Integer from, Integer to) {
+			assertNode(from);
+			assertNode(to);
+			auto it = adj[from - minId].find(from ^ to);
+			if (it != adj[from - minId].end()) {
+				InternalEdge* a = *it;
+				InternalEdge* b = &(edges.back());
+				adj[from - minId].erase(a);
+				if constexpr (!DIR) adj[to - minId].erase(a);
+				from = b->fromXorTo ^ b->to;
+				to = b->to;
+				adj[from - minId].erase(b);
+				if constexpr (!DIR) adj[to - minId].erase(b);
+				std::swap(*a, *b);
+				edges.pop_back();
+				if (a != b) addEdge(a);
+				return true;
+			} else {
+				return false;
+			}
+		}
+
+		bool eraseEdge(const Edge& edge) {
+			return eraseEdge(edge.from, edge.to);
+		}
+
+		std::ranges::view auto getEdges() const & {
+			return std::views::all(edges)
+				 | std::views::transform([](const InternalEdge& edge){
+				return ConstEdge(edge.fromXorTo ^ edge.to, edge.to, edge.data);
+			});
+		}
+
+		std::ranges::view auto getEdges() & {
+			return std::views::all(edges)
+				 | std::views::transform([](InternalEdge& edge){
+				return Edge(edge.fromXorTo ^ edge.to, edge.to, edge.data);
+			});
+		}
+
+		std::ranges::view auto operator[](Integer id) const & {
+			assertNode(id);
+			return std::views::all(adj[id-minId])
+				 | std::views::transform([id](InternalEdge* edge){
+				return ConstEdge(id, edge->fromXorTo ^ id, edge->data);
+			});
+		}
+
+		std::ranges::view auto operator[](Integer id) & {
+			assertNode(id);
+			return std::views::all(adj[id-minId])
+				 | std::views::transform([id](InternalEdge* edge){
+				return Edge(id, edge->fromXorTo ^ id, edge->data);
+			});
+		}
+
+		std::ranges::view auto getDegrees() const & {
+			return std::views::all(adj)
+				 | std::views::transform([](auto& n){
+				return n.size();
+			});
+		}
+
+		// more basic graph operations
+		Graph& combine(const Graph& o) {
+			if (&o != this) {
+				while (minId > o.minId) {
+					minId--;
+					adj.emplace_front();
+				}
+				while (minId + nodeCount() < o.minId + o.nodeCount()) {
+					adj.emplace_back();
+				}
+				for (const auto& e : o.edges) {
+					addEdge(e.fromXorTo ^ e.to, e.to, e.data);
+				}
+			}
+			return *this;
+		}
+
+		Graph& append(const Graph& o) {
+			//assert(&o != this); // should work
+			Integer diff = nodeCount() + minId - o.minId;
+			adj.resize(nodeCount() + o.nodeCount());
+			for (std::size_t i = 0, j = o.edges.size(); i < j; i++) {
+				Integer to = o.edges[i].to;
+				Integer from = o.edges[i].fromXorTo ^ to;
+				addEdge(from + diff, to + diff, o.edges[i].data);
+			}
+			return *this;
+		}
+
+		Graph& permutateEdges() {
+			for (auto& n : adj) n.clear();
+			Random::shuffle(edges.begin(), edges.end());
+			if constexpr(!DIR) {
+				for (auto& e : edges) {
+					if (Random::bit()) {
+						e.to ^= e.fromXorTo;
+					}
+				}
+			}
+			buildAdj();
+			return *this;
+		}
+
+		Graph& permutate(const std::vector<Integer>& perm) {
+			judgeAssert<std::invalid_argument>(isPerm(perm, minId), "Graph: not a permutation");
+			for (auto& n : adj) n.clear();
+			Random::shuffle(edges.begin(), edges.end());
+			for (auto& e : edges) {
+				if constexpr (!DIR) {
+					if (Random::bit()) {
+						e.to ^= e.fromXorTo;
+					}
+				}
+				e.fromXorTo ^= e.to;
+				e.fromXorTo = perm[e.fromXorTo - minId];
+				e.to = perm[e.to - minId];
+				e.fromXorTo ^= e.to;
+			}
+			buildAdj();
+			return *this;
+		}
+
+		Graph& permutate() {
+			std::vector<Integer> perm(size());
+			std::iota(perm.begin(), perm.end(), minId);
+			Random::shuffle(perm.begin(), perm.end());
+			return permutate(perm);
+		}
+
+		Graph subgraph(Integer m) const {
+			if (m >= edgeCount()) return *this;
+			Graph res(minId, minId + nodeCount());
+			auto todo = Random::distinct(m, 0, edgeCount());
+			for (auto id : todo) res.edges.emplace_back(edges[id]);
+			res.buildAdj();
+			return res;
+		}
+
+		GraphType<E, true>& reverse() {
+			static_assert(DIR, "Graph: reverse() is only available on directed graphs!");
+			for (auto& n : adj) n.clear();
+			for (auto& e : edges) {
+				e.to ^= e.fromXorTo;
+			}
+			buildAdj();
+			return *this;
+		}
+
+		GraphType<E, false> undirected() const {
+			static_assert(DIR, "Graph: undirected() is only available on directed graphs!");
+			GraphType<E, false> res(minId, minId + nodeCount());
+			for (const auto e : getEdges()) {
+				res.addEdge(e.from, e.to, *e);
+			}
+			return res;
+		}
+
+		template<typename PRED>
+		GraphType<E, true> directed(const PRED&& p) const {
+			static_assert(!DIR, "Graph: directed() is only available on undirected graphs!");
+			GraphType<E, true> res(minId, minId + nodeCount());
+			for (const auto& e : getEdges()) {
+				if constexpr (std::is_invocable_r_v<bool, PRED, Integer, Integer, const E&>) {
+					if (p(e.from, e.to, *e)) res.emplaceEdge(e.from, e.to, *e);
+					if (p(e.to, e.from, *e)) res.emplaceEdge(e.to, e.from, *e);
+				} else {
+					static_assert(std::is_invocable_r_v<bool, PRED, Integer, Integer>, "Graph: pred has wrong signature!");
+					if (p(e.from, e.to)) res.emplaceEdge(e.from, e.to, *e);
+					if (p(e.to, e.from)) res.emplaceEdge(e.to, e.from, *e);
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		GraphType<E, true> directed() const {
+			return directed([](Integer /**/, Integer /**/){
+				return true;
+			});
+		}
+
+		Graph complement() const {
+			Graph res(minId, minId + nodeCount());
+			for (Integer i = 0; i < nodeCount(); i++) {
+				for (Integer j = 0; j < i; j++) {
+					if (!hasEdge(i + minId, j + minId)) {
+						res.emplaceEdge(i + minId, j + minId);
+					}
+					if constexpr (DIR) {
+						if (!hasEdge(j + minId, i + minId)) {
+							res.emplaceEdge(j + minId, i + minId);
+						}
+					}
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		// advanced graph operations
+		Graph power(Integer k) const {
+			Graph res(minId, minId + nodeCount());
+			std::vector<bool> seen(nodeCount());
+			for (Integer i = 0; i < nodeCount(); i++) {
+				std::vector<std::pair<Integer, Integer>> queue = {{i, 0}};
+				for (std::size_t j = 0; j < queue.size(); j++) {
+					auto [c, d] = queue[j];
+					if (d < k) {
+						for (const auto& e : (*this)[c + minId]) {
+							if (!seen[e.to - minId]) {
+								seen[e.to - minId] = true;
+								queue.emplace_back(e.to - minId, d + 1);
+							}
+						}
+					}
+				}
+				for (auto [c, d] : queue) {
+					seen[c] = false;
+					if (i != c) {
+						res.emplaceEdge(i + minId, c + minId);
+					}
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		Graph& transitiveClosure() const {
+			return power(nodeCount());
+		}
+
+		Graph product(const Graph& o) const {
+			static_assert(!DIR, "Graph: product() is only available on undirected graphs!");
+			Graph res(nodeCount() * o.nodeCount());
+			auto newId = [&](Integer a, Integer b){
+				return (b - o.minId) * nodeCount() + (a - minId);
+			};
+			for (const auto& e1 : getEdges()) {
+				for (const auto& e2 : o.getEdges()) {
+					res.emplaceEdge(newId(e1.from, e2.from), newId(e1.to, e2.to));
+					res.emplaceEdge(newId(e1.from, e2.to), newId(e1.to, e2.from));
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		Graph cartesian(const Graph& o) const {
+			Graph res(nodeCount() * o.nodeCount());
+			auto newId = [&](Integer a, Integer b){
+				return (b-o.minId) * nodeCount() + (a-minId);
+			};
+			for (const auto& e : o.getEdges()) {
+				for (Integer i = 0; i < nodeCount(); i++) {
+					Integer from = newId(i + minId, e.from);
+					Integer to = newId(i + minId, e.to);
+					res.emplaceEdge(from, to);
+				}
+			}
+			for (const auto& e : getEdges()) {
+				for (Integer i = 0; i < o.nodeCount(); i++) {
+					Integer from = newId(e.from, i + o.minId);
+					Integer to = newId(e.to, i + o.minId);
+					res.emplaceEdge(from, to);
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		Graph strongProduct(const Graph& o) const {
+			static_assert(!DIR, "Graph: product() is only available on undirected graphs!");
+			return o.cartesian(*this).combine(o.product(*this));
+		}
+
+		Graph lineGraph() const {
+			Graph tmp(minId, minId + nodeCount());
+			Integer nextEdge = 0;
+			for (const auto& e : getEdges()) {
+				tmp.emplaceEdge(e.from, e.to, nextEdge);
+				nextEdge++;
+			}
+			tmp.buildAdj();
+			Graph res(nextEdge);
+			for (const auto& e1 : tmp.getEdges()) {
+				if constexpr (DIR) {
+					for (const auto& e2 : tmp[e1.to]) {
+						res.emplaceEdge(*e1, *e2);
+					}
+				} else {
+					for (const auto& e2 : tmp[e1.to]) {
+						if (*e1 < *e2) res.emplaceEdge(*e1, *e2);
+					}
+					for (const auto& e2 : tmp[e1.from]) {
+						if (*e1 < *e2) res.emplaceEdge(*e1, *e2);
+					}
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		friend std::ostream& operator<<(std::ostream& os, const Graph& g) {
+			os << g.nodeCount() << " " << g.edgeCount();
+			for (const auto& e : g.getEdges()) os << '\n' << e;
+			return os;
+		}
+
+		friend OutputStream& operator<<(OutputStream& os, const Graph& g) {
+			os << g.nodeCount() << " " << g.edgeCount();
+			for (const auto& e : g.getEdges()) os << '\n' << e;
+			return os;
+		}
+
+	};
+} // GraphDetail
+
+using NoData = GraphDetail::NoData;
+
+template<typename E = GraphDetail::NoData>
+using Edge = GraphDetail::EdgeWrapper<E>;
+
+template<typename E = GraphDetail::NoData>
+using Graph = GraphDetail::GraphType<E, false>;
+
+template<typename E = GraphDetail::NoData>
+using DiGraph = GraphDetail::GraphType<E, true>;
+
+// n independed vertices in range [0, n)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> independent(Integer n) {
+	return GraphDetail::GraphType<E, DIR>(n);
+}
+
+// n connected vertices in range [0, n)
+// if directed all edges go from i to j with i < j
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> clique(Integer n) {
+	// could be implemented as linegraph of a star.
+	GraphDetail::GraphType<E, DIR> res(n);
+	for (Integer j = 0; j < n; j++) {
+		for (Integer i = 0; i < j; i++) {
+			res.addEdge(i, j);
+		}
+	}
+	return res;
+}
+
+// complete bipartite graph with partition [0, n) and [n, n+m)
+// if directed all edges go from [0, n) to [n, n+m)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> bipartite(Integer n, Integer m) {
+	GraphDetail::GraphType<E, DIR> res(n+m);
+	for (Integer i = 0; i < n; i++) {
+		for (Integer j = 0; j < m; j++) {
+			res.addEdge(i, n + j);
+		}
+	}
+	return res;
+}
+
+// generate a random bipartite graph (like Erdös-Renyi) with partitions [0, n) and [n, n+m)
+// each edge exists with a given number of edges k
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Integer k) {
+	GraphDetail::GraphType<E, DIR> res(n+m);
+	Integer lim = n * m;
+	if constexpr (DIR) lim *= 2;
+	auto edges = Random::distinct(k, 0, lim);
+	for (Integer x : edges) {
+		Integer i = x % n;
+		Integer j = x / n + n;
+		if constexpr(DIR) {
+			if (x >= n * m) {
+				j -= m;
+				std::swap(i, j);
+			}
+		}
+		res.addEdge(i, j);
+	}
+	return res;
+}
+
+// generate a random bipartite graph (like Erdös-Renyi) with partitions [0, n) and [n, n+m)
+// each edge exists with probability p
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Real p) {
+	return randomBipartite<E, DIR>(n, m, Random::binomial(n * m, p));
+}
+
+// star with root = 0 and chilrden [1, leaves]
+// if directed all edges go the root to [1, leaves)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> star(Integer leaves) {
+	return bipartite<E, DIR>(1, leaves);
+}
+
+// path 0-1-2-...-edges with vertices [0, edges]
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> path(Integer edges) {
+	GraphDetail::GraphType<E, DIR> res(edges+1);
+	for (Integer i = 0; i < edges; i++) {
+		res.addEdge(i, i + 1);
+	}
+	return res;
+}
+
+// path 0-1-2-...-n-1-0 with vertices [0, n)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> cycle(Integer n) {
+	auto p = path<E>(n-1);
+	p.addEdge(n - 1, 0);
+	return p;
+}
+
+// wheel with root = 1 and outer vertices 1-2-...-outer-1 with vertices [0, outer]
+template<typename E = NoData>
+Graph<E> wheel(Integer outer) {
+	return star<E>(outer).combine(cycle<E>(outer).setMinId(1));
+}
+
+// lolly graph with a path with p edges [0, p] and a clique [p, p+c) and
+// p is the vertex where clique and path are connected
+template<typename E = NoData>
+Graph<E> lolly(Integer p, Integer c) {
+	return path<E>(p).combine(clique<E>(c).setMinId(p));
+}
+
+// broom graph with a path with p edges [0, p] and a star [p, p+l]
+// p is the vertex where star and path are connected
+template<typename E = NoData>
+Graph<E> broom(Integer p, Integer l) {
+	return path<E>(p).combine(star<E>(l).setMinId(p));
+}
+
+// n times m grid
+// 0-1-...-n-1
+// | |      |
+// n- ... -2*n-1
+// |        |
+// .        .
+//          |
+//        -n*m-1
+template<typename E = NoData>
+Graph<E> grid(Integer n, Integer m) {
+	return path<E>(n-1).cartesian(path<E>(m-1));
+}
+template<typename E = NoData>
+Graph<E> grid(Integer n) {
+	return grid<E>(n, n);
+}
+
+// n dimensional hyper cube with vertices [0, 2^dimension)
+// a-b <=> |a^b|=1
+template<typename E = NoData>
+Graph<E> hypercube(Integer dimension) {
+	if (dimension < 2) return clique<E>(dimension+1);
+	return hypercube<E>(dimension-1).cartesian(clique<E>(2));
+}
+
+// complete tree with root at 0 and all subtrees are consecutive
+// vertices in [0, (children^{level+1}-1)/(children-1))
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> completeTree(Integer level, Integer children = 2) {
+	if (level <= 2) return star<E, DIR>(children);
+	GraphDetail::GraphType<E, DIR> res(1);
+	GraphDetail::GraphType<E, DIR> sub = completeTree<E, DIR>(level - 1, children);
+	for (Integer i = 0; i < children; i++) {
+		Integer next = res.nodeCount();
+		res.append(sub);
+		res.addEdge(0, next);
+	}
+	return res;
+}
+
+
+// complete boolean lattice i->j <=> i|j==j
+// vertices in [0, 2^level)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> booleanLattice(Integer level) {
+	GraphDetail::GraphType<E, DIR> res(1 << level);
+	for (Integer i = 0; i < res.nodeCount(); i++) {
+		for (Integer j = 1; j < res.nodeCount(); j*=2) {
+			if ((i | j) == i) {
+				res.addEdge(i, i^j);
+			}
+		}
+	}
+	return res;
+}
+
+// prefix of the rado graph i->j <=> i<j and j[i] == true;
+// vertices in [0, n)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> rado(Integer n) {
+	GraphDetail::GraphType<E, DIR> res(n);
+	for (Integer i = 0; i < n; i++) {
+		for (Integer j = 0; (1 << j) < i; j++) {
+			if ((i | (1 << j)) == i) {
+				res.addEdge(i, j);
+			}
+		}
+	}
+	return res;
+}
+
+// generate a tree from a pruefer code
+// values should be in [0, sz(code)+2)
+template<typename E = NoData>
+Graph<E> pruefer(const std::vector<Integer>& code) {
+	Graph<E> res(code.size() + 2);
+	std::vector<Integer> count(res.nodeCount());
+	for (Integer x : code) count[x]++;
+	Integer current = -1;
+	Integer skip = -1;
+	auto getNext = [&](){
+		Integer oldSkip = skip;
+		skip = -1;
+		if (0 <= oldSkip and oldSkip <= current) return oldSkip;
+		for (current++; count[current] > 0; current++) {}
+		return current;
+	};
+	for (Integer x : code) {
+		Integer y = getNext();
+		res.addEdge(x, y);
+		count[x]--;
+		if (count[x] == 0) skip = x;
+	}
+	Integer x = getNext();
+	Integer y = getNext();
+	res.addEdge(x, y);
+	return res;
+}
+
+// generate a random tree with vertices [0, n)
+// if directed 0 is the root
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> randomTree(Integer n) {
+	if constexpr (!DIR) {
+		if (n <= 2) return clique<E>(n);
+		std::vector<Integer> code(n - 2);
+		for (Integer& x : code) x = Random::integer(n);
+		return pruefer<E>(code);
+	} else {
+		Graph<NoData> tmp = randomTree<NoData, false>(n);
+		DiGraph<E> res(n);
+		auto dfs = [&tmp, &res](auto&& self, Integer cur, Integer pref) -> void {
+			for (auto edge : tmp[cur]) {
+				if (edge.to == pref) continue;
+				res.addEdge(cur, edge.to);
+				self(self, edge.to, cur);
+			}
+		};
+		dfs(dfs, tmp.getMinId(), tmp.getMinId() - 1);
+		return res;
+	}
+}
+
+// generate a random graph (Erdös-Renyi)
+// each edge exists with a given number of edges m
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Integer m) {
+	GraphDetail::GraphType<E, DIR> res(n);
+	Integer lim = n * (n-1);
+	if constexpr (!DIR) lim /= 2;
+	auto edges = Random::distinct(m, 0, lim);
+	for (Integer x : edges) {
+		Integer i = x / n;
+		Integer j = x % n;
+		if constexpr(DIR) {
+			if (i == j) i = n - 1;
+		} else {
+			if (j <= i) {
+				i = n - 2 - i;
+				j = n - 1 - j;
+			}
+		}
+		res.addEdge(i, j);
+	}
+	return res;
+}
+
+// generate a random graph (Erdös-Renyi)
+// each edge exists with probability p
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Real p) {
+	return randomGraph<E, DIR>(n, Random::binomial(n * (n - 1) / 2, p));
+}
+
+// generate a random graph with linear growing degrees
+template<typename E = NoData>
+Graph<E> randomGrowingGraph(Integer n, Real p) {
+	judgeAssert<std::domain_error>(0.0_real <= p and p <= 1.0_real, "randomGrowingGraph(): p must be in [0,1]!");
+	Graph<E> res(n);
+	for (Integer i = 0; i < n; i++) {
+		Integer deg = p * Random::real(0, i+1);
+		auto neighbours = Random::distinct(deg, 0, i);
+		for (Integer j : neighbours) res.addEdge(i, j);
+	}
+	return res;
+}
+
+// generate a random graph with a given degree sequence
+// (not uniform...)
+template<typename E = NoData>
+Graph<E> randomGraph(const std::vector<Integer>& degree, Integer averageFlips = 10) {
+	Graph<E> res(std::ssize(degree));
+	// havel hakimi in O(m*log(n))
+	std::priority_queue<std::pair<Integer, Integer>> pq;
+	for (Integer i = 0; i < std::ssize(degree); i++) {
+		if (degree[i] > 0) {
+			pq.emplace(degree[i], i);
+		}
+	}
+	while (!pq.empty()) {
+		auto [d, c] = pq.top();
+		pq.pop();
+		if (std::ssize(pq) < d or d < 0) {
+			throw std::invalid_argument("randomGraph(): Invalid degree sequence!");
+		}
+		std::vector<std::pair<Integer, Integer>> todo;
+		for (Integer i = 0; i < d; i++) {
+			auto [dd, cc] = pq.top();
+			pq.pop();
+			res.addEdge(c, cc);
+			dd--;
+			if (dd > 0) todo.emplace_back(dd, cc);
+		}
+		for (const auto& e : todo) pq.push(e);
+	}
+	// randomly flip edges O(m*log(n))
+	for (Integer i = 0; i < averageFlips*res.nodeCount(); i++) {
+		auto a = res.getEdgeById(Random::integer(res.edgeCount()));
+		auto b = res.getEdgeById(Random::integer(res.edgeCount()));
+		if (a.from == b.to or res.hasEdge(a.from, b.to)) continue;
+		if (b.from == a.to or res.hasEdge(b.from, a.to)) continue;
+		res.eraseEdge(a.from, a.to);
+		res.eraseEdge(b.from, b.to);
+		res.addEdge(a.from, b.to);
+		res.addEdge(b.from, a.to);
+	}
+	return res;
+}
+
+// generates a worstcase instance for Ford Fulkerson with dfs.
+// The graph contains 2*n vertices and has 2^n flow from 0 to 2*n-1.
+// Figure 2: https://people.computing.clemson.edu/~bcdean/iterm.pdf
+// Note that the specific order of edghes is required
+DiGraph<Integer> ffWorstcase(Integer n) {
+	judgeAssert(0 < n && n <= 63, "ffWorstcase(): n out of bounds");
+	DiGraph<Integer> res(2 * n);
+	res.addEdge(n-1, n, 1);
+	for (Integer i = n - 2, j = n+1, c = 1; j < 2 * n; i--, j++, c *= 2) {
+		res.addEdge(i, i+1, c);
+		res.addEdge(i, j-1, c);
+		res.addEdge(i+1, j, c);
+		res.addEdge(j-1, j, c);
+	}
+	return res;
+}
+
+// generates a worstcase instance for various min cost max flow algorithms.
+// The graph contains 2*n+2 vertices and has flow from 0 to 2*n+1.
+// Figure 4: https://link.springer.com/article/10.1007/BF01580132
+DiGraph<std::pair<Integer, Integer>> mcmfWorstcase(Integer n) {
+	judgeAssert(0 < n && n <= 60, "mcmfWorstcase(): n out of bounds");
+	DiGraph<std::pair<Integer, Integer>> res(2 * n + 2);
+	Integer inf = 5 * (1ll << n) / 4;
+	for (Integer i = 0; i < n; i++) {
+		res.addEdge(0, i + 1, {i < 2 ? 2 * i + 1 : 5ll << (i - 2), 0});
+	}
+	res.addEdge(1, n + 1, {inf, 0});
+	for (Integer i = 0; i < n; i++) {
+		for (Integer j = 0; j < n; j++) {
+			if (i == j) continue;
+			res.addEdge(i + 1, j + 1 + n, {inf, (1ll << std::max(i, j)) - 1});
+		}
+	}
+	for (Integer i = 0; i < n; i++) {
+		res.addEdge(i + 1 + n, 2 * n + 1, {i < 2 ? 2: 5ll << (i - 2), 0});
+	}
+	return res;
+}
+
+#endif
-- 
2.43.0


From e85c4eedbae7936ec46bce3dd63dc25eab3fe887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:48 +0000
Subject: [PATCH 17/34] fix: rado() missed the edges of the highest bit of
 powers of two

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 36b7fa3..218d2a2 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -794,7 +794,7 @@ template<typename E = NoData, bool DIR = false>
 GraphDetail::GraphType<E, DIR> rado(Integer n) {
 	GraphDetail::GraphType<E, DIR> res(n);
 	for (Integer i = 0; i < n; i++) {
-		for (Integer j = 0; (1 << j) < i; j++) {
+		for (Integer j = 0; (1 << j) <= i; j++) {
 			if ((i | (1 << j)) == i) {
 				res.addEdge(i, j);
 			}
-- 
2.43.0


From 3a10e82a2ea8f880022b69a7a643507194df86b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:48 +0000
Subject: [PATCH 18/34] fix: Graph::power() inserted every undirected edge
 twice

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 218d2a2..320f994 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -515,7 +515,7 @@ namespace GraphDetail {
 				}
 				for (auto [c, d] : queue) {
 					seen[c] = false;
-					if (i != c) {
+					if (i < c or (DIR and i != c)) {
 						res.emplaceEdge(i + minId, c + minId);
 					}
 				}
-- 
2.43.0


From 72ac6c57eba3472b254796955c65f4514fae910a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:48 +0000
Subject: [PATCH 19/34] fix: Graph::transitiveClosure() did not compile

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 320f994..a326663 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -524,7 +524,7 @@ namespace GraphDetail {
 			return res;
 		}
 
-		Graph& transitiveClosure() const {
+		Graph transitiveClosure() const {
 			return power(nodeCount());
 		}
 
-- 
2.43.0


From b5c691abb90146a6f29d2ae8b30b018333bdb766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:48 +0000
Subject: [PATCH 20/34] fix: Graph::range() ignored minId and did not compile
 for graphs without edge data

---
 src/graph_gen.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index a326663..b929e2b 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -226,11 +226,9 @@ namespace GraphDetail {
 		Graph range(Integer from, Integer to) const {
 			judgeAssert<std::invalid_argument>(from <= to, "Graph: from must not be greater than to!");
 			Graph res(from, to);
-			from = std::max(static_cast<Integer>(0), from - minId);
-			to = std::min(nodeCount(), to - minId);
 			for (const auto& e : getEdges()) {
 				if (e.from >= from and e.from < to and e.to >= from and e.to < to) {
-					res.addEdge(e.from, e.to, e.data);
+					res.addEdge(e.from, e.to, *e);
 				}
 			}
 			return res;
-- 
2.43.0


From 57ad6433c4aa5f9cc5fc7f7b08d2a2e3d659a1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:48 +0000
Subject: [PATCH 21/34] fix: cycle() did not compile for directed graphs

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index b929e2b..21e6f37 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -705,7 +705,7 @@ GraphDetail::GraphType<E, DIR> path(Integer edges) {
 // path 0-1-2-...-n-1-0 with vertices [0, n)
 template<typename E = NoData, bool DIR = false>
 GraphDetail::GraphType<E, DIR> cycle(Integer n) {
-	auto p = path<E>(n-1);
+	auto p = path<E, DIR>(n-1);
 	p.addEdge(n - 1, 0);
 	return p;
 }
-- 
2.43.0


From 8e8a40f498c496df5c57f53d1586f0ff139f9ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:48 +0000
Subject: [PATCH 22/34] fix: fillRectangle() assigned instead of compared a
 coordinate and did not terminate

---
 src/visualizer_png.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/visualizer_png.h b/src/visualizer_png.h
index edc8d5b..875d86a 100644
--- a/src/visualizer_png.h
+++ b/src/visualizer_png.h
@@ -342,7 +342,7 @@ public:
 	void fillRectangle(const Point& a, const Point& b, const Color border, const Color& fill) {
 		for (Integer y = std::min(a.y, b.y); y <= std::max(a.y, b.y); y++) {
 			for (Integer x = std::min(a.x, b.x); x <= std::max(a.x, b.x); x++) {
-				if (y = a.y or y == b.y or x == a.x or x == b.x) {
+				if (y == a.y or y == b.y or x == a.x or x == b.x) {
 					colors[y][x] = details::combine<M>(colors[y][x], border);
 				} else {
 					colors[y][x] = details::combine<M>(colors[y][x], fill);
-- 
2.43.0


From 162e19a10989c5633b28959e26da9c75139a5464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:56 +0000
Subject: [PATCH 23/34] fix: Random::real() rounded its mantissa to double and
 could return 1

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index f2f8971..fe20c43 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1400,7 +1400,7 @@ namespace Random {
 			//count trailing (or leading) zeroes in x
 			exponent -= static_cast<int>(std::bitset<64>(~x & (x-1)).count());
 		} while (x == 0);
-		return std::ldexp(mantissa, exponent);
+		return std::ldexp(static_cast<Real>(mantissa), exponent);
 	}
 	Real real(Real upper) {// in [0, upper)
 		judgeAssert<std::domain_error>(std::isfinite(upper), "Random::real(): Upper must be finite!");
-- 
2.43.0


From 515a3bd4b5b8209e4aa7d10d1e39051a23109ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:07 +0000
Subject: [PATCH 24/34] fix: Random::geometric(lower, upper, p) overflowed for
 small p and left its range

---
 src/validate.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index fe20c43..6089813 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1480,8 +1480,10 @@ namespace Random {
 		while (true) {
 			// https://en.wikipedia.org/wiki/Geometric_distribution
 			// "The exponential distribution is the continuous analogue of the geometric distribution[...]"
-			Integer res = lower + std::llround(std::floor(std::log(real()) / std::log1p(-p)));
-			if (res < upper) return res;
+			Real res = std::floor(std::log(real()) / std::log1p(-p));
+			UInteger ul = static_cast<UInteger>(lower);
+			UInteger uu = static_cast<UInteger>(upper);
+			if (res < static_cast<Real>(uu - ul)) return static_cast<Integer>(ul + static_cast<UInteger>(res));
 		}
 	}
 
-- 
2.43.0


From fa36e68b36b90309fecbb43d51d712ae2e4641bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:53 +0000
Subject: [PATCH 25/34] fix: the streams of AnswerValidator, OutputValidator,
 Interactor and Multipass ignored the configured float tolerances

---
 src/validate.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 6089813..096d77b 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -2909,8 +2909,8 @@ namespace AnswerValidator {
 		ValidateBase::details::init(argc, argv);
 		juryOut = OutputStream(std::cout);
 
-		testIn = InputStream(std::filesystem::path(arguments[1]), false, caseSensitive, juryOut, Verdicts::FAIL);
-		ans = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA);
+		testIn = InputStream(std::filesystem::path(arguments[1]), false, caseSensitive, juryOut, Verdicts::FAIL, floatAbsTol, floatRelTol);
+		ans = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA, floatAbsTol, floatRelTol);
 		initConstraints();
 	}
 
@@ -2932,9 +2932,9 @@ namespace OutputValidator {
 		juryOut = OutputStream(std::filesystem::path(arguments[3]) / JUDGE_MESSAGE, MESSAGE_MODE);
 		teamOut = OutputStream(std::filesystem::path(arguments[3]) / TEAM_MESSAGE, MESSAGE_MODE);
 
-		testIn = InputStream(std::filesystem::path(arguments[1]), false, caseSensitive, juryOut, Verdicts::FAIL);
-		juryAns = InputStream(std::filesystem::path(arguments[2]), false, caseSensitive, juryOut, Verdicts::FAIL);
-		teamAns = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA);
+		testIn = InputStream(std::filesystem::path(arguments[1]), false, caseSensitive, juryOut, Verdicts::FAIL, floatAbsTol, floatRelTol);
+		juryAns = InputStream(std::filesystem::path(arguments[2]), false, caseSensitive, juryOut, Verdicts::FAIL, floatAbsTol, floatRelTol);
+		teamAns = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA, floatAbsTol, floatRelTol);
 		initConstraints();
 	}
 
@@ -2956,8 +2956,8 @@ namespace Interactor {
 		teamOut = OutputStream(std::filesystem::path(arguments[3]) / TEAM_MESSAGE, MESSAGE_MODE);
 		toTeam = OutputStream(std::cout);
 
-		testIn = InputStream(std::filesystem::path(arguments[1]), false, caseSensitive, juryOut, Verdicts::FAIL);
-		fromTeam = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA);
+		testIn = InputStream(std::filesystem::path(arguments[1]), false, caseSensitive, juryOut, Verdicts::FAIL, floatAbsTol, floatRelTol);
+		fromTeam = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA, floatAbsTol, floatRelTol);
 	}
 
 } // namespace Interactor
@@ -2987,7 +2987,7 @@ namespace Multipass {
 			if ((pass & 1) != 0) {
 				std::swap(nextfile, prevfile);
 			}
-			prevstate = InputStream(std::filesystem::path(arguments[3]) / prevfile, false, true, juryOut, Verdicts::FAIL);
+			prevstate = InputStream(std::filesystem::path(arguments[3]) / prevfile, false, true, juryOut, Verdicts::FAIL, floatAbsTol, floatRelTol);
 		} else {
 			pass = 0;
 		}
-- 
2.43.0


From c35a5978c690128afde56ca7a7b92987fc2ce6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:55 +0000
Subject: [PATCH 26/34] fix: directed randomGraph(n, p) and randomBipartite(n,
 m, p) drew at most half of the possible edges

---
 src/graph_gen.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 21e6f37..b7c7b2c 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -682,7 +682,9 @@ GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Integer k)
 // each edge exists with probability p
 template<typename E = NoData, bool DIR = false>
 GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Real p) {
-	return randomBipartite<E, DIR>(n, m, Random::binomial(n * m, p));
+	Integer lim = n * m;
+	if constexpr (DIR) lim *= 2;
+	return randomBipartite<E, DIR>(n, m, Random::binomial(lim, p));
 }
 
 // star with root = 0 and chilrden [1, leaves]
@@ -881,7 +883,9 @@ GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Integer m) {
 // each edge exists with probability p
 template<typename E = NoData, bool DIR = false>
 GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Real p) {
-	return randomGraph<E, DIR>(n, Random::binomial(n * (n - 1) / 2, p));
+	Integer lim = n * (n-1);
+	if constexpr (!DIR) lim /= 2;
+	return randomGraph<E, DIR>(n, Random::binomial(lim, p));
 }
 
 // generate a random graph with linear growing degrees
-- 
2.43.0


From 0c479a30a403d0136b1dea01ca58c28e498d371a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:56 +0000
Subject: [PATCH 27/34] fix: Random::binomial(n, p) overflowed for tiny p and
 returned values above n

---
 src/validate.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 096d77b..fc8600f 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1500,8 +1500,9 @@ namespace Random {
 			Real lg = std::log1p(-p);
 			if (lg >= 0) return swap ? n : 0;
 			do {
-				y += std::llround(std::floor(std::log(real()) / lg)) + 1;
-				if (y > n) return swap ? n - res : res;
+				Real skip = std::floor(std::log(real()) / lg);
+				if (skip >= n - y) return swap ? n - res : res;
+				y += std::llround(skip) + 1;
 				res++;
 			} while (true);
 		} else {
-- 
2.43.0


From 0f96ccc5d01e91ae1697ccbd815d8ff3d9662e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:56 +0000
Subject: [PATCH 28/34] fix: Random::minimum(lower, upper, n) overflowed for
 ranges longer than 2^63

---
 src/validate.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index fc8600f..c19259b 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1571,7 +1571,8 @@ namespace Random {
 	}
 
 	Integer minimum(Integer lower, Integer upper, Integer n) {// in [lower, upper)
-		return upper - 1 - maximum(0, upper - lower, n);
+		return static_cast<Integer>(static_cast<UInteger>(lower) + static_cast<UInteger>(upper) - 1 -
+		                            static_cast<UInteger>(maximum(lower, upper, n)));
 	}
 	Integer minimum(Integer upper, Integer n) {
 		return minimum(0, upper, n);
-- 
2.43.0


From 3116b310b9c7326fc41c76bb05c922a44a5dd0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:59 +0000
Subject: [PATCH 29/34] fix: isConvex() accepted polygons that wind around more
 than once

---
 src/validate.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index c19259b..e3305f2 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1193,6 +1193,11 @@ namespace details {
 		});
 	}
 
+	template<typename Point>
+	constexpr bool ascending(const Point& a, const Point& b) {
+		return getX(a) == getX(b) ? getY(a) < getY(b) : getX(a) < getX(b);
+	}
+
 	template<typename RandomIt>
 	constexpr std::size_t assertBounds(RandomIt first, RandomIt last) {
 		std::size_t n = 0;
@@ -1209,13 +1214,14 @@ constexpr bool isConvex(RandomIt first, RandomIt last) {
 	std::size_t n = details::assertBounds(first, last);
 	if (n < 3) return false;
 	bool hasArea = false;
+	std::size_t changes = 0; // more than two changes of direction => more than one turn around
 	for (std::size_t i = 0; i < n; i++) {
 		if (first[i] == first[(i+1) % n]) return false;
-		if (cross(first[0], first[i], first[(i+1) % n]) < 0) return false;
 		if (cross(first[i], first[(i+1) % n], first[(i+2) % n]) < 0) return false;
 		hasArea |= cross(first[i], first[(i+1) % n], first[(i+2) % n]) != 0;
+		changes += details::ascending(first[i], first[(i+1) % n]) != details::ascending(first[(i+1) % n], first[(i+2) % n]);
 	}
-	return hasArea;
+	return hasArea and changes == 2;
 }
 template<typename C>
 constexpr bool isConvex(const C& c) {
-- 
2.43.0


From eaebeb0173f87fe88564271025934991598f6da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:59 +0000
Subject: [PATCH 30/34] fix: isCCW() overflowed in between for spirals

---
 src/validate.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index e3305f2..df13982 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1314,9 +1314,9 @@ template<typename RandomIt>
 constexpr bool isCCW(RandomIt first, RandomIt last) {
 	std::size_t n = details::assertBounds(first, last);
 	if (n < 2) return false;
-	Integer area = cross(first[n-1], first[0]); // can't overflow
-	for (std::size_t i = 1; i < n; i++) area += cross(first[i-1], first[i]);
-	return area > 0;
+	UInteger area = static_cast<UInteger>(cross(first[n-1], first[0])); // can only overflow in between
+	for (std::size_t i = 1; i < n; i++) area += static_cast<UInteger>(cross(first[i-1], first[i]));
+	return static_cast<Integer>(area) > 0;
 }
 template<typename C>
 constexpr bool isCCW(const C& c) {
-- 
2.43.0


From 2db7c03f5a83a291b2c2a39f8ce9d0389000c788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:45 +0000
Subject: [PATCH 31/34] fix: isSimple() accepted polygons whose consecutive
 edges overlap

---
 src/validate.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/validate.h b/src/validate.h
index df13982..cc7d5aa 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1276,6 +1276,8 @@ bool isSimple(RandomIt first, RandomIt last) {
 		bool swap = false;
 		Point a = first[i];
 		Point b = first[(i+1) % n];
+		Point c = first[(i+2) % n];
+		if (cross(a, b, c) == 0 and details::ascending(a, b) != details::ascending(b, c)) return false;
 		if (getX(a) > getX(b)) swap = true;
 		if (getX(a) == getX(b) and getY(a) > getY(b)) swap = true;
 		if (swap) std::swap(a, b);
-- 
2.43.0


From 9b7a856157d22ae2c8683eb7818021af9cc4b231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:11 +0000
Subject: [PATCH 32/34] fix: rado(): direct edges from the bit to the number
 containing it, as documented

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index b7c7b2c..45c7252 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -796,7 +796,7 @@ GraphDetail::GraphType<E, DIR> rado(Integer n) {
 	for (Integer i = 0; i < n; i++) {
 		for (Integer j = 0; (1 << j) <= i; j++) {
 			if ((i | (1 << j)) == i) {
-				res.addEdge(i, j);
+				res.addEdge(j, i);
 			}
 		}
 	}
-- 
2.43.0


From 439845317c3c674ac5eaef49b1571436b1bea694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:11 +0000
Subject: [PATCH 33/34] fix: completeTree(): build level levels below the root,
 as documented

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 45c7252..7278437 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -761,7 +761,7 @@ Graph<E> hypercube(Integer dimension) {
 // vertices in [0, (children^{level+1}-1)/(children-1))
 template<typename E = NoData, bool DIR = false>
 GraphDetail::GraphType<E, DIR> completeTree(Integer level, Integer children = 2) {
-	if (level <= 2) return star<E, DIR>(children);
+	if (level <= 1) return star<E, DIR>(level <= 0 ? 0 : children);
 	GraphDetail::GraphType<E, DIR> res(1);
 	GraphDetail::GraphType<E, DIR> sub = completeTree<E, DIR>(level - 1, children);
 	for (Integer i = 0; i < children; i++) {
-- 
2.43.0


From 80f9ce2ad4f8542672eee327627adcae83895a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:51 +0000
Subject: [PATCH 34/34] fix: restore the CRLF line endings of graph_gen.h that
 earlier fixes changed

---
 src/graph_gen.h | 1972 +++++++++++++++++++++++------------------------
 1 file changed, 986 insertions(+), 986 deletions(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 7278437..13441ec 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -1,986 +1,986 @@
-//============================================================================//
-// graph_gen.h                                                                //
-//============================================================================//
-// This header can be used to Generate graphs. We support:                    //
-// - directed, undirected and weighted graphs                                 //
-// - uniform tree sampling                                                    //
-// - erdös renyi random graphs                                                //
-// - random graphs with a given degree sequence                               //
-// - random graphs with a power low distribution                              //
-// - various operations to construct graphs                                   //
-// This header requires validate.h zo to generate random graphs in a          //
-// deterministic and reproducable fashion.                                    //
-//============================================================================//
-//version 1.0.11                                                              //
-//https://github.com/mzuenni/icpc-header                                      //
-//============================================================================//
-
-#ifndef GRAPH_GENERATOR_H
-#define GRAPH_GENERATOR_H
-
-#include <cassert>
-#include <cstddef>
-#include <deque>
-#include <iostream>
-#include <ostream>
-#include <optional>
-#include <ostream>
-#include <queue>
-#include <random>
-#include <set>
-#include <utility>
-#include <ranges>
-#include <vector>
-#include "validate.h"
-
-namespace GraphDetail {
-	struct NoData final {};
-	constexpr NoData NOTHING;
-
-	// EdgeWrapper may be returned by some function
-	template<typename E, typename = void>
-	struct EdgeWrapper final {
-		const Integer from, to;
-		E& data;
-		EdgeWrapper(Integer from_, Integer to_, E& data_) : from(from_), to(to_), data(data_) {}
-
-		E& operator*() {
-			return data;
-		}
-		const E& operator*() const {
-			return data;
-		}
-
-		friend std::ostream& operator<<(std::ostream& os, const EdgeWrapper& e) {
-			os << e.from << " " << e.to;
-			os << " " << *e;
-			return os;
-		}
-
-		friend OutputStream& operator<<(OutputStream& os, const EdgeWrapper& e) {
-			os << e.from << " " << e.to;
-			os << " " << *e;
-			return os;
-		}
-	};
-	template<typename E>
-	struct EdgeWrapper<E, typename std::enable_if_t<std::is_same_v<std::remove_cv_t<E>, NoData>>> final {
-		const Integer from, to;
-		EdgeWrapper(Integer from_, Integer to_) : from(from_), to(to_) {}
-		EdgeWrapper(Integer from_, Integer to_, E& /**/) : EdgeWrapper(from_, to_) {}
-
-		E& operator*() const {return NOTHING;}
-
-		friend std::ostream& operator<<(std::ostream& os, const EdgeWrapper& e) {
-			os << e.from << " " << e.to;
-			return os;
-		}
-
-		friend OutputStream& operator<<(OutputStream& os, const EdgeWrapper& e) {
-			os << e.from << " " << e.to;
-			return os;
-		}
-	};
-
-	// EdgeType is the internel representation of an edge that should never get exposed!
-	template<typename E>
-	struct EdgeType final {
-		// we use key(from, to) = from^to for efficiency
-		// the key function must have the following properties:
-		// key(a, b) == key(b, a)
-		// to1 != to2 <=> key(from, to1) != key(from, to2)
-		// from1 != from2 <=> key(from1, to) != key(from2, to)
-		Integer fromXorTo, to;
-		E data;
-		EdgeType(Integer fromXorTo_, Integer to_, const E& data_) : fromXorTo(fromXorTo_), to(to_), data(data_) {}
-		EdgeType(Integer fromXorTo_, Integer to_, E&& data_) : fromXorTo(fromXorTo_), to(to_), data(std::forward<E>(data_)) {}
-	};
-
-	template<typename E>
-	struct EdgePointerCompair final {
-		using is_transparent = std::true_type;
-		constexpr bool operator()(const EdgeType<E>* t, const EdgeType<E>* u) const {
-			return t->fromXorTo < u->fromXorTo;
-		}
-		constexpr bool operator()(const EdgeType<E>* t, Integer u) const {
-			return t->fromXorTo < u;
-		}
-		constexpr bool operator()(Integer t, const EdgeType<E>* u) const {
-			return t < u->fromXorTo;
-		}
-	};
-
-	template<typename E, bool DIR>
-	class GraphType final {
-		// do not change!
-		static constexpr Integer DEFAULT_MIN_ID = 0;
-
-		template<typename, bool> friend class GraphType;
-		using EdgeTypeValue = E;
-		using Edge = EdgeWrapper<E>;
-		using ConstEdge = EdgeWrapper<const E>;
-		using InternalEdge = EdgeType<E>;
-		using Graph = GraphType<E, DIR>;
-
-		std::deque<std::set<InternalEdge*, EdgePointerCompair<E>>> adj;
-		std::deque<InternalEdge> edges;
-		Integer minId;
-
-		inline void assertNode(Integer id) const {
-			if (id < minId or id >= minId + nodeCount()) {
-				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [" + std::to_string(minId) + ", " + std::to_string(minId + nodeCount()) + ") !");
-			}
-		}
-
-		auto addEdge(InternalEdge* e) {
-			Integer from = e->fromXorTo ^ e->to;
-			Integer to = e->to;
-			if constexpr (!DIR) if (from != to) adj[to - minId].emplace(e);
-			return adj[from - minId].emplace(e).first;
-		}
-
-		void emplaceEdge(Integer from, Integer to, const E& data = {}) {
-			edges.emplace_back(from ^ to, to, data);
-		}
-
-		void buildAdj() {
-			for (auto& e : edges) addEdge(&e);
-		}
-	public:
-		// construct empty graph with vertices in [from, to)
-		explicit GraphType(Integer from, Integer to) :
-			adj(to - from),
-			minId(from) {
-			judgeAssert<std::invalid_argument>(from <= to, "Graph::from must not be greater than to!");
-		}
-		// construct empty graph with vertices in [0, n)
-		explicit GraphType(Integer n = 0) :
-			GraphType(DEFAULT_MIN_ID, n) {}
-
-		// copy graphs without breaking pointers
-		GraphType(const Graph& o) :
-			adj(o.size()),
-			edges(o.edges),
-			minId(o.minId) {
-			buildAdj();
-		}
-		Graph& operator=(const Graph& o) {
-			if (&o != this) {
-				adj.clear();
-				adj.resize(o.size());
-				edges = o.edges;
-				minId = o.minId;
-				buildAdj();
-			}
-			return *this;
-		}
-		Graph copy() const {
-			return *this;
-		}
-
-		//basic graph parameters
-		std::size_t size() const {
-			return adj.size();
-		}
-
-		Integer nodeCount() const {
-			return static_cast<Integer>(adj.size());
-		}
-
-		Integer edgeCount() const {
-			return static_cast<Integer>(edges.size());
-		}
-
-		Integer degree(Integer id) const {
-			assertNode(id);
-			return static_cast<Integer>(adj[id - minId].size());
-		}
-
-		Integer getMinId() const {
-			return minId;
-		}
-
-		Graph& setMinId(Integer newminId) {
-			for (auto& n : adj) n.clear();
-			for (auto& e : edges) {
-				Integer from = e.fromXorTo ^ e.to;
-				Integer to = e.to;
-				from = from - minId + newminId;
-				to = to - minId + newminId;
-				e.fromXorTo = from ^ to;
-				e.to = to;
-			}
-			minId = newminId;
-			buildAdj();
-			return *this;
-		}
-
-		Integer getNextId() const {
-			return minId + nodeCount();
-		}
-
-		Graph& normalize() {
-			return setMinId(DEFAULT_MIN_ID);
-		}
-
-		Graph range(Integer from, Integer to) const {
-			judgeAssert<std::invalid_argument>(from <= to, "Graph: from must not be greater than to!");
-			Graph res(from, to);
-			for (const auto& e : getEdges()) {
-				if (e.from >= from and e.from < to and e.to >= from and e.to < to) {
-					res.addEdge(e.from, e.to, *e);
-				}
-			}
-			return res;
-		}
-
-		// basic graph operations
-		std::optional<Edge> findEdge(Integer from, Integer to) & {
-			assertNode(from);
-			assertNode(to);
-			auto it = adj[from - minId].find(from ^ to);
-			if (it != adj[from - minId].end()) {
-				return Edge(from, to, (*it)->data);
-			} else {
-				return {};
-			}
-		}
-
-		std::optional<ConstEdge> findEdge(Integer from, Integer to) const & {
-			assertNode(from);
-			assertNode(to);
-			auto it = adj[from - minId].find(from ^ to);
-			if (it != adj[from - minId].end()) {
-				return ConstEdge(from, to, (*it)->data);
-			} else {
-				return {};
-			}
-		}
-
-		// ids may change!
-		Edge getEdgeById(std::size_t id) & {
-			if (id >= edges.size()) {
-				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [0, " + std::to_string(edges.size()) + ") !");
-			}
-			return Edge(edges[id].fromXorTo ^ edges[id].to, edges[id].to, edges[id].data);
-		}
-
-		ConstEdge getEdgeById(std::size_t id) const & {
-			if (id >= edges.size()) {
-				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [0, " + std::to_string(edges.size()) + ") !");
-			}
-			return ConstEdge(edges[id].fromXorTo ^ edges[id].to, edges[id].to, edges[id].data);
-		}
-
-		bool hasEdge(Integer from, Integer to) const {
-			assertNode(from);
-			assertNode(to);
-			return adj[from - minId].find(from ^ to) != adj[from - minId].end();
-		}
-
-		Edge addEdge(Integer from, Integer to, const E& data = {}) & {
-			assertNode(from);
-			assertNode(to);
-			judgeAssert(from != to, "Graph: invalid selfloop!");
-			auto it = adj[from - minId].find(from ^ to);
-			if (it == adj[from - minId].end()) {
-				emplaceEdge(from, to, data);
-				it = addEdge(&(edges.back()));
-			} else {
-				(*it)->data = data;
-			}
-			return Edge(from, to, (*it)->data);
-		}
-
-		bool eraseEdge(Integer from, Integer to) {
-			assertNode(from);
-			assertNode(to);
-			auto it = adj[from - minId].find(from ^ to);
-			if (it != adj[from - minId].end()) {
-				InternalEdge* a = *it;
-				InternalEdge* b = &(edges.back());
-				adj[from - minId].erase(a);
-				if constexpr (!DIR) adj[to - minId].erase(a);
-				from = b->fromXorTo ^ b->to;
-				to = b->to;
-				adj[from - minId].erase(b);
-				if constexpr (!DIR) adj[to - minId].erase(b);
-				std::swap(*a, *b);
-				edges.pop_back();
-				if (a != b) addEdge(a);
-				return true;
-			} else {
-				return false;
-			}
-		}
-
-		bool eraseEdge(const Edge& edge) {
-			return eraseEdge(edge.from, edge.to);
-		}
-
-		std::ranges::view auto getEdges() const & {
-			return std::views::all(edges)
-				 | std::views::transform([](const InternalEdge& edge){
-				return ConstEdge(edge.fromXorTo ^ edge.to, edge.to, edge.data);
-			});
-		}
-
-		std::ranges::view auto getEdges() & {
-			return std::views::all(edges)
-				 | std::views::transform([](InternalEdge& edge){
-				return Edge(edge.fromXorTo ^ edge.to, edge.to, edge.data);
-			});
-		}
-
-		std::ranges::view auto operator[](Integer id) const & {
-			assertNode(id);
-			return std::views::all(adj[id-minId])
-				 | std::views::transform([id](InternalEdge* edge){
-				return ConstEdge(id, edge->fromXorTo ^ id, edge->data);
-			});
-		}
-
-		std::ranges::view auto operator[](Integer id) & {
-			assertNode(id);
-			return std::views::all(adj[id-minId])
-				 | std::views::transform([id](InternalEdge* edge){
-				return Edge(id, edge->fromXorTo ^ id, edge->data);
-			});
-		}
-
-		std::ranges::view auto getDegrees() const & {
-			return std::views::all(adj)
-				 | std::views::transform([](auto& n){
-				return n.size();
-			});
-		}
-
-		// more basic graph operations
-		Graph& combine(const Graph& o) {
-			if (&o != this) {
-				while (minId > o.minId) {
-					minId--;
-					adj.emplace_front();
-				}
-				while (minId + nodeCount() < o.minId + o.nodeCount()) {
-					adj.emplace_back();
-				}
-				for (const auto& e : o.edges) {
-					addEdge(e.fromXorTo ^ e.to, e.to, e.data);
-				}
-			}
-			return *this;
-		}
-
-		Graph& append(const Graph& o) {
-			//assert(&o != this); // should work
-			Integer diff = nodeCount() + minId - o.minId;
-			adj.resize(nodeCount() + o.nodeCount());
-			for (std::size_t i = 0, j = o.edges.size(); i < j; i++) {
-				Integer to = o.edges[i].to;
-				Integer from = o.edges[i].fromXorTo ^ to;
-				addEdge(from + diff, to + diff, o.edges[i].data);
-			}
-			return *this;
-		}
-
-		Graph& permutateEdges() {
-			for (auto& n : adj) n.clear();
-			Random::shuffle(edges.begin(), edges.end());
-			if constexpr(!DIR) {
-				for (auto& e : edges) {
-					if (Random::bit()) {
-						e.to ^= e.fromXorTo;
-					}
-				}
-			}
-			buildAdj();
-			return *this;
-		}
-
-		Graph& permutate(const std::vector<Integer>& perm) {
-			judgeAssert<std::invalid_argument>(isPerm(perm, minId), "Graph: not a permutation");
-			for (auto& n : adj) n.clear();
-			Random::shuffle(edges.begin(), edges.end());
-			for (auto& e : edges) {
-				if constexpr (!DIR) {
-					if (Random::bit()) {
-						e.to ^= e.fromXorTo;
-					}
-				}
-				e.fromXorTo ^= e.to;
-				e.fromXorTo = perm[e.fromXorTo - minId];
-				e.to = perm[e.to - minId];
-				e.fromXorTo ^= e.to;
-			}
-			buildAdj();
-			return *this;
-		}
-
-		Graph& permutate() {
-			std::vector<Integer> perm(size());
-			std::iota(perm.begin(), perm.end(), minId);
-			Random::shuffle(perm.begin(), perm.end());
-			return permutate(perm);
-		}
-
-		Graph subgraph(Integer m) const {
-			if (m >= edgeCount()) return *this;
-			Graph res(minId, minId + nodeCount());
-			auto todo = Random::distinct(m, 0, edgeCount());
-			for (auto id : todo) res.edges.emplace_back(edges[id]);
-			res.buildAdj();
-			return res;
-		}
-
-		GraphType<E, true>& reverse() {
-			static_assert(DIR, "Graph: reverse() is only available on directed graphs!");
-			for (auto& n : adj) n.clear();
-			for (auto& e : edges) {
-				e.to ^= e.fromXorTo;
-			}
-			buildAdj();
-			return *this;
-		}
-
-		GraphType<E, false> undirected() const {
-			static_assert(DIR, "Graph: undirected() is only available on directed graphs!");
-			GraphType<E, false> res(minId, minId + nodeCount());
-			for (const auto e : getEdges()) {
-				res.addEdge(e.from, e.to, *e);
-			}
-			return res;
-		}
-
-		template<typename PRED>
-		GraphType<E, true> directed(const PRED&& p) const {
-			static_assert(!DIR, "Graph: directed() is only available on undirected graphs!");
-			GraphType<E, true> res(minId, minId + nodeCount());
-			for (const auto& e : getEdges()) {
-				if constexpr (std::is_invocable_r_v<bool, PRED, Integer, Integer, const E&>) {
-					if (p(e.from, e.to, *e)) res.emplaceEdge(e.from, e.to, *e);
-					if (p(e.to, e.from, *e)) res.emplaceEdge(e.to, e.from, *e);
-				} else {
-					static_assert(std::is_invocable_r_v<bool, PRED, Integer, Integer>, "Graph: pred has wrong signature!");
-					if (p(e.from, e.to)) res.emplaceEdge(e.from, e.to, *e);
-					if (p(e.to, e.from)) res.emplaceEdge(e.to, e.from, *e);
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		GraphType<E, true> directed() const {
-			return directed([](Integer /**/, Integer /**/){
-				return true;
-			});
-		}
-
-		Graph complement() const {
-			Graph res(minId, minId + nodeCount());
-			for (Integer i = 0; i < nodeCount(); i++) {
-				for (Integer j = 0; j < i; j++) {
-					if (!hasEdge(i + minId, j + minId)) {
-						res.emplaceEdge(i + minId, j + minId);
-					}
-					if constexpr (DIR) {
-						if (!hasEdge(j + minId, i + minId)) {
-							res.emplaceEdge(j + minId, i + minId);
-						}
-					}
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		// advanced graph operations
-		Graph power(Integer k) const {
-			Graph res(minId, minId + nodeCount());
-			std::vector<bool> seen(nodeCount());
-			for (Integer i = 0; i < nodeCount(); i++) {
-				std::vector<std::pair<Integer, Integer>> queue = {{i, 0}};
-				for (std::size_t j = 0; j < queue.size(); j++) {
-					auto [c, d] = queue[j];
-					if (d < k) {
-						for (const auto& e : (*this)[c + minId]) {
-							if (!seen[e.to - minId]) {
-								seen[e.to - minId] = true;
-								queue.emplace_back(e.to - minId, d + 1);
-							}
-						}
-					}
-				}
-				for (auto [c, d] : queue) {
-					seen[c] = false;
-					if (i < c or (DIR and i != c)) {
-						res.emplaceEdge(i + minId, c + minId);
-					}
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		Graph transitiveClosure() const {
-			return power(nodeCount());
-		}
-
-		Graph product(const Graph& o) const {
-			static_assert(!DIR, "Graph: product() is only available on undirected graphs!");
-			Graph res(nodeCount() * o.nodeCount());
-			auto newId = [&](Integer a, Integer b){
-				return (b - o.minId) * nodeCount() + (a - minId);
-			};
-			for (const auto& e1 : getEdges()) {
-				for (const auto& e2 : o.getEdges()) {
-					res.emplaceEdge(newId(e1.from, e2.from), newId(e1.to, e2.to));
-					res.emplaceEdge(newId(e1.from, e2.to), newId(e1.to, e2.from));
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		Graph cartesian(const Graph& o) const {
-			Graph res(nodeCount() * o.nodeCount());
-			auto newId = [&](Integer a, Integer b){
-				return (b-o.minId) * nodeCount() + (a-minId);
-			};
-			for (const auto& e : o.getEdges()) {
-				for (Integer i = 0; i < nodeCount(); i++) {
-					Integer from = newId(i + minId, e.from);
-					Integer to = newId(i + minId, e.to);
-					res.emplaceEdge(from, to);
-				}
-			}
-			for (const auto& e : getEdges()) {
-				for (Integer i = 0; i < o.nodeCount(); i++) {
-					Integer from = newId(e.from, i + o.minId);
-					Integer to = newId(e.to, i + o.minId);
-					res.emplaceEdge(from, to);
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		Graph strongProduct(const Graph& o) const {
-			static_assert(!DIR, "Graph: product() is only available on undirected graphs!");
-			return o.cartesian(*this).combine(o.product(*this));
-		}
-
-		Graph lineGraph() const {
-			Graph tmp(minId, minId + nodeCount());
-			Integer nextEdge = 0;
-			for (const auto& e : getEdges()) {
-				tmp.emplaceEdge(e.from, e.to, nextEdge);
-				nextEdge++;
-			}
-			tmp.buildAdj();
-			Graph res(nextEdge);
-			for (const auto& e1 : tmp.getEdges()) {
-				if constexpr (DIR) {
-					for (const auto& e2 : tmp[e1.to]) {
-						res.emplaceEdge(*e1, *e2);
-					}
-				} else {
-					for (const auto& e2 : tmp[e1.to]) {
-						if (*e1 < *e2) res.emplaceEdge(*e1, *e2);
-					}
-					for (const auto& e2 : tmp[e1.from]) {
-						if (*e1 < *e2) res.emplaceEdge(*e1, *e2);
-					}
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		friend std::ostream& operator<<(std::ostream& os, const Graph& g) {
-			os << g.nodeCount() << " " << g.edgeCount();
-			for (const auto& e : g.getEdges()) os << '\n' << e;
-			return os;
-		}
-
-		friend OutputStream& operator<<(OutputStream& os, const Graph& g) {
-			os << g.nodeCount() << " " << g.edgeCount();
-			for (const auto& e : g.getEdges()) os << '\n' << e;
-			return os;
-		}
-
-	};
-} // GraphDetail
-
-using NoData = GraphDetail::NoData;
-
-template<typename E = GraphDetail::NoData>
-using Edge = GraphDetail::EdgeWrapper<E>;
-
-template<typename E = GraphDetail::NoData>
-using Graph = GraphDetail::GraphType<E, false>;
-
-template<typename E = GraphDetail::NoData>
-using DiGraph = GraphDetail::GraphType<E, true>;
-
-// n independed vertices in range [0, n)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> independent(Integer n) {
-	return GraphDetail::GraphType<E, DIR>(n);
-}
-
-// n connected vertices in range [0, n)
-// if directed all edges go from i to j with i < j
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> clique(Integer n) {
-	// could be implemented as linegraph of a star.
-	GraphDetail::GraphType<E, DIR> res(n);
-	for (Integer j = 0; j < n; j++) {
-		for (Integer i = 0; i < j; i++) {
-			res.addEdge(i, j);
-		}
-	}
-	return res;
-}
-
-// complete bipartite graph with partition [0, n) and [n, n+m)
-// if directed all edges go from [0, n) to [n, n+m)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> bipartite(Integer n, Integer m) {
-	GraphDetail::GraphType<E, DIR> res(n+m);
-	for (Integer i = 0; i < n; i++) {
-		for (Integer j = 0; j < m; j++) {
-			res.addEdge(i, n + j);
-		}
-	}
-	return res;
-}
-
-// generate a random bipartite graph (like Erdös-Renyi) with partitions [0, n) and [n, n+m)
-// each edge exists with a given number of edges k
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Integer k) {
-	GraphDetail::GraphType<E, DIR> res(n+m);
-	Integer lim = n * m;
-	if constexpr (DIR) lim *= 2;
-	auto edges = Random::distinct(k, 0, lim);
-	for (Integer x : edges) {
-		Integer i = x % n;
-		Integer j = x / n + n;
-		if constexpr(DIR) {
-			if (x >= n * m) {
-				j -= m;
-				std::swap(i, j);
-			}
-		}
-		res.addEdge(i, j);
-	}
-	return res;
-}
-
-// generate a random bipartite graph (like Erdös-Renyi) with partitions [0, n) and [n, n+m)
-// each edge exists with probability p
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Real p) {
-	Integer lim = n * m;
-	if constexpr (DIR) lim *= 2;
-	return randomBipartite<E, DIR>(n, m, Random::binomial(lim, p));
-}
-
-// star with root = 0 and chilrden [1, leaves]
-// if directed all edges go the root to [1, leaves)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> star(Integer leaves) {
-	return bipartite<E, DIR>(1, leaves);
-}
-
-// path 0-1-2-...-edges with vertices [0, edges]
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> path(Integer edges) {
-	GraphDetail::GraphType<E, DIR> res(edges+1);
-	for (Integer i = 0; i < edges; i++) {
-		res.addEdge(i, i + 1);
-	}
-	return res;
-}
-
-// path 0-1-2-...-n-1-0 with vertices [0, n)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> cycle(Integer n) {
-	auto p = path<E, DIR>(n-1);
-	p.addEdge(n - 1, 0);
-	return p;
-}
-
-// wheel with root = 1 and outer vertices 1-2-...-outer-1 with vertices [0, outer]
-template<typename E = NoData>
-Graph<E> wheel(Integer outer) {
-	return star<E>(outer).combine(cycle<E>(outer).setMinId(1));
-}
-
-// lolly graph with a path with p edges [0, p] and a clique [p, p+c) and
-// p is the vertex where clique and path are connected
-template<typename E = NoData>
-Graph<E> lolly(Integer p, Integer c) {
-	return path<E>(p).combine(clique<E>(c).setMinId(p));
-}
-
-// broom graph with a path with p edges [0, p] and a star [p, p+l]
-// p is the vertex where star and path are connected
-template<typename E = NoData>
-Graph<E> broom(Integer p, Integer l) {
-	return path<E>(p).combine(star<E>(l).setMinId(p));
-}
-
-// n times m grid
-// 0-1-...-n-1
-// | |      |
-// n- ... -2*n-1
-// |        |
-// .        .
-//          |
-//        -n*m-1
-template<typename E = NoData>
-Graph<E> grid(Integer n, Integer m) {
-	return path<E>(n-1).cartesian(path<E>(m-1));
-}
-template<typename E = NoData>
-Graph<E> grid(Integer n) {
-	return grid<E>(n, n);
-}
-
-// n dimensional hyper cube with vertices [0, 2^dimension)
-// a-b <=> |a^b|=1
-template<typename E = NoData>
-Graph<E> hypercube(Integer dimension) {
-	if (dimension < 2) return clique<E>(dimension+1);
-	return hypercube<E>(dimension-1).cartesian(clique<E>(2));
-}
-
-// complete tree with root at 0 and all subtrees are consecutive
-// vertices in [0, (children^{level+1}-1)/(children-1))
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> completeTree(Integer level, Integer children = 2) {
-	if (level <= 1) return star<E, DIR>(level <= 0 ? 0 : children);
-	GraphDetail::GraphType<E, DIR> res(1);
-	GraphDetail::GraphType<E, DIR> sub = completeTree<E, DIR>(level - 1, children);
-	for (Integer i = 0; i < children; i++) {
-		Integer next = res.nodeCount();
-		res.append(sub);
-		res.addEdge(0, next);
-	}
-	return res;
-}
-
-
-// complete boolean lattice i->j <=> i|j==j
-// vertices in [0, 2^level)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> booleanLattice(Integer level) {
-	GraphDetail::GraphType<E, DIR> res(1 << level);
-	for (Integer i = 0; i < res.nodeCount(); i++) {
-		for (Integer j = 1; j < res.nodeCount(); j*=2) {
-			if ((i | j) == i) {
-				res.addEdge(i, i^j);
-			}
-		}
-	}
-	return res;
-}
-
-// prefix of the rado graph i->j <=> i<j and j[i] == true;
-// vertices in [0, n)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> rado(Integer n) {
-	GraphDetail::GraphType<E, DIR> res(n);
-	for (Integer i = 0; i < n; i++) {
-		for (Integer j = 0; (1 << j) <= i; j++) {
-			if ((i | (1 << j)) == i) {
-				res.addEdge(j, i);
-			}
-		}
-	}
-	return res;
-}
-
-// generate a tree from a pruefer code
-// values should be in [0, sz(code)+2)
-template<typename E = NoData>
-Graph<E> pruefer(const std::vector<Integer>& code) {
-	Graph<E> res(code.size() + 2);
-	std::vector<Integer> count(res.nodeCount());
-	for (Integer x : code) count[x]++;
-	Integer current = -1;
-	Integer skip = -1;
-	auto getNext = [&](){
-		Integer oldSkip = skip;
-		skip = -1;
-		if (0 <= oldSkip and oldSkip <= current) return oldSkip;
-		for (current++; count[current] > 0; current++) {}
-		return current;
-	};
-	for (Integer x : code) {
-		Integer y = getNext();
-		res.addEdge(x, y);
-		count[x]--;
-		if (count[x] == 0) skip = x;
-	}
-	Integer x = getNext();
-	Integer y = getNext();
-	res.addEdge(x, y);
-	return res;
-}
-
-// generate a random tree with vertices [0, n)
-// if directed 0 is the root
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> randomTree(Integer n) {
-	if constexpr (!DIR) {
-		if (n <= 2) return clique<E>(n);
-		std::vector<Integer> code(n - 2);
-		for (Integer& x : code) x = Random::integer(n);
-		return pruefer<E>(code);
-	} else {
-		Graph<NoData> tmp = randomTree<NoData, false>(n);
-		DiGraph<E> res(n);
-		auto dfs = [&tmp, &res](auto&& self, Integer cur, Integer pref) -> void {
-			for (auto edge : tmp[cur]) {
-				if (edge.to == pref) continue;
-				res.addEdge(cur, edge.to);
-				self(self, edge.to, cur);
-			}
-		};
-		dfs(dfs, tmp.getMinId(), tmp.getMinId() - 1);
-		return res;
-	}
-}
-
-// generate a random graph (Erdös-Renyi)
-// each edge exists with a given number of edges m
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Integer m) {
-	GraphDetail::GraphType<E, DIR> res(n);
-	Integer lim = n * (n-1);
-	if constexpr (!DIR) lim /= 2;
-	auto edges = Random::distinct(m, 0, lim);
-	for (Integer x : edges) {
-		Integer i = x / n;
-		Integer j = x % n;
-		if constexpr(DIR) {
-			if (i == j) i = n - 1;
-		} else {
-			if (j <= i) {
-				i = n - 2 - i;
-				j = n - 1 - j;
-			}
-		}
-		res.addEdge(i, j);
-	}
-	return res;
-}
-
-// generate a random graph (Erdös-Renyi)
-// each edge exists with probability p
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Real p) {
-	Integer lim = n * (n-1);
-	if constexpr (!DIR) lim /= 2;
-	return randomGraph<E, DIR>(n, Random::binomial(lim, p));
-}
-
-// generate a random graph with linear growing degrees
-template<typename E = NoData>
-Graph<E> randomGrowingGraph(Integer n, Real p) {
-	judgeAssert<std::domain_error>(0.0_real <= p and p <= 1.0_real, "randomGrowingGraph(): p must be in [0,1]!");
-	Graph<E> res(n);
-	for (Integer i = 0; i < n; i++) {
-		Integer deg = p * Random::real(0, i+1);
-		auto neighbours = Random::distinct(deg, 0, i);
-		for (Integer j : neighbours) res.addEdge(i, j);
-	}
-	return res;
-}
-
-// generate a random graph with a given degree sequence
-// (not uniform...)
-template<typename E = NoData>
-Graph<E> randomGraph(const std::vector<Integer>& degree, Integer averageFlips = 10) {
-	Graph<E> res(std::ssize(degree));
-	// havel hakimi in O(m*log(n))
-	std::priority_queue<std::pair<Integer, Integer>> pq;
-	for (Integer i = 0; i < std::ssize(degree); i++) {
-		if (degree[i] > 0) {
-			pq.emplace(degree[i], i);
-		}
-	}
-	while (!pq.empty()) {
-		auto [d, c] = pq.top();
-		pq.pop();
-		if (std::ssize(pq) < d or d < 0) {
-			throw std::invalid_argument("randomGraph(): Invalid degree sequence!");
-		}
-		std::vector<std::pair<Integer, Integer>> todo;
-		for (Integer i = 0; i < d; i++) {
-			auto [dd, cc] = pq.top();
-			pq.pop();
-			res.addEdge(c, cc);
-			dd--;
-			if (dd > 0) todo.emplace_back(dd, cc);
-		}
-		for (const auto& e : todo) pq.push(e);
-	}
-	// randomly flip edges O(m*log(n))
-	for (Integer i = 0; i < averageFlips*res.nodeCount(); i++) {
-		auto a = res.getEdgeById(Random::integer(res.edgeCount()));
-		auto b = res.getEdgeById(Random::integer(res.edgeCount()));
-		if (a.from == b.to or res.hasEdge(a.from, b.to)) continue;
-		if (b.from == a.to or res.hasEdge(b.from, a.to)) continue;
-		res.eraseEdge(a.from, a.to);
-		res.eraseEdge(b.from, b.to);
-		res.addEdge(a.from, b.to);
-		res.addEdge(b.from, a.to);
-	}
-	return res;
-}
-
-// generates a worstcase instance for Ford Fulkerson with dfs.
-// The graph contains 2*n vertices and has 2^n flow from 0 to 2*n-1.
-// Figure 2: https://people.computing.clemson.edu/~bcdean/iterm.pdf
-// Note that the specific order of edghes is required
-DiGraph<Integer> ffWorstcase(Integer n) {
-	judgeAssert(0 < n && n <= 63, "ffWorstcase(): n out of bounds");
-	DiGraph<Integer> res(2 * n);
-	res.addEdge(n-1, n, 1);
-	for (Integer i = n - 2, j = n+1, c = 1; j < 2 * n; i--, j++, c *= 2) {
-		res.addEdge(i, i+1, c);
-		res.addEdge(i, j-1, c);
-		res.addEdge(i+1, j, c);
-		res.addEdge(j-1, j, c);
-	}
-	return res;
-}
-
-// generates a worstcase instance for various min cost max flow algorithms.
-// The graph contains 2*n+2 vertices and has flow from 0 to 2*n+1.
-// Figure 4: https://link.springer.com/article/10.1007/BF01580132
-DiGraph<std::pair<Integer, Integer>> mcmfWorstcase(Integer n) {
-	judgeAssert(0 < n && n <= 60, "mcmfWorstcase(): n out of bounds");
-	DiGraph<std::pair<Integer, Integer>> res(2 * n + 2);
-	Integer inf = 5 * (1ll << n) / 4;
-	for (Integer i = 0; i < n; i++) {
-		res.addEdge(0, i + 1, {i < 2 ? 2 * i + 1 : 5ll << (i - 2), 0});
-	}
-	res.addEdge(1, n + 1, {inf, 0});
-	for (Integer i = 0; i < n; i++) {
-		for (Integer j = 0; j < n; j++) {
-			if (i == j) continue;
-			res.addEdge(i + 1, j + 1 + n, {inf, (1ll << std::max(i, j)) - 1});
-		}
-	}
-	for (Integer i = 0; i < n; i++) {
-		res.addEdge(i + 1 + n, 2 * n + 1, {i < 2 ? 2: 5ll << (i - 2), 0});
-	}
-	return res;
-}
-
-#endif
+//============================================================================//
+// graph_gen.h                                                                //
+//============================================================================//
+// This header can be used to Generate graphs. We support:                    //
+// - directed, undirected and weighted graphs                                 //
+// - uniform tree sampling                                                    //
+// - erdös renyi random graphs                                                //
+// - random graphs with a given degree sequence                               //
+// - random graphs with a power low distribution                              //
+// - various operations to construct graphs                                   //
+// This header requires validate.h zo to generate random graphs in a          //
+// deterministic and reproducable fashion.                                    //
+//============================================================================//
+//version 1.0.11                                                              //
+//https://github.com/mzuenni/icpc-header                                      //
+//============================================================================//
+
+#ifndef GRAPH_GENERATOR_H
+#define GRAPH_GENERATOR_H
+
+#include <cassert>
+#include <cstddef>
+#include <deque>
+#include <iostream>
+#include <ostream>
+#include <optional>
+#include <ostream>
+#include <queue>
+#include <random>
+#include <set>
+#include <utility>
+#include <ranges>
+#include <vector>
+#include "validate.h"
+
+namespace GraphDetail {
+	struct NoData final {};
+	constexpr NoData NOTHING;
+
+	// EdgeWrapper may be returned by some function
+	template<typename E, typename = void>
+	struct EdgeWrapper final {
+		const Integer from, to;
+		E& data;
+		EdgeWrapper(Integer from_, Integer to_, E& data_) : from(from_), to(to_), data(data_) {}
+
+		E& operator*() {
+			return data;
+		}
+		const E& operator*() const {
+			return data;
+		}
+
+		friend std::ostream& operator<<(std::ostream& os, const EdgeWrapper& e) {
+			os << e.from << " " << e.to;
+			os << " " << *e;
+			return os;
+		}
+
+		friend OutputStream& operator<<(OutputStream& os, const EdgeWrapper& e) {
+			os << e.from << " " << e.to;
+			os << " " << *e;
+			return os;
+		}
+	};
+	template<typename E>
+	struct EdgeWrapper<E, typename std::enable_if_t<std::is_same_v<std::remove_cv_t<E>, NoData>>> final {
+		const Integer from, to;
+		EdgeWrapper(Integer from_, Integer to_) : from(from_), to(to_) {}
+		EdgeWrapper(Integer from_, Integer to_, E& /**/) : EdgeWrapper(from_, to_) {}
+
+		E& operator*() const {return NOTHING;}
+
+		friend std::ostream& operator<<(std::ostream& os, const EdgeWrapper& e) {
+			os << e.from << " " << e.to;
+			return os;
+		}
+
+		friend OutputStream& operator<<(OutputStream& os, const EdgeWrapper& e) {
+			os << e.from << " " << e.to;
+			return os;
+		}
+	};
+
+	// EdgeType is the internel representation of an edge that should never get exposed!
+	template<typename E>
+	struct EdgeType final {
+		// we use key(from, to) = from^to for efficiency
+		// the key function must have the following properties:
+		// key(a, b) == key(b, a)
+		// to1 != to2 <=> key(from, to1) != key(from, to2)
+		// from1 != from2 <=> key(from1, to) != key(from2, to)
+		Integer fromXorTo, to;
+		E data;
+		EdgeType(Integer fromXorTo_, Integer to_, const E& data_) : fromXorTo(fromXorTo_), to(to_), data(data_) {}
+		EdgeType(Integer fromXorTo_, Integer to_, E&& data_) : fromXorTo(fromXorTo_), to(to_), data(std::forward<E>(data_)) {}
+	};
+
+	template<typename E>
+	struct EdgePointerCompair final {
+		using is_transparent = std::true_type;
+		constexpr bool operator()(const EdgeType<E>* t, const EdgeType<E>* u) const {
+			return t->fromXorTo < u->fromXorTo;
+		}
+		constexpr bool operator()(const EdgeType<E>* t, Integer u) const {
+			return t->fromXorTo < u;
+		}
+		constexpr bool operator()(Integer t, const EdgeType<E>* u) const {
+			return t < u->fromXorTo;
+		}
+	};
+
+	template<typename E, bool DIR>
+	class GraphType final {
+		// do not change!
+		static constexpr Integer DEFAULT_MIN_ID = 0;
+
+		template<typename, bool> friend class GraphType;
+		using EdgeTypeValue = E;
+		using Edge = EdgeWrapper<E>;
+		using ConstEdge = EdgeWrapper<const E>;
+		using InternalEdge = EdgeType<E>;
+		using Graph = GraphType<E, DIR>;
+
+		std::deque<std::set<InternalEdge*, EdgePointerCompair<E>>> adj;
+		std::deque<InternalEdge> edges;
+		Integer minId;
+
+		inline void assertNode(Integer id) const {
+			if (id < minId or id >= minId + nodeCount()) {
+				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [" + std::to_string(minId) + ", " + std::to_string(minId + nodeCount()) + ") !");
+			}
+		}
+
+		auto addEdge(InternalEdge* e) {
+			Integer from = e->fromXorTo ^ e->to;
+			Integer to = e->to;
+			if constexpr (!DIR) if (from != to) adj[to - minId].emplace(e);
+			return adj[from - minId].emplace(e).first;
+		}
+
+		void emplaceEdge(Integer from, Integer to, const E& data = {}) {
+			edges.emplace_back(from ^ to, to, data);
+		}
+
+		void buildAdj() {
+			for (auto& e : edges) addEdge(&e);
+		}
+	public:
+		// construct empty graph with vertices in [from, to)
+		explicit GraphType(Integer from, Integer to) :
+			adj(to - from),
+			minId(from) {
+			judgeAssert<std::invalid_argument>(from <= to, "Graph::from must not be greater than to!");
+		}
+		// construct empty graph with vertices in [0, n)
+		explicit GraphType(Integer n = 0) :
+			GraphType(DEFAULT_MIN_ID, n) {}
+
+		// copy graphs without breaking pointers
+		GraphType(const Graph& o) :
+			adj(o.size()),
+			edges(o.edges),
+			minId(o.minId) {
+			buildAdj();
+		}
+		Graph& operator=(const Graph& o) {
+			if (&o != this) {
+				adj.clear();
+				adj.resize(o.size());
+				edges = o.edges;
+				minId = o.minId;
+				buildAdj();
+			}
+			return *this;
+		}
+		Graph copy() const {
+			return *this;
+		}
+
+		//basic graph parameters
+		std::size_t size() const {
+			return adj.size();
+		}
+
+		Integer nodeCount() const {
+			return static_cast<Integer>(adj.size());
+		}
+
+		Integer edgeCount() const {
+			return static_cast<Integer>(edges.size());
+		}
+
+		Integer degree(Integer id) const {
+			assertNode(id);
+			return static_cast<Integer>(adj[id - minId].size());
+		}
+
+		Integer getMinId() const {
+			return minId;
+		}
+
+		Graph& setMinId(Integer newminId) {
+			for (auto& n : adj) n.clear();
+			for (auto& e : edges) {
+				Integer from = e.fromXorTo ^ e.to;
+				Integer to = e.to;
+				from = from - minId + newminId;
+				to = to - minId + newminId;
+				e.fromXorTo = from ^ to;
+				e.to = to;
+			}
+			minId = newminId;
+			buildAdj();
+			return *this;
+		}
+
+		Integer getNextId() const {
+			return minId + nodeCount();
+		}
+
+		Graph& normalize() {
+			return setMinId(DEFAULT_MIN_ID);
+		}
+
+		Graph range(Integer from, Integer to) const {
+			judgeAssert<std::invalid_argument>(from <= to, "Graph: from must not be greater than to!");
+			Graph res(from, to);
+			for (const auto& e : getEdges()) {
+				if (e.from >= from and e.from < to and e.to >= from and e.to < to) {
+					res.addEdge(e.from, e.to, *e);
+				}
+			}
+			return res;
+		}
+
+		// basic graph operations
+		std::optional<Edge> findEdge(Integer from, Integer to) & {
+			assertNode(from);
+			assertNode(to);
+			auto it = adj[from - minId].find(from ^ to);
+			if (it != adj[from - minId].end()) {
+				return Edge(from, to, (*it)->data);
+			} else {
+				return {};
+			}
+		}
+
+		std::optional<ConstEdge> findEdge(Integer from, Integer to) const & {
+			assertNode(from);
+			assertNode(to);
+			auto it = adj[from - minId].find(from ^ to);
+			if (it != adj[from - minId].end()) {
+				return ConstEdge(from, to, (*it)->data);
+			} else {
+				return {};
+			}
+		}
+
+		// ids may change!
+		Edge getEdgeById(std::size_t id) & {
+			if (id >= edges.size()) {
+				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [0, " + std::to_string(edges.size()) + ") !");
+			}
+			return Edge(edges[id].fromXorTo ^ edges[id].to, edges[id].to, edges[id].data);
+		}
+
+		ConstEdge getEdgeById(std::size_t id) const & {
+			if (id >= edges.size()) {
+				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [0, " + std::to_string(edges.size()) + ") !");
+			}
+			return ConstEdge(edges[id].fromXorTo ^ edges[id].to, edges[id].to, edges[id].data);
+		}
+
+		bool hasEdge(Integer from, Integer to) const {
+			assertNode(from);
+			assertNode(to);
+			return adj[from - minId].find(from ^ to) != adj[from - minId].end();
+		}
+
+		Edge addEdge(Integer from, Integer to, const E& data = {}) & {
+			assertNode(from);
+			assertNode(to);
+			judgeAssert(from != to, "Graph: invalid selfloop!");
+			auto it = adj[from - minId].find(from ^ to);
+			if (it == adj[from - minId].end()) {
+				emplaceEdge(from, to, data);
+				it = addEdge(&(edges.back()));
+			} else {
+				(*it)->data = data;
+			}
+			return Edge(from, to, (*it)->data);
+		}
+
+		bool eraseEdge(Integer from, Integer to) {
+			assertNode(from);
+			assertNode(to);
+			auto it = adj[from - minId].find(from ^ to);
+			if (it != adj[from - minId].end()) {
+				InternalEdge* a = *it;
+				InternalEdge* b = &(edges.back());
+				adj[from - minId].erase(a);
+				if constexpr (!DIR) adj[to - minId].erase(a);
+				from = b->fromXorTo ^ b->to;
+				to = b->to;
+				adj[from - minId].erase(b);
+				if constexpr (!DIR) adj[to - minId].erase(b);
+				std::swap(*a, *b);
+				edges.pop_back();
+				if (a != b) addEdge(a);
+				return true;
+			} else {
+				return false;
+			}
+		}
+
+		bool eraseEdge(const Edge& edge) {
+			return eraseEdge(edge.from, edge.to);
+		}
+
+		std::ranges::view auto getEdges() const & {
+			return std::views::all(edges)
+				 | std::views::transform([](const InternalEdge& edge){
+				return ConstEdge(edge.fromXorTo ^ edge.to, edge.to, edge.data);
+			});
+		}
+
+		std::ranges::view auto getEdges() & {
+			return std::views::all(edges)
+				 | std::views::transform([](InternalEdge& edge){
+				return Edge(edge.fromXorTo ^ edge.to, edge.to, edge.data);
+			});
+		}
+
+		std::ranges::view auto operator[](Integer id) const & {
+			assertNode(id);
+			return std::views::all(adj[id-minId])
+				 | std::views::transform([id](InternalEdge* edge){
+				return ConstEdge(id, edge->fromXorTo ^ id, edge->data);
+			});
+		}
+
+		std::ranges::view auto operator[](Integer id) & {
+			assertNode(id);
+			return std::views::all(adj[id-minId])
+				 | std::views::transform([id](InternalEdge* edge){
+				return Edge(id, edge->fromXorTo ^ id, edge->data);
+			});
+		}
+
+		std::ranges::view auto getDegrees() const & {
+			return std::views::all(adj)
+				 | std::views::transform([](auto& n){
+				return n.size();
+			});
+		}
+
+		// more basic graph operations
+		Graph& combine(const Graph& o) {
+			if (&o != this) {
+				while (minId > o.minId) {
+					minId--;
+					adj.emplace_front();
+				}
+				while (minId + nodeCount() < o.minId + o.nodeCount()) {
+					adj.emplace_back();
+				}
+				for (const auto& e : o.edges) {
+					addEdge(e.fromXorTo ^ e.to, e.to, e.data);
+				}
+			}
+			return *this;
+		}
+
+		Graph& append(const Graph& o) {
+			//assert(&o != this); // should work
+			Integer diff = nodeCount() + minId - o.minId;
+			adj.resize(nodeCount() + o.nodeCount());
+			for (std::size_t i = 0, j = o.edges.size(); i < j; i++) {
+				Integer to = o.edges[i].to;
+				Integer from = o.edges[i].fromXorTo ^ to;
+				addEdge(from + diff, to + diff, o.edges[i].data);
+			}
+			return *this;
+		}
+
+		Graph& permutateEdges() {
+			for (auto& n : adj) n.clear();
+			Random::shuffle(edges.begin(), edges.end());
+			if constexpr(!DIR) {
+				for (auto& e : edges) {
+					if (Random::bit()) {
+						e.to ^= e.fromXorTo;
+					}
+				}
+			}
+			buildAdj();
+			return *this;
+		}
+
+		Graph& permutate(const std::vector<Integer>& perm) {
+			judgeAssert<std::invalid_argument>(isPerm(perm, minId), "Graph: not a permutation");
+			for (auto& n : adj) n.clear();
+			Random::shuffle(edges.begin(), edges.end());
+			for (auto& e : edges) {
+				if constexpr (!DIR) {
+					if (Random::bit()) {
+						e.to ^= e.fromXorTo;
+					}
+				}
+				e.fromXorTo ^= e.to;
+				e.fromXorTo = perm[e.fromXorTo - minId];
+				e.to = perm[e.to - minId];
+				e.fromXorTo ^= e.to;
+			}
+			buildAdj();
+			return *this;
+		}
+
+		Graph& permutate() {
+			std::vector<Integer> perm(size());
+			std::iota(perm.begin(), perm.end(), minId);
+			Random::shuffle(perm.begin(), perm.end());
+			return permutate(perm);
+		}
+
+		Graph subgraph(Integer m) const {
+			if (m >= edgeCount()) return *this;
+			Graph res(minId, minId + nodeCount());
+			auto todo = Random::distinct(m, 0, edgeCount());
+			for (auto id : todo) res.edges.emplace_back(edges[id]);
+			res.buildAdj();
+			return res;
+		}
+
+		GraphType<E, true>& reverse() {
+			static_assert(DIR, "Graph: reverse() is only available on directed graphs!");
+			for (auto& n : adj) n.clear();
+			for (auto& e : edges) {
+				e.to ^= e.fromXorTo;
+			}
+			buildAdj();
+			return *this;
+		}
+
+		GraphType<E, false> undirected() const {
+			static_assert(DIR, "Graph: undirected() is only available on directed graphs!");
+			GraphType<E, false> res(minId, minId + nodeCount());
+			for (const auto e : getEdges()) {
+				res.addEdge(e.from, e.to, *e);
+			}
+			return res;
+		}
+
+		template<typename PRED>
+		GraphType<E, true> directed(const PRED&& p) const {
+			static_assert(!DIR, "Graph: directed() is only available on undirected graphs!");
+			GraphType<E, true> res(minId, minId + nodeCount());
+			for (const auto& e : getEdges()) {
+				if constexpr (std::is_invocable_r_v<bool, PRED, Integer, Integer, const E&>) {
+					if (p(e.from, e.to, *e)) res.emplaceEdge(e.from, e.to, *e);
+					if (p(e.to, e.from, *e)) res.emplaceEdge(e.to, e.from, *e);
+				} else {
+					static_assert(std::is_invocable_r_v<bool, PRED, Integer, Integer>, "Graph: pred has wrong signature!");
+					if (p(e.from, e.to)) res.emplaceEdge(e.from, e.to, *e);
+					if (p(e.to, e.from)) res.emplaceEdge(e.to, e.from, *e);
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		GraphType<E, true> directed() const {
+			return directed([](Integer /**/, Integer /**/){
+				return true;
+			});
+		}
+
+		Graph complement() const {
+			Graph res(minId, minId + nodeCount());
+			for (Integer i = 0; i < nodeCount(); i++) {
+				for (Integer j = 0; j < i; j++) {
+					if (!hasEdge(i + minId, j + minId)) {
+						res.emplaceEdge(i + minId, j + minId);
+					}
+					if constexpr (DIR) {
+						if (!hasEdge(j + minId, i + minId)) {
+							res.emplaceEdge(j + minId, i + minId);
+						}
+					}
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		// advanced graph operations
+		Graph power(Integer k) const {
+			Graph res(minId, minId + nodeCount());
+			std::vector<bool> seen(nodeCount());
+			for (Integer i = 0; i < nodeCount(); i++) {
+				std::vector<std::pair<Integer, Integer>> queue = {{i, 0}};
+				for (std::size_t j = 0; j < queue.size(); j++) {
+					auto [c, d] = queue[j];
+					if (d < k) {
+						for (const auto& e : (*this)[c + minId]) {
+							if (!seen[e.to - minId]) {
+								seen[e.to - minId] = true;
+								queue.emplace_back(e.to - minId, d + 1);
+							}
+						}
+					}
+				}
+				for (auto [c, d] : queue) {
+					seen[c] = false;
+					if (i < c or (DIR and i != c)) {
+						res.emplaceEdge(i + minId, c + minId);
+					}
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		Graph transitiveClosure() const {
+			return power(nodeCount());
+		}
+
+		Graph product(const Graph& o) const {
+			static_assert(!DIR, "Graph: product() is only available on undirected graphs!");
+			Graph res(nodeCount() * o.nodeCount());
+			auto newId = [&](Integer a, Integer b){
+				return (b - o.minId) * nodeCount() + (a - minId);
+			};
+			for (const auto& e1 : getEdges()) {
+				for (const auto& e2 : o.getEdges()) {
+					res.emplaceEdge(newId(e1.from, e2.from), newId(e1.to, e2.to));
+					res.emplaceEdge(newId(e1.from, e2.to), newId(e1.to, e2.from));
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		Graph cartesian(const Graph& o) const {
+			Graph res(nodeCount() * o.nodeCount());
+			auto newId = [&](Integer a, Integer b){
+				return (b-o.minId) * nodeCount() + (a-minId);
+			};
+			for (const auto& e : o.getEdges()) {
+				for (Integer i = 0; i < nodeCount(); i++) {
+					Integer from = newId(i + minId, e.from);
+					Integer to = newId(i + minId, e.to);
+					res.emplaceEdge(from, to);
+				}
+			}
+			for (const auto& e : getEdges()) {
+				for (Integer i = 0; i < o.nodeCount(); i++) {
+					Integer from = newId(e.from, i + o.minId);
+					Integer to = newId(e.to, i + o.minId);
+					res.emplaceEdge(from, to);
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		Graph strongProduct(const Graph& o) const {
+			static_assert(!DIR, "Graph: product() is only available on undirected graphs!");
+			return o.cartesian(*this).combine(o.product(*this));
+		}
+
+		Graph lineGraph() const {
+			Graph tmp(minId, minId + nodeCount());
+			Integer nextEdge = 0;
+			for (const auto& e : getEdges()) {
+				tmp.emplaceEdge(e.from, e.to, nextEdge);
+				nextEdge++;
+			}
+			tmp.buildAdj();
+			Graph res(nextEdge);
+			for (const auto& e1 : tmp.getEdges()) {
+				if constexpr (DIR) {
+					for (const auto& e2 : tmp[e1.to]) {
+						res.emplaceEdge(*e1, *e2);
+					}
+				} else {
+					for (const auto& e2 : tmp[e1.to]) {
+						if (*e1 < *e2) res.emplaceEdge(*e1, *e2);
+					}
+					for (const auto& e2 : tmp[e1.from]) {
+						if (*e1 < *e2) res.emplaceEdge(*e1, *e2);
+					}
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		friend std::ostream& operator<<(std::ostream& os, const Graph& g) {
+			os << g.nodeCount() << " " << g.edgeCount();
+			for (const auto& e : g.getEdges()) os << '\n' << e;
+			return os;
+		}
+
+		friend OutputStream& operator<<(OutputStream& os, const Graph& g) {
+			os << g.nodeCount() << " " << g.edgeCount();
+			for (const auto& e : g.getEdges()) os << '\n' << e;
+			return os;
+		}
+
+	};
+} // GraphDetail
+
+using NoData = GraphDetail::NoData;
+
+template<typename E = GraphDetail::NoData>
+using Edge = GraphDetail::EdgeWrapper<E>;
+
+template<typename E = GraphDetail::NoData>
+using Graph = GraphDetail::GraphType<E, false>;
+
+template<typename E = GraphDetail::NoData>
+using DiGraph = GraphDetail::GraphType<E, true>;
+
+// n independed vertices in range [0, n)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> independent(Integer n) {
+	return GraphDetail::GraphType<E, DIR>(n);
+}
+
+// n connected vertices in range [0, n)
+// if directed all edges go from i to j with i < j
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> clique(Integer n) {
+	// could be implemented as linegraph of a star.
+	GraphDetail::GraphType<E, DIR> res(n);
+	for (Integer j = 0; j < n; j++) {
+		for (Integer i = 0; i < j; i++) {
+			res.addEdge(i, j);
+		}
+	}
+	return res;
+}
+
+// complete bipartite graph with partition [0, n) and [n, n+m)
+// if directed all edges go from [0, n) to [n, n+m)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> bipartite(Integer n, Integer m) {
+	GraphDetail::GraphType<E, DIR> res(n+m);
+	for (Integer i = 0; i < n; i++) {
+		for (Integer j = 0; j < m; j++) {
+			res.addEdge(i, n + j);
+		}
+	}
+	return res;
+}
+
+// generate a random bipartite graph (like Erdös-Renyi) with partitions [0, n) and [n, n+m)
+// each edge exists with a given number of edges k
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Integer k) {
+	GraphDetail::GraphType<E, DIR> res(n+m);
+	Integer lim = n * m;
+	if constexpr (DIR) lim *= 2;
+	auto edges = Random::distinct(k, 0, lim);
+	for (Integer x : edges) {
+		Integer i = x % n;
+		Integer j = x / n + n;
+		if constexpr(DIR) {
+			if (x >= n * m) {
+				j -= m;
+				std::swap(i, j);
+			}
+		}
+		res.addEdge(i, j);
+	}
+	return res;
+}
+
+// generate a random bipartite graph (like Erdös-Renyi) with partitions [0, n) and [n, n+m)
+// each edge exists with probability p
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Real p) {
+	Integer lim = n * m;
+	if constexpr (DIR) lim *= 2;
+	return randomBipartite<E, DIR>(n, m, Random::binomial(lim, p));
+}
+
+// star with root = 0 and chilrden [1, leaves]
+// if directed all edges go the root to [1, leaves)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> star(Integer leaves) {
+	return bipartite<E, DIR>(1, leaves);
+}
+
+// path 0-1-2-...-edges with vertices [0, edges]
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> path(Integer edges) {
+	GraphDetail::GraphType<E, DIR> res(edges+1);
+	for (Integer i = 0; i < edges; i++) {
+		res.addEdge(i, i + 1);
+	}
+	return res;
+}
+
+// path 0-1-2-...-n-1-0 with vertices [0, n)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> cycle(Integer n) {
+	auto p = path<E, DIR>(n-1);
+	p.addEdge(n - 1, 0);
+	return p;
+}
+
+// wheel with root = 1 and outer vertices 1-2-...-outer-1 with vertices [0, outer]
+template<typename E = NoData>
+Graph<E> wheel(Integer outer) {
+	return star<E>(outer).combine(cycle<E>(outer).setMinId(1));
+}
+
+// lolly graph with a path with p edges [0, p] and a clique [p, p+c) and
+// p is the vertex where clique and path are connected
+template<typename E = NoData>
+Graph<E> lolly(Integer p, Integer c) {
+	return path<E>(p).combine(clique<E>(c).setMinId(p));
+}
+
+// broom graph with a path with p edges [0, p] and a star [p, p+l]
+// p is the vertex where star and path are connected
+template<typename E = NoData>
+Graph<E> broom(Integer p, Integer l) {
+	return path<E>(p).combine(star<E>(l).setMinId(p));
+}
+
+// n times m grid
+// 0-1-...-n-1
+// | |      |
+// n- ... -2*n-1
+// |        |
+// .        .
+//          |
+//        -n*m-1
+template<typename E = NoData>
+Graph<E> grid(Integer n, Integer m) {
+	return path<E>(n-1).cartesian(path<E>(m-1));
+}
+template<typename E = NoData>
+Graph<E> grid(Integer n) {
+	return grid<E>(n, n);
+}
+
+// n dimensional hyper cube with vertices [0, 2^dimension)
+// a-b <=> |a^b|=1
+template<typename E = NoData>
+Graph<E> hypercube(Integer dimension) {
+	if (dimension < 2) return clique<E>(dimension+1);
+	return hypercube<E>(dimension-1).cartesian(clique<E>(2));
+}
+
+// complete tree with root at 0 and all subtrees are consecutive
+// vertices in [0, (children^{level+1}-1)/(children-1))
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> completeTree(Integer level, Integer children = 2) {
+	if (level <= 1) return star<E, DIR>(level <= 0 ? 0 : children);
+	GraphDetail::GraphType<E, DIR> res(1);
+	GraphDetail::GraphType<E, DIR> sub = completeTree<E, DIR>(level - 1, children);
+	for (Integer i = 0; i < children; i++) {
+		Integer next = res.nodeCount();
+		res.append(sub);
+		res.addEdge(0, next);
+	}
+	return res;
+}
+
+
+// complete boolean lattice i->j <=> i|j==j
+// vertices in [0, 2^level)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> booleanLattice(Integer level) {
+	GraphDetail::GraphType<E, DIR> res(1 << level);
+	for (Integer i = 0; i < res.nodeCount(); i++) {
+		for (Integer j = 1; j < res.nodeCount(); j*=2) {
+			if ((i | j) == i) {
+				res.addEdge(i, i^j);
+			}
+		}
+	}
+	return res;
+}
+
+// prefix of the rado graph i->j <=> i<j and j[i] == true;
+// vertices in [0, n)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> rado(Integer n) {
+	GraphDetail::GraphType<E, DIR> res(n);
+	for (Integer i = 0; i < n; i++) {
+		for (Integer j = 0; (1 << j) <= i; j++) {
+			if ((i | (1 << j)) == i) {
+				res.addEdge(j, i);
+			}
+		}
+	}
+	return res;
+}
+
+// generate a tree from a pruefer code
+// values should be in [0, sz(code)+2)
+template<typename E = NoData>
+Graph<E> pruefer(const std::vector<Integer>& code) {
+	Graph<E> res(code.size() + 2);
+	std::vector<Integer> count(res.nodeCount());
+	for (Integer x : code) count[x]++;
+	Integer current = -1;
+	Integer skip = -1;
+	auto getNext = [&](){
+		Integer oldSkip = skip;
+		skip = -1;
+		if (0 <= oldSkip and oldSkip <= current) return oldSkip;
+		for (current++; count[current] > 0; current++) {}
+		return current;
+	};
+	for (Integer x : code) {
+		Integer y = getNext();
+		res.addEdge(x, y);
+		count[x]--;
+		if (count[x] == 0) skip = x;
+	}
+	Integer x = getNext();
+	Integer y = getNext();
+	res.addEdge(x, y);
+	return res;
+}
+
+// generate a random tree with vertices [0, n)
+// if directed 0 is the root
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> randomTree(Integer n) {
+	if constexpr (!DIR) {
+		if (n <= 2) return clique<E>(n);
+		std::vector<Integer> code(n - 2);
+		for (Integer& x : code) x = Random::integer(n);
+		return pruefer<E>(code);
+	} else {
+		Graph<NoData> tmp = randomTree<NoData, false>(n);
+		DiGraph<E> res(n);
+		auto dfs = [&tmp, &res](auto&& self, Integer cur, Integer pref) -> void {
+			for (auto edge : tmp[cur]) {
+				if (edge.to == pref) continue;
+				res.addEdge(cur, edge.to);
+				self(self, edge.to, cur);
+			}
+		};
+		dfs(dfs, tmp.getMinId(), tmp.getMinId() - 1);
+		return res;
+	}
+}
+
+// generate a random graph (Erdös-Renyi)
+// each edge exists with a given number of edges m
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Integer m) {
+	GraphDetail::GraphType<E, DIR> res(n);
+	Integer lim = n * (n-1);
+	if constexpr (!DIR) lim /= 2;
+	auto edges = Random::distinct(m, 0, lim);
+	for (Integer x : edges) {
+		Integer i = x / n;
+		Integer j = x % n;
+		if constexpr(DIR) {
+			if (i == j) i = n - 1;
+		} else {
+			if (j <= i) {
+				i = n - 2 - i;
+				j = n - 1 - j;
+			}
+		}
+		res.addEdge(i, j);
+	}
+	return res;
+}
+
+// generate a random graph (Erdös-Renyi)
+// each edge exists with probability p
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Real p) {
+	Integer lim = n * (n-1);
+	if constexpr (!DIR) lim /= 2;
+	return randomGraph<E, DIR>(n, Random::binomial(lim, p));
+}
+
+// generate a random graph with linear growing degrees
+template<typename E = NoData>
+Graph<E> randomGrowingGraph(Integer n, Real p) {
+	judgeAssert<std::domain_error>(0.0_real <= p and p <= 1.0_real, "randomGrowingGraph(): p must be in [0,1]!");
+	Graph<E> res(n);
+	for (Integer i = 0; i < n; i++) {
+		Integer deg = p * Random::real(0, i+1);
+		auto neighbours = Random::distinct(deg, 0, i);
+		for (Integer j : neighbours) res.addEdge(i, j);
+	}
+	return res;
+}
+
+// generate a random graph with a given degree sequence
+// (not uniform...)
+template<typename E = NoData>
+Graph<E> randomGraph(const std::vector<Integer>& degree, Integer averageFlips = 10) {
+	Graph<E> res(std::ssize(degree));
+	// havel hakimi in O(m*log(n))
+	std::priority_queue<std::pair<Integer, Integer>> pq;
+	for (Integer i = 0; i < std::ssize(degree); i++) {
+		if (degree[i] > 0) {
+			pq.emplace(degree[i], i);
+		}
+	}
+	while (!pq.empty()) {
+		auto [d, c] = pq.top();
+		pq.pop();
+		if (std::ssize(pq) < d or d < 0) {
+			throw std::invalid_argument("randomGraph(): Invalid degree sequence!");
+		}
+		std::vector<std::pair<Integer, Integer>> todo;
+		for (Integer i = 0; i < d; i++) {
+			auto [dd, cc] = pq.top();
+			pq.pop();
+			res.addEdge(c, cc);
+			dd--;
+			if (dd > 0) todo.emplace_back(dd, cc);
+		}
+		for (const auto& e : todo) pq.push(e);
+	}
+	// randomly flip edges O(m*log(n))
+	for (Integer i = 0; i < averageFlips*res.nodeCount(); i++) {
+		auto a = res.getEdgeById(Random::integer(res.edgeCount()));
+		auto b = res.getEdgeById(Random::integer(res.edgeCount()));
+		if (a.from == b.to or res.hasEdge(a.from, b.to)) continue;
+		if (b.from == a.to or res.hasEdge(b.from, a.to)) continue;
+		res.eraseEdge(a.from, a.to);
+		res.eraseEdge(b.from, b.to);
+		res.addEdge(a.from, b.to);
+		res.addEdge(b.from, a.to);
+	}
+	return res;
+}
+
+// generates a worstcase instance for Ford Fulkerson with dfs.
+// The graph contains 2*n vertices and has 2^n flow from 0 to 2*n-1.
+// Figure 2: https://people.computing.clemson.edu/~bcdean/iterm.pdf
+// Note that the specific order of edghes is required
+DiGraph<Integer> ffWorstcase(Integer n) {
+	judgeAssert(0 < n && n <= 63, "ffWorstcase(): n out of bounds");
+	DiGraph<Integer> res(2 * n);
+	res.addEdge(n-1, n, 1);
+	for (Integer i = n - 2, j = n+1, c = 1; j < 2 * n; i--, j++, c *= 2) {
+		res.addEdge(i, i+1, c);
+		res.addEdge(i, j-1, c);
+		res.addEdge(i+1, j, c);
+		res.addEdge(j-1, j, c);
+	}
+	return res;
+}
+
+// generates a worstcase instance for various min cost max flow algorithms.
+// The graph contains 2*n+2 vertices and has flow from 0 to 2*n+1.
+// Figure 4: https://link.springer.com/article/10.1007/BF01580132
+DiGraph<std::pair<Integer, Integer>> mcmfWorstcase(Integer n) {
+	judgeAssert(0 < n && n <= 60, "mcmfWorstcase(): n out of bounds");
+	DiGraph<std::pair<Integer, Integer>> res(2 * n + 2);
+	Integer inf = 5 * (1ll << n) / 4;
+	for (Integer i = 0; i < n; i++) {
+		res.addEdge(0, i + 1, {i < 2 ? 2 * i + 1 : 5ll << (i - 2), 0});
+	}
+	res.addEdge(1, n + 1, {inf, 0});
+	for (Integer i = 0; i < n; i++) {
+		for (Integer j = 0; j < n; j++) {
+			if (i == j) continue;
+			res.addEdge(i + 1, j + 1 + n, {inf, (1ll << std::max(i, j)) - 1});
+		}
+	}
+	for (Integer i = 0; i < n; i++) {
+		res.addEdge(i + 1 + n, 2 * n + 1, {i < 2 ? 2: 5ll << (i - 2), 0});
+	}
+	return res;
+}
+
+#endif
-- 
2.43.0

