// definitions of the polygon predicates, written from the definitions (quadratic), not from the algorithms of the library
#pragma once
#include <vector>
#include <utility>
#include <string>
namespace poly {
using P = std::pair<Integer, Integer>; using i128 = __int128;
inline int sgn(i128 x) { return (x > 0) - (x < 0); }
inline i128 cr(const P& p, const P& a, const P& b) { return (i128)(a.first - p.first) * (b.second - p.second) - (i128)(a.second - p.second) * (b.first - p.first); }
// convex in counterclockwise order: distinct vertices, every vertex on or to the left of every edge line, not all on a line
inline bool convex(const std::vector<P>& v) {
	std::size_t n = v.size(); bool area = false; if (n < 3) return false;
	for (std::size_t i = 0; i < n; i++) for (std::size_t j = 0; j < n; j++) {
		if (j != i && v[i] == v[j]) return false;
		int s = sgn(cr(v[i], v[(i + 1) % n], v[j])); if (s < 0) return false; if (s > 0) area = true;
	}
	return area;
}
inline bool strict(const std::vector<P>& v) {
	std::size_t n = v.size(); if (!convex(v)) return false;
	for (std::size_t i = 0; i < n; i++) if (cr(v[i], v[(i + 1) % n], v[(i + 2) % n]) == 0) return false;
	return true;
}
inline bool on(const P& a, const P& b, const P& p) { return cr(a, b, p) == 0 && std::min(a.first, b.first) <= p.first && p.first <= std::max(a.first, b.first) && std::min(a.second, b.second) <= p.second && p.second <= std::max(a.second, b.second); }
inline bool touch(const P& a, const P& b, const P& c, const P& d) {
	if (on(a, b, c) || on(a, b, d) || on(c, d, a) || on(c, d, b)) return true;
	return sgn(cr(a, b, c)) * sgn(cr(a, b, d)) < 0 && sgn(cr(c, d, a)) * sgn(cr(c, d, b)) < 0;
}
// simple: distinct vertices, consecutive edges share only their common vertex, other edges share no point
inline bool simple(const std::vector<P>& v) {
	std::size_t n = v.size(); if (n < 3) return false;
	for (std::size_t i = 0; i < n; i++) {
		const P &a = v[i], &b = v[(i + 1) % n], &c = v[(i + 2) % n]; if (a == b || on(a, b, c) || on(b, c, a)) return false;
		for (std::size_t j = i + 2; j < n; j++) if ((j + 1) % n != i && touch(a, b, v[j], v[(j + 1) % n])) return false;
	}
	return true;
}
inline i128 area2(const std::vector<P>& v) { i128 s = 0; for (std::size_t i = 0; i < v.size(); i++) { const P &a = v[i], &b = v[(i + 1) % v.size()]; s += (i128)a.first * b.second - (i128)a.second * b.first; } return s; }
inline std::string str(const std::vector<P>& v) { std::string s; for (const P& p : v) s += "(" + std::to_string(p.first) + "," + std::to_string(p.second) + ") "; return s; }
}
