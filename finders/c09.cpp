#include "validate.h"
#include "rng.h"
using namespace fz;
static std::string show(const std::vector<std::string>& a) { std::string s; for (auto& x : a) s += "[" + x + "]"; return s; }
static bool cmd(const std::string& s) { return s.size() > 2 && s[0] == '-' && s[1] == '-'; }
static bool intOk(const std::string& s, i64& v) { std::size_t k = s[0] == '-'; if (s.size() == k || s.size() > k + 15) return false; v = 0; for (std::size_t i = k; i < s.size(); i++) { if (s[i] < '0' || s[i] > '9') return false; v = v * 10 + (s[i] - '0'); } if (k) v = -v; return true; }
static bool bad(const std::string& s) { return s.empty() || s.find_first_of("xab ") != std::string::npos; }
static std::string tok() {
	static const char* f[] = {"", "-", "--", "---", "--a", "--b", "--seed", "-a", "a", "b", "--aa", "-x--", "1", "-7", "42x", "0", "123456789012", "-", "--a b", "a b", " ", "\n", "--c", "--d", "--e", "3", "x", "+--a", "a long text that needs memory of its own", "--a long command that needs memory"};
	return f[rnd() % (sizeof f / sizeof *f)];
}
void fz::search() {
	while (more()) for (int it = 0; it < 100; it++) {
		std::size_t n = rnd() % 9; std::vector<std::string> a; for (std::size_t i = 0; i < n; i++) a.push_back(tok());
		kase("arguments %s", show(a).c_str());
		std::vector<char*> av; for (auto& s : a) av.push_back(s.data()); av.push_back(nullptr);
		bool dup = false; for (std::size_t i = 0; i < n; i++) for (std::size_t j = 0; j < i; j++) dup |= cmd(a[i]) && a[i] == a[j];
		for (auto& s : a) CHECK(CommandParser::isCommand(s) == cmd(s), "isCommand " + s);
		CommandParser p; std::string o = outcome([&] { p = CommandParser((int) n, av.data()); });
		if (dup) { CHECK(o == "invalid_argument", "duplicate command: " + o); continue; }
		CHECK(o == "ok", o);
		auto list = [&](const Command& c, std::size_t first, std::size_t count, const std::string& what) {
			CHECK(c.exists() && static_cast<bool>(c), what + " does not exist"); CHECK(c.parameterCount() == (Integer) count, what + ": count " + std::to_string(c.parameterCount()));
			for (Integer i = -2; i < (Integer) count + 2; i++) { Parameter q = c[i]; bool in = 0 <= i && i < (Integer) count; CHECK(q.exists() == in, what + ": exists " + std::to_string(i)); if (in) CHECK(q.asString() == a[first + i], what + ": parameter " + std::to_string(i)); }
			CHECK(c.asStrings() == std::vector<std::string>(a.begin() + first, a.begin() + first + count), what + ": asStrings");
			std::vector<Integer> w; bool ok = true; for (std::size_t i = 0; i < count; i++) { i64 v; if (a[first + i].empty() || !intOk(a[first + i], v)) { ok = false; break; } w.push_back(v); }
			std::vector<Integer> g; std::string r = outcome([&] { g = c.asIntegers(); }); CHECK(r == (ok ? "ok" : "invalid_argument"), what + ": asIntegers " + r); if (ok) CHECK(g == w, what + ": asIntegers");
			std::vector<Real> h; r = outcome([&] { h = c.asReals(); }); if (ok) { CHECK(r == "ok" && h == std::vector<Real>(w.begin(), w.end()), what + ": asReals"); }
			auto z = [&](std::size_t k) { i64 v; return k < count && !a[first + k].empty() && intOk(a[first + k], v); };
			auto num = [&](std::size_t k) { i64 v; intOk(a[first + k], v); return v; };
			r = outcome([&] { auto t = c.asIntegers<2>(); CHECK(z(0) && z(1) && std::get<0>(t) == num(0) && std::get<1>(t) == num(1), what + ": asIntegers<2>"); }); CHECK(r == (z(0) && z(1) ? "ok" : "invalid_argument"), what + ": asIntegers<2> " + r);
			if (z(0) && z(1) && z(2)) { auto t = c.asReals<3>(); CHECK(std::get<0>(t) == num(0) && std::get<1>(t) == num(1) && std::get<2>(t) == num(2), what + ": asReals<3>"); }
			r = outcome([&] { auto t = c.asStrings<2>(); CHECK(count > 1 && std::get<0>(t) == a[first] && std::get<1>(t) == a[first + 1], what + ": asStrings<2>"); }); CHECK(r == (count > 1 ? "ok" : "invalid_argument"), what + ": asStrings<2> " + r);
			bool un = count < 3; for (std::size_t k = 0; k < 3 && k < count; k++) un |= bad(a[first + k]);
			if (un) { r = outcome([&] { c.asReals<3>(); }); CHECK(r == "invalid_argument", what + ": asReals<3> " + r); }
			un = false; for (std::size_t k = 0; k < count; k++) un |= bad(a[first + k]);
			if (un) { r = outcome([&] { c.asReals(); }); CHECK(r == "invalid_argument", what + ": asReals " + r); }
			r = outcome([&] { std::string s = c.asString(); CHECK(s == a[first], what + ": asString"); }); CHECK(r == (count ? "ok" : "bad_optional_access") || (!count && r != "ok"), what + ": asString " + r);
			CHECK(c.asString("dflt") == (count ? a[first] : "dflt"), what + ": asString(default)");
			for (Integer i = -1; i <= (Integer) count; i++) {
				Parameter q = c[i]; bool in = 0 <= i && i < (Integer) count, k = in && z(i); Integer v = 0; CHECK(q.asString("dflt") == (in ? a[first + i] : "dflt"), what + ": parameter asString(default)");
				r = outcome([&] { v = q.asInteger(77); }); CHECK(in ? (r == (k ? "ok" : "invalid_argument")) && (!k || v == num(i)) : r == "ok" && v == 77, what + ": asInteger(default) " + r);
				r = outcome([&] { v = q.asInteger(); }); CHECK(k ? r == "ok" && v == num(i) : r != "ok", what + ": asInteger " + r);
				Real d = 0; r = outcome([&] { d = q.asReal(7.5L); }); if (in && bad(a[first + i])) CHECK(r == "invalid_argument", what + ": asReal(default) of an unreadable value " + r); CHECK(!in ? r == "ok" && d == 7.5L : !k || (r == "ok" && d == num(i)), what + ": asReal(default) " + r);
				r = outcome([&] { d = q.asReal(); }); CHECK(in || r != "ok", what + ": asReal"); if (k) CHECK(r == "ok" && d == num(i), what + ": asReal");
			}
		};
		auto isTok = [](const std::string& s) { return !s.empty() && s.find_first_of(" \n\r\t\f\v") == std::string::npos; };
		std::vector<std::string> q = a; for (int k = 0; k < 4; k++) q.push_back(tok()); q.push_back("");
		for (auto& s : q) {
			std::string r = outcome([&] {
				Command c = p[s]; std::size_t first = n; bool found = s.empty(); if (found) first = 0; else for (std::size_t i = 0; i < n; i++) if (cmd(s) && a[i] == s) { found = true; first = i + 1; }
				if (!found) { CHECK(!c.exists() && c.parameterCount() == 0 && !c[0].exists(), "command " + s + " exists"); return; }
				std::size_t e = first; while (e < n && !cmd(a[e])) e++;
				list(c, first, e - first, "command " + s);
			}); CHECK(r == (isTok(s) ? "ok" : "invalid_argument"), "command " + s + ": " + r);
			r = outcome([&] {
				Command c = p.getRaw(s); std::size_t first = n + 1; for (std::size_t i = n; i-- > 0;) if (a[i] == s) first = i + 1;
				if (first > n) { CHECK(!c.exists() && c.parameterCount() == 0, "raw " + s + " exists"); return; }
				list(c, first, n - first, "raw " + s);
			}); CHECK(r == (isTok(s) ? "ok" : "invalid_argument"), "raw " + s + ": " + r);
		}
		list(p.getRaw(), 0, n, "raw");
		for (Integer i = -1; i <= (Integer) n; i++) { std::string s, r = outcome([&] { s = p[i]; }); bool in = 0 <= i && i < (Integer) n; CHECK(in ? r == "ok" && s == a[i] : r == "out_of_range", "argument " + std::to_string(i) + " " + r); }
	}
}
