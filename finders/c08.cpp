#include "validate.h"
#include "fz.h"
using namespace fz;
static bool lo(char c) { return 'a' <= c && c <= 'z'; }
static bool up(char c) { return 'A' <= c && c <= 'Z'; }
static bool le(char c) { return lo(c) || up(c); }
static bool di(char c) { return '0' <= c && c <= '9'; }
static bool vo(char c) { return c && std::strchr("aeiouAEIOU", c); }
static bool co(char c) { return le(c) && !vo(c); }
static char tl(char c) { return up(c) ? c + 32 : c; }
static char tu(char c) { return lo(c) ? c - 32 : c; }
static std::string hex(const std::string& s) { std::string r; char b[8]; for (char c : s) { std::snprintf(b, 8, "\\x%02x", (unsigned char)c); r += b; } return r; }
template<typename R, typename P> static void str(const char* nm, const std::string& s, const R& r, P p) {
	kase("%s(\"%s\")", nm, hex(s).c_str());
	std::size_t k = 0; while (k < s.size() && p(s[k])) k++;
	CHECK(bool(r) == (k == s.size()), bool(r) ? "returned true" : "returned false");
	if constexpr (!std::is_same_v<R, bool>) { CHECK(r.hasReason() == !bool(r), "character present/absent wrongly"); if (r.hasReason() && k < s.size()) CHECK(*r.reason == s[k], "wrong character reported"); }
}
void fz::search() {
	for (int i = -128; i < 128; i++) {
		char c = (char)i; kase("character code %d", i);
		CHECK(isLower(c) == lo(c), "isLower"); CHECK(isUpper(c) == up(c), "isUpper"); CHECK(isLetter(c) == le(c), "isLetter"); CHECK(isDigit(c) == di(c), "isDigit"); CHECK(isVowel(c) == vo(c), "isVowel"); CHECK(isConsonant(c) == co(c), "isConsonant");
		CHECK(toLower(c) == tl(c), "toLower"); CHECK(toUpper(c) == tu(c), "toUpper"); CHECK(toDefaultCase(c) == tl(c), "toDefaultCase");
		std::string s(1, c); CHECK(details::isToken(s) == !(c == ' ' || ('\t' <= c && c <= '\r')), "isToken");
	}
	kase("isToken(\"\")"); CHECK(!details::isToken(""), "empty token");
	auto rs = [] { std::string s(rnd() % 9, 0); int m = rnd() % 7; for (char& c : s) c = m == 0 ? (char)rnd() : m == 1 ? 'a' + rnd() % 26 : m == 2 ? 'A' + rnd() % 26 : m == 3 ? '0' + rnd() % 10 : m == 4 ? "aeiouAEIOU"[rnd() % 10] : m == 5 ? "bcdXYZ"[rnd() % 6] : '@' + rnd() % 64; if (s.size() && rnd() % 2) s[rnd() % s.size()] = (char)rnd(); if (s.size() && rnd() % 4 == 0) s.back() = " \n\r\t\f\v@[`{/:"[rnd() % 12]; return s; };
	while (more()) for (int it = 0; it < 2000; it++) {
		std::string s = rs();
		str("isLower", s, isLower(s), lo); str("isUpper", s, isUpper(s), up); str("isLetter", s, isLetter(s), le); str("isDigit", s, isDigit(s), di); str("isVowel", s, isVowel(s), vo); str("isConsonant", s, isConsonant(s), co);
		kase("case maps of \"%s\"", hex(s).c_str());
		std::string a = s, b = s, c = s, ea = s, eb = s; toLower(a); toUpper(b); toDefaultCase(c); for (char& x : ea) x = tl(x); for (char& x : eb) x = tu(x);
		CHECK(a == ea, "toLower"); CHECK(b == eb, "toUpper"); CHECK(c == ea, "toDefaultCase");
		bool tok = !s.empty(); for (char x : s) if (x == ' ' || ('\t' <= x && x <= '\r')) tok = false; CHECK(details::isToken(s) == tok, "isToken");
		std::string t = s; if (rnd() % 3 == 0) for (char& x : t) if (rnd() % 2) x = rnd() % 2 ? tl(x) : tu(x); if (rnd() % 3 == 0 && t.size()) t[rnd() % t.size()] ^= rnd() % 2 ? 32 : 1 << (rnd() % 8); if (rnd() % 4 == 0) t += (char)rnd(); if (rnd() % 5 == 0 && t.size()) t.pop_back(); if (rnd() % 9 == 0) t = rs();
		bool cs = rnd() % 2; kase("stringEqual(\"%s\", \"%s\", %d)", hex(s).c_str(), hex(t).c_str(), cs);
		std::size_t k = 0; while (k < s.size() && k < t.size() && (cs ? s[k] == t[k] : tl(s[k]) == tl(t[k]))) k++;
		bool eq = k == s.size() && k == t.size(); auto r = rnd() % 2 ? details::stringEqual(s, t, cs) : ValidateBase::stringEqual(s, t, cs);
		CHECK(bool(r) == eq, eq ? "returned false" : "returned true"); CHECK(r.hasReason() == !bool(r), "position present/absent wrongly"); if (r.hasReason() && !eq) CHECK(*r.reason == k, "wrong position reported");
	}
}
