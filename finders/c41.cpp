#define FZ_NOT_INITIALIZED
#include "validate.h"
#include "fz.h"
// init can run once per process only: every case runs in a child process
static std::string inchild(const std::function<std::string()>& f) {
	int p[2]; if (pipe(p)) return ""; std::fflush(stdout); pid_t c = fork();
	if (c == 0) { close(p[0]); std::string r; try { r = f(); } catch (const std::exception& e) { r = std::string("exception ") + e.what(); } if (write(p[1], r.data(), r.size())) {} _exit(0); }
	close(p[1]); std::string r; char b[512]; ssize_t k; while ((k = read(p[0], b, sizeof b)) > 0) r.append(b, k); close(p[0]); int s; waitpid(c, &s, 0); if (!WIFEXITED(s) || WEXITSTATUS(s)) r += " (child died)"; return r;
}
static std::string dir;
static std::string set(Real a, Real r, bool s, bool c) { std::ostringstream o; o << (double)a << " " << (double)r << " " << s << " " << c; return o.str(); }
static std::string in(const InputStream& i, const std::istream* cin, const OutputStream* out) {
	std::ostringstream o; o << (i.in == cin ? "stdin" : i.in ? "file" : "none"); if (i.in && i.in != cin) { std::string t; *i.in >> t; o << ":" << t; }
	o << " sp" << i.spaceSensitive << (i.in ? (bool)(i.in->flags() & std::ios::skipws) : false) << " ca" << i.caseSensitive << " v" << (int)i.onFail << " o" << (i.out == out) << " " << (double)i.floatAbsTol << " " << (double)i.floatRelTol; return o.str();
}
static std::string outs(const OutputStream& s) { std::ostringstream o; o << (s.os == &std::cout ? "stdout" : s.os == &std::cerr ? "stderr" : "file") << s.os->precision() << (bool)(s.os->flags() & std::ios::fixed) << (bool)(s.os->flags() & std::ios::boolalpha); return o.str(); }
void fz::search() {
	char t[] = "c41_XXXXXX"; dir = std::filesystem::absolute(mkdtemp(t)).string(); for (const char* f : {"in", "ans"}) std::ofstream(dir + "/" + f) << f << "\n";
	while (more()) {
		int kind = rnd() % 5; bool sens = kind < 2; std::vector<std::string> a{"prog"};
		if (kind == 1) a.push_back(dir + "/in"); if (kind == 2 || kind == 3) { a.push_back(dir + "/in"); a.push_back(dir + "/ans"); a.push_back(dir); }
		double ua = 0.5, ur = 0.25; bool us = rnd() % 2, uc = rnd() % 2; double ea = ua, er = ur; bool es = us || sens, ec = uc || sens;
		std::optional<double> T, A, R; long long seed = -1; std::vector<int> ops; for (int k = rnd() % 4; k > 0; k--) { int x = rnd() % 6; if (std::find(ops.begin(), ops.end(), x) == ops.end()) ops.push_back(x); }
		for (int x : ops) { double v = 0.001 * (1 + rnd() % 50); std::ostringstream o; o << v;
			if (x == 0) { a.push_back("float_tolerance"); a.push_back(o.str()); T = v; } if (x == 1) { a.push_back("float_absolute_tolerance"); a.push_back(o.str()); A = v; } if (x == 2) { a.push_back("float_relative_tolerance"); a.push_back(o.str()); R = v; }
			if (x == 3) { a.push_back("space_change_sensitive"); es = true; } if (x == 4) { a.push_back("case_sensitive"); ec = true; } if (x == 5) { seed = rnd() % 1000; a.push_back("--seed"); a.push_back(std::to_string(seed)); } }
		if (T) ea = er = *T; if (A) ea = *A; if (R) er = *R;
		std::string txt; for (auto& s : a) txt += s + " "; kase("%d: %s (before: %d %d)", kind, txt.c_str(), us, uc);
		auto S = [&](const char* src, bool sp, int v) { std::ostringstream o; o << src << " sp" << sp << !sp << " ca" << ec << " v" << v << " o1 " << ea << " " << er; return o.str(); };
		std::string want = set(ea, er, es, ec) + "|";
		if (kind == 0) want += S("stdin", es, 43) + "|stdout611"; if (kind == 1) want += S("file:in", 0, 1) + "|" + S("stdin", es, 43) + "|stdout611";
		if (kind == 2) want += S("file:in", 0, 1) + "|" + S("file:ans", 0, 1) + "|" + S("stdin", es, 43) + "|file611|file611|ok"; if (kind == 3) want += S("file:in", 0, 1) + "|" + S("stdin", es, 43) + "|file611|file611|stdout611|ok"; if (kind == 4) want += "stderr611|stdout611";
		if (seed >= 0) { std::ostringstream o; RandomEngine e(seed); o << "|" << e(); want += o.str(); } want += "|twice";
		std::string got = inchild([&] {
			using namespace ValidateBase; std::vector<char*> v; for (auto& s : a) v.push_back(s.data()); v.push_back(nullptr); int n = a.size();
			floatAbsTol = ua; floatRelTol = ur; spaceSensitive = us; caseSensitive = uc; std::string r;
			auto st = [&] { return set(floatAbsTol, floatRelTol, spaceSensitive, caseSensitive) + "|"; };
			if (kind == 0) { InputValidator::init(n, v.data()); r = st() + in(InputValidator::testIn, &std::cin, &juryOut) + "|" + outs(juryOut); }
			if (kind == 1) { AnswerValidator::init(n, v.data()); r = st() + in(AnswerValidator::testIn, &std::cin, &juryOut) + "|" + in(AnswerValidator::ans, &std::cin, &juryOut) + "|" + outs(juryOut); }
			auto files = [&](OutputStream& team) { juryOut << "J" << std::flush; team << "T" << std::flush; std::string j, t; std::ifstream(dir + "/judgemessage.txt") >> j; std::ifstream(dir + "/teammessage.txt") >> t; return std::string(j == "J" && t == "T" ? "ok" : "messages in other files"); };
			if (kind == 2) { using namespace OutputValidator; OutputValidator::init(n, v.data()); r = st() + in(OutputValidator::testIn, &std::cin, &juryOut) + "|" + in(juryAns, &std::cin, &juryOut) + "|" + in(teamAns, &std::cin, &juryOut) + "|" + outs(juryOut) + "|" + outs(OutputValidator::teamOut) + "|" + files(OutputValidator::teamOut); }
			if (kind == 3) { using namespace Interactor; Interactor::init(n, v.data()); r = st() + in(Interactor::testIn, &std::cin, &juryOut) + "|" + in(fromTeam, &std::cin, &juryOut) + "|" + outs(juryOut) + "|" + outs(Interactor::teamOut) + "|" + outs(toTeam) + "|" + files(Interactor::teamOut); }
			if (kind == 4) { Generator::init(n, v.data()); r = st() + outs(juryOut) + "|" + outs(Generator::testOut); }
			if (seed >= 0) { std::ostringstream o; o << "|" << Random::details::randomNumberGenerator(); r += o.str(); }
			int c = 0; try { ValidateBase::details::init(n, v.data()); } catch (const std::logic_error&) { c++; } try { floatAbsTol = 1; } catch (const std::logic_error&) { c++; } try { caseSensitive = !uc; } catch (const std::logic_error&) { c++; } try { spaceSensitive = !us; } catch (const std::logic_error&) { c++; }
			return r + "|" + (c == 4 && st() == set(ea, er, es, ec) + "|" ? "twice" : "init twice or a later change accepted");
		});
		CHECK(got == want, "state " + got + " instead of " + want);
		if (rnd() % 8 == 0) { kase("validator without its files"); CHECK(inchild([&] { char p[] = "p", x[] = "/nonexistent/file"; char* v[] = {p, x, nullptr}; AnswerValidator::init(2, v); return std::string("accepted"); }).find("exception") == 0, "missing input file accepted"); }
	}
	std::error_code ec; std::filesystem::remove_all(dir, ec);
}
