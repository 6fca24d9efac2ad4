#define FZ_NOT_INITIALIZED
#include "validate.h"
#include "fz.h"
static int inchild(std::string& r, const std::function<std::string()>& f) {
	int p[2]; if (pipe(p)) return -1; std::fflush(stdout); pid_t c = fork();
	if (c == 0) { close(p[0]); if (!freopen("/dev/null", "r", stdin) || !freopen("/dev/null", "w", stdout)) {} std::string r; auto out = [&] { if (write(p[1], r.data(), r.size())) {} }; try { r = f(); } catch (const std::exception& e) { r = std::string("exception ") + e.what(); out(); _exit(99); } out(); close(p[1]); Multipass::NEXT(); }
	close(p[1]); r.clear(); char b[512]; ssize_t k; while ((k = read(p[0], b, sizeof b)) > 0) r.append(b, k); close(p[0]); int s; waitpid(c, &s, 0); return WIFEXITED(s) ? WEXITSTATUS(s) : -2;
}
static std::string slurp(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return i ? s.str() : "(no file)"; }
void fz::search() {
	std::error_code ec;
	while (more()) {
		char t[] = "c42_XXXXXX"; std::string dir = std::filesystem::absolute(mkdtemp(t)).string(); for (const char* f : {"in", "ans"}) std::ofstream(dir + "/" + f) << f << "\n";
		std::string last; bool bigjump = rnd() % 3 == 0; long long base = 0;
		if (bigjump) { base = 1 + rnd() % 1000; std::ofstream(dir + "/.pass") << base - 1; last = "old"; std::ofstream(dir + "/.state0") << last; std::ofstream(dir + "/.state1") << last; }
		for (int k = 0; k < 5; k++) {
			long long n = base + k; kase("pass %lld of a run that starts with pass %lld", n, base);
			std::string state = "s" + std::to_string(rnd() % 1000), next = rnd() % 4 ? "n" + std::to_string(rnd()) + "\n" : "", got, want = std::to_string(n) + " " + (n ? last : "-");
			int code = inchild(got, [&] {
				using namespace Multipass; std::vector<std::string> a{"p", dir + "/in", dir + "/ans", dir, "float_tolerance", "0.125"}; std::vector<char*> v; for (auto& s : a) v.push_back(s.data()); v.push_back(nullptr);
				OutputValidator::init(a.size(), v.data()); Multipass::init();
				std::string s = "-"; if (prevstate.in) { s = ""; *prevstate.in >> s; if (prevstate.spaceSensitive || !prevstate.caseSensitive || prevstate.out != &juryOut || prevstate.onFail != 1 || prevstate.floatAbsTol != 0.125 || prevstate.floatRelTol != 0.125) s += " (wrong mode)"; }
				nextstate << state; nextpass << next; return std::to_string(pass) + " " + s;
			});
			CHECK(got == want, "pass and previous state " + got + " instead of " + want);
			CHECK(code == 42, "exit code " + std::to_string(code)); CHECK(slurp(dir + "/nextpass.in") == next, "nextpass.in contains " + slurp(dir + "/nextpass.in") + " instead of " + next);
			CHECK(slurp(dir + "/.pass") == std::to_string(n), ".pass contains " + slurp(dir + "/.pass")); last = state;
		}
		std::filesystem::remove_all(dir, ec);
	}
}
