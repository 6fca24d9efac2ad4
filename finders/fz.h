// Shared part of the finders: bounded searches for a failing input on the real code (replay of refuted obligations).
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstdarg>
#include <cstring>
#include <cmath>
#include <cfloat>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <chrono>
#include <functional>
#include <algorithm>
#include <random>
#include <set>
#include <map>
#include <csignal>
#include <unistd.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <fcntl.h>
#include <exception>
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
namespace fz {
using i64 = long long;
using u64 = unsigned long long;
using i128 = __int128;
inline u64 state = 1;
inline u64 rnd() { u64 z = (state += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
inline std::vector<i64> hints, pool;
inline double seconds = 20;
inline auto t0 = std::chrono::steady_clock::now();
inline double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
inline bool more(double frac = 1) { return elapsed() < seconds * frac; }
inline char fallback[4096] = "start"; inline char* current = fallback; constexpr std::size_t CASELEN = 4096;
inline volatile long caseno = 0;
inline long lastseen = -1; inline int stuck = 0; inline int maxstuck = 15;
inline void out(const char* s) { ssize_t r = ::write(1, s, std::strlen(s)); (void)r; }
inline void oncrash() { out("CASE "); out(current); out("\n"); }
inline void onalarm(int) {
	if (caseno == lastseen) { if (++stuck >= maxstuck) { out("FAIL does not terminate on input: "); out(current); out("\n"); _exit(3); } }
	else { lastseen = caseno; stuck = 0; }
}
inline void kase(const char* f, ...) { va_list a; va_start(a, f); std::vsnprintf(current, CASELEN, f, a); va_end(a); caseno++; }
inline int fails = 0;
[[noreturn]] inline void done() { std::fflush(stdout); _exit(fails ? 1 : 0); }
inline void fail(const std::string& what) {
	std::printf("FAIL %s: %s\n", current, what.c_str()); std::fflush(stdout);
	if (++fails >= 3) done();
}
#define CHECK(c, what) do { if (!(c)) fz::fail(what); } while (0)
inline i64 pick() {
	switch (rnd() % 8) {
		case 0: return pool[rnd() % pool.size()];
		case 1: { u64 v = rnd(); return (i64)(v >> (rnd() % 64)); }
		case 2: { u64 v = rnd(); return -(i64)(v >> (1 + rnd() % 63)); }
		case 3: return (i64)(rnd() % 21) - 10;
		case 4: { u64 v = 1ull << (rnd() % 64); return (i64)(v + rnd() % 5 - 2); }
		case 5: { u64 v = 1ull << (rnd() % 64); return (i64)(0 - v + rnd() % 5 - 2); }
		case 6: if (!hints.empty()) { u64 v = hints[rnd() % hints.size()]; return (i64)(v + rnd() % 3 - 1); } [[fallthrough]];
		default: return (i64)rnd();
	}
}
inline i64 pick(i64 lo, i64 hi) { // inclusive
	u64 span = (u64)hi - (u64)lo + 1;
	for (int t = 0; t < 4; t++) { i64 v = pick(); if (lo <= v && v <= hi) return v; }
	switch (rnd() % 4) {
		case 0: return (i64)((u64)lo + (span ? rnd() % std::min<u64>(span, 3) : 0));
		case 1: return (i64)((u64)hi - (span ? rnd() % std::min<u64>(span, 3) : 0));
		default: return (i64)((u64)lo + (span ? rnd() % span : rnd()));
	}
}
inline i64 uni(i64 lo, i64 hi) { return (i64)((u64)lo + rnd() % ((u64)hi - (u64)lo + 1)); }
template<typename C> std::string show(const C& c) { std::ostringstream o; o << "{"; bool f = true; for (const auto& x : c) { if (!f) o << ","; f = false; o << x; } o << "}"; return o.str(); }
// runs f in a child process: returns exit status (>=0), or -signal; standard error captured into err, standard output into outp
struct Ran { int code; std::string out, err; };
inline Ran run(const std::function<void()>& f, int limit = 10) {
	int p[2], q[2]; if (pipe(p) || pipe(q)) std::abort();
	std::fflush(stdout); std::fflush(stderr);
	pid_t c = fork();
	if (c == 0) {
		signal(SIGALRM, SIG_DFL); itimerval z{}; setitimer(ITIMER_REAL, &z, nullptr); alarm(limit);
		dup2(p[1], 1); dup2(q[1], 2); close(p[0]); close(p[1]); close(q[0]); close(q[1]);
		f(); std::fflush(stdout); _exit(0);
	}
	close(p[1]); close(q[1]); Ran r; char b[4096]; ssize_t n;
	while ((n = read(p[0], b, sizeof b)) > 0 || (n < 0 && errno == EINTR)) if (n > 0) r.out.append(b, n);
	while ((n = read(q[0], b, sizeof b)) > 0 || (n < 0 && errno == EINTR)) if (n > 0) r.err.append(b, n);
	close(p[0]); close(q[0]); int s; while (waitpid(c, &s, 0) < 0) {}
	r.code = WIFEXITED(s) ? WEXITSTATUS(s) : -WTERMSIG(s);
	return r;
}
template<typename F> std::string outcome(F f) { // "ok" or the kind of exception
	try { f(); return "ok"; }
	catch (const std::invalid_argument&) { return "invalid_argument"; } catch (const std::domain_error&) { return "domain_error"; }
	catch (const std::out_of_range&) { return "out_of_range"; } catch (const std::length_error&) { return "length_error"; }
	catch (const std::logic_error&) { return "logic_error"; } catch (const std::runtime_error&) { return "runtime_error"; }
	catch (const std::exception&) { return "exception"; } catch (...) { return "unknown"; }
}
void search();
}
#ifndef FZ_NO_MAIN
namespace fz { inline void init(int argc, char** argv) {
#ifndef FZ_NOT_INITIALIZED
	::details::initialized(true);
#endif
	// the description of the current case lives in a shared mapping, so that it survives every kind of crash
	if (int fd = open("case", O_RDWR | O_CREAT | O_TRUNC, 0600); fd >= 0 && !ftruncate(fd, CASELEN)) { void* m = mmap(nullptr, CASELEN, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (m != MAP_FAILED) current = (char*)m; }
	state = argc > 1 ? std::strtoull(argv[1], nullptr, 10) * 7919 + 1 : 1;
	if (const char* h = std::getenv("FINDER_HINTS")) { std::ifstream f(h); std::string s; while (f >> s) hints.push_back((i64)(s[0] == '-' ? std::strtoll(s.c_str(), nullptr, 10) : (i64)std::strtoull(s.c_str(), nullptr, 10))); }
	if (const char* s = std::getenv("FINDER_SECONDS")) seconds = std::atof(s);
	for (i64 b : {0ll, 1ll, 2ll, 3ll, 4ll, 5ll, 7ll, 10ll, 31ll, 32ll, 33ll, 63ll, 64ll, 65ll, 100ll, 127ll, 128ll, 255ll, 256ll, 257ll, 1000ll, 65535ll, 65536ll, 2147483647ll, 2147483648ll, 4294967295ll, 4294967296ll, 4294967297ll, 1000000007ll, 9223372036854775807ll}) { pool.push_back(b); pool.push_back(-b); }
	pool.push_back((i64)(1ull << 63)); pool.push_back(INT64_MIN + 1); pool.push_back(INT64_MAX - 1);
	if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(oncrash);
	std::set_terminate([] { oncrash(); try { if (auto e = std::current_exception()) std::rethrow_exception(e); } catch (const std::exception& e) { std::printf("FAIL %s: unexpected exception %s\n", current, e.what()); std::fflush(stdout); } catch (...) {} _exit(4); });
	std::atexit([] { oncrash(); });
	signal(SIGALRM, onalarm); itimerval it{{1, 0}, {1, 0}}; setitimer(ITIMER_REAL, &it, nullptr);
} }
int main(int argc, char** argv) { fz::init(argc, argv); fz::search(); fz::done(); }
#endif
