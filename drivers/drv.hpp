// Replay / small-scope driver: runs the real code of /repo against an independent oracle.
// usage: driver SEED quick|thorough [section...]
// Each section runs in a child process; the arguments of the call under way are kept in shared memory,
// so a crash (sanitizer report, signal) or a hang is reported together with the input that caused it.
#pragma once
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <cstring>
#include <cstdio>
#include <cstdint>
#include <cstdlib>
#include <string>
#include <string_view>
#include <vector>
#include <functional>
#include <sstream>
#include <memory>

namespace drv {
struct Shared { volatile long cases; volatile int failed; char fn[256]; char input[8192]; char what[4096]; };
inline Shared * sh = nullptr;
inline bool thorough = false;
inline uint64_t seed = 1;
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
	uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
	uint64_t below(uint64_t n) { return (next() >> 11) % n; }
	bool coin() { return next() >> 63; }
	template <typename C> auto & pick(C & c) { return c[below(c.size())]; }
	template <typename T, size_t N> T & pick(T (&c)[N]) { return c[below(N)]; }
};
struct Out {
	char * p; char * e;
	void ch(char c) { if (p < e) *p++ = c; }
	void s(std::string_view t) { for (char c : t) ch(c); }
	void num(long long v) { char b[24]; snprintf(b, 24, "%lld", v); s(b); }
	void hex(unsigned long long v) { char b[24]; snprintf(b, 24, "%llX", v); s(b); }
};
inline void put(Out & o, std::string_view v) {
	static const char H[] = "0123456789abcdef";
	o.ch('"');
	size_t n = 0;
	for (unsigned char c : v) {
		if (++n > 300) { o.s("..."); break; }
		if (c >= 32 && c < 127 && c != '"' && c != '\\') o.ch((char) c); else { o.s("\\x"); o.ch(H[c >> 4]); o.ch(H[c & 15]); }
	}
	o.ch('"'); o.s("(len "); o.num((long long) v.size()); o.ch(')');
}
inline void put(Out & o, std::u32string_view v) {
	o.s("U\""); size_t n = 0;
	for (char32_t c : v) { if (++n > 200) { o.s("..."); break; } if (c >= 32 && c < 127) o.ch((char) c); else { o.s("\\u{"); o.hex(c); o.ch('}'); } }
	o.ch('"'); o.s("(len "); o.num((long long) v.size()); o.ch(')');
}
inline void put(Out & o, const char * v) { o.s(v); }
inline void put(Out & o, const std::string & v) { put(o, std::string_view(v)); }
inline void put(Out & o, const std::u32string & v) { put(o, std::u32string_view(v)); }
inline void put(Out & o, char32_t v) { o.s("U+"); o.hex(v); }
template <typename T, typename = std::enable_if_t<std::is_integral_v<T>>> void put(Out & o, T v) { o.num((long long) v); }
template <typename T> void put(Out & o, const std::vector<T> & v) { o.ch('['); bool f = true; for (const T & x : v) { if (!f) o.s(", "); f = false; put(o, x); } o.ch(']'); }
// record the call about to be made
template <typename ... A> void in(const char * fn, const A & ... a) {
	strncpy(sh->fn, fn, 255);
	Out o{sh->input, sh->input + sizeof(sh->input) - 1};
	bool f = true;
	((f ? (void) (f = false) : o.s(", "), put(o, a)), ...);
	*o.p = 0;
	sh->cases = sh->cases + 1;
}
template <typename T> std::string show(const T & t) { char b[2048]; Out o{b, b + 2047}; put(o, t); return std::string(b, o.p); }
template <typename T> std::string show(const std::vector<T> & t) { char b[2048]; Out o{b, b + 2047}; put(o, t); return std::string(b, o.p); }
inline std::string show(bool b) { return b ? "true" : "false"; }
[[noreturn]] inline void fail(const std::string & w) {
	strncpy(sh->what, w.c_str(), sizeof(sh->what) - 1);
	sh->failed = 1;
	_exit(3);
}
#define CHECK(cond, what) do { if (!(cond)) ::drv::fail(what); } while (0)
template <typename A, typename B> void same(const A & got, const B & want, const std::string & what = "result") {
	if (!(got == want)) fail(std::string(what) + ": got " + show(got) + ", expected " + show(want));
}
struct Sec { const char * name; std::function<void()> f; };
inline std::vector<Sec> & secs() { static std::vector<Sec> s; return s; }
struct Reg { Reg(const char * n, std::function<void()> f) { secs().push_back({n, f}); } };
#define SEC_CAT2(a, b) a##b
#define SEC_CAT(a, b) SEC_CAT2(a, b)
#define SECTION(name) static void SEC_CAT(sec_, __LINE__)(); static ::drv::Reg SEC_CAT(reg_, __LINE__)(name, SEC_CAT(sec_, __LINE__)); static void SEC_CAT(sec_, __LINE__)()
inline std::string jesc(const char * s) {
	std::string o;
	for (; *s; s++) { unsigned char c = (unsigned char) *s; if (c == '"' || c == '\\') { o += '\\'; o += (char) c; } else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += (char) c; }
	return o;
}
inline int run(int argc, char ** argv) {
	if (argc > 1 && !strcmp(argv[1], "--list")) { for (auto & s : secs()) puts(s.name); return 0; }
	if (argc > 1) seed = strtoull(argv[1], nullptr, 10);
	if (argc > 2) thorough = !strcmp(argv[2], "thorough");
	const char * st = getenv("DRV_STALL"); double stall = st ? atof(st) : 10;
	sh = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	int rc = 0;
	for (auto & s : secs()) {
		if (argc > 3) { bool on = false; for (int i = 3; i < argc; i++) if (!strcmp(argv[i], s.name)) on = true; if (!on) continue; }
		memset((void *) sh, 0, sizeof(Shared));
		fflush(stdout);
		int ep[2]; if (pipe(ep)) return 9;
		pid_t pid = fork();
		if (pid == 0) {
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			dup2(ep[1], 2); dup2(ep[1], 1); close(ep[0]); close(ep[1]);
			try { s.f(); } catch (const std::exception & e) { fail(std::string("unexpected exception: ") + e.what()); } catch (...) { fail("unexpected exception"); }
			_exit(0);
		}
		close(ep[1]);
		std::string err; bool hang = false; int status = 0;
		long last = -1; double idle = 0;
		for (;;) {
			pid_t r = waitpid(pid, &status, WNOHANG);
			fd_set rf; FD_ZERO(&rf); FD_SET(ep[0], &rf);
			timeval tv{0, r == pid ? 1000 : 20000};
			if (select(ep[0] + 1, &rf, nullptr, nullptr, &tv) > 0) { char b[4096]; ssize_t n = read(ep[0], b, 4096); if (n > 0 && err.size() < 20000) err.append(b, n); if (n <= 0 && r != pid) usleep(20000); if (n > 0) continue; }
			if (r == pid) break;
			if (sh->cases != last) { last = sh->cases; idle = 0; } else idle += 0.02;
			if (idle > stall && !hang) { hang = true; kill(pid, SIGKILL); }
		}
		close(ep[0]);
		const char * res = "ok"; std::string what;
		if (sh->failed) { res = "fail"; what = sh->what; }
		else if (hang) { res = "fail"; what = "the call does not return"; }
		else if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0)) { res = "fail"; what = "crash: " + (WIFSIGNALED(status) ? std::string("signal ") + std::to_string(WTERMSIG(status)) : std::string("sanitizer or abort")); }
		if (*res == 'f') rc = 1;
		std::string e2 = err.substr(0, 1500);
		printf("{\"section\": \"%s\", \"result\": \"%s\", \"cases\": %ld, \"fn\": \"%s\", \"input\": \"%s\", \"what\": \"%s\", \"stderr\": \"%s\"}\n", s.name, res, (long) sh->cases, jesc(sh->fn).c_str(), jesc(sh->input).c_str(), jesc(what.c_str()).c_str(), *res == 'f' ? jesc(e2.c_str()).c_str() : "");
	}
	return rc;
}

// ---- generators
// every string over the alphabet with length <= n
template <typename S, typename F> void all(const S & alpha, size_t n, F f) {
	for (size_t len = 0; len <= n; len++) {
		std::vector<size_t> ix(len, 0);
		for (;;) {
			S s; for (size_t i : ix) s.push_back(alpha[i]);
			f(s);
			size_t k = 0;
			while (k < len && ++ix[k] == alpha.size()) ix[k++] = 0;
			if (k == len) break;
		}
	}
}
inline std::string enc8(char32_t c) {
	std::string s;
	if (c < 0x80) s += (char) c;
	else if (c < 0x800) { s += (char) (0xC0 | c >> 6); s += (char) (0x80 | (c & 63)); }
	else if (c < 0x10000) { s += (char) (0xE0 | c >> 12); s += (char) (0x80 | (c >> 6 & 63)); s += (char) (0x80 | (c & 63)); }
	else { s += (char) (0xF0 | c >> 18); s += (char) (0x80 | (c >> 12 & 63)); s += (char) (0x80 | (c >> 6 & 63)); s += (char) (0x80 | (c & 63)); }
	return s;
}
inline std::string enc8(const std::u32string & t) { std::string s; for (char32_t c : t) s += enc8(c); return s; }
// -1 when ill-formed, else length; cp out. Table 3-7 of the Unicode standard.
inline int dec8(std::string_view s, size_t i, char32_t & cp) {
	auto b = [&](size_t k) { return (unsigned char) s[k]; };
	if (i >= s.size()) return -1;
	unsigned c = b(i);
	if (c < 0x80) { cp = c; return 1; }
	int n; unsigned lo = 0x80, hi = 0xBF;
	if (c >= 0xC2 && c <= 0xDF) n = 2; else if (c >= 0xE0 && c <= 0xEF) n = 3; else if (c >= 0xF0 && c <= 0xF4) n = 4; else return -1;
	if (c == 0xE0) lo = 0xA0; if (c == 0xED) hi = 0x9F; if (c == 0xF0) lo = 0x90; if (c == 0xF4) hi = 0x8F;
	if (i + n > s.size()) return -1;
	if (b(i + 1) < lo || b(i + 1) > hi) return -1;
	for (int k = 2; k < n; k++) if ((b(i + k) & 0xC0) != 0x80) return -1;
	cp = n == 2 ? c & 31 : n == 3 ? c & 15 : c & 7;
	for (int k = 1; k < n; k++) cp = cp << 6 | (b(i + k) & 63);
	return n;
}
inline bool valid8(std::string_view s) { for (size_t i = 0; i < s.size();) { char32_t c; int n = dec8(s, i, c); if (n < 0) return false; i += n; } return true; }
inline char32_t rcp(Rng & r) {
	static const char32_t edge[] = {0, 1, 9, 10, 13, 32, 'a', 'Z', '%', 0x7F, 0x80, 0xA0, 0xDF, 0x7FF, 0x800, 0xFFF, 0x1000, 0x20AC, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFF, 0x10000, 0x1F600, 0xFFFFF, 0x100000, 0x10FFFF};
	switch (r.below(4)) { case 0: return (char32_t) r.below(0x80); case 1: return edge[r.below(sizeof edge / sizeof *edge)]; case 2: return (char32_t) r.below(0x800);
		default: { char32_t c = (char32_t) r.below(0x110000 - 0x800); return c >= 0xD800 ? c + 0x800 : c; } }
}
inline std::u32string rstr32(Rng & r, size_t maxlen) { std::u32string s; size_t n = r.below(maxlen + 1); while (s.size() < n) s += rcp(r); return s; }
inline std::string rbytes(Rng & r, size_t maxlen) { std::string s; size_t n = r.below(maxlen + 1); while (s.size() < n) s += (char) r.next(); return s; }
// heap copy with exact bounds, so that the sanitizer sees any access outside the view
struct Exact {
	std::unique_ptr<char[]> b; size_t n;
	explicit Exact(std::string_view s) : b(new char[s.size()]), n(s.size()) { if (n) memcpy(b.get(), s.data(), n); }
	std::string_view sv() const { return {b.get(), n}; }
};
struct Exact32 {
	std::unique_ptr<char32_t[]> b; size_t n;
	explicit Exact32(std::u32string_view s) : b(new char32_t[s.size()]), n(s.size()) { if (n) memcpy(b.get(), s.data(), n * 4); }
	std::u32string_view sv() const { return {b.get(), n}; }
};
} // namespace drv
int main(int argc, char ** argv) { return drv::run(argc, argv); }
