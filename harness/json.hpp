// Minimal JSON line writer for the trace recorders.
#pragma once
#include <cstdio>
#include <string>
#include <vector>
#include <sstream>
#include <csignal>
#include <cstdlib>
#include <unistd.h>
#include <exception>
struct J {
	std::string s = "{"; bool first = true;
	void key(char const* k) { if(!first) s += ','; first = false; s += '"'; s += k; s += "\":"; }
	J& raw(char const* k, std::string const& v) { key(k); s += v; return *this; }
	J& num(char const* k, long v) { return raw(k, std::to_string(v)); }
	J& boolean(char const* k, bool v) { return raw(k, v ? "true" : "false"); }
	static std::string quote(std::string const& v) {
		std::string o = "\"";
		for(unsigned char c : v) {
			if(c == '"' || c == '\\') { o += '\\'; o += (char) c; }
			else if(c < 0x20) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
			else o += (char) c;
		}
		return o + "\"";
	}
	J& str(char const* k, std::string const& v) { return raw(k, quote(v)); }
	std::string done() { return s + "}"; }
};
template<class C, class F> std::string jarr(C const& c, F f) {
	std::string o = "["; bool first = true;
	for(auto const& x : c) { if(!first) o += ','; first = false; o += f(x); }
	return o + "]";
}
inline std::string jnums(std::vector<long> const& v) { return jarr(v, [](long x) { return std::to_string(x); }); }
inline std::string jstr(std::string const& v) { return J::quote(v); }

// A death of the code under test must not lose what was recorded before it.
inline char g_doing[512] = "";
inline void crash_handler(int sig) {
	fprintf(stderr, "DIED signal %d while: %s\n", sig, g_doing);
	fflush(stdout); fflush(stderr);
	_exit(128 + sig);
}
inline void install_crash_handler() {
	for(int s : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL }) std::signal(s, crash_handler);
}
inline void doing(std::string const& what) { snprintf(g_doing, sizeof g_doing, "%s", what.c_str()); }
