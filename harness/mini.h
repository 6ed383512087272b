// Randomness, JSON and the trace log: what a driver needs that does not touch the node.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <memory>
#include <functional>
#include <algorithm>
#include <atomic>
#include <mutex>
#include <unistd.h>

// ---------- randomness ----------
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567) { for (int i = 0; i < 4; i++) next(); }
	uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1DULL; }
	uint64_t below(uint64_t n) { return n == 0 ? 0 : (next() >> 11) % n; }
	int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); }
	bool chance(double p) { return (double)(next() >> 11) / 9007199254740992.0 < p; }
	template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
	template <class T> void shuffle(std::vector<T>& v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[below(i)]); }
};

// ---------- JSON ----------
struct J {
	std::string s;
	static std::string esc(const std::string& in) { std::string o = "\""; for (unsigned char c : in) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
	static std::string v(const std::string& x) { return esc(x); }
	static std::string v(const char* x) { return esc(x); }
	static std::string v(bool x) { return x ? "true" : "false"; }
	template <class T, class = std::enable_if_t<std::is_integral_v<T>>> static std::string v(T x) { return std::to_string(x); }
	template <class T> static std::string v(const std::vector<T>& x) { std::string o = "["; for (size_t i = 0; i < x.size(); i++) { if (i) o += ","; o += v((T)x[i]); } return o + "]"; }
	template <class T> static std::string v(const std::set<T>& x) { return v(std::vector<T>(x.begin(), x.end())); }
	static std::string v(const J& x) { return "{" + x.s + "}"; }
	template <class T> J& operator()(const char* k, const T& x) { if (!s.empty()) s += ","; s += esc(k) + ":" + v(x); return *this; }
	std::string str() const { return "{" + s + "}"; }
};
struct Raw { std::string s; };
inline J& raw(J& j, const char* k, const std::string& x) { if (!j.s.empty()) j.s += ","; j.s += J::esc(k) + ":" + x; return j; }

struct Trace {
	FILE* f = nullptr; size_t n = 0;
	void open(const std::string& p) { f = fopen(p.c_str(), "w"); if (!f) { perror(p.c_str()); exit(3); } }
	void log(const J& j) { std::string t = j.str(); t += "\n"; fwrite(t.data(), 1, t.size(), f); n++; fflush(f); }
	~Trace() { if (f) fclose(f); }
};
