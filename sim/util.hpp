// Small helpers: PRNG, hashing, JSON.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <utility>
#include <vector>
typedef uint64_t u64;
typedef int64_t i64;

static inline u64 mix64(u64 x) {
	x += 0x9e3779b97f4a7c15ULL;
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
	return x ^ (x >> 31);
}
static inline u64 hash_str(const std::string &s, u64 h = 0xcbf29ce484222325ULL) {
	for (unsigned char c : s) { h ^= c; h *= 0x100000001b3ULL; }
	return h;
}
struct Rng {
	u64 s;
	explicit Rng(u64 seed = 1) : s(mix64(seed ^ 0xA5A5A5A5DEADBEEFULL)) {}
	u64 next() { s += 0x9e3779b97f4a7c15ULL; u64 z = s;
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
	u64 below(u64 n) { return n ? next() % n : 0; }
	i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a + 1)); }
	bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
	double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
	template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
	size_t weighted(const std::vector<double> &w) {
		double t = 0; for (double x : w) t += x;
		double r = unit() * t;
		for (size_t i = 0; i < w.size(); i++) { if (r < w[i]) return i; r -= w[i]; }
		return w.size() - 1;
	}
	Rng fork(u64 tag) { return Rng(next() ^ mix64(tag)); }
};

// ---- JSON -----------------------------------------------------------------
struct J {
	enum T { NUL, BOOL, INT, DBL, STR, ARR, OBJ } t = NUL;
	bool b = false; i64 i = 0; double d = 0; std::string s;
	std::vector<J> a; std::vector<std::pair<std::string, J>> o;
	J() {}
	J(bool v) : t(BOOL), b(v) {}
	J(int v) : t(INT), i(v) {}
	J(unsigned v) : t(INT), i(v) {}
	J(long v) : t(INT), i(v) {}
	J(long long v) : t(INT), i(v) {}
	J(unsigned long v) : t(INT), i((i64)v) {}
	J(unsigned long long v) : t(INT), i((i64)v) {}
	J(double v) : t(DBL), d(v) {}
	J(const char *v) : t(STR), s(v) {}
	J(const std::string &v) : t(STR), s(v) {}
	static J arr() { J j; j.t = ARR; return j; }
	static J obj() { J j; j.t = OBJ; return j; }
	J &push(const J &v) { a.push_back(v); return *this; }
	J &set(const std::string &k, const J &v) {
		for (auto &p : o) if (p.first == k) { p.second = v; return *this; }
		o.emplace_back(k, v); return *this; }
	const J *get(const std::string &k) const {
		for (auto &p : o) if (p.first == k) return &p.second; return nullptr; }
	i64 num(const std::string &k, i64 def = 0) const {
		const J *p = get(k); if (!p) return def;
		return p->t == INT ? p->i : p->t == DBL ? (i64)p->d : p->t == BOOL ? p->b : def; }
	double dbl(const std::string &k, double def = 0) const {
		const J *p = get(k); if (!p) return def;
		return p->t == INT ? (double)p->i : p->t == DBL ? p->d : def; }
	std::string str(const std::string &k, const std::string &def = "") const {
		const J *p = get(k); return p && p->t == STR ? p->s : def; }
	void out(std::string &r, int ind = -1, int lvl = 0) const;
	std::string dump(int ind = -1) const { std::string r; out(r, ind); return r; }
	static bool parse(const std::string &txt, J &out);
};
std::string hex(const void *p, size_t n);
inline std::string hex(const std::string &s) { return hex(s.data(), s.size()); }
std::string unhex(const std::string &s);
std::string b64(const std::string &s);
std::string sfmt(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
std::string printable(const std::string &s, size_t max = 200);
std::string read_whole_file(const std::string &fn, bool *ok = nullptr);
