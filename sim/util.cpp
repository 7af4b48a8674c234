#include "util.hpp"
#include <cstdarg>
#include <cctype>
static void jstr(std::string &r, const std::string &s) {
	r += '"';
	for (unsigned char c : s) {
		if (c == '"') r += "\\\"";
		else if (c == '\\') r += "\\\\";
		else if (c == '\n') r += "\\n";
		else if (c == '\t') r += "\\t";
		else if (c == '\r') r += "\\r";
		else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += (char)c;
	}
	r += '"';
}
void J::out(std::string &r, int ind, int lvl) const {
	char b[64];
	auto nl = [&](int l) { if (ind >= 0) { r += '\n'; r.append((size_t)ind * l, ' '); } };
	switch (t) {
	case NUL: r += "null"; break;
	case BOOL: r += this->b ? "true" : "false"; break;
	case INT: snprintf(b, sizeof b, "%lld", (long long)i); r += b; break;
	case DBL: snprintf(b, sizeof b, "%.6g", d); r += b; break;
	case STR: jstr(r, s); break;
	case ARR: {
		bool simple = true;
		for (auto &e : a) if (e.t == OBJ || e.t == ARR) simple = false;
		r += '[';
		for (size_t k = 0; k < a.size(); k++) { if (k) r += ","; if (!simple) nl(lvl + 1); a[k].out(r, ind, lvl + 1); }
		if (!simple && !a.empty()) nl(lvl);
		r += ']'; break; }
	case OBJ: {
		bool flat = true;
		for (auto &e : o) if (e.second.t == OBJ || e.second.t == ARR) flat = false;
		if (lvl < 2) flat = false;
		r += '{';
		for (size_t k = 0; k < o.size(); k++) { if (k) r += ","; if (!flat) nl(lvl + 1); jstr(r, o[k].first); r += ':'; o[k].second.out(r, ind, lvl + 1); }
		if (!flat && !o.empty()) nl(lvl);
		r += '}'; break; }
	}
}
namespace {
struct P {
	const char *p, *e; bool ok = true;
	void ws() { while (p < e && isspace((unsigned char)*p)) p++; }
	std::string str() {
		std::string r; if (p >= e || *p != '"') { ok = false; return r; } p++;
		while (p < e && *p != '"') {
			if (*p == '\\' && p + 1 < e) {
				p++;
				switch (*p) {
				case 'n': r += '\n'; break; case 't': r += '\t'; break;
				case 'r': r += '\r'; break; case 'b': r += '\b'; break; case 'f': r += '\f'; break;
				case 'u': { if (p + 4 >= e) { ok = false; return r; }
					char h[5] = {p[1], p[2], p[3], p[4], 0}; p += 4; r += (char)strtoul(h, 0, 16); break; }
				default: r += *p; }
				p++;
			} else r += *p++;
		}
		if (p < e) p++; else ok = false;
		return r;
	}
	J val() {
		ws(); J j;
		if (p >= e) { ok = false; return j; }
		if (*p == '{') { p++; j.t = J::OBJ; ws();
			if (p < e && *p == '}') { p++; return j; }
			while (ok) { ws(); std::string k = str(); ws(); if (p >= e || *p != ':') { ok = false; break; } p++;
				J v = val(); j.o.emplace_back(k, v); ws();
				if (p < e && *p == ',') { p++; continue; }
				if (p < e && *p == '}') { p++; break; } ok = false; }
			return j; }
		if (*p == '[') { p++; j.t = J::ARR; ws();
			if (p < e && *p == ']') { p++; return j; }
			while (ok) { j.a.push_back(val()); ws();
				if (p < e && *p == ',') { p++; continue; }
				if (p < e && *p == ']') { p++; break; } ok = false; }
			return j; }
		if (*p == '"') { j.t = J::STR; j.s = str(); return j; }
		if (!strncmp(p, "true", 4)) { p += 4; return J(true); }
		if (!strncmp(p, "false", 5)) { p += 5; return J(false); }
		if (!strncmp(p, "null", 4)) { p += 4; return j; }
		const char *q = p; bool dbl = false;
		while (q < e && (isdigit((unsigned char)*q) || *q == '-' || *q == '+' || *q == '.' || *q == 'e' || *q == 'E')) {
			if (*q == '.' || *q == 'e' || *q == 'E') dbl = true; q++; }
		if (q == p) { ok = false; return j; }
		std::string n(p, q); p = q;
		if (dbl) return J(strtod(n.c_str(), 0));
		return J((long long)strtoll(n.c_str(), 0, 10));
	}
};
}
bool J::parse(const std::string &txt, J &out) {
	P p{txt.data(), txt.data() + txt.size()}; out = p.val(); return p.ok;
}
std::string hex(const void *p, size_t n) {
	static const char *d = "0123456789abcdef"; std::string r; const unsigned char *u = (const unsigned char *)p;
	for (size_t i = 0; i < n; i++) { r += d[u[i] >> 4]; r += d[u[i] & 15]; } return r;
}
std::string unhex(const std::string &s) {
	std::string r; for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char)strtoul(s.substr(i, 2).c_str(), 0, 16); return r;
}
std::string sfmt(const char *fmt, ...) {
	va_list ap; va_start(ap, fmt); char *p = nullptr; int n = vasprintf(&p, fmt, ap); va_end(ap);
	std::string r(p, (size_t)n); free(p); return r;
}
std::string printable(const std::string &s, size_t max) {
	std::string r;
	for (unsigned char c : s) { if (r.size() >= max) { r += "..."; break; }
		if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) r += sfmt("\\x%02x", c); else r += (char)c; }
	return r;
}
std::string read_whole_file(const std::string &fn, bool *ok) {
	std::string r; FILE *f = fopen(fn.c_str(), "rb"); if (ok) *ok = f != nullptr; if (!f) return r;
	char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); return r;
}
