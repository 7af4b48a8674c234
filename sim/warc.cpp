#include "warc.hpp"
#include <ctime>
#include <zlib.h>

// ---- SHA-256 (own implementation, so that the oracle does not share code) ------
extern const uint32_t k256[64]; const uint32_t k256[64] = {
0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
static inline uint32_t ror(uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
bool have_sha_ni(); void sha_ni_blocks(uint32_t *st, const unsigned char *p, size_t n);
std::string sha256_hex(const std::string &s) {
	uint32_t h[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
	u64 bits = (u64)s.size() * 8; std::string tail; size_t full = s.size() / 64 * 64; tail.assign(s, full, std::string::npos);
	tail.push_back((char)0x80); while (tail.size() % 64 != 56) tail.push_back(0); for (int i = 7; i >= 0; i--) tail.push_back((char)(bits >> (8 * i)));
	auto blk = [&](const unsigned char *p) {
		uint32_t w[64]; for (int i = 0; i < 16; i++) w[i] = (uint32_t)p[4*i] << 24 | (uint32_t)p[4*i+1] << 16 | (uint32_t)p[4*i+2] << 8 | p[4*i+3];
		for (int i = 16; i < 64; i++) { uint32_t a = w[i-15], b = w[i-2]; w[i] = w[i-16] + (ror(a,7)^ror(a,18)^(a>>3)) + w[i-7] + (ror(b,17)^ror(b,19)^(b>>10)); }
		uint32_t a=h[0],b=h[1],c=h[2],d=h[3],e=h[4],f=h[5],g=h[6],hh=h[7];
		for (int i = 0; i < 64; i++) { uint32_t t1 = hh + (ror(e,6)^ror(e,11)^ror(e,25)) + ((e&f)^(~e&g)) + k256[i] + w[i], t2 = (ror(a,2)^ror(a,13)^ror(a,22)) + ((a&b)^(a&c)^(b&c)); hh=g; g=f; f=e; e=d+t1; d=c; c=b; b=a; a=t1+t2; }
		h[0]+=a;h[1]+=b;h[2]+=c;h[3]+=d;h[4]+=e;h[5]+=f;h[6]+=g;h[7]+=hh; };
	if (have_sha_ni()) { sha_ni_blocks(h, (const unsigned char *)s.data(), full / 64); sha_ni_blocks(h, (const unsigned char *)tail.data(), tail.size() / 64); } else {
	for (size_t i = 0; i < full; i += 64) blk((const unsigned char *)s.data() + i);
	for (size_t i = 0; i < tail.size(); i += 64) blk((const unsigned char *)tail.data() + i); }
	std::string r; for (int i = 0; i < 8; i++) r += sfmt("%08x", h[i]); return r;
}
std::string lower(std::string s) { for (auto &c : s) c = (char)tolower((unsigned char)c); return s; }

// one gzip member starting at p; extra: payload of the "Aa" subfield (or -1)
static bool member(const std::string &d, i64 pos, std::string &out, i64 &end, i64 &aa, std::string &err) {
	const unsigned char *p = (const unsigned char *)d.data() + pos; size_t n = d.size() - (size_t)pos; aa = -1;
	if (n < 18 || p[0] != 31 || p[1] != 139 || p[2] != 8) { err = "not a gzip member"; return false; }
	if (p[3] & 4) {
		size_t xl = p[10] | p[11] << 8, i = 12; if (12 + xl > n) { err = "truncated gzip extra field"; return false; }
		while (i + 4 <= 12 + xl) { size_t l = p[i + 2] | p[i + 3] << 8; if (p[i] == 'A' && p[i + 1] == 'a' && l == 8 && i + 12 <= 12 + xl) { u64 v = 0; for (int k = 7; k >= 0; k--) v = v << 8 | p[i + 4 + (size_t)k]; aa = (i64)v; } i += 4 + l; }
	}
	z_stream z; memset(&z, 0, sizeof z); if (inflateInit2(&z, 15 + 16) != Z_OK) { err = "zlib"; return false; }
	z.next_in = (Bytef *)(uintptr_t)p; z.avail_in = (uInt)n; char buf[65536]; int r;
	do { z.next_out = (Bytef *)buf; z.avail_out = sizeof buf; r = inflate(&z, Z_NO_FLUSH); out.append(buf, sizeof buf - z.avail_out); } while (r == Z_OK && (z.avail_in || z.avail_out == 0));
	size_t used = n - z.avail_in; std::string m = z.msg ? z.msg : ""; inflateEnd(&z);
	if (r != Z_STREAM_END) { err = r == Z_OK || r == Z_BUF_ERROR ? "truncated gzip member" : "gzip data error: " + m; return false; }
	end = pos + (i64)used; return true;
}
bool gunzip_all(const std::string &z, std::string &out, int *members) {
	i64 pos = 0, aa; std::string err; int n = 0; while (pos < (i64)z.size()) { if (!member(z, pos, out, pos, aa, err)) return false; n++; } if (members) *members = n; return n > 0;
}
i64 parse_silo(const std::string &d, i64 pos, unsigned silo, const std::string &prefix, std::vector<RecP> &out, std::string &err) {
	while (pos < (i64)d.size()) {
		auto r = std::make_shared<Rec>(); r->silo = silo; r->off = pos; std::string h, t; i64 p1, p2, p3, a1, a2, a3; std::string e;
		auto bad = [&](const std::string &m) { err = sfmt("silo %u offset %lld: ", silo, (long long)pos) + m; return pos; };
		if (!member(d, pos, h, p1, a1, e)) return bad("header: " + e);
		if (h.compare(0, 10, "WARC/1.1\r\n")) return bad("header does not start with WARC/1.1");
		if (h.size() < 14 || h.compare(h.size() - 4, 4, "\r\n\r\n")) return bad("header not terminated by an empty line");
		if (a1 != p1 - pos) return bad(sfmt("header length hint %lld, is %lld", (long long)a1, (long long)(p1 - pos)));
		size_t i = 10; while (i < h.size() - 2) {
			size_t j = h.find("\r\n", i); std::string l = h.substr(i, j - i); size_t c = l.find(": "); if (c == std::string::npos || c == 0) return bad("malformed header line: " + printable(l));
			std::string n = l.substr(0, c), v = l.substr(c + 2); if (r->get(n)) return bad("duplicate header " + n); r->hdr.emplace_back(n, v); i = j + 2; if (h.compare(i, 2, "\r\n") == 0 && i + 2 != h.size()) return bad("empty line inside header"); }
		std::string id = r->val("WARC-Record-ID"); if (id.size() < prefix.size() + 2 || id[0] != '<' || id.back() != '>' || id.compare(1, prefix.size(), prefix)) return bad("bad WARC-Record-ID " + printable(id));
		r->id = id.substr(1 + prefix.size(), id.size() - prefix.size() - 2);
		if (r->get("X-Ghost")) { p2 = p1 + strtoll(r->val("X-Ghost").c_str(), nullptr, 10); a2 = p2 - p1; r->ghost = true; if (p2 > (i64)d.size()) return bad("ghost"); }
		else if (!member(d, p1, r->body, p2, a2, e)) return bad("body: " + e);
		if (a2 != p2 - p1) return bad(sfmt("body length hint %lld, is %lld", (long long)a2, (long long)(p2 - p1)));
		if (!member(d, p2, t, p3, a3, e)) return bad("record end: " + e);
		if (t != "\r\n\r\n") return bad("record end marker is not CRLF CRLF");
		r->body_off = p1; r->body_gz = p2 - p1; r->end = p3; r->bdig = sha256_hex(r->body); out.push_back(r); pos = p3;
	}
	return pos;
}
i64 parse_date(const std::string &s) {
	if (s.size() != 20) return -1; struct tm tm; memset(&tm, 0, sizeof tm); const char *pat = "dddd-dd-ddTdd:dd:ddZ";
	for (int i = 0; i < 20; i++) if (pat[i] == 'd' ? !isdigit((unsigned char)s[(size_t)i]) : pat[i] != s[(size_t)i]) return -1;
	sscanf(s.c_str(), "%d-%d-%dT%d:%d:%dZ", &tm.tm_year, &tm.tm_mon, &tm.tm_mday, &tm.tm_hour, &tm.tm_min, &tm.tm_sec); tm.tm_year -= 1900; tm.tm_mon--; return (i64)timegm(&tm);
}
std::string check_record(const Rec &r, unsigned idlen) {
	std::string t = r.type(); for (const char *n : {"WARC-Type", "WARC-Date", "Content-Length", "WARC-Block-Digest", "Content-Type"}) if (!r.get(n) && !(t == "continuation" && !strcmp(n, "Content-Type"))) return std::string("mandatory header ") + n + " missing";
	if (t != "warcinfo" && t != "resource" && t != "metadata" && t != "continuation") return "WARC-Type " + printable(t);
	if (r.val("Content-Length") != sfmt("%zu", r.body.size())) return sfmt("Content-Length %s, body is %zu", r.val("Content-Length").c_str(), r.body.size());
	if (r.val("WARC-Block-Digest") != "sha256:" + r.bdig) return "WARC-Block-Digest does not match body";
	if (parse_date(r.val("WARC-Date")) < 0) return "WARC-Date " + printable(r.val("WARC-Date"));
	if (r.id.size() != idlen || r.id.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos) return "WARC-Record-ID " + printable(r.id);
	std::string d = r.bdig.substr(0, idlen); bool seg = r.get("WARC-Segment-Number") != nullptr;
	if (t == "warcinfo" || t == "continuation" || (t == "resource" && !seg)) { if (r.id != d) return t + " record ID does not match its body"; }
	if (t == "metadata") { std::string ref = r.val("WARC-Refers-To"); if (ref.size() < 3 || ref[0] != '<' || ref.back() != '>') return "metadata without WARC-Refers-To"; }
	if (t == "warcinfo" && !r.get("WARC-Filename")) return "warcinfo without WARC-Filename";
	if (t == "continuation" && (!seg || !r.get("WARC-Segment-Origin-ID"))) return "continuation without segment headers";
	return "";
}
