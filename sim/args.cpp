// Commands which must be refused, and what size expressions mean.
#include "exec.hpp"
#include <sys/stat.h>
typedef unsigned __int128 u128;
// digits [. digits] [e [+-] digits] [kmgtp] [b]; a fraction of a byte is not a byte.
bool ref_size(const std::string &x, u128 &v, u128 &tol) {
	size_t i = 0; bool neg = false; if (i < x.size() && (x[i] == '+' || x[i] == '-')) neg = x[i++] == '-';
	u128 m = 0; int nd = 0, sc = 0; bool dot = false, big = false, frac = false; const u128 lim = ((u128)1 << 120);
	for (; i < x.size(); i++) { if (isdigit((unsigned char)x[i])) { nd++; if (m > lim / 16) { big = true; if (!dot) sc++; } else { m = m * 10 + (unsigned)(x[i] - '0'); if (dot) sc--; } } else if (x[i] == '.' && !dot) dot = true; else break; }
	if (!nd) return false;
	if (i < x.size() && (x[i] == 'e' || x[i] == 'E')) { i++; int s = 1; if (i < x.size() && (x[i] == '+' || x[i] == '-')) s = x[i++] == '-' ? -1 : 1; int e = 0, n = 0; for (; i < x.size() && isdigit((unsigned char)x[i]); i++) { n++; if (e < 100000) e = e * 10 + (x[i] - '0'); } if (!n) return false; sc += s * e; }
	static const char *su = "kmgtp"; int sh = 0; bool suf = i < x.size(); if (i < x.size()) for (int k = 0; k < 5; k++) if (tolower((unsigned char)x[i]) == su[k]) { sh = 10 * (k + 1); i++; break; }
	if (i < x.size() && (x[i] == 'b' || x[i] == 'B')) i++; if (i != x.size()) return false;
	frac = sc < 0; if (neg && m) return false;
	// m * 2^sh * 10^sc, by halves and fifths so that nothing overflows
	while (m && sc < 0 && m % 10 == 0) { m /= 10; sc++; }
	u128 q = m, rem2 = 0, den = 1; if (!m) { v = 0; tol = 0; return true; }
	for (int k = 0; k < sh; k++) { if (q > lim / 2) { if (sc < 0) { q /= 10; sc++; big = true; } else return false; } q *= 2; }
	for (; sc > 0; sc--) { if (q > lim / 10) return false; q *= 10; }
	for (; sc < 0; sc++) { if (den > lim / 10) { q = 0; den = 1; break; } den *= 10; }
	rem2 = q % den; v = q / den; tol = 1 + v / ((u128)1 << 49); if (!rem2 && !big && v < ((u128)1 << 50)) tol = frac ? 1 : 0; if (suf && rem2 * 2 >= den) v++;
	return v < ((u128)1 << 63);
}
u64 World::snapshot(std::string *what) {
	u64 h = 1; for (const char *d : {"/silo", "/out", "/etc", "/tmp", "/tree", "/in"}) { std::vector<std::string> v; K.host_list(d, v); for (auto &f : v) { std::string s; K.host_read(f, s); Inode *n = K.lookup(f); u64 x = hash_str(s, hash_str(f, 7)); h = mix64(h ^ x) + (n ? n->mode & 0777 : 0); if (what && d[1] != 't') *what += sfmt("%s:%zu:%llx ", f.c_str(), s.size(), (unsigned long long)(x & 0xffff)); } } return h;
}
std::vector<std::string> World::raw_argv(OpP o, std::map<std::string, std::string> &env, OFile **in) {
	const J &p = o->p; std::vector<std::string> a = {"aardwarc"}; if (p.get("in")) *in = mk_src(p.str("in"), {}); if (p.get("files")) for (auto &x : p.get("files")->o) K.host_write(x.first, x.second.s);
	if (p.get("conf")) { std::string fn = sfmt("/etc/op%d.conf", o->id); K.host_write(fn, p.str("conf")); a.push_back("-c"); a.push_back(fn); } else if (!p.num("bare")) { a.push_back("-c"); a.push_back("/etc/aa.conf"); }
	if (p.get("cgi")) { env["GATEWAY_INTERFACE"] = "CGI/1.1"; env["REQUEST_METHOD"] = "GET"; env["PATH_INFO"] = p.str("cgi"); } if (p.get("env")) for (auto &x : p.get("env")->o) env[x.first] = x.second.s;
	if (p.get("args")) for (auto &x : p.get("args")->a) a.push_back(x.s); return a;
}
static std::string diff_list(const std::string &a, const std::string &b) {
	auto sp = [](const std::string &s) { std::set<std::string> r; size_t i = 0; while (i < s.size()) { size_t j = s.find(' ', i); r.insert(s.substr(i, j - i)); i = j + 1; } return r; }; auto x = sp(a), y = sp(b); std::string d; for (auto &q : x) if (!y.count(q)) d += " -" + q; for (auto &q : y) if (!x.count(q)) d += " +" + q; return d.substr(0, 300);
}
// what commands leave behind which are refused, or which have nothing to leave
void World::eval_neutral(OpP o) {
	const OpRun &r = o->run; if (!o->snapped || !r.done || corrupted) return; const J &p = o->p; bool changed = o->snap0 != o->snap1; std::string d = changed ? diff_list(o->list0, o->list1) : "";
	if (o->k == "store" && !r.faulted && code(r) != 0 && p.get("neg") && changed) { fail("C24 C20" + ctx(o.get()), "refused-but-changed", head(o.get()) + "was refused, yet changed" + d, o->id); return; }
	if (o->k == "mksilo" && !r.faulted && !junk_holds) {
		bool ok = code(r) == 0; if (o->file0) { probe("mksilo of an existing silo"); if (ok) fail("C04 C24", "mksilo-twice", head(o.get()) + "succeeds although the silo is there", o->id); else if (changed) fail("C24 C04", "refused-but-changed", head(o.get()) + "was refused, yet changed" + d, o->id); }
		else if (!o->hold0 && !killed && !erred) { if (!ok) fail("C24 C05", "mksilo-refused", head(o.get()) + sfmt("exit %d: ", code(r)) + tail(r.err.data), o->id); else if (!K.exists(silo_path("/silo/", cfg.base, (unsigned)p.num("n")))) fail("C24 C05", "mksilo-nothing", head(o.get()) + "exits 0 without having made the silo", o->id); else probe("mksilo of a new silo"); } }
	if (o->k == "housekeeping" && !o->hold0 && code(r) == 0 && clean_exit(r)) {
		bool left = false; size_t i = 0; for (const char *f : {"/silo/index.appendix:", "/silo/index.housekeep:"}) if ((i = o->list1.find(f)) != std::string::npos && o->list1.compare(i + strlen(f), 2, "0:")) left = true;
		if (left && o->list0.find("/silo/index.appendix:") == std::string::npos) probe("only a snapshot to merge"); else if (left) fail(r.faulted ? "C03" : "C09" + ctx(o.get()), "housekeeping-undone", head(o.get()) + "exits 0, but not everything is in index.sorted:" + o->list1.substr(o->list1.find("/silo/index"), 200), o->id); else probe("housekeeping merged everything"); }
}
void World::eval_raw(OpP o) {
	const OpRun &r = o->run; const J &p = o->p; if (!r.done) return; std::string why = p.str("why"), tags = p.str("tags", "C24"), d = o->snapped && o->snap0 != o->snap1 ? diff_list(o->list0, o->list1) : ""; bool changed = o->snapped && o->snap0 != o->snap1; std::string cmd; if (p.get("args")) for (auto &x : p.get("args")->a) cmd += " " + printable(x.s); std::string H = "aardwarc" + cmd + " (" + why + "): ";
	if (p.get("absent") && started_before(p.str("absent"), r.t_end)) return;
	if (p.get("expr")) {	// housekeeping asks for index.sort_size bytes
		std::string x = p.str("expr"); u128 v = 0, tol = 0; u128 least = p.num("plain") ? 0 : 4096; bool ok = ref_size(x, v, tol); if (ok && least && tol && v < least + 32 + tol && v + tol + 32 > least) return; ok = ok && v >= least; if (r.faulted) { if (changed && !ok) fail(tags, "refused-but-changed", H + "was refused, yet changed" + d, o->id); return; }
		probe(ok ? "well-formed size expression" : "malformed size expression"); bool refd = r.err.data.find("sort_size' ") != std::string::npos || r.err.data.find("max_size' ") != std::string::npos || (code(r) == 2 && clean_exit(r));
		if (!ok) { if (!clean_exit(r) || code(r) == 0) fail(tags, "size-accepted", H + "the malformed size " + printable(x) + sfmt(" is accepted (status %d)", r.status), o->id); else if (changed) fail(tags, "refused-but-changed", H + "was refused, yet changed" + d, o->id); else if (r.err.data.empty()) fail(tags, "refused-silently", H + "no message", o->id); return; }
		if (refd) { fail(tags, "size-refused", H + "the size " + printable(x) + " is refused: " + tail(r.err.data), o->id); return; }
		if (p.num("plain")) { if (r.status != 0) fail(tags, "size-refused", H + "with the size " + printable(x) + sfmt(" ends with status %d: ", r.status) + tail(r.err.data), o->id); return; }
		u128 lo = (v > tol ? v - tol : 0) & ~(u128)31, hi = v + tol; size_t at = r.err.data.find("sort_size "); unsigned long long told = at == std::string::npos ? 0 : strtoull(r.err.data.c_str() + at + 10, nullptr, 10);
		if (v >= 262144 && !o->hold0 && !killed && !((u128)r.max_alloc >= lo && (u128)r.max_alloc <= hi + 256) && !((u128)r.max_read >= lo && (u128)r.max_read <= hi) && !((u128)told >= lo && (u128)told <= hi)) { fail(tags, "size-misread", H + "index.sort_size " + printable(x) + sfmt(" should be %llu bytes, but %zu were asked for", (unsigned long long)v, r.max_alloc), o->id); return; }
		bool big = !o->hold0 && v > (u128)(97UL << 20), small = v < (u128)(95UL << 20);
		if (big && !(clean_exit(r) && code(r) != 0)) fail(tags + " C03 C09", "no-memory", H + sfmt("status %d although there is no memory to sort the index: ", r.status) + tail(r.err.data), o->id);
		else if (big && changed) fail(tags + " C03 C09", "refused-but-changed", H + "there is no memory to sort the index, yet changed" + d, o->id);
		else if (small && r.status != 0) fail(tags + " C09", "exit:housekeeping", H + sfmt("with sort_size %s ends with status %d: ", printable(x).c_str(), r.status) + tail(r.err.data), o->id);
		else probe(big ? "sort_size beyond the memory there is" : "sort_size given as an expression"); return; }
	if (changed) { fail(tags, "refused-but-changed", H + "was refused, yet changed" + d, o->id); return; }
	if (p.get("cgi")) { if (!r.faulted && (r.status != 0 || r.out.data.find("Status: 200") != std::string::npos || r.out.data.find("Status: ") == std::string::npos)) fail(tags, "cgi-accepts", H + sfmt("status %d: ", r.status) + tail(r.out.data), o->id); return; }
	if (clean_exit(r) && code(r) == 0 && p.num("ok") == 0) { fail(tags, "not-refused", H + "exits 0: " + tail(r.out.data) + tail(r.err.data), o->id); return; }
	if (r.faulted) return;
	if (!clean_exit(r)) { fail(tags, "crash:raw", H + sfmt("ended by signal %d (%s): ", r.status & 127, r.crash.c_str()) + tail(r.err.data), o->id); return; }
	if (p.num("ok") == 0 && r.err.data.empty() && !(p.num("out") && !r.out.data.empty())) { fail(tags, "refused-silently", H + sfmt("exit %d without a message", code(r)), o->id); return; }
	if (!p.num("out") && !r.out.data.empty()) { fail(tags, "refused-with-output", H + "prints " + tail(r.out.data), o->id); return; }
	probe("refused: " + p.str("cls", "other"));
}
