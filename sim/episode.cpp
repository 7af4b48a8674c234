#include "episode.hpp"
#include <algorithm>

// ---- contents ---------------------------------------------------------------------
std::string blob_data(const J &b) {
	// Content depends on (kind, seed); a shorter blob is a prefix of a longer one.
	std::string k = b.str("k", "rnd"), r; u64 seed = (u64)b.num("s"); i64 n = b.num("n"); r.reserve((size_t)n);
	Rng g(seed ^ 0x5eed); i64 per = b.num("per");
	if (k == "zero") r.assign((size_t)n, (char)seed);
	else if (k == "per") { std::string u; for (i64 i = 0; i < per; i++) u.push_back((char)g.next()); while ((i64)r.size() < n) r += u; }
	else if (k == "text") { static const char *w[] = {"the ", "archive ", "keeps ", "every ", "record ", "of ", "silo ", "number ", "\n", "42 ", "WARC/1.1\r\n", "index "}; while ((i64)r.size() < n) { r += w[g.below(12)]; if (g.chance(0.05)) r += std::to_string(g.below(100000)); } }
	else if (k == "mix") { while ((i64)r.size() < n) { size_t l = 1 + g.below(3000); if (g.chance(0.5)) for (size_t i = 0; i < l; i++) r.push_back((char)g.next()); else r.append(l, (char)('a' + g.below(26))); } }
	else if (k == "lines") { while ((i64)r.size() < n) r += sfmt("%016llx\n", (unsigned long long)g.next()); }
	else if (k == "gz") { static const unsigned char h[] = {31, 139, 8, 4, 0, 0, 0, 0, 2, 3, 12, 0, 'A', 'a', 8, 0}; while ((i64)r.size() < n) { r.append((const char *)h, sizeof h); for (int i = 0; i < 40; i++) r.push_back((char)g.next()); r += "WARC/1.1\r\nWARC-Record-ID: <"; } }
	else { while ((i64)r.size() + 8 <= n) { u64 v = g.next(); r.append((const char *)&v, 8); } while ((i64)r.size() < n) r.push_back((char)g.next()); }
	r.resize((size_t)n); 
	if (b.get("cat")) { std::string o; for (auto &x : b.get("cat")->a) o += blob_data(x); r += o; }
	return r;
}
std::string expect_id(const Cfg &c, const std::string &data, const J &op) {
	std::string d = sha256_hex(data);
	if (op.str("t") == "m") {
		if (op.get("forced")) return lower(op.str("forced"));
		std::string r = op.str("ref"); std::string ref = r.size() == c.idlen() ? c.prefix + r : r;
		return sha256_hex("<" + ref + ">\n" + d + "\n").substr(0, c.idlen());
	}
	return d.substr(0, c.idlen());
}
std::string spell(const Cfg &c, const std::string &id, int sp) {
	std::string up = id; for (auto &x : up) x = (char)toupper((unsigned char)x);
	switch (sp) { case 0: return c.prefix + id; case 1: return id; case 2: return up; case 3: return c.prefix + up;
	case 4: { std::string p = c.prefix; for (auto &x : p) x = (char)toupper((unsigned char)x); return p + id; }
	default: { std::string m = id; for (size_t i = 0; i < m.size(); i += 2) m[i] = (char)toupper((unsigned char)m[i]); return m; } }
}

// ---- configuration -------------------------------------------------------------------
J Cfg::toJ() const {
	J j = J::obj(); j.set("bits", bits).set("max", max_size).set("sort", sort_size).set("base", base).set("prefix", prefix).set("root", root).set("pipe", pipe_cap).set("us", us).set("winfo", winfo);
	if (quota >= 0) j.set("quota", quota); if (nofile != 1024) j.set("nofile", nofile); if (!meta_json) j.set("nojson", true); if (!max_expr.empty()) j.set("maxx", max_expr); if (!sort_expr.empty()) j.set("sortx", sort_expr); if (fmt) j.set("fmt", fmt); if (where) j.set("where", where); if (!jobs.a.empty()) j.set("jobs", jobs); return j;
}
void Cfg::fromJ(const J &j) {
	bits = (unsigned)j.num("bits", 128); max_size = j.num("max", 16384); sort_size = j.num("sort", 4096); base = j.str("base", base); prefix = j.str("prefix", prefix);
	root = j.num("root", 1); pipe_cap = j.num("pipe", 65536); us = j.num("us", 100); quota = j.num("quota", -1); nofile = j.num("nofile", 1024); meta_json = !j.num("nojson", 0); winfo = j.str("winfo", winfo); max_expr = j.str("maxx", ""); sort_expr = j.str("sortx", ""); fmt = (int)j.num("fmt", 0); where = (int)j.num("where", 0); if (j.get("jobs")) jobs = *j.get("jobs");
}
std::vector<std::string> Cfg::winfo_lines() const {
	std::vector<std::string> l; if (winfo == "(none)" || winfo == "(empty)") return l; if (winfo.empty() || winfo[0] != '\n') { l.push_back("description: " + winfo); return l; }
	for (size_t i = 1, j; i <= winfo.size(); i = j + 1) { j = winfo.find('\n', i); if (j == std::string::npos) j = winfo.size(); l.push_back(winfo.substr(i, j - i)); } return l;
}
std::string Cfg::text(bool client, const std::string &dir) const {
	typedef std::vector<std::string> L; std::vector<std::pair<std::string, L>> v; std::string mx = max_expr.empty() ? sfmt("%lld", (long long)max_size) : max_expr, so = sort_expr.empty() ? sfmt("%lld", (long long)sort_size) : sort_expr;
	v.push_back({"WARC-Record-ID", {bits == 128 && fmt % 4 == 1 ? prefix : prefix + sfmt("\t%u", bits)}}); if (winfo != "(none)") v.push_back({"warcinfo.body", winfo_lines()}); v.push_back({"silo.directory", {!dir.empty() ? dir : client ? "/none/" : "/silo/"}}); if (mx != "(default)") v.push_back({"silo.max_size", {mx}}); if (base != "%08u.warc.gz" || fmt % 3 != 1) v.push_back({"silo.basename", {base}}); if (so != "(default)") v.push_back({"index.sort_size", {so}});
	v.push_back({"resource.mime-types", {"application/octet-stream", fmt % 5 == 1 ? "Text/Plain" : "text/plain", "image/png"}}); L m = {"text/plain"}; if (meta_json) m.push_back("application/json"); m.push_back("application/x-meta"); v.push_back({"metadata.mime-types", m});
	if (client) for (auto &jb : jobs.a) { L l; for (auto &o : jb.o) if (o.first != "name" && o.second.t == J::STR) l.push_back(o.first + " " + o.second.s); v.push_back({"stow." + jb.str("name"), l}); }
	Rng g((u64)fmt * 77 + 3); std::string s = "# simulated\n"; if (fmt) for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[g.below(i)]);
	auto blank = [&]() { if (!fmt) return std::string(); switch (g.below(8)) { case 0: return std::string(" # a comment"); case 1: return std::string("  \t"); case 2: return std::string("#"); default: return std::string(); } };
	for (auto &x : v) {
		std::string n = x.first; if (fmt && g.chance(0.2)) for (auto &c : n) if (g.chance(0.5)) c = (char)toupper((unsigned char)c);
		if (!client) {} else n = x.first;	// a job's name is looked up as given
		s += n + ":" + blank() + "\n"; for (auto &l : x.second) { if (fmt && g.chance(0.1)) s += g.chance(0.5) ? "\n" : "\t# nothing\n# or\n"; s += (fmt && g.chance(0.3) ? g.chance(0.5) ? "        " : " \t " : "\t") + l + blank() + "\n"; }
		if (!fmt || g.chance(0.5)) s += "\n"; }
	if (fmt && g.chance(0.2)) while (!s.empty() && s.back() == '\n') s.pop_back();
	return s;
}

// ---- JSON forms --------------------------------------------------------------------------
J fault_toJ(const Fault &f) {
	J j = J::obj(); j.set("op", f.op).set("sub", f.sub).set("kind", fk_name[f.kind]).set("nth", f.nth).set("arg", f.arg);
	J c = J::arr(), o = J::arr(); for (int i = 0; i < SC_N; i++) if (f.cls != ~0u && (f.cls & (1u << i))) c.push(sc_name[i]); for (int i = 0; i < OB_N; i++) if (f.obj != ~0u && (f.obj & (1u << i))) o.push(ob_name[i]);
	if (f.cls != ~0u) j.set("calls", c); if (f.obj != ~0u) j.set("objects", o); return j;
}
bool fault_fromJ(const J &j, Fault &f) {
	f.op = (int)j.num("op", -1); f.sub = (int)j.num("sub", -1); f.nth = (int)j.num("nth"); f.arg = j.num("arg"); std::string k = j.str("kind"); bool ok = false;
	for (int i = 0; i < FK_N; i++) if (k == fk_name[i]) { f.kind = (Fk)i; ok = true; }
	if (const J *c = j.get("calls")) { f.cls = 0; for (auto &x : c->a) for (int i = 0; i < SC_N; i++) if (x.s == sc_name[i]) f.cls |= 1u << i; }
	if (const J *c = j.get("objects")) { f.obj = 0; for (auto &x : c->a) for (int i = 0; i < OB_N; i++) if (x.s == ob_name[i]) f.obj |= 1u << i; }
	return ok;
}
Policy pol_fromJ(const J &j) {
	Policy p; std::string k = j.str("k", "seq"); p.k = k == "random" ? Policy::RANDOM : k == "hot" ? Policy::HOT : k == "pct" ? Policy::PCT : k == "stall" ? Policy::STALL : Policy::SEQ;
	p.p = j.dbl("p", 0.1); p.p_hot = j.dbl("ph", 0.5); p.stall_len = (int)j.num("len", 50); p.stall_p = j.dbl("sp", 0.5); if (j.get("ch")) for (auto &x : j.get("ch")->a) p.change.push_back((u64)x.i); return p;
}
J Episode::toJ() const {
	J j = J::obj(); j.set("profile", profile).set("seed", (i64)seed).set("cfg", cfg.toJ()); J o = J::arr(); for (auto &p : ops) { J x = p.second; x.set("op", p.first); o.push(x); } j.set("ops", o);
	J ph = J::arr(); for (auto &p : phases) { J x = J::obj(); if (!p.note.empty()) x.set("note", p.note); if (!p.env.a.empty()) x.set("env", p.env); J c = J::arr(); for (auto &l : p.clients) { J y = J::arr(); for (int i : l) y.push(i); c.push(y); } x.set("clients", c); if (!p.faults.empty()) { J f = J::arr(); for (auto &q : p.faults) f.push(fault_toJ(q)); x.set("faults", f); } x.set("pol", p.pol); ph.push(x); } j.set("phases", ph);
	if (replay_sched) { J s = J::arr(); for (auto &p : overrides) { J y = J::arr(); y.push((i64)p.first).push(p.second); s.push(y); } j.set("schedule", s); }
	return j;
}
bool Episode::fromJ(const J &j) {
	profile = j.str("profile"); seed = (u64)j.num("seed"); if (!j.get("cfg") || !j.get("ops") || !j.get("phases")) return false; cfg.fromJ(*j.get("cfg"));
	for (auto &x : j.get("ops")->a) { J y = x; y.o.erase(std::remove_if(y.o.begin(), y.o.end(), [](const std::pair<std::string, J> &q) { return q.first == "op"; }), y.o.end()); ops[(int)x.num("op")] = y; }
	for (auto &x : j.get("phases")->a) { Phase p; p.note = x.str("note"); if (x.get("env")) p.env = *x.get("env"); if (x.get("clients")) for (auto &c : x.get("clients")->a) { p.clients.emplace_back(); for (auto &i : c.a) p.clients.back().push_back((int)i.i); } if (x.get("faults")) for (auto &f : x.get("faults")->a) { Fault q; if (!fault_fromJ(f, q)) return false; p.faults.push_back(q); } if (x.get("pol")) p.pol = *x.get("pol"); phases.push_back(p); }
	if (const J *s = j.get("schedule")) { replay_sched = true; for (auto &y : s->a) overrides[(u64)y.a[0].i] = (int)y.a[1].i; }
	return true;
}
void Stats::add(const Stats &o) {
	episodes += o.episodes; ops += o.ops; ticks += o.ticks; decisions += o.decisions; switches += o.switches; procs += o.procs; sim_us += o.sim_us;
	for (auto &p : o.faults) faults[p.first] += p.second; for (auto &p : o.opkinds) opkinds[p.first] += p.second; for (auto &p : o.probes) probes[p.first] += p.second; for (auto &p : o.pols) pols[p.first] += p.second; for (auto &p : o.env) env[p.first] += p.second;
	for (u64 x : o.inter) inter.insert(x); for (u64 x : o.states) states.insert(x);
}
J Stats::toJ() const {
	auto m = [](const std::map<std::string, u64> &x) { J j = J::obj(); for (auto &p : x) j.set(p.first, (i64)p.second); return j; };
	J j = J::obj(); j.set("episodes", (i64)episodes).set("ops", (i64)ops).set("syscalls", (i64)ticks).set("decisions", (i64)decisions).set("switches", (i64)switches).set("procs", (i64)procs).set("sim_us", sim_us).set("faults", m(faults)).set("opkinds", m(opkinds)).set("probes", m(probes)).set("policies", m(pols)).set("env", m(env)).set("interleavings", (i64)inter.size()).set("states", (i64)states.size());
	return j;
}
