#include "exec.hpp"
#include <algorithm>
#include <sys/stat.h>
World *W;
static const std::string CONF = "/etc/aa.conf", CCONF = "/etc/client.conf";

void World::fail(const std::string &tags, const std::string &cls, const std::string &msg, int op) {
	if (res.fails.size() > 40) return;
	Fail f; size_t i = 0; while (i < tags.size()) { size_t j = tags.find(' ', i); if (j == std::string::npos) j = tags.size(); if (j > i) f.tags.insert(tags.substr(i, j - i)); i = j + 1; }
	f.cls = cls; f.msg = msg; f.phase = ph; f.op = op;
	// K1 (known_findings.txt): copies of one segmented object which cannot be told apart once the index is gone
	if (!k1_obj.empty() && ambig(k1_obj)) { f.tags.clear(); f.tags.insert(cls.find("audit") != std::string::npos ? "C05" : "C08"); f.cls = "K1:" + cls; if (res.known.size() < 40) res.known.push_back(f); return; }
	res.fails.push_back(f);
}
struct ResetStr { std::string &s; ~ResetStr() { s.clear(); } };
bool World::ambig(const std::string &id) {
	for (i64 n = 2;; n++) { auto it = conts.find({id, n}); if (it == conts.end()) return false; for (size_t i = 0; i < it->second.size(); i++) for (size_t j = 0; j < i; j++) if (it->second[i]->val("WARC-Date") == it->second[j]->val("WARC-Date") && it->second[i]->bdig != it->second[j]->bdig) return true; }
}
// properties whose guarantee is at stake because of what happened before
// the body of a warcinfo record: what the configuration says, and the four lines AardWARC sets itself
static std::string winfo_bad(const Cfg &cfg, const std::string &fn, const std::string &body) {
	std::vector<std::string> got, want; size_t i = 0; const char *own[] = {"title:", "format:", "conformsto:", "software:"};
	while (i < body.size()) { size_t j = body.find("\r\n", i); if (j == std::string::npos) return "a line without end"; got.push_back(body.substr(i, j - i)); i = j + 2; }
	auto trim = [](std::string &l) { while (!l.empty() && (l.back() == ' ' || l.back() == '\t')) l.pop_back(); };
	for (std::string l : cfg.winfo_lines()) { size_t e = l.find_first_of(" \t"); std::string n = l.substr(0, e), v = e == std::string::npos ? "" : l.substr(l.find_first_not_of(" \t", e)); bool o = false; for (auto x : own) if (lower(n) == x) o = true; if (!o) want.push_back(v.empty() ? n : n + " " + v); }
	if (got.empty() || got[0] != "title: " + fn) return "the title is not the first line"; size_t w = 0; int cnt[4] = {0, 0, 0, 0};
	for (auto &l : got) { trim(l); std::string n = lower(l.substr(0, l.find(' '))); bool o = false; for (int k = 0; k < 4; k++) if (n == own[k]) { o = true; cnt[k]++; } if (o) continue; if (w >= want.size() || l != want[w]) return "unexpected line '" + printable(l) + "'"; w++; }
	if (w != want.size()) return "missing line '" + printable(want[w]) + "'"; for (int k = 0; k < 4; k++) if (cnt[k] != 1) return sfmt("%d lines %s", cnt[k], own[k]); return "";
}
std::string World::ctx(const Op *o) const {
	std::string s; if (conc || ever_conc) s += " C07"; if (killed) s += " C02"; if (erred) s += " C03"; if (housekept) s += " C09 C10"; if (reindexed || ever_lost) s += " C08 C10";
	if (cache_env) s += " C22"; if (clock_env) s += " C21"; if (swapped) s += " C18"; if (stowed) s += killed || erred ? " C14 C15" : " C14"; if (junk_holds) s += " C19";
	if (o && o->data && (i64)o->data->size() > cfg.max_size / 2) s += " C17 C06";
	if (o && o->p.str("t") == "m") s += " C20";
	return s;
}
std::string describe_op(const Op &o) {
	const J &p = o.p; std::string s = sfmt("op%d %s", o.id, o.k.c_str());
	if (o.k == "store") { if (p.get("neg")) s += " (" + p.str("neg") + ")"; if (o.data) s += sfmt(" %zu bytes", o.data->size()); if (!o.eid.empty()) s += " id " + o.eid; }
	if (p.get("id")) s += " " + p.str("id"); return s;
}
std::string World::head(const Op *o) const { return o ? describe_op(*o) + ": " : ""; }
bool World::acked_before(const std::string &id, u64 t) { if (index_lost) return false; auto it = objs.find(id); if (it == objs.end()) return false; for (auto &s : it->second.src) if (s.op->acked && s.op->run.t_end <= t) return true; return false; }
bool World::started_before(const std::string &id, u64 t) { auto it = objs.find(id); if (it == objs.end()) return false; for (auto &s : it->second.src) if (s.op->run.started && s.op->run.t_start <= t) return true; return false; }
void World::clk_range(const OpRun &r, i64 &lo, i64 &hi) {
	i64 e = r.done ? r.clk_end : K.clock_us; lo = std::min(r.clk_start, e); hi = std::max(r.clk_start, e); u64 te = r.done ? r.t_end : K.tick;
	for (auto &j : jumps) if (j.first >= r.t_start && j.first <= te) { lo = std::min(lo, j.second); hi = std::max(hi, j.second); }
	lo /= 1000000; hi /= 1000000;
}

extern "C" int sim_chmod(const char *, mode_t);
// ---- starting operations ---------------------------------------------------------------
std::vector<std::string> World::build_argv(OpP o, std::map<std::string, std::string> &env, OFile **in) {
	const J &p = o->p; std::vector<std::string> a = {"aardwarc", "-c", o->k == "stow" ? CCONF : CONF}; if (cfg.where && o->k != "stow" && o->k != "raw") { a.resize(1); if (cfg.where % 3 == 1) env["HOME"] = "/home/u"; else if (o->id % 2) env["HOME"] = "/home/other"; probe("configuration found without -c"); } if (p.num("json")) a.push_back("-j");
	*in = nullptr; if (o->k == "raw") return raw_argv(o, env, in); std::vector<size_t> ch; if (p.get("ch")) for (auto &x : p.get("ch")->a) ch.push_back((size_t)x.i);
	a.push_back(o->k); const std::string &k = o->k; if (p.get("tz")) env["TZ"] = p.str("tz");
	if (k == "store") {
		if (p.str("t") == "m" && !p.num("not")) { a.push_back("-t"); a.push_back(p.num("upt") ? "METADATA" : "metadata"); } else if (p.num("expt")) { a.push_back("-t"); a.push_back("resource"); }
		if (p.get("mime")) { a.push_back("-m"); a.push_back(p.str("mime")); }
		if (p.get("ref")) { a.push_back("-r"); a.push_back(p.str("ref")); }
		if (p.get("i")) { a.push_back("-i"); a.push_back(p.str("i")); }
		if (p.get("xargs")) for (auto &x : p.get("xargs")->a) a.push_back(x.s);
		std::string via = p.str("via", "file"); const std::string &d = o->data ? *o->data : std::string();
		if (via == "file") { std::string fn = sfmt("/in/op%d", o->id); K.host_write(fn, d); a.push_back(fn); }
		else { if (via == "dash") a.push_back("-"); *in = mk_src(d, ch); }
	} else if (k == "get") {
		for (const char *f : {"z", "n", "q"}) if (p.num(f)) a.push_back(std::string("-") + f);
		if (p.num("o")) { a.push_back("-o"); a.push_back(sfmt("/out/op%d", o->id)); }
		a.push_back(p.str("id"));
	} else if (k == "cgi") {
		env["GATEWAY_INTERFACE"] = "CGI/1.1"; env["REQUEST_METHOD"] = "GET"; env["PATH_INFO"] = (p.num("slash", 1) ? "/" : "") + p.str("id"); if (p.get("ae")) env["HTTP_ACCEPT_ENCODING"] = p.str("ae");
	} else if (k == "byid") { if (p.num("e")) a.push_back("-e"); for (auto &x : p.get("pre")->a) a.push_back(x.s); }
	else if (k == "filter") {
		for (const char *f : {"r", "s", "v"}) if (p.num(f)) a.push_back(std::string("-") + f);
		if (p.num("o")) { a.push_back("-o"); a.push_back(sfmt("/out/op%d", o->id)); }
		const auto &ls = p.get("lines")->a; i64 parts = p.num("files"); std::string all;
		if (parts <= 0) { for (auto &l : ls) all += l.s + "\n"; *in = mk_src(all, ch); if (p.num("dash")) a.push_back("-"); }
		else { size_t per = (ls.size() + (size_t)parts - 1) / (size_t)parts; for (i64 i = 0; i < parts; i++) { std::string s; for (size_t q = (size_t)i * per; q < std::min(ls.size(), ((size_t)i + 1) * per); q++) s += ls[q].s + "\n"; if (i == 0 && p.num("dash")) { *in = mk_src(s, ch); a.push_back("-"); } else { std::string fn = sfmt("/in/op%d.%lld", o->id, (long long)i); K.host_write(fn, s); a.push_back(fn); } } }
	} else if (k == "dumpindex") { if (p.get("t")) { a.push_back("-t"); a.push_back(p.str("t")); } if (p.get("pre")) for (auto &x : p.get("pre")->a) a.push_back(x.s); }
	else if (k == "audit") { if (p.num("ign")) { a.push_back("-i"); a.push_back("ignore-metadata-record-id"); } if (p.get("silos")) for (auto &x : p.get("silos")->a) a.push_back(silo_path(K.silo_dir, K.silo_base, (unsigned)x.i)); }
	else if (k == "reindex" || k == "rebuild") { if (p.get("silos")) for (auto &x : p.get("silos")->a) if (!p.num("exist") || K.exists(silo_path(K.silo_dir, K.silo_base, (unsigned)x.i))) a.push_back(silo_path(K.silo_dir, K.silo_base, (unsigned)x.i)); }
	else if (k == "mksilo") a.push_back(sfmt("%lld", (long long)p.num("n")));
	else if (k == "stow") { if (p.get("job")) for (auto &x : p.get("job")->a) a.push_back(x.s); }
	if (p.get("args")) for (auto &x : p.get("args")->a) a.push_back(x.s);
	return a;
}
void World::start_op(OpP o) {
	std::map<std::string, std::string> env; OFile *in; o->phase = ph; o->ran = true; st.ops++; st.opkinds[o->k]++;
	o->run = OpRun(); o->run.id = o->id; o->run.label = o->k;
	if (o->p.get("seg")) {	// ask for a record which is not an object: a continuation segment or a silo's warcinfo
		std::vector<std::string> c; for (auto &s : silos) for (auto &r : s.second.recs) if (r->type() == "continuation" || r->type() == "warcinfo") c.push_back(lower(r->id)); if (!c.empty()) { std::string id = c[(u64)o->p.num("seg") % c.size()]; o->p.set("cid", id).set("id", spell(cfg, id, (int)o->p.num("sp"))); probe("get of a segment or warcinfo"); } }
	if (o->k == "store" && o->p.get("alias")) {	// an object put together from parts as long as the segments of one already stored, so that segments coincide
		for (auto &c : copies) { if (c.second.empty() || c.second[0].size() < 4) continue; auto &ch = c.second[0]; if (ch[0]->type() != "resource" || ch[0]->val("Content-Type") != o->p.str("mime") || ch[1]->body.size() != ch[2]->body.size()) continue;
			std::string d; for (char l : o->p.str("alias")) { Rng g((u64)l * 7919 + (u64)e.seed); size_t n = l <= 'H' ? ch[0]->body.size() : l <= 'S' ? ch[1]->body.size() : 900; std::string q; while (q.size() < n) q.push_back((char)g.next()); d += q; }
			o->data = std::make_shared<std::string>(d); o->eid = expect_id(cfg, d, o->p); probe("store of an object whose segments coincide with others"); break; } }
	if (o->k == "store" && !o->p.get("neg")) { if (o->p.get("forced")) forced_any = true; SrcOp s{o, o->data, o->p.str("mime", "application/octet-stream"), "", o->p.str("t") == "m" ? "metadata" : "resource"}; if (o->p.get("ref")) { std::string r = o->p.str("ref"); s.refers = "<" + (r.size() == cfg.idlen() ? cfg.prefix + r : r) + ">"; } objs[o->eid].src.push_back(s); }
	if (o->k == "stow") { stowed = true; register_stow(o); }
	std::vector<std::string> av = build_argv(o, env, &in);
	std::function<int(Proc *)> nat; if (o->k == "protect") { std::string fn = silo_path(K.silo_dir, K.silo_base, (unsigned)o->p.num("n")); nat = [fn](Proc *) { sim_chmod(fn.c_str(), 0444); return 0; }; }	// the administrator closes a silo
	Proc *p = K.spawn(&o->run, nat ? "chmod" : "aardwarc", av, env, in, nat); (void)p;
	if (o->p.get("outlim")) o->run.out.limit = o->p.num("outlim");
}
OpP World::internal(const std::string &k, const J &p) {
	OpP o = std::make_shared<Op>(); o->id = next_int++; o->k = k; o->p = p; auto sf = K.faults; K.faults.clear(); auto sp = K.pol; K.pol = Policy(); i64 q = K.quota; K.quota = -1;
	std::map<std::string, std::string> env; OFile *in; o->run.id = o->id; std::vector<std::string> av = build_argv(o, env, &in); bool sr = K.replaying; auto oe = K.on_main_exit; K.on_main_exit = nullptr;
	K.spawn(&o->run, "aardwarc", av, env, in); K.run(); K.clear_procs(); K.faults = sf; K.pol = sp; K.quota = q; K.replaying = sr; K.on_main_exit = oe; o->phase = ph; o->ran = true;
	if (K.deadlock || K.stepcap) { fail("C19 C12 C13" + ctx(), "hang:" + k, "internal " + k + (K.deadlock ? " deadlocked" : " does not end"), -1); dead = true; K.stop = false; }
	return o;
}

// ---- environment actions between phases ------------------------------------------------------
static std::string gz_aa(const std::string &s); static std::string key24(const std::string &id);
static std::string reencode(const World &w, const Rec &r, const std::vector<std::pair<std::string, std::string>> &hdr, const std::string &body);
void World::do_env(const J &a) {
	std::string k = a.str("a"); st.env[k]++;
	auto silo_k = [&]() -> int { if (silos.empty()) return -1; auto it = silos.begin(); std::advance(it, (long)((u64)a.num("silo") % silos.size())); return (int)it->first; };
	if (k == "rmcache") { cache_env = true; K.host_unlink("/silo/_.cache"); }
	else if (k == "savecache") K.host_read("/silo/_.cache", saved_cache);
	else if (k == "rollcache") { cache_env = true; if (!saved_cache.empty()) K.host_write("/silo/_.cache", saved_cache); else K.host_unlink("/silo/_.cache"); }
	else if (k == "zerocache") { cache_env = true; K.host_write("/silo/_.cache", std::string(8, '\0')); }
	else if (k == "cutcache") { cache_env = true; std::string s; K.host_read("/silo/_.cache", s); K.host_write("/silo/_.cache", s.substr(0, std::min<size_t>(s.size(), (size_t)a.num("n")))); }
	else if (k == "rmindex") { index_lost = true; ever_lost = true; covered.clear(); bulk.clear(); bulk24.clear(); for (const char *f : {"sorted", "appendix", "housekeep"}) { std::string w = a.str("which", "all"); if (w == "all" || w == f) K.host_unlink(std::string("/silo/index.") + f); } Dprev.clear(); D.clear(); }
	else if (k == "bulk") { std::string d; K.host_read("/silo/index.appendix", d); i64 n = a.num("n"); std::set<std::string> mine; for (auto &o : ops) if (!o.second->eid.empty()) mine.insert(lower(o.second->eid).substr(0, 24));
		for (i64 i = 0; i < n; i++) { std::string q = bulk_rec((u64)a.num("s"), i, a.str("m")); if (mine.count(hex(q.substr(0, 12)).substr(0, cfg.idlen()))) continue;	// no record of a silo that is not there under the ID of an object
		 d += q; bulk[q] = 0; bulk24.insert(hex(q.substr(0, 12)).substr(0, cfg.idlen())); } K.host_write("/silo/index.appendix", d); }
	else if (k == "rmholds") { std::vector<std::string> v; K.host_list("/silo", v); for (auto &f : v) { if (K.classify(f) == OB_HOLD || f.find("/index.tmp.") != std::string::npos) K.host_unlink(f); } }
	else if (k == "mkhold") { int n = (int)a.num("n"); junk_holds = true; std::string f = silo_path("/silo/", cfg.base, (unsigned)n) + ".hold"; if (!K.exists(f)) K.host_write(f, a.num("junk") ? std::string((size_t)a.num("junk"), 'j') : std::string()); }
	else if (k == "mkihold") { junk_holds = true; K.host_write("/silo/index.hold", ""); }
	else if (k == "clock") { clock_env = true; K.clock_us += a.num("d") * 1000000; if (K.clock_us < 1000000) K.clock_us = 1000000; }
	else if (k == "us") { K.us_per_call = a.num("v"); }
	else if (k == "protect") { int n = silo_k(); if (n >= 0) { Inode *i = K.lookup(silo_path("/silo/", cfg.base, (unsigned)n)); if (i) { i->mode = 0444; i->wp_tick = K.tick; } } }
	else if (k == "protectall") { for (auto &s : silos) { Inode *i = K.lookup(silo_path("/silo/", cfg.base, s.first)); if (i) { i->mode = 0444; i->wp_tick = K.tick; } } }
	else if (k == "ghost") {	// as if an object of gigabytes had been stored: a record most of whose body is a hole
		int n = silo_k(); if (n < 0) return; std::string fn = silo_path("/silo/", cfg.base, (unsigned)n), d; i64 at; if (!K.host_read(fn, d) || K.host_holes(fn, &at)) return;
		SiloSt &s = silos[(unsigned)n]; if (s.bad || s.recs.empty() || s.pos != (i64)d.size()) return; const Rec &r = *s.recs[0]; std::string id = a.str("id").substr(0, cfg.idlen()), body = gz_aa("ghost"), end = d.substr((size_t)(r.body_off + r.body_gz), (size_t)(r.end - r.body_off - r.body_gz));
		std::string h = "WARC/1.1\r\nWARC-Record-ID: <" + cfg.prefix + id + ">\r\nWARC-Type: resource\r\nWARC-Date: " + r.val("WARC-Date") + "\r\nContent-Type: application/octet-stream\r\nContent-Length: " + sfmt("%lld", (long long)a.num("to")) + "\r\nX-Ghost: " + sfmt("%zu", body.size()) + "\r\nWARC-Block-Digest: sha256:" + std::string(64, '0') + "\r\n\r\n"; h = gz_aa(h);
		i64 sz = (i64)(d.size() + h.size() + body.size() + end.size()), to = std::min<i64>(a.num("to"), cfg.max_size) - a.num("room"), len = to - sz; if (len < (1LL << 24)) return;
		i64 l = (i64)body.size() + len; for (int i = 0; i < 8; i++) body[16 + (size_t)i] = (char)(l >> (8 * i)); i64 off = (i64)d.size(); Inode *in = K.lookup(fn); mode_t m = in->mode; auto g = K.on_guard; K.on_guard = nullptr;
		K.host_write(fn, d + h + body + end); K.host_hole(fn, off + (i64)(h.size() + body.size()), len); in->mode = m; K.on_guard = g; ghosts = true; probe("silo of gigabytes");
		std::string x; K.host_read("/silo/index.appendix", x); IdxLine il; il.key = key24(id); il.flag = 4; il.silo = (unsigned)n; il.off = off; il.cont = "00000000"; K.host_write("/silo/index.appendix", x + bulk_key(il)); }
	else if (k == "junkcopies") { for (auto &s : silos) K.host_write(silo_path("/silo/", cfg.base, s.first) + "_", std::string((size_t)a.num("n"), '#')); }
	else if (k == "quota") { K.quota = a.num("v") < 0 ? -1 : K.used + a.num("v"); }
	else if (k == "swaprebuilt") {
		swapped = true; for (auto &s : silos) { std::string fn = silo_path("/silo/", cfg.base, s.first), d; if (K.host_read(fn + "_", d)) { auto g = K.on_guard; K.on_guard = nullptr; K.host_write(fn, d); K.host_unlink(fn + "_"); K.on_guard = g; } }
		for (auto &s : silos) s.second = SiloSt(); for (const char *f : {"sorted", "appendix", "housekeep"}) K.host_unlink(std::string("/silo/index.") + f);
		index_lost = ever_lost = true; covered.clear(); bulk.clear(); bulk24.clear(); Dprev.clear(); D.clear(); byid_recs.clear();
	}
	else if (k == "flip" || k == "cut" || k == "edit" || k == "dup" || k == "zerotail") {
		int n = silo_k(); if (n < 0) return; std::string fn = silo_path("/silo/", cfg.base, (unsigned)n), d; if (!K.host_read(fn, d)) return;
		if (!corrupted) for (auto &s : silos) K.host_read(silo_path("/silo/", cfg.base, s.first), saved_silos[s.first]);
		corrupted = true; auto *rs0 = &silos[(unsigned)n].recs; decltype(silos[0].recs) want;
		if (k == "edit") { std::string w = a.str("what"), hd = w == "payload" ? "WARC-Payload-Digest" : w == "total" ? "WARC-Segment-Total-Length" : w == "segno" || w == "segjunk" ? "WARC-Segment-Number" : w == "origin" ? "WARC-Segment-Origin-ID" : w.compare(0, 5, "drop:") == 0 ? w.substr(5) : w == "forge" && a.num("xor") % 3 == 0 ? "WARC-Segment-Number" : "";
			if (!hd.empty()) { std::vector<std::pair<unsigned, size_t>> c; for (auto &s : silos) for (size_t i = 0; i < s.second.recs.size(); i++) if (s.second.recs[i]->get(hd.c_str())) c.push_back({s.first, i}); if (!c.empty()) { auto &x = c[(u64)(a.num("rec") + 64 * a.num("silo")) % c.size()]; n = (int)x.first; fn = silo_path("/silo/", cfg.base, x.first); if (!K.host_read(fn, d)) return; want.push_back(silos[x.first].recs[x.second]); rs0 = &want; } } }
		auto &rs = *rs0; if (rs.empty()) return; Rec &r = *rs[(u64)a.num("rec") % rs.size()];
		i64 lo = r.off, hi = r.end; std::string part = a.str("part", "any"); if (part == "hdr") hi = r.body_off; else if (part == "body") { lo = r.body_off; hi = r.body_off + r.body_gz; } else if (part == "crnl") lo = r.body_off + r.body_gz;
		i64 at = lo + (i64)((double)(hi - lo) * (double)a.num("frac") / 1e6); if (d.empty()) return; if (at >= (i64)d.size()) at = (i64)d.size() - 1;
		if (k == "flip") { int m = (int)a.num("xor") & 255; if (!m) m = 1; i64 cnt = std::max<i64>(1, a.num("cnt", 1)); for (i64 i = 0; i < cnt && at + i < (i64)d.size(); i++) d[(size_t)(at + i)] = (char)(d[(size_t)(at + i)] ^ m); }
		else if (k == "cut") d.resize((size_t)at);
		else if (k == "zerotail") { for (size_t i = (size_t)at; i < d.size(); i++) d[i] = 0; }
		else if (r.end > (i64)d.size()) return;
		else if (k == "dup") { std::string s = d.substr((size_t)r.off, (size_t)(r.end - r.off)); d.insert((size_t)r.end, s.substr(0, std::min(s.size() - 1, (size_t)((double)s.size() * (double)a.num("frac") / 1e6)))); }
		else {
			auto h = r.hdr; std::string b = r.body, w = a.str("what"); auto set = [&](const char *nm, std::function<void(std::string &)> f) { for (auto &x : h) if (x.first == nm) { f(x.second); return true; } return false; };
			auto bump = [](std::string &s) { for (size_t i = s.size(); i-- > 0;) if (isdigit((unsigned char)s[i])) { s[i] = (char)('0' + (s[i] - '0' + 1) % 10); return; } };
			auto hexc = [](std::string &s) { size_t i = s.rfind('>') == std::string::npos ? s.size() - 1 : s.rfind('>') - 1; s[i] = s[i] == '3' ? '4' : '3'; };
			bool done = false; if (w == "digest") done = set("WARC-Block-Digest", [&](std::string &s) { s[7] = s[7] == '0' ? '1' : '0'; }); else if (w == "digtail") done = set("WARC-Block-Digest", hexc); else if (w == "length") done = set("Content-Length", bump); else if (w == "payload") done = set("WARC-Payload-Digest", hexc); else if (w == "total") done = set("WARC-Segment-Total-Length", bump); else if (w == "segno") done = set("WARC-Segment-Number", bump); else if (w == "origin") done = set("WARC-Segment-Origin-ID", hexc); else if (w == "id") done = set("WARC-Record-ID", hexc);
			else if (w.compare(0, 5, "drop:") == 0) { for (size_t i = 0; i < h.size(); i++) if (h[i].first == w.substr(5)) { h.erase(h.begin() + (long)i); done = true; break; } }
			else if (w == "nosha") done = set("WARC-Block-Digest", [&](std::string &s) { s = "sha1:" + s.substr(7, 40); });
			else if (w == "segjunk") done = set("WARC-Segment-Number", [&](std::string &s) { s += "x"; });
			else if (w == "refers") { if (!r.get("WARC-Segment-Number")) done = set("WARC-Refers-To", hexc); }
			bool forge = w == "forge"; if (forge && !b.empty()) { b[(size_t)((double)(b.size() - 1) * (double)a.num("frac") / 1e6)] ^= 0x20; done = set("WARC-Block-Digest", [&](std::string &s) { s = "sha256:" + sha256_hex(b); }); std::string og = r.val("WARC-Segment-Origin-ID"); forged.insert(lower(r.id)); if (og.size() > cfg.prefix.size() + 2) forged.insert(lower(og.substr(1 + cfg.prefix.size(), og.size() - 2 - cfg.prefix.size()))); }
			if (!done) { if (!b.empty()) b[(size_t)((double)(b.size() - 1) * (double)a.num("frac") / 1e6)] ^= 0x20; }
			std::string nr = reencode(*this, r, h, b); d = d.substr(0, (size_t)r.off) + nr + d.substr((size_t)r.end); 
		}
		auto g = K.on_guard; K.on_guard = nullptr; K.host_write(fn, d); K.on_guard = g;
	}
	else if (k == "idxflip" || k == "idxcut" || k == "idxswap") {
		if (!corrupted) for (auto &s : silos) K.host_read(silo_path("/silo/", cfg.base, s.first), saved_silos[s.first]);
		corrupted = true; std::string fn = std::string("/silo/index.") + a.str("which", "appendix"), d; if (!K.host_read(fn, d) || d.empty()) { fn = "/silo/index.sorted"; if (!K.host_read(fn, d) || d.empty()) return; }
		i64 at = (i64)((double)d.size() * (double)a.num("frac") / 1e6); if (at >= (i64)d.size()) at = (i64)d.size() - 1; if (k == "idxflip") d[(size_t)at] = (char)(d[(size_t)at] ^ std::max<int>(1, (int)a.num("xor") & 255)); else if (k == "idxcut") d.resize((size_t)at);
		else { i64 nrec = (i64)d.size() / 32; if (nrec < 2) return; i64 x = at / 32 % nrec, y = (x + 1 + a.num("xor") % (nrec - 1)) % nrec; std::string t = d.substr((size_t)x * 32 + 16, 12), u = d.substr((size_t)y * 32 + 16, 12); d.replace((size_t)x * 32 + 16, 12, u); d.replace((size_t)y * 32 + 16, 12, t); }
		K.host_write(fn, d);
	}
	else if (k == "delsilo") { int n = silo_k(); if (n < 0) return; if (!corrupted) for (auto &s : silos) K.host_read(silo_path("/silo/", cfg.base, s.first), saved_silos[s.first]); corrupted = true; auto g = K.on_guard; K.on_guard = nullptr; K.host_unlink(silo_path("/silo/", cfg.base, (unsigned)n)); K.on_guard = g; }
	else if (k == "tree") { std::string dir = a.str("dir"); if (a.num("clear")) { K.host_rmtree(dir); trees.erase(dir); } K.host_mkdirs(dir); auto &t = trees[dir]; t.size(); for (auto &f : a.get("files")->a) { std::string n = unhex(f.str("n")); std::string data = blob_data(*f.get("b")); K.host_write(dir + "/" + n, data); t[n] = data; } if (a.get("dirs")) for (auto &d : a.get("dirs")->a) K.host_mkdirs(dir + "/" + unhex(d.s)); if (a.get("rm")) for (auto &d : a.get("rm")->a) { K.host_unlink(dir + "/" + unhex(d.s)); t.erase(unhex(d.s)); } }
}

// ---- main loop -------------------------------------------------------------------------------
bool World::run_phase(const Phase &p, int idx) {
	ph = idx; phase_lost = index_lost; phase_tick0 = K.tick; phase_clk0 = K.clock_us; int n = 0; for (auto &c : p.clients) if (!c.empty()) n++; conc = n > 1; if (conc) ever_conc = true;
	K.pol = pol_fromJ(p.pol); K.srng = Rng(e.seed * 1000003ULL + (u64)idx * 77 + 5); K.faults = p.faults; u64 d0 = K.decision; (void)d0; st.pols[K.pol.name()]++;
	std::vector<size_t> pos(p.clients.size(), 0); std::map<int, size_t> owner; std::vector<OpP> ran;
	auto launch = [&](size_t c) { while (pos[c] < p.clients[c].size()) { int id = p.clients[c][pos[c]++]; auto it = ops.find(id); if (it == ops.end()) continue; owner[id] = c; ran.push_back(it->second); start_op(it->second); return; } };
	bool alone = !conc; auto judged = [](const Op &o) { return o.k == "raw" || o.k == "mksilo" || o.k == "housekeeping" || (o.k == "store" && o.p.get("neg")); };
	K.on_main_exit = [&](Proc *q) { if (q->op && alone) { auto it = ops.find(q->op->id); if (it != ops.end() && it->second->snapped) it->second->snap1 = snapshot(&it->second->list1); }
		if (q->op && owner.count(q->op->id)) launch(owner[q->op->id]); };
	K.on_start = [&](OpRun *r) { auto it = ops.find(r->id); if (it != ops.end() && alone && judged(*it->second)) { Op &o = *it->second; o.snapped = true; o.snap0 = snapshot(&o.list0); o.hold0 = K.exists("/silo/index.hold"); if (o.k == "mksilo") { std::string f = silo_path("/silo/", cfg.base, (unsigned)o.p.num("n")); o.file0 = K.exists(f); o.hold0 = K.exists(f + ".hold"); } } if (it != ops.end() && it->second->k == "audit") { std::vector<std::string> v; K.host_list("/silo", v); int n = 0; for (auto &f : v) if (K.silo_number(f) >= 0) n++; it->second->silos0 = n; } if (it != ops.end() && (it->second->k == "rebuild" || it->second->k == "audit")) { std::vector<std::string> v; K.host_list("/silo", v); for (auto &f : v) { int n = K.silo_number(f); if (n < 0) continue; std::string d, err; K.host_read(f, d); std::vector<RecP> q; parse_silo(d, 0, (unsigned)n, cfg.prefix, q, err); it->second->recs0[(unsigned)n] = q.size(); } } if (it != ops.end() && it->second->p.get("clk")) { clock_env = true; jumps.push_back({K.tick, K.clock_us}); K.clock_us += it->second->p.num("clk") * 1000000; if (K.clock_us < 1000000) K.clock_us = 1000000; jumps.push_back({K.tick, K.clock_us}); } };
	for (size_t c = 0; c < p.clients.size(); c++) launch(c);
	K.run();
	bool hang = K.deadlock || K.stepcap; std::string who = K.deadlock_who; bool dl = K.deadlock;
	for (auto &o : ran) if (!o->run.done) { o->run.t_end = K.tick; }
	K.on_main_exit = nullptr; K.on_start = nullptr; K.stop = false; K.clear_procs();
	for (auto &f : K.faults) if (f.fired) { st.faults[fk_name[f.kind]]++; if (f.kind == FK_KILL || f.kind == FK_KILLALL) killed = true; else erred = true; }
	for (auto &o : ran) { if (o->run.faulted && o->run.crash.compare(0, 8, "injected")) erred = true; if (o->k == "housekeeping") housekept = true; if (o->k == "reindex") reindexed = true; }
	if (hang) { bool stow = false; for (auto &o : ran) if (o->k == "stow" && !o->run.done) stow = true; fail("C19" + std::string(stow ? " C14 C15" : "") + (corrupted ? " C12 C13" : "") + ctx(), dl ? "deadlock" : "livelock", dl ? "deadlock:" + who : sfmt("no end after %llu steps", (unsigned long long)K.step_cap)); dead = true; return false; }
	// acknowledgements
	for (auto &o : ran) if (o->k == "store" && o->run.done && o->run.status == 0) { const std::string &s = o->run.out.data; if (s.size() > 1 && s.back() == '\n' && !o->run.out.overflow) o->acked = true; }
	for (auto &o : ran) if (o->k == "stow") close_stow(o);
	auto fired = K.faults; K.faults.clear();
	if (corrupted) { for (auto &o : ran) eval(o); }
	else settle();
	K.faults = fired; return res.fails.empty() && !dead;
}
void World::run(bool trace) {
	W = this; K.reset(); K.trace_on = trace; K.root = cfg.root; K.pipe_cap = (size_t)cfg.pipe_cap; K.us_per_call = cfg.us; K.quota = -1; K.nofile = (size_t)cfg.nofile; K.step_cap = 3000000; K.silo_dir = "/silo/"; K.silo_base = cfg.base; K.replaying = e.replay_sched; K.overrides = e.overrides; if (trace) K.trace.clear();
	K.stub_mtree = stub_mtree; K.stub_sh = stub_sh; K.stub_ssh = stub_ssh;
	K.on_guard = [this](const std::string &tag, const std::string &msg) { bool tr = tag == "silo-truncated"; (void)tr; fail("C04 C05" + ctx(), tag, msg, K.cur && K.cur->op ? K.cur->op->id : -1); };
	K.on_exit_check = [this](const std::string &msg) { fail("C19", "leftover", msg, K.cur && K.cur->op ? K.cur->op->id : -1); };
	K.host_mkdirs("/silo"); K.host_mkdirs("/out"); K.host_mkdirs("/in"); K.host_mkdirs("/tmp"); K.host_mkdirs("/tree"); K.host_write("/out/keep", "what was here before\n"); K.host_write(CONF, cfg.text(false)); K.host_write(CCONF, cfg.text(true));
	if (cfg.where) {	// 1..3: one of these; 4, 5: the first or second, and another archive's in the later ones, which must not be used
		static const char *at[] = {"/home/u/.aardwarc.conf", "/etc/aardwarc.conf", "/usr/local/etc/aardwarc.conf"}; for (const char *d : {"/home/u", "/home/other", "/usr/local/etc", "/decoy"}) K.host_mkdirs(d);
		int n = (cfg.where - 1) % 3; K.host_write(at[n], cfg.text(false)); if (cfg.where > 3) for (int i = n + 1; i < 3; i++) K.host_write(at[i], cfg.text(false, "/decoy/")); }
	if (cfg.quota >= 0) K.quota = K.used + cfg.quota;
	for (auto &x : e.ops) { OpP o = std::make_shared<Op>(); o->id = x.first; o->p = x.second; o->k = x.second.str("k"); if (o->k == "store" && o->p.get("b")) { o->data = std::make_shared<std::string>(blob_data(*o->p.get("b"))); o->eid = expect_id(cfg, *o->data, o->p); } ops[x.first] = o; }
	st.episodes++;
	for (size_t i = 0; i < e.phases.size(); i++) { ph = (int)i; for (auto &a : e.phases[i].env.a) do_env(a); if (!run_phase(e.phases[i], (int)i)) break; }
	res.thash = K.thash; res.ihash = K.ihash; res.recorded = K.recorded; if (trace) res.trace = K.trace;
	st.ticks += K.tick; st.decisions += K.st.decisions; st.switches += K.st.switches; st.procs += K.st.procs; st.sim_us += K.sim_us; st.inter.insert(K.ihash); for (auto &p : K.st.err_kinds) st.faults["error " + p.first] += p.second; if (K.st.sigpipe) st.faults["sigpipe"] += K.st.sigpipe;
}
Result run_episode(const Episode &e, Stats &st, bool trace) { World w(e, st); w.run(trace); K.on_guard = nullptr; K.on_exit_check = nullptr; return w.res; }

// ---- quiescent checks ---------------------------------------------------------------------------
bool World::date_ok(const SrcOp &s, const std::string &d, std::string *why) {
	i64 t = parse_date(d), lo, hi; clk_range(s.op->run, lo, hi); if (t >= lo && t <= hi) return true; if (why) *why = sfmt("WARC-Date %s is not in the run time of op%d [%lld..%lld] (%lld)", d.c_str(), s.op->id, (long long)lo, (long long)hi, (long long)t); return false;
}
bool World::match_src(const SrcOp &s, const Rec &r, const std::string &body) { return s.op->run.started && r.type() == s.type && (s.type == "resource" || r.val("WARC-Refers-To") == s.refers) && r.val("Content-Type") == s.mime && body == *s.data; }
bool World::parse_all() {
	std::vector<std::string> v; K.host_list("/silo", v); std::map<unsigned, std::string> fs; bool ok = true;
	for (auto &f : v) { int n = K.silo_number(f); if (n >= 0) fs[(unsigned)n] = f; }
	for (auto &s : silos) if (!fs.count(s.first)) { fail("C04" + ctx(), "silo-gone", sfmt("silo %u disappeared", s.first)); ok = false; }
	u64 sh = 0xabc;
	for (auto &p : fs) {
		SiloSt &s = silos[p.first]; std::string d; K.host_read(p.second, d); std::string err; size_t n0 = s.recs.size(); sh = hash_str(sfmt("%u:%zu", p.first, d.size()), sh);
		i64 np = parse_silo(d, s.pos, p.first, cfg.prefix, s.recs, err); s.pos = np; res.checks++;
		i64 hat = 0, hole = K.host_holes(p.second, &hat); if (hole) for (size_t i = n0; i < s.recs.size(); i++) { Rec &r = *s.recs[i]; for (i64 *q : {&r.off, &r.body_off, &r.end}) if (*q > hat) *q += hole; }
		if (!err.empty()) { fail("C05 C04 C12" + ctx(), "silo-invalid", "after the operations, " + err + sfmt(" (silo is %zu bytes)", d.size())); s.bad = true; ok = false; }
		i64 dsz = (i64)d.size() + hole; if (dsz > cfg.max_size && !swapped) { fail("C06" + ctx(), "silo-too-big", sfmt("silo %u is %lld bytes, maximum is %lld", p.first, (long long)dsz, (long long)cfg.max_size)); ok = false; }
		if (hole && s.recs.size() > n0) probe(dsz > (1LL << 32) ? "records beyond 4 GB in a silo" : dsz > (1LL << 31) ? "records beyond 2 GB in a silo" : "records below 2 GB after a huge one");
		for (size_t i = n0; i < s.recs.size(); i++) {
			Rec &r = *s.recs[i]; std::string w = r.ghost ? "" : check_record(r, cfg.idlen()); byid_recs[lower(r.id)].push_back(s.recs[i]); res.checks++;
			if (!w.empty()) { fail("C05" + ctx() + (w.find("Date") != std::string::npos ? " C21" : ""), "record-invalid", sfmt("silo %u offset %lld: ", p.first, (long long)r.off) + w); ok = false; }
			bool wi = r.type() == "warcinfo"; if (wi != (i == 0)) { fail("C05" + ctx(), "warcinfo-place", sfmt("silo %u record %zu has type %s", p.first, i, r.type().c_str())); ok = false; }
			if (wi) { char b[256]; snprintf(b, sizeof b, cfg.base.c_str(), p.first); if (r.val("WARC-Filename") != b) { fail("C05" + ctx(), "warcinfo-name", "WARC-Filename " + r.val("WARC-Filename") + " in silo " + b); ok = false; }
				if (!r.ghost) { std::string why = winfo_bad(cfg, b, r.body); if (!why.empty()) { fail("C05" + ctx(), "warcinfo-body", why + " in silo " + b + ": " + printable(r.body.substr(0, 300))); ok = false; } }
				if (!swapped) { i64 t = parse_date(r.val("WARC-Date")), lo = phase_clk0, hi = K.clock_us; bool in = false; for (auto &j : jumps) { lo = std::min(lo, j.second); hi = std::max(hi, j.second); } in = t >= lo / 1000000 && t <= hi / 1000000; if (lo > hi) std::swap(lo, hi); if (!in && !clock_env) { fail("C21", "date", sfmt("warcinfo of silo %u dated %s outside of the phase", p.first, r.val("WARC-Date").c_str())); ok = false; } } }
		}
		if (!swapped && err.empty() && s.recs.size() > n0) { Rec &r = *s.recs.back(); if (r.get("WARC-Segment-Number") && !r.get("WARC-Segment-Total-Length")) { i64 sl = cfg.max_size - dsz; if (sl > 512) fail("C23 C06" + ctx(), "silo-not-filled", sfmt("silo %u holds a segment which is not the last one and is only %lld bytes, maximum is %lld (%s)", p.first, (long long)dsz, (long long)cfg.max_size, cfg.max_expr.c_str())); else probe("silo filled up to its maximum size"); } }
		if (s.recs.empty() && err.empty()) { fail("C05" + ctx(), "silo-empty", sfmt("silo %u holds no record", p.first)); ok = false; }
	}
	for (const char *f : {"sorted", "appendix", "housekeep"}) { std::string d; K.host_read(std::string("/silo/index.") + f, d); sh = hash_str(sfmt("%s%zu", f, d.size()), sh); }
	st.states.insert(sh); return ok;
}
// complete a chain of segments holding data with continuations chosen by pred
bool World::find_chain(const std::string &id, const std::string &data, size_t pos, i64 no, const std::function<bool(const RecP &)> &pred, std::vector<RecP> &ch) {
	for (auto &q : conts[{id, no}]) {
		if (!pred(q) || q->body.empty() || data.compare(pos, q->body.size(), q->body)) continue; if (q->val("WARC-Date") != ch[0]->val("WARC-Date") && !swapped) continue;
		ch.push_back(q); size_t np = pos + q->body.size(); bool last = q->get("WARC-Segment-Total-Length") != nullptr;
		if (last ? np == data.size() && q->val("WARC-Segment-Total-Length") == sfmt("%zu", np) : np < data.size() && find_chain(id, data, np, no + 1, pred, ch)) return true;
		ch.pop_back(); }
	return false;
}
// chains and objects
void World::analyse() {
	copies.clear(); orphans.clear(); conts.clear(); std::map<std::string, i64> cnt; std::set<std::pair<unsigned, i64>> used;
	for (auto &s : silos) for (auto &r : s.second.recs) if (r->type() == "continuation") { std::string o = r->val("WARC-Segment-Origin-ID"); std::string pre = "<" + cfg.prefix; if (o.size() != pre.size() + cfg.idlen() + 1 || o.compare(0, pre.size(), pre)) { fail("C17 C05" + ctx(), "bad-origin", sfmt("silo %u offset %lld: WARC-Segment-Origin-ID %s", r->silo, (long long)r->off, printable(o).c_str())); continue; } conts[{lower(o.substr(pre.size(), cfg.idlen())), strtoll(r->val("WARC-Segment-Number").c_str(), 0, 10)}].push_back(r); }
	for (auto &s : silos) for (auto &r : s.second.recs) {
		std::string t = r->type(), id = lower(r->id); if (t == "warcinfo" || t == "continuation" || r->ghost) continue; res.checks++;
		auto it = objs.find(id); std::string where = sfmt("silo %u offset %lld: ", r->silo, (long long)r->off);
		if (it == objs.end() && t == "metadata" && stowed && !r->get("WARC-Segment-Number")) {
			StowJob *j = nullptr; std::string why; if (stow_meta(r->val("WARC-Refers-To"), r->body, r->val("Content-Type"), id, &j, &why)) { std::string want = sha256_hex(r->val("WARC-Refers-To") + "\n" + r->bdig + "\n").substr(0, cfg.idlen()); if (want != id) { fail("C14 C11", "wrong-id", where + "stow metadata has ID " + id + ", should be " + want); continue; }
				bool mine = j->stowed && lower(j->uri) == lower(cfg.prefix + id); objs[id].src.push_back({mine ? j->op : j->mop, std::make_shared<std::string>(r->body), "application/json", r->val("WARC-Refers-To"), "metadata"}); it = objs.find(id); }
			else if (!why.empty()) { OpP po; if (stow_partial(*r, r->body, &po)) { probe("partial stow metadata left"); objs[id].src.push_back({po, std::make_shared<std::string>(r->body), r->val("Content-Type"), r->val("WARC-Refers-To"), "metadata"}); it = objs.find(id); } else { fail("C14" + ctx(), "stow-metadata", where + why); continue; } } }
		if (it == objs.end() && stowed && t == "resource") { OpP po; std::string d = r->body; if (r->get("WARC-Segment-Number")) for (i64 n = 2; conts.count({id, n}); n++) d += conts[{id, n}][0]->body; if (stow_partial(*r, d, &po)) { probe("partial stow object left"); objs[id].src.push_back({po, std::make_shared<std::string>(d), r->val("Content-Type"), "", "resource"}); it = objs.find(id); } }
		if (it == objs.end()) { fail("C07 C01 C11 C13 C20" + ctx(), "unknown-record", where + "record " + r->id + " (" + t + ") was never stored by an accepted operation"); continue; }
		bool seg = r->get("WARC-Segment-Number") != nullptr;
		if (!seg) {
			bool m = false, dok = false; std::string why; for (auto &c : it->second.src) if (match_src(c, *r, r->body)) { m = true; if (date_ok(c, r->val("WARC-Date"), &why)) dok = true; }
			if (!m) fail("C01 C07 C11 C20" + ctx(), "wrong-record", where + "record " + r->id + " does not hold what was stored under that ID (content, media type or reference)");
			else if (!dok) fail("C21", "date", where + why);
			if (r->get("WARC-Payload-Digest") && r->val("WARC-Payload-Digest") != "sha256:" + r->bdig) fail("C05", "payload-digest", where + "WARC-Payload-Digest wrong");
			copies[id].push_back({r});
		} else {
			std::vector<RecP> best; const SrcOp *bs = nullptr; bool any_data = false;
			for (auto &c : it->second.src) {
				if (!c.op->run.started || c.data->compare(0, r->body.size(), r->body) || r->body.size() >= c.data->size()) continue; any_data = true;
				if (r->type() != c.type || r->val("Content-Type") != c.mime || (c.type == "metadata" && r->val("WARC-Refers-To") != c.refers)) continue;
				for (int k = 0; k < 2 && best.empty(); k++) { std::vector<RecP> ch{r}; if (find_chain(id, *c.data, r->body.size(), 2, [&](const RecP &q) { return k || !used.count({q->silo, q->off}); }, ch)) { best = ch; bs = &c; } } if (!best.empty()) break;
			}
			if (best.empty()) { if (!any_data) fail("C01 C07 C11 C17" + ctx(), "wrong-record", where + "first segment " + r->id + " does not begin what was stored under that ID"); else fail("C17 C05 C12" + ctx(), "chain-incomplete", where + "first segment of " + r->id + " has no complete chain of continuation segments"); continue; }
			if (r->val("WARC-Payload-Digest") != "sha256:" + sha256_hex(*bs->data)) fail("C17 C05", "payload-digest", where + "WARC-Payload-Digest of the first segment is wrong");
			std::string why; if (!date_ok(*bs, r->val("WARC-Date"), &why)) { bool ok2 = false; for (auto &c : it->second.src) if (c.type == bs->type && c.mime == bs->mime && *c.data == *bs->data && c.op->run.started && date_ok(c, r->val("WARC-Date"), nullptr)) ok2 = true; if (!ok2) fail("C21", "date", where + why); }
			for (size_t i = 1; i < best.size(); i++) used.insert({best[i]->silo, best[i]->off});
			copies[id].push_back(best); probe(best.size() > 2 ? "object with 3+ segments" : "object with 2 segments");
		}
	}
	for (auto &c : conts) for (auto &r : c.second) if (!used.count({r->silo, r->off})) {
		orphans.insert({r->silo, r->off}); bool exc = false; auto it = objs.find(c.first.first); if (it != objs.end()) for (auto &s : it->second.src) if (s.op->run.faulted || !s.op->run.done) exc = true;
		if (!exc) fail("C17" + ctx(), "orphan-segment", sfmt("silo %u offset %lld: continuation segment %lld of %s belongs to no object", r->silo, (long long)r->off, (long long)c.first.second, c.first.first.c_str())); else probe("orphan segment left by a dead process"); }
	for (auto &o : objs) {
		size_t n = copies[o.first].size(); u64 first = ~0ULL; bool ack = false; OpP aop; for (auto &s : o.second.src) if (s.op->acked) { ack = true; if (s.op->run.t_end < first) { first = s.op->run.t_end; aop = s.op; } }
		if (ack && n == 0) fail(std::string("C01 C02 C03 C07 C14 C17") + (aop && aop->k == "stow" ? " C15" : ""), "acked-missing", "object " + o.first + " (acknowledged to " + describe_op(*aop) + ") is in no silo");
		std::set<int> ids; size_t early = 0; for (auto &s : o.second.src) if (s.op->run.started && s.op->run.t_start < first && ids.insert(s.op->id).second) { early++;
			auto sj = stowjobs.find(s.op->id); if (s.op->k == "stow") early += sj == stowjobs.end() ? 2 : 2 * sj->second.size(); }	// every job of a stow has a stevedore of its own, and any of them may die between the record and its index entry
		if (n > early) fail("C11" + ctx(), "stored-twice", sfmt("object %s is in the archive %zu times, but only %zu stores of it began before it was acknowledged", o.first.c_str(), n, early));
		res.checks++;
	}
}
bool World::parse_dump(const std::string &out, std::vector<IdxLine> &v) {
	size_t i = 0; while (i < out.size()) { size_t j = out.find('\n', i); if (j == std::string::npos) return false; std::string l = out.substr(i, j - i); i = j + 1; char key[80], cont[40]; unsigned fl, si; long long off; char extra; if (sscanf(l.c_str(), "%70s 0x%x %u %lld %30s %c", key, &fl, &si, &off, cont, &extra) != 5) return false; v.push_back({lower(key), fl, si, off, lower(cont)}); } return true;
}
std::string World::bulk_key(const IdxLine &l) {	// the record a line of dumpindex describes
	std::string k = unhex(l.key); if (k.size() != 12) return ""; auto be = [&](int n, u64 v) { for (int q = n - 1; q >= 0; q--) k.push_back((char)(v >> (8 * q))); }; be(4, l.flag); be(4, l.silo); be(8, (u64)l.off); k += unhex(l.cont); return k;
}
static std::string key24(const std::string &id) { std::string k = lower(id).substr(0, 24); k.resize(24, '0'); return k; }
void World::check_index() {
	OpP o = internal("dumpindex", J::obj()); if (dead) return; std::vector<IdxLine> v; res.checks++;
	if (o->run.status != 0 || !parse_dump(o->run.out.data, v)) { fail("C10 C07 C09 C08" + ctx(), "dumpindex-fails", sfmt("dumpindex ended with status %d: %s", o->run.status, tail(o->run.err.data).c_str())); return; }
	D.clear(); std::set<std::pair<unsigned, i64>> at; std::map<std::pair<unsigned, i64>, RecP> recs; for (auto &s : silos) for (auto &r : s.second.recs) recs[{s.first, r->off}] = r;
	size_t dups = 0; if (!bulk.empty()) for (auto &b : bulk) b.second = 0;
	for (auto &l : v) {
		if (!bulk.empty()) { auto b = bulk.find(bulk_key(l)); if (b != bulk.end()) { b->second = 1; continue; } }
		if (!D.insert(l).second) { dups++; continue; } auto it = recs.find({l.silo, l.off});
		if (it == recs.end()) { fail("C07 C08 C10" + ctx(), "index-dangling", sfmt("index record %s points at silo %u offset %lld where no record starts", l.key.c_str(), l.silo, (long long)l.off)); return; }
		if (l.key != key24(it->second->id)) { fail("C10 C08" + ctx(), "index-misdirected", sfmt("index record %s points at silo %u offset %lld, which is record %s", l.key.c_str(), l.silo, (long long)l.off, it->second->id.c_str())); return; }
		at.insert({l.silo, l.off}); }
	if (dups) probe("duplicate index records");
	for (auto &b : bulk) if (!b.second) { fail("C09 C10" + ctx(), "index-lost", "index record " + hex(b.first) + " (in hexadecimal) was lost or altered"); break; }
	for (auto &l : Dprev) if (!D.count(l)) { fail("C09 C10 C08" + ctx(), "index-lost", sfmt("index record %s 0x%x %u %lld %s was lost or altered", l.key.c_str(), l.flag, l.silo, (long long)l.off, l.cont.c_str())); break; }
	if (index_lost) {	// has a complete set of reindex runs happened?
		bool all = true; for (auto &s : silos) if (!covered.count(s.first)) all = false;
		if (all && !covered.empty()) { index_lost = false; probe("index rebuilt"); for (auto &c : copies) for (auto &ch : c.second) for (auto &r : ch) if (!at.count({r->silo, r->off})) { fail("C08 C10" + ctx(), "reindex-incomplete", sfmt("after reindex of every silo, record %s (silo %u offset %lld) of object %s is not in the index", r->id.c_str(), r->silo, (long long)r->off, c.first.c_str())); return; } }
	}
	if (!index_lost) {
		for (auto &ob : objs) { bool ack = false; for (auto &s : ob.second.src) if (s.op->acked) ack = true; if (!ack) continue; bool ok = false; for (auto &ch : copies[ob.first]) { bool a = true; for (auto &r : ch) if (!at.count({r->silo, r->off})) a = false; if (a) ok = true; if (!ok && ch.size() > 1 && at.count({ch[0]->silo, ch[0]->off})) for (auto &c : ob.second.src) if (c.data) { std::vector<RecP> c2{ch[0]}; if (find_chain(ob.first, *c.data, ch[0]->body.size(), 2, [&](const RecP &q) { return at.count({q->silo, q->off}) > 0; }, c2)) { ok = true; break; } } } if (!ok && !copies[ob.first].empty()) { fail("C01 C02 C03 C07 C09 C10 C08" + ctx(), "acked-not-indexed", "object " + ob.first + " was acknowledged but is not completely in the index"); return; } }
		if (!killed && !erred) for (auto &r : recs) if (!at.count(r.first)) { fail("C10 C07 C09 C08" + ctx(), "not-indexed", sfmt("record %s (silo %u offset %lld) is not in the index", r.second->id.c_str(), r.first.first, (long long)r.first.second)); return; }
	}
	Dprev = D; next_recs.clear(); if (!index_lost) for (auto &r : recs) if (at.count(r.first)) next_recs[lower(r.second->id)].push_back(r.second);
	must_ids.clear(); if (!index_lost) { for (auto &r : recs) if (at.count(r.first)) must_ids.insert(lower(r.second->id)); }
}
void World::check_holds() {
	if (killed || erred || junk_holds || K.st.sigpipe) return; std::vector<std::string> v; K.host_list("/silo", v); std::string bad;
	for (auto &f : v) { std::string l = f.substr(f.rfind('/') + 1); bool tmp = !l.compare(0, 10, "index.tmp."); if (K.classify(f) == OB_HOLD || tmp || l == "index.housekeep") bad += " " + f; }
	res.checks++; if (!bad.empty()) fail("C19", "leftover", "after all operations ended normally these temporary files remain:" + bad);
}
void World::check_gets() {
	std::vector<std::string> now, rest; for (auto &o : objs) for (auto &s : o.second.src) if (s.op->acked) { (s.op->phase == ph ? now : rest).push_back(o.first); break; }
	auto cut = [&](std::vector<std::string> &v, size_t n) { while (v.size() > n) { v.erase(v.begin() + (long)rng.below(v.size())); } }; size_t lim = (size_t)e.ops.size() > 100 ? 6 : 12; cut(now, lim); cut(rest, lim / 2);
	if (index_lost) return;
	for (auto *v : {&now, &rest}) for (auto &id : *v) {
		J p = J::obj(); int sp = (int)rng.below(4); p.set("id", spell(cfg, id, sp)).set("cid", id); if (rng.chance(0.2)) p.set("z", 1);
		OpP o = internal("get", p); if (dead) return; eval_get(o); if (!res.fails.empty()) return; }
	if (rng.chance(0.3) && !(now.empty() && rest.empty())) { const std::string &id = now.empty() ? rest[0] : now[0]; J p = J::obj(); p.set("id", id).set("cid", id); if (rng.chance(0.5)) p.set("ae", "gzip"); OpP o = internal("cgi", p); if (!dead) eval_cgi(o); }
}
void World::check_audit() {
	if (ghosts) return;
	if (silos.empty()) return; J p = J::obj(); if (forced_any) p.set("ign", 1); OpP o = internal("audit", p); if (!dead) { o->p.set("quiet", 1); eval_audit(o); }
}
void World::settle() {
	if (!parse_all()) { for (auto &o : ops) if (o.second->phase == ph && o.second->ran && o.second->k != "audit") {} return; }
	analyse(); if (!res.fails.empty()) return;
	for (auto &o : ops) if (o.second->phase == ph && o.second->k == "reindex" && o.second->run.done && o.second->run.status == 0) { if (!o.second->p.get("silos")) for (auto &s : silos) covered.insert(s.first); else for (auto &x : o.second->p.get("silos")->a) covered.insert((unsigned)x.i); }
	check_index(); if (dead) return;
	bool lost = index_lost; if (phase_lost) { index_lost = true; old_recs.clear(); }
	for (auto &o : ops) if (o.second->phase == ph && o.second->ran) eval(o.second);
	index_lost = lost; old_recs = next_recs;
	if (!res.fails.empty()) return;
	check_holds(); check_gets(); if (!res.fails.empty()) return; check_audit();
}

// ---- evaluation of single operations ---------------------------------------------------------------
void World::eval(OpP o) {
	if (!o->run.started) return; res.checks++; const OpRun &r = o->run; std::string k = o->k;
	if ((k == "get" || k == "cgi") && !bulk24.empty() && bulk24.count(o->p.str("cid").substr(0, 24))) return;	// a made-up record of a silo that is not there
	if (r.faulted) probe(clean_exit(r) ? (r.status == 0 ? "faulted op exits 0" : "faulted op exits non-zero") : "faulted op killed");
	if (!corrupted && !r.faulted && r.done && !clean_exit(r) && !(k == "stow" && stow_may_fail(o)) && !(k == "rebuild" && other_rebuild(o))) {
		std::string base = k == "store" ? "C01 C11 C17" : k == "get" || k == "cgi" ? "C01 C10 C17" : k == "filter" ? "C16 C10" : k == "byid" || k == "dumpindex" ? "C10" : k == "audit" ? "C05" : k == "reindex" ? "C08" : k == "housekeeping" ? "C09" : k == "rebuild" ? "C18" : k == "stow" ? "C14 C15" : k == "raw" ? o->p.str("tags", "C24") : k == "mksilo" || k == "info" ? "C24" : "C19";
		if (o->p.get("neg")) base += " C20";
		ResetStr rst{k1_obj}; if ((k == "get" || k == "cgi") && (ever_lost || reindexed)) k1_obj = o->p.str("cid");
		fail(base + ctx(o.get()), "crash:" + k, head(o.get()) + sfmt("ended by signal %d (%s): ", r.status & 127, r.crash.c_str()) + tail(r.err.data), o->id); return; }
	if (corrupted && r.done && r.crash.find("CPU loop") != std::string::npos) { fail("C12 C13 C19", "hang:" + k, head(o.get()) + "never ends", o->id); return; }
	eval_neutral(o); if (k == "raw") { eval_raw(o); return; }
	if (k == "store") eval_store(o); else if (k == "get" || k == "cgi") { if (k == "get") eval_get(o); else eval_cgi(o); } else if (k == "byid") eval_byid(o); else if (k == "filter") eval_filter(o); else if (k == "dumpindex") eval_dump(o); else if (k == "audit") eval_audit(o); else if (k == "rebuild") eval_rebuild(o); else if (k == "stow") eval_stow(o);
	else if (!corrupted && !r.faulted) {
		int c = code(r); bool ok = true;
		if (k == "housekeeping") { ok = c == 0 || conc || killed || erred || junk_holds; if (!ok) fail("C09" + ctx(), "exit:" + k, head(o.get()) + sfmt("exit %d: ", c) + tail(r.err.data), o->id); }
		else if (k == "reindex" || k == "info") { if (c != 0) fail(std::string(k == "info" ? "C19" : "C08") + ctx(), "exit:" + k, head(o.get()) + sfmt("exit %d: ", c) + tail(r.err.data), o->id); }
	}
}
void World::eval_store(OpP o) {
	const OpRun &r = o->run; const J &p = o->p; if (corrupted) return; std::string out = r.out.data;
	bool neg = p.get("neg") != nullptr, maybe = false; std::string rc = lower(p.str("refcid"));
	if (!neg && p.str("t") == "m" && !rc.empty()) { if (!started_before(rc, r.t_end)) neg = true; else if (!acked_before(rc, r.t_start)) maybe = true; if (index_lost) maybe = true; if (killed || erred) if (!acked_before(rc, r.t_start)) { maybe = true; neg = false; } }
	if (r.faulted) { if (o->acked && lower(out) != lower(cfg.prefix + o->eid + "\n")) fail("C03 C01 C11", "wrong-id", head(o.get()) + "printed " + printable(out), o->id); else if (o->acked && neg) fail("C20 C03", "neg-accepted", head(o.get()) + "was accepted", o->id); else if (!o->acked && clean_exit(r) && code(r) == 0) fail("C03", "silent-success", head(o.get()) + "exits 0 without having printed the ID", o->id); return; }
	if (!r.done) return;
	if (neg || (maybe && code(r) != 0)) { if (code(r) == 0) fail("C20" + ctx(o.get()), "neg-accepted", head(o.get()) + "must be refused but exits 0 and prints " + printable(out), o->id); else if (r.out.data.find(cfg.prefix) != std::string::npos) fail("C20", "neg-output", head(o.get()) + "refused, yet prints " + printable(out), o->id); return; }
	if (code(r) != 0) { fail("C01 C06" + ctx(o.get()), "store-refused", head(o.get()) + sfmt("exit %d: ", code(r)) + tail(r.err.data), o->id); return; }
	if (lower(out) != lower(cfg.prefix + o->eid + "\n")) { fail("C11 C01 C20" + ctx(o.get()), "wrong-id", head(o.get()) + "expected " + cfg.prefix + o->eid + " but printed " + printable(out), o->id); return; }
	if (std::string(out).compare(0, cfg.prefix.size(), cfg.prefix)) fail("C11", "wrong-id", head(o.get()) + "printed " + printable(out), o->id);
}
// hdr: header text; got: delivered content
bool World::check_data(OpP o, const std::string &id, const std::string &got, const std::string &hdr, bool hdr_given, bool body_given) {
	auto it = objs.find(id); u64 te = o->run.done ? o->run.t_end : K.tick; std::string T = "C01 C13 C07" + ctx(o.get());
	if (it == objs.end()) { fail(T + " C10", "get-phantom", head(o.get()) + "succeeds for an ID that was never stored", o->id); return false; }
	std::map<std::string, std::string> h; if (hdr_given) { size_t i = 0; while (i < hdr.size()) { size_t j = hdr.find('\n', i); if (j == std::string::npos) j = hdr.size(); std::string l = hdr.substr(i, j - i); if (!l.empty() && l.back() == '\r') l.pop_back(); i = j + 1; size_t c = l.find(": "); if (c != std::string::npos) h[l.substr(0, c)] = l.substr(c + 2); } }
	std::string why = "content"; bool started = false;
	for (auto &s : it->second.src) {
		if (!s.op->run.started || s.op->run.t_start > te) continue; started = true;
		if (body_given && got != *s.data) continue;
		if (!hdr_given) return true;
		auto bad = [&](const char *n, const std::string &want) { if (h[n] == want) return false; why = std::string("header ") + n + " is '" + printable(h[n]) + "', should be '" + want + "'"; return true; };
		if (lower(h["WARC-Record-ID"]) != lower("<" + cfg.prefix + id + ">")) { why = "header WARC-Record-ID is " + printable(h["WARC-Record-ID"]); continue; }
		if (bad("Content-Length", sfmt("%zu", s.data->size())) || bad("WARC-Block-Digest", "sha256:" + sha256_hex(*s.data)) || bad("WARC-Type", s.type) || bad("Content-Type", s.mime)) continue;
		if (s.type == "metadata" && bad("WARC-Refers-To", s.refers)) continue;
		return true;
	}
	fail(T + (o->p.str("t") == "m" || it->second.src[0].type == "metadata" ? " C20" : "") + (it->second.src[0].data->size() > (size_t)cfg.max_size / 2 ? " C17" : "") + (stowed ? " C14" : ""), "get-wrong", head(o.get()) + (started ? "exits 0 but delivers wrong " + why + sfmt(" (%zu bytes delivered)", got.size()) : "succeeds before the object was stored"), o->id); return false;
}
void World::eval_get(OpP o) {
	ResetStr rst{k1_obj}; if (ever_lost || reindexed) k1_obj = o->p.str("cid");
	const OpRun &r = o->run; const J &p = o->p; if (!r.done) return; std::string id = p.str("cid"), out = r.out.data, hdr = r.err.data, x; bool z = p.num("z"), n = p.num("n"), q = p.num("q"); std::string T = "C01 C07" + ctx(o.get());
	auto oit = objs.find(id); if (oit != objs.end() && oit->second.src[0].data->size() > (size_t)cfg.max_size / 2) T += " C17"; if (stowed) T += " C14"; if (oit != objs.end() && oit->second.src[0].type == "metadata") T += " C20";
	bool hdr_given = !q; if (p.num("o")) { hdr = out; out.clear(); K.host_read(sfmt("/out/op%d", o->id), out); }
	bool ok = clean_exit(r) && code(r) == 0;
	if (!ok) {
		if (corrupted || r.faulted) return;
		if (!clean_exit(r)) { fail(T + " C10", "crash:get", head(o.get()) + sfmt("signal %d (%s): ", r.status & 127, r.crash.c_str()) + tail(r.err.data), o->id); return; }
		if (acked_before(id, r.t_start)) fail(T + " C02 C03 C08 C09 C10", "get-missing", head(o.get()) + sfmt("exit %d for an acknowledged object: ", code(r)) + tail(r.err.data), o->id);
		if (code(r) != 0 && !out.empty()) fail("C13", "get-partial-output", head(o.get()) + "refused but produced output", o->id);
		return; }
	if (r.out.overflow) { fail("C03 C13" + ctx(), "get-false-success", head(o.get()) + "exits 0 although its output could not be written completely", o->id); return; }
	if (z && !n) { int m; if (!gunzip_all(out, x, &m)) { if (corrupted) return; fail(T + " C03 C13", "get-bad-gzip", head(o.get()) + "-z output is not valid gzip", o->id); return; } out = x; }
	if (n && !out.empty()) { fail(T, "get-n-body", head(o.get()) + "-n delivered a body", o->id); return; }
	if (q && !hdr.empty() && !p.num("o")) {}
	if (corrupted && (z || n || forged.count(lower(id)))) return;
	if (r.faulted && (z || n) && !(p.num("o") || !q)) {}
	check_data(o, id, out, hdr, hdr_given && !(corrupted || r.faulted), !n);
}
void World::eval_cgi(OpP o) {
	ResetStr rst{k1_obj}; if (ever_lost || reindexed) k1_obj = o->p.str("cid");
	const OpRun &r = o->run; if (!r.done) return; std::string id = o->p.str("cid"), out = r.out.data, x; std::string T = "C01 C07" + ctx(o.get());
	if (r.status != 0) { if (corrupted || r.faulted) return; fail(T, clean_exit(r) ? "exit:cgi" : "crash:cgi", head(o.get()) + sfmt("status %d: ", r.status) + tail(r.err.data), o->id); return; }
	size_t b = out.find("\n\n"); if (r.out.overflow) { std::string eh = "Content-Type: text/html\nStatus: 501"; if (corrupted || !out.compare(0, eh.size(), eh) || (!eh.compare(0, out.size(), out) && !acked_before(id, r.t_start))) return; fail("C03", "cgi-false-success", head(o.get()) + "exits 0 although its output could not be written completely", o->id); return; }
	if (b == std::string::npos) { if (!corrupted && !r.faulted) fail(T, "cgi-format", head(o.get()) + "no header end in " + printable(out), o->id); return; }
	std::string h = out.substr(0, b + 1), body = out.substr(b + 2); bool ok = h.find("Status: 200\n") != std::string::npos;
	if (!ok) { if (corrupted || r.faulted) return; if (acked_before(id, r.t_start)) fail(T + " C10 C02 C08", "get-missing", head(o.get()) + "cgi refuses an acknowledged object: " + printable(body), o->id); return; }
	if (corrupted) return;
	size_t cl = h.find("Content-Length: "); long long n = cl == std::string::npos ? -1 : atoll(h.c_str() + cl + 16); if (n != (long long)body.size()) { fail(T, "cgi-length", head(o.get()) + sfmt("Content-Length %lld, %zu bytes delivered", n, body.size()), o->id); return; }
	bool gz = h.find("Content-Encoding: gzip\n") != std::string::npos; if (gz && o->p.str("ae").find("gzip") == std::string::npos) { fail(T, "cgi-encoding", head(o.get()) + "gzip was not accepted by the client", o->id); return; }
	if (gz) { int m; if (!gunzip_all(body, x, &m)) { fail(T, "cgi-bad-gzip", head(o.get()) + "bad gzip body", o->id); return; } if (m != 1) { fail(T, "cgi-bad-gzip", head(o.get()) + "gzip body has several members", o->id); return; } body = x; }
	if (!check_data(o, id, body, "", false, true)) return;
	size_t ct = h.find("Content-Type: "); std::string mt = ct == std::string::npos ? "" : h.substr(ct + 14, h.find('\n', ct) - ct - 14); bool mok = false; for (auto &s : objs[id].src) if (s.mime == mt && s.op->run.started) mok = true; if (!mok) fail(T, "cgi-type", head(o.get()) + "Content-Type is " + printable(mt), o->id);
}
void World::eval_byid(OpP o) {
	const OpRun &r = o->run; if (!r.done || r.faulted || corrupted || index_lost) return; std::string T = "C10" + ctx(o.get()); std::multimap<std::string, std::string> got; size_t n = 0, i = 0; const std::string &out = r.out.data;
	while (i < out.size()) { size_t j = out.find('\n', i); if (j == std::string::npos) break; char id[200], ty[40]; if (sscanf(out.substr(i, j - i).c_str(), "id %190s wt %30s", id, ty) != 2) { fail(T, "byid-format", head(o.get()) + printable(out.substr(i, j - i)), o->id); return; } got.emplace(lower(id), ty); n++; i = j + 1; }
	int want = o->p.num("e") ? 0 : (int)std::min<size_t>(n, 255); if (code(r) != want) fail(T, "byid-exit", head(o.get()) + sfmt("exit %d, %zu lines printed", code(r), n), o->id);
	std::vector<std::string> pre; for (auto &x : o->p.get("pre")->a) { std::string s = x.s; if (!strncasecmp(s.c_str(), cfg.prefix.c_str(), cfg.prefix.size())) s = s.substr(cfg.prefix.size()); pre.push_back(lower(s)); }
	auto hit = [&](const std::string &id) { for (auto &q : pre) if (!id.compare(0, q.size(), q)) return true; return false; };
	for (auto &g : got) { if (!hit(g.first)) { fail(T, "byid-extra", head(o.get()) + "reports " + g.first + " which does not begin with the asked prefix", o->id); return; } auto it = byid_recs.find(g.first); bool ok = false; if (it != byid_recs.end()) for (auto &q : it->second) if (q->type() == g.second) ok = true; if (!ok) { fail(T, "byid-phantom", head(o.get()) + "reports " + g.first + " " + g.second + " which is in no silo", o->id); return; } }
	std::set<std::string> must = old_recs.empty() ? std::set<std::string>() : std::set<std::string>(); for (auto &q : old_recs) must.insert(q.first); for (auto &ob : objs) if (acked_before(ob.first, r.t_start)) must.insert(ob.first);
	for (auto &id : must) if (hit(id) && !got.count(id)) { fail(T, "byid-missing", head(o.get()) + "does not report " + id, o->id); return; }
	if (!n) probe("byid without a hit"); else if (n > 1) probe("byid with several hits");
}
void World::eval_dump(OpP o) {
	const OpRun &r = o->run; if (!r.done || corrupted || index_lost) return; if (r.faulted && (!clean_exit(r) || code(r) != 0)) return; std::string T = (r.faulted ? "C03 C10" : "C10 C09") + ctx(o.get()); std::vector<IdxLine> v; if (code(r) != 0 || !parse_dump(r.out.data, v)) { fail(T, "dumpindex-fails", head(o.get()) + sfmt("exit %d, output ", code(r)) + tail(r.out.data), o->id); return; }
	std::vector<std::string> pre; if (o->p.get("pre")) for (auto &x : o->p.get("pre")->a) pre.push_back(lower(x.s).substr(0, 24)); std::set<std::string> got; std::unordered_set<std::string> gotb; unsigned tf = o->p.get("t") ? (unsigned)o->p.num("tf") : 0;
	if (tf) for (auto &l : v) if (!(l.flag & tf)) { fail(T, "dump-type", head(o.get()) + sfmt("-t reports %s with flags 0x%x", l.key.c_str(), l.flag), o->id); return; }
	for (auto &l : v) { bool h = pre.empty(); for (auto &q : pre) if (!l.key.compare(0, q.size(), q)) h = true; if (!h) { fail(T, "dump-extra", head(o.get()) + "reports " + l.key + " which does not begin with the asked prefix", o->id); return; } if (!bulk.empty()) { std::string bk = bulk_key(l); if (bulk.count(bk)) { gotb.insert(bk); continue; } } bool real = false; for (auto &q : silos[l.silo].recs) if (q->off == l.off && key24(q->id) == l.key) real = true; if (!real) { fail(T + " C07", "dump-phantom", head(o.get()) + sfmt("reports %s at silo %u offset %lld where no such record is", l.key.c_str(), l.silo, (long long)l.off), o->id); return; } got.insert(l.key); }
	for (auto &b : bulk) { if (gotb.count(b.first)) continue; if (tf && (unsigned)(unsigned char)b.first[15] != tf) continue; std::string k = hex(b.first.substr(0, 12)); bool h = pre.empty(); for (auto &q : pre) if (!k.compare(0, q.size(), q)) h = true; if (h) { fail(T, "dump-missing", head(o.get()) + "does not report " + k, o->id); return; } }
	if (tf) { for (auto &q : old_recs) { bool one = false; for (auto &r2 : q.second) if ((tf == 2 && r2->type() == "warcinfo") || (tf == 4 && r2->type() == "resource") || (tf == 8 && r2->type() == "metadata")) one = true; std::string k = key24(q.first); bool h = pre.empty(); for (auto &x : pre) if (!k.compare(0, x.size(), x)) h = true; if (one && h && !got.count(k)) { fail(T, "dump-missing", head(o.get()) + "-t does not report " + q.first, o->id); return; } } return; }
	auto need = [&](const std::string &id) { std::string k = key24(id); bool h = pre.empty(); for (auto &q : pre) if (!k.compare(0, q.size(), q)) h = true; return h && !got.count(k); };
	for (auto &q : old_recs) if (need(q.first)) { fail(T, "dump-missing", head(o.get()) + "does not report " + q.first, o->id); return; }
	for (auto &ob : objs) if (acked_before(ob.first, r.t_start) && need(ob.first)) { fail(T, "dump-missing", head(o.get()) + "does not report " + ob.first, o->id); return; }
}
void World::eval_filter(OpP o) {
	const OpRun &r = o->run; const J &p = o->p; if (!r.done || corrupted || index_lost) return; std::string T = "C16 C10" + ctx(o.get()); std::string out = r.out.data; if (p.num("o")) { out.clear(); K.host_read(sfmt("/out/op%d", o->id), out); }
	if (p.get("neg")) { if (!r.faulted && code(r) == 0) fail("C16 C24", "filter-neg", head(o.get()) + "accepts a malformed list", o->id); return; }
	if (code(r) != 0) { if (!r.faulted) fail(T, "exit:filter", head(o.get()) + sfmt("exit %d: ", code(r)) + tail(r.err.data), o->id); return; }
	if (r.faulted && (killed || !clean_exit(r))) return;
	std::vector<std::string> got; size_t i = 0; while (i < out.size()) { size_t j = out.find('\n', i); if (j == std::string::npos) j = out.size(); got.push_back(out.substr(i, j - i)); i = j + 1; }
	bool s = p.num("s"), rf = p.num("r"), vf = p.num("v"); size_t gi = 0; std::set<std::string> may24, must24; for (auto &q : byid_recs) may24.insert(q.first.substr(0, 24)); for (auto &q : old_recs) must24.insert(q.first.substr(0, 24));
	std::set<std::string> ackd; for (auto &ob : objs) if (acked_before(ob.first, r.t_start)) { ackd.insert(ob.first); must24.insert(ob.first.substr(0, 24)); }
	for (auto &lj : p.get("lines")->a) {
		const std::string &l = lj.s; if (l.empty()) continue; std::string id = l; if (!strncasecmp(id.c_str(), cfg.prefix.c_str(), cfg.prefix.size())) id = id.substr(cfg.prefix.size()); id = lower(id.substr(0, cfg.idlen()));
		bool must = s ? (ackd.count(id) || old_recs.count(id)) : must24.count(id.substr(0, 24)) > 0 || bulk24.count(id.substr(0, 24)) > 0, may = s ? byid_recs.count(id) > 0 : may24.count(id.substr(0, 24)) > 0 || bulk24.count(id.substr(0, 24)) > 0; int v = -1;
		if (vf) { if (gi >= got.size() || got[gi].size() < 2 || got[gi].substr(2) != l || got[gi][1] != ' ' || (got[gi][0] != '0' && got[gi][0] != '1')) { fail(T, "filter-lines", head(o.get()) + "-v output line " + std::to_string(gi) + " is '" + (gi < got.size() ? printable(got[gi]) : "(end)") + "', expected status of '" + printable(l) + "'", o->id); return; } v = got[gi++][0] - '0'; }
		else { bool printed = gi < got.size() && got[gi] == l; if (!must && may && printed) { }
			// a line is printed iff its presence equals the r flag
			bool shown; if (must) shown = rf; else if (!may) shown = !rf; else shown = printed; if (shown != printed) { fail(T, shown ? "filter-missing" : "filter-extra", head(o.get()) + (shown ? "does not print '" : "prints '") + printable(l) + "' (its object is " + (must ? "present" : "absent") + (rf ? ", -r)" : ")"), o->id); return; } if (printed) gi++; continue; }
		if ((must && v == 0) || (!may && v == 1)) { fail(T, "filter-status", head(o.get()) + "-v reports status " + std::to_string(v) + " for '" + printable(l) + "'", o->id); return; }
	}
	if (gi != got.size()) fail(T, "filter-extra", head(o.get()) + "prints an unexpected line '" + printable(got[gi]) + "'", o->id);
}
struct AuditOut { int silos = 0; long good = 0, bad = 0; bool err = false, left = false; std::vector<std::pair<std::string, int>> compl_; std::vector<std::pair<unsigned, i64>> lefts; };
static AuditOut parse_audit(const std::string &s) { AuditOut a; size_t i = 0; std::string cur; while (i < s.size()) { size_t j = s.find('\n', i); if (j == std::string::npos) j = s.size(); std::string l = s.substr(i, j - i); i = j + 1; long g, b; int e = 0; if (sscanf(l.c_str(), "%ld good %ld bad entries in this silo%n", &g, &b, &e) == 2 && e) { a.silos++; a.good += g; a.bad += b; } if (!l.compare(0, 5, "ERROR")) { a.err = true; if (!a.bad || !cur.empty()) a.compl_.push_back({cur, 1}); } if (!l.compare(0, 32, "Auditing this segmented object: ")) cur = l.substr(32); if (!l.compare(0, 15, "Left on pending")) { a.left = true; unsigned n; long long o1, o2; if (sscanf(l.c_str(), "Left on pending %u %lld %lld", &n, &o1, &o2) == 3) a.lefts.push_back({n, o1}); } } return a; }
void World::eval_audit(OpP o) {
	const OpRun &r = o->run; if (!r.done) return; if (corrupted) { if (!r.faulted) compare_audit(o); return; }
	if (r.faulted) { if (!clean_exit(r) || code(r) != 0) return; AuditOut a = parse_audit(r.out.data); if (a.bad || a.err || a.left) return; size_t want = 0; if (o->p.get("silos")) { for (auto &x : o->p.get("silos")->a) { if (!silos.count((unsigned)x.i)) return; want++; } } else if (o->silos0 >= 0) want = (size_t)o->silos0; if (!conc && (size_t)a.silos < want) fail("C03 C12", "audit-incomplete", head(o.get()) + sfmt("hit by a failing call, reports a clean result after %d of %zu silos", a.silos, want), o->id); return; } std::string T = "C05 C12" + ctx(o.get()); if (!clean_exit(r)) { fail(T, "crash:audit", head(o.get()) + sfmt("signal %d (%s): ", r.status & 127, r.crash.c_str()) + tail(r.err.data) + " / " + tail(r.out.data), o->id); return; }
	AuditOut a = parse_audit(r.out.data); bool named = true; if (o->p.get("silos")) for (auto &x : o->p.get("silos")->a) if (!o->recs0.count((unsigned)x.i)) named = false; if (code(r) != 0 && !named) { probe("audit of a silo which does not exist"); return; }
	if (code(r) != 0) { fail(T, "exit:audit", head(o.get()) + sfmt("exit %d: ", code(r)) + tail(r.err.data), o->id); return; }
	bool ign = o->p.num("ign") || !forced_any; if (a.bad && ign) { fail(T, "audit-bad", head(o.get()) + sfmt("reports %ld bad entries in an intact archive: ", a.bad) + tail(r.out.data), o->id); return; }
	bool quiet = o->p.num("quiet") || !conc; if (!o->p.get("silos") && o->silos0 >= 0 && (a.silos < o->silos0 || a.silos > (int)silos.size())) { fail(T, "audit-incomplete", head(o.get()) + sfmt("covered %d of %d to %zu silos", a.silos, o->silos0, silos.size()), o->id); return; }
	if (!o->p.get("silos") && quiet) {
		if (o->p.num("quiet") && a.silos != (int)silos.size()) { fail(T, "audit-incomplete", head(o.get()) + sfmt("covered %d of %zu silos", a.silos, silos.size()), o->id); return; }
		// complaints are right about segments which belong to no object, and only about those
		std::map<std::pair<unsigned, i64>, std::string> at; for (auto &c : conts) for (auto &q : c.second) at[{q->silo, q->body_off}] = c.first.first; std::map<std::pair<unsigned, i64>, bool> orph; for (auto &x : silos) for (auto &q : x.second.recs) if (orphans.count({q->silo, q->off})) orph[{q->silo, q->body_off}] = true;
		// an orphan with the same content, place and date may stand in for the segment of a complete copy, which is then what is left over
		auto key = [](const Rec &q) { return lower(q.val("WARC-Segment-Origin-ID")) + "|" + q.val("WARC-Segment-Number") + "|" + q.val("WARC-Date") + "|" + q.bdig; };
		std::set<std::string> okeys; for (auto &x : silos) for (auto &q : x.second.recs) if (orph.count({q->silo, q->body_off})) okeys.insert(key(*q));
		for (auto &x : silos) for (auto &q : x.second.recs) if (okeys.count(key(*q))) orph[{q->silo, q->body_off}] = true;
		bool bad = false, k1 = true; for (auto &c : a.compl_) if (c.first.empty()) { if (ign) { bad = true; k1 = false; } } else { bad = true; if (!ambig(lower(c.first))) k1 = false; }
		for (auto &l : a.lefts) if (!orph.count(l)) { bad = true; auto it = at.find(l); if (it == at.end() || !ambig(it->second)) k1 = false; }
		if (bad && ign) { if (k1) for (auto &c : conts) if (ambig(c.first.first)) k1_obj = c.first.first; fail(T, "audit-false-alarm", head(o.get()) + "reports errors in an intact archive: " + tail(r.out.data), o->id); if (!k1) return; k1_obj.clear(); } else if (ign && (a.left || !orphans.empty())) probe("audit names orphan segments only");
		size_t n = 0; for (auto &s : silos) n += s.second.recs.size(); if (o->p.num("quiet") && (size_t)a.good != n && ign) fail(T, "audit-count", head(o.get()) + sfmt("counts %ld good entries, there are %zu records", a.good, n), o->id); }
	else if (o->p.num("quiet") && o->p.get("silos") && a.silos != (int)o->p.get("silos")->a.size()) { bool all = true; for (auto &x : o->p.get("silos")->a) if (!silos.count((unsigned)x.i)) all = false; if (all) fail(T, "audit-incomplete", head(o.get()) + sfmt("covered %d of %zu silos", a.silos, o->p.get("silos")->a.size()), o->id); }
}
// after a corruption: an altered silo must not be reported clean
void World::compare_audit(OpP o) {
	const OpRun &r = o->run; std::vector<unsigned> which; if (o->p.get("silos")) for (auto &x : o->p.get("silos")->a) which.push_back((unsigned)x.i); else for (auto &s : saved_silos) which.push_back(s.first);
	std::string what; bool segs = false;
	for (unsigned n : which) {
		auto it = saved_silos.find(n); if (it == saved_silos.end()) continue; std::string d; if (!K.host_read(silo_path("/silo/", cfg.base, n), d)) { if (o->p.get("silos")) continue; /* a missing silo cannot be seen */ return; } if (d == it->second) continue;
		std::vector<RecP> a, b; std::string ea, eb; parse_silo(it->second, 0, n, cfg.prefix, a, ea); parse_silo(d, 0, n, cfg.prefix, b, eb);
		if (!eb.empty()) {	// framing; is it only a header's own length hint, which says nothing about content?
			if (eb.find("header length hint") != std::string::npos) continue; what = eb; continue; }
		size_t m = std::min(a.size(), b.size()); bool diff = false;
		for (size_t i = 0; i < m; i++) if (a[i]->hdr != b[i]->hdr || a[i]->body != b[i]->body) { std::string w = check_record(*b[i], cfg.idlen()); bool forced = false; if (w == "continuation without segment headers") { segs = true; w.clear(); } if (b[i]->type() == "metadata") forced = true; if (!w.empty()) { diff = true; what = w; } else if (!forced || a[i]->body != b[i]->body) { std::string id = b[i]->type() == "metadata" && !b[i]->get("WARC-Segment-Number") ? sha256_hex(b[i]->val("WARC-Refers-To") + "\n" + b[i]->bdig + "\n").substr(0, cfg.idlen()) : ""; if (!id.empty() && lower(id) != lower(b[i]->id) && !o->p.num("ign")) { diff = true; what = "metadata record ID does not match"; } if (a[i]->get("WARC-Segment-Number") || b[i]->get("WARC-Segment-Number")) segs = true; } }
		(void)diff;
	}
	if (segs && what.empty()) {	// segment-level alterations show only when every silo is audited
		bool all = true; for (auto &s : saved_silos) if (std::find(which.begin(), which.end(), s.first) == which.end()) all = false; if (all) what = "segment chain altered"; }
	if (what.empty()) return; probe("audit of an altered silo");
	AuditOut a = parse_audit(r.out.data); if (!clean_exit(r) || code(r) != 0 || a.bad || a.err || a.left) { probe("alteration detected"); return; }
	fail("C12", "audit-misses", head(o.get()) + "reports a clean result although " + what, o->id);
}
bool World::other_rebuild(OpP o) { for (auto &x : ops) if (x.second != o && x.second->k == "rebuild" && x.second->phase == o->phase && x.second->run.started && (x.second->run.faulted || conc)) return true; return false; }
void World::eval_rebuild(OpP o) {
	const OpRun &r = o->run; if (!r.done || corrupted || conc || other_rebuild(o)) return; if (r.faulted && (!clean_exit(r) || code(r) != 0)) return; std::string T = "C18" + ctx(o.get()); if (r.faulted) T += " C03"; if (code(r) != 0) { fail(T, "exit:rebuild", head(o.get()) + sfmt("exit %d: ", code(r)) + tail(r.err.data), o->id); return; }
	std::vector<unsigned> which; if (o->p.get("silos")) { for (auto &x : o->p.get("silos")->a) if (silos.count((unsigned)x.i)) which.push_back((unsigned)x.i); } else for (auto &s : silos) which.push_back(s.first);
	for (unsigned n : which) {
		if (!o->recs0.count(n)) continue; std::string d; std::string fn = silo_path("/silo/", cfg.base, n) + "_"; if (!K.host_read(fn, d)) { fail(T, "rebuild-missing", head(o.get()) + "no copy " + fn, o->id); return; }
		std::vector<RecP> b; std::string err; parse_silo(d, 0, n, cfg.prefix, b, err); auto &a = silos[n].recs; if (!err.empty()) { fail(T, "rebuild-invalid", head(o.get()) + "copy: " + err, o->id); return; }
		if (o->p.num("quiet") ? a.size() != b.size() : b.size() > a.size() || b.empty() || (o->recs0.count(n) && b.size() < o->recs0[n])) { fail(T, "rebuild-count", head(o.get()) + sfmt("silo %u has %zu records, its copy %zu", n, a.size(), b.size()), o->id); return; }
		for (size_t i = 0; i < b.size(); i++) {
			std::string w = check_record(*b[i], cfg.idlen()); if (!w.empty()) { fail(T, "rebuild-record", head(o.get()) + sfmt("record %zu of the copy of silo %u: ", i, n) + w, o->id); return; }
			auto ha = a[i]->hdr, hb = b[i]->hdr; auto strip = [](std::vector<std::pair<std::string, std::string>> &h) { h.erase(std::remove_if(h.begin(), h.end(), [](const std::pair<std::string, std::string> &x) { return x.first == "z" || x.first == "Z"; }), h.end()); }; strip(ha); strip(hb);
			if (ha != hb) { std::string m; for (auto &x : ha) if (std::find(hb.begin(), hb.end(), x) == hb.end()) m += " -" + x.first; for (auto &x : hb) if (std::find(ha.begin(), ha.end(), x) == ha.end()) m += " +" + x.first; fail(T, "rebuild-header", head(o.get()) + sfmt("record %zu of silo %u: headers differ:", i, n) + m, o->id); return; }
			if (a[i]->body != b[i]->body) { fail(T, "rebuild-body", head(o.get()) + sfmt("record %zu of silo %u: body differs", i, n), o->id); return; } } probe("rebuilt silo compared"); }
}
#include <zlib.h>
static std::string gz_aa(const std::string &s) {
	z_stream z; memset(&z, 0, sizeof z); deflateInit2(&z, 9, Z_DEFLATED, 15 + 16, 9, Z_DEFAULT_STRATEGY); unsigned char ex[12] = {'A', 'a', 8, 0}; gz_header h; memset(&h, 0, sizeof h); h.extra = ex; h.extra_len = 12; h.os = 3; deflateSetHeader(&z, &h);
	std::string o(s.size() + s.size() / 100 + 1000, '\0'); z.next_in = (Bytef *)(uintptr_t)s.data(); z.avail_in = (uInt)s.size(); z.next_out = (Bytef *)&o[0]; z.avail_out = (uInt)o.size(); deflate(&z, Z_SYNC_FLUSH); deflate(&z, Z_FINISH); o.resize(o.size() - z.avail_out); deflateEnd(&z);
	u64 l = o.size(); for (int i = 0; i < 8; i++) o[16 + (size_t)i] = (char)(l >> (8 * i)); return o;
}
// the record as its writer would have produced it, with other headers or body
static std::string reencode(const World &w, const Rec &r, const std::vector<std::pair<std::string, std::string>> &hdr, const std::string &body) {
	std::string d; K.host_read(silo_path("/silo/", w.cfg.base, r.silo), d); std::string t = "WARC/1.1\r\n"; for (auto &x : hdr) t += x.first + ": " + x.second + "\r\n"; t += "\r\n"; return gz_aa(t) + gz_aa(body) + d.substr((size_t)(r.body_off + r.body_gz), (size_t)(r.end - r.body_off - r.body_gz));
}
