// Seeded generation of episodes: configuration, operations, phases, faults.
#include "episode.hpp"
#include <algorithm>
#include <cerrno>
#include <functional>

namespace {
struct Item { std::string cid; J b; bool meta = false, forced = false; std::string mime; int op = 0; i64 size = 0; J op_j; };
struct Gen {
	Rng r; Episode e; int nid = 1; std::vector<Item> items; i64 sz_small = 2000; double p_big = 0.2, p_dup = 0.15, p_meta = 0.25, p_forced = 0.2, p_similar = 0.15; u64 bseed = 1; int style = -1; bool fresh_only = false;
	std::vector<std::string> forced_pool;
	explicit Gen(u64 seed) : r(seed) {}

	template <class T> T one(std::initializer_list<T> l) { std::vector<T> v(l); return v[r.below(v.size())]; }
	void cfg(i64 maxhint = 0) {
		Cfg &c = e.cfg; c.bits = one({128u, 128u, 128u, 64u, 80u, 96u, 104u, 160u, 256u});
		int k = (int)r.below(10);
		c.max_size = maxhint ? maxhint : k < 4 ? r.range(8192, 20000) : k < 6 ? r.range(20000, 70000) : k < 8 ? r.chance(0.2) ? 131072 * r.range(1, 2) + r.range(1050, 1450) : r.range(70000, 300000) : k < 9 || !r.chance(0.2) ? r.range(300000, 700000) : 4000000;
		c.sort_size = one<i64>({4096, 4096, 8192, 65536, 1 << 20});
		bool huge = maxhint < 0 || (!maxhint && r.chance(0.05)); if (huge) c.max_size = one<i64>({3758096384LL, 3758096384LL, 2147483647LL, 2147483648LL, 4294967296LL + r.range(0, 70000), (5LL << 30) + r.range(8192, 300000), 1000000000000LL, (1LL << 40) + r.range(8192, 70000), 1LL << 52, 1LL << 62});
		if (r.chance(0.06)) c.sort_size = 10485760;
		c.base = one<std::string>({"%08u.warc.gz", "%u.warc.gz", "%06u.w"});
		c.prefix = one<std::string>({"http://example.com/arch/", "https://a.b/", "urn:x/y/z-1.2/", "http://Museum.Example/A/"});
		c.root = r.chance(0.7); c.pipe_cap = one<i64>({65536, 65536, 16384, 4096}); c.us = one<i64>({0, 10, 100, 100, 5000, 300000});
		if (r.chance(0.2)) c.meta_json = true;
		c.winfo = one<std::string>({"simulated archive", "x", "A rather long description of what this archive is for, who keeps it and where it may be found if all else fails"}); if (r.chance(0.06)) c.winfo = "(none)"; else if (r.chance(0.04)) c.winfo = "(empty)"; else if (r.chance(0.15)) { c.winfo = ""; int n = 1 + (int)r.below(r.chance(0.1) ? 60 : 5); for (int i = 0; i < n; i++) c.winfo += "\n" + one<std::string>({"operator: Somebody", "hostname:   archive.example.com", "ip: 192.0.2.1", "Title: not this one", "SOFTWARE: nor this", "format: nor that", "conformsto: whatever", "isPartOf: a  series of %d%s%n", "robots:", "description: \xc3\xa6\xc3\xb8\xc3\xa5", "http-header-from: a@example.com"}); }
		if (r.chance(0.25)) c.fmt = 1 + (int)r.below(1000000); if (r.chance(0.25)) c.max_expr = equiv(c.max_size); if (r.chance(0.25)) c.sort_expr = equiv(c.sort_size); if (c.max_size == 3758096384LL && r.chance(0.7)) c.max_expr = "(default)"; if (c.sort_size == 10485760 && r.chance(0.7)) c.sort_expr = "(default)";
		if (r.chance(0.15)) c.where = 1 + (int)r.below(5);
		sz_small = one<i64>({40, 300, 2000, 6000}); bseed = r.next() & 0xffffff; p_big = one({0.0, 0.1, 0.3, 0.6}); p_meta = one({0.0, 0.2, 0.4}); p_dup = one({0.0, 0.15, 0.35});
		p_forced = one({0.0, 0.3, 0.6}); p_similar = one({0.0, 0.2, 0.5}); style = r.chance(0.5) ? (int)r.below(7) : -1;
	}
	// other ways to write a number of bytes
	std::string equiv(i64 n) {
		auto cut = [](std::string s) { while (s.find('.') != std::string::npos && (s.back() == '0' || s.back() == '.')) { bool d = s.back() == '.'; s.pop_back(); if (d) break; } return s; };
		std::string s = sfmt("%lld", (long long)n); switch (r.below(9)) {
		case 0: return s + one<std::string>({"B", "b"}); case 1: return one<std::string>({"+", "0", "00000000000000000000"}) + s; case 2: return s + ".0b"; case 3: case 4: return cut(sfmt("%.10Lf", (long double)n / 1024)) + one<std::string>({"K", "k", "KB", "kb", "Kb"});
		case 5: return cut(sfmt("%.20Lf", (long double)n / 1048576)) + one<std::string>({"M", "m", "mb", "MB"}); case 6: { std::string q = s.substr(0, 1) + "." + s.substr(1) + one<std::string>({"e", "E"}) + one<std::string>({"", "+", "+0"}) + std::to_string(s.size() - 1); return q; }
		case 7: return s + "0e-1b"; default: return s; }
	}
	J blob(i64 n, int st = -1) {
		J b = J::obj(); static const char *ks[] = {"rnd", "text", "zero", "per", "mix", "lines", "gz"}; if (st < 0) st = style >= 0 ? style : (int)r.below(7);
		std::string k = ks[st]; b.set("k", k).set("s", k == "zero" ? (i64)r.below(256) : (i64)((bseed + r.below(r.chance(p_similar) ? 2 : 100000)) & 0xffffff)).set("n", n); if (k == "per") b.set("per", (i64)one<i64>({1, 2, 7, 100, 1000, 4096, 33000}));
		return b;
	}
	i64 size() {
		i64 m = std::min<i64>(e.cfg.max_size, 8000000); if (m == 8000000) m = one<i64>({100000, 600000, 1500000}); if (m > 140000 && r.chance(0.04)) return 131072 * (m > 300000 ? r.range(1, 2) : 1) - r.range(0, 120);	// compressed length near a multiple of the read buffer
		if (r.chance(p_big * (e.cfg.max_size > 250000 ? 0.35 : 1))) {
			i64 lim = m <= 400000 ? 5 * m : m + m / 2; switch (r.below(6)) {
			case 0: return r.range(m / 2, m); case 1: return std::max<i64>(1, m - r.range(0, 1500)); case 2: return m + r.range(0, 200); case 3: return r.range(m, 2 * m); default: return r.range(m / 2, std::max(lim, m)); } }
		switch (r.below(8)) { case 0: return r.range(1, 3); case 1: return r.range(1, 100); case 2: return std::min<i64>(r.range(1, 3 * sz_small), 40000); default: return r.range(1, sz_small); }
	}
	std::string mime(bool meta) { return meta ? one<std::string>({"text/plain", "application/json", "application/x-meta"}) : one<std::string>({"application/octet-stream", "application/octet-stream", "text/plain", "image/png"}); }
	J chunks() {
		J a = J::arr(); int st = (int)r.below(4), n = 1 + (int)r.below(5); for (int i = 0; i < n; i++) a.push(st == 0 ? (i64)r.range(1, 7) : st == 1 ? (i64)r.range(1, 600) : st == 2 ? (i64)r.range(500, 9000) : (i64)r.range(1, 140000)); return a;
	}
	void via(J &j, i64 n) {
		double x = r.unit(); if (x < 0.45) return; j.set("via", x < 0.75 ? "stdin" : "dash"); J c = chunks(); i64 mn = 1 << 30; for (auto &q : c.a) mn = std::min(mn, q.i); if (n > 20000 && mn < 500) { c = J::arr(); c.push((i64)r.range(1000, 70000)).push((i64)r.range(1000, 30000)); } if (r.chance(0.7)) j.set("ch", c);
	}
	int add(J j) { int id = nid++; e.ops[id] = j; return id; }
	std::string fid() {	// a forced ID; sometimes close to existing ones
		std::string s; unsigned l = e.cfg.idlen(); if (!items.empty() && r.chance(0.3)) { s = r.pick(items).cid; size_t k = r.chance(0.5) ? std::min<size_t>(24, l - 1) : r.below(l); for (size_t i = k; i < l; i++) s[i] = "0123456789abcdef"[r.below(16)]; return s; }
		if (r.chance(0.3)) s.assign(l, one({'0', 'f', '8', '7'})); else for (unsigned i = 0; i < l; i++) s.push_back("0123456789abcdef"[r.below(16)]); if (r.chance(0.3)) s[l - 1] = "0123456789abcdef"[r.below(16)]; return s;
	}
	int store(bool meta, const Item *again = nullptr, i64 n = -1, const Item *ref = nullptr) {
		J j = J::obj(); j.set("k", "store").set("t", meta ? "m" : "r"); Item it; it.meta = meta;
		if (again) {
			j = again->op_j; it = *again; for (size_t i = 0; i < j.o.size();) if (j.o[i].first == "via" || j.o[i].first == "ch" || j.o[i].first == "clk") j.o.erase(j.o.begin() + (long)i); else i++;
		} else {
			if (n < 0) n = size(); it.size = n; it.b = blob(n, n > 130900 && (n - 1) % 131072 > 130900 ? 0 : -1); it.mime = mime(meta); j.set("b", it.b).set("mime", it.mime);
			if (!meta && it.mime == "application/octet-stream" && r.chance(0.5)) {}
			if (meta) {
				const Item &q = ref ? *ref : r.pick(items); j.set("ref", spell(e.cfg, q.cid, (int)r.below(2))).set("refcid", q.cid); if (r.chance(0.1)) j.set("ref", spell(e.cfg, q.cid, 2)); if (r.chance(0.05)) j.set("upt", 1);
				if (r.chance(p_forced)) { std::string f = fid(); bool used = false; for (auto &x : items) if (x.cid == f) used = true; if (!used) { j.set("forced", f).set("i", spell(e.cfg, f, (int)r.below(4))); it.forced = true; } } }
			else if (r.chance(0.2)) j.set("expt", 1);
		}
		via(j, it.size);
		Item full = it; full.op_j = j; full.cid = expect_id(e.cfg, blob_data(*j.get("b")), j); full.op = nid; if (!again) { bool dup = false; for (auto &x : items) if (x.cid == full.cid) dup = true; if (dup) {	// same ID: keep the first form so that all stores of an ID agree
				for (auto &x : items) if (x.cid == full.cid && !(x.op_j.str("mime") == j.str("mime"))) return store(meta, &x); } items.push_back(full); }
		return add(j);
	}
	int any_store() {
		if (!items.empty() && !fresh_only && r.chance(p_dup)) return store(false, &r.pick(items));
		bool meta = !items.empty() && r.chance(p_meta); return store(meta);
	}
	std::string absent() { std::string s; unsigned l = e.cfg.idlen(); if (!items.empty() && r.chance(0.5)) { s = r.pick(items).cid; size_t i = r.chance(0.4) ? l - 1 : r.below(l); s[i] = s[i] == '7' ? '8' : '7'; return s; } if (r.chance(0.3)) return std::string(l, one({'0', 'f', '1'})); for (unsigned i = 0; i < l; i++) s.push_back("0123456789abcdef"[r.below(16)]); return s; }
	std::string some_id() { return items.empty() || r.chance(0.12) ? absent() : r.pick(items).cid; }
	int get(std::string id = "") {
		bool own = id.empty(); if (own) id = some_id(); J j = J::obj(); j.set("k", "get").set("cid", id).set("id", spell(e.cfg, id, (int)r.below(6))); if (r.chance(0.25)) j.set("z", 1); if (r.chance(0.1)) j.set("n", 1); if (r.chance(0.15)) j.set("q", 1); if (r.chance(0.25)) j.set("o", 1); if (j.num("n") && j.num("q")) j.set("q", 0); if (own && r.chance(0.06)) j.set("seg", (i64)r.below(1000)).set("sp", (i64)r.below(6)); return add(j);
	}
	int cgi(std::string id = "") { bool own = id.empty(); if (own) id = some_id(); J j = J::obj(); j.set("k", "cgi").set("cid", id).set("id", spell(e.cfg, id, one({1, 1, 2, 5}))); if (r.chance(0.5)) j.set("ae", one<std::string>({"gzip", "gzip, deflate", "deflate, gzip;q=1.0", "identity"})); if (r.chance(0.2)) j.set("slash", 0); if (own && r.chance(0.06)) j.set("seg", (i64)r.below(1000)).set("sp", 1); return add(j); }
	std::string prefix_of(const std::string &id) { size_t n = r.chance(0.3) ? id.size() : 1 + r.below(std::min<size_t>(id.size(), 26)); std::string s = id.substr(0, n); if (r.chance(0.3)) for (auto &c : s) c = (char)toupper((unsigned char)c); return s; }
	int byid() { J j = J::obj(), p = J::arr(); int n = r.chance(0.03) ? (int)r.range(20, 60) : 1 + (int)r.below(3); for (int i = 0; i < n; i++) { std::string id = some_id(); std::string q = n > 9 ? id : prefix_of(id); if (q.size() == id.size() && r.chance(0.3)) q = spell(e.cfg, id, (int)r.below(6)); p.push(q); } j.set("k", "byid").set("pre", p); if (r.chance(0.2)) j.set("e", 1); return add(j); }
	int dump() { J j = J::obj(), p = J::arr(); j.set("k", "dumpindex"); int n = r.chance(0.03) ? (int)r.range(20, 60) : (int)r.below(3); for (int i = 0; i < n; i++) p.push(prefix_of(some_id())); if (n) j.set("pre", p); dtype(j); return add(j); }
	void dtype(J &j) { if (r.chance(0.2)) { int t = (int)r.below(3); j.set("t", t == 0 ? "warcinfo" : t == 1 ? "resource" : "metadata").set("tf", t == 0 ? 2 : t == 1 ? 4 : 8); } }
	int filter(int n = -1) {
		J j = J::obj(), ls = J::arr(); j.set("k", "filter"); if (n < 0) n = r.chance(0.1) ? 0 : r.chance(0.8) ? (int)r.below(14) : (int)r.below(150); bool s = r.chance(0.4);
		for (int i = 0; i < n; i++) { std::string id = some_id(); if (r.chance(0.15) && i) { ls.push(ls.a[r.below(ls.a.size())]); continue; } std::string l = spell(e.cfg, id, (int)r.below(6)); if (r.chance(0.3)) l += one<std::string>({" trailing text", "\tx", "  ", "/path/file", "zz", " 0123456789abcdef", "\r"}); if (r.chance(0.02)) l = ""; ls.push(l); }
		if (s) j.set("s", 1); if (r.chance(0.35)) j.set("r", 1); if (r.chance(0.35)) j.set("v", 1); if (r.chance(0.2)) j.set("o", 1); if (r.chance(0.3)) j.set("files", 1 + (int)r.below(3)); if (r.chance(0.2)) j.set("dash", 1); if (r.chance(0.4)) j.set("ch", chunks()); j.set("lines", ls); return add(j);
	}
	int simple(const std::string &k) { J j = J::obj(); j.set("k", k); return add(j); }
	int audit(bool all = true) { J j = J::obj(); j.set("k", "audit"); if (r.chance(0.3)) j.set("ign", 1); if (!all) { J s = J::arr(); s.push((i64)r.below(6)); j.set("silos", s); } return add(j); }
	int read_op() { switch (r.below(10)) { case 0: return cgi(); case 1: return byid(); case 2: return dump(); case 3: return filter(); case 4: return audit(r.chance(0.7)); default: return get(); } }
	J seqpol() { return J::obj().set("k", "seq"); }
	J pol() {
		J j = J::obj(); switch (r.below(5)) {
		case 0: j.set("k", "random").set("p", one({0.02, 0.1, 0.3, 0.6, 1.0})); break;
		case 1: j.set("k", "hot").set("p", one({0.0, 0.01, 0.05})).set("ph", one({0.1, 0.3, 0.6, 1.0})); break;
		case 2: { j.set("k", "pct"); J c = J::arr(); int d = 1 + (int)r.below(6); int lim = one({50, 200, 600}); std::set<i64> s; for (int i = 0; i < d; i++) s.insert((i64)r.below((u64)lim)); for (i64 x : s) c.push(x); j.set("ch", c); break; }
		case 3: j.set("k", "stall").set("p", one({0.0, 0.05, 0.3})).set("sp", one({0.3, 0.6})).set("len", one<i64>({10, 40, 150, 400, 0})); break;
		default: j.set("k", "hot").set("p", 0.02).set("ph", 0.5); break; }
		return j;
	}
	Phase &phase(const std::string &note = "") { e.phases.emplace_back(); e.phases.back().note = note; e.phases.back().pol = seqpol(); e.phases.back().clients.emplace_back(); return e.phases.back(); }
	void seq(Phase &p, int op) { p.clients[0].push_back(op); }
	J env(const std::string &a) { return J::obj().set("a", a); }
	// faults
	Fault kill(int op, int sub = -1) {
		Fault f; f.op = op; f.sub = sub; f.kind = r.chance(0.12) ? FK_KILLALL : FK_KILL; const std::string k = op >= 0 && e.ops.count(op) ? e.ops[op].str("k") : "";
		switch (r.below(4)) {
		case 0: f.nth = (int)r.below(60); break;
		case 1: f.cls = (1u << SC_WRITE) | (1u << SC_LINK) | (1u << SC_UNLINK) | (1u << SC_RENAME) | (1u << SC_CREAT) | (1u << SC_MKDIR) | (1u << SC_CLOSE) | (1u << SC_EXIT); f.nth = (int)r.below(k == "store" ? 16 : 24); break;
		case 2: f.obj = 1u << one({OB_INDEX, OB_SILO, OB_HOLD, OB_CACHE, OB_HOLD, OB_INDEX}); f.nth = (int)r.below(12); break;
		default: f.cls = 1u << one({SC_LINK, SC_UNLINK, SC_WRITE, SC_EXIT, SC_RENAME, SC_CREAT, SC_OPEN, SC_CLOSE}); f.nth = (int)r.below(6); break; }
		return f;
	}
	Fault err(int op, int sub = -1) {
		Fault f; f.op = op; f.sub = sub; double x = r.unit();
		if (x < 0.12) { f.kind = FK_MALLOC; f.nth = (int)r.below(r.chance(0.5) ? 30 : 200); return f; }
		if (x < 0.3) { f.kind = r.chance(0.45) ? FK_PART : FK_SHORT; f.cls = 1u << SC_WRITE; f.arg = r.chance(0.5) ? 0 : (i64)r.below(9000); f.nth = (int)r.below(8); if (r.chance(0.7)) f.obj = 1u << one({OB_INDEX, OB_SILO, OB_HOLD, OB_HOLD, OB_CACHE, OB_STDOUT, OB_FILE}); return f; }
		f.kind = FK_ERR; struct { Sc s; std::vector<int> e; int w; } t[] = {{SC_OPEN, {EIO, EMFILE, EACCES, ENFILE}, 4}, {SC_CREAT, {EIO, ENOSPC, EMFILE, EACCES, EROFS}, 4}, {SC_READ, {EIO}, 6}, {SC_WRITE, {EIO, ENOSPC, EDQUOT}, 7}, {SC_LINK, {EIO, ENOSPC, EMLINK, EPERM}, 4}, {SC_UNLINK, {EIO, EPERM, EROFS}, 3}, {SC_RENAME, {EIO, ENOSPC}, 2}, {SC_MKDIR, {ENOSPC, EIO, EACCES}, 2}, {SC_STAT, {EIO, EACCES}, 2}, {SC_MMAP, {ENOMEM}, 2}, {SC_CLOSE, {EIO, ENOSPC}, 2}, {SC_SEEK, {EIO}, 1}, {SC_TRUNC, {EIO}, 1}, {SC_PIPE, {EMFILE}, 1}, {SC_FORK, {EAGAIN}, 1}, {SC_POLL, {ENOMEM}, 0}};
		std::vector<double> w; for (auto &q : t) w.push_back(q.w); auto &q = t[r.weighted(w)]; f.cls = 1u << q.s; f.arg = q.e[r.below(q.e.size())]; f.nth = (int)r.below(q.s == SC_WRITE || q.s == SC_READ || q.s == SC_SEEK ? 10 : 5);
		if (r.chance(0.6)) { std::vector<Obj> o; switch (q.s) { case SC_READ: o = {OB_INDEX, OB_SILO, OB_CACHE, OB_FILE, OB_STDIN, OB_HOLD}; break; case SC_WRITE: o = {OB_INDEX, OB_SILO, OB_HOLD, OB_CACHE, OB_STDOUT, OB_FILE}; break; case SC_MKDIR: o = {OB_FILE, OB_DIR}; break; default: o = {OB_INDEX, OB_SILO, OB_HOLD, OB_CACHE}; } f.obj = 1u << r.pick(o); f.nth = (int)r.below(4); }
		return f;
	}
	void mutate_clock(Phase &p) { if (r.chance(0.8)) p.env.push(env("clock").set("d", one<i64>({-400000000, -86400, -3600, -1, 1, 59, 3600, 86400 * 59, 31536000, 1000000000, 2647483648LL, -31536000}))); }
	void cache_env(Phase &p) { switch (r.below(6)) { case 0: p.env.push(env("rmcache")); break; case 1: p.env.push(env("rollcache")); break; case 2: p.env.push(env("zerocache")); break; case 3: p.env.push(env("cutcache").set("n", (i64)r.below(9))); break; default: p.env.push(env("rmcache")); break; } }
	int reindex_op() { J j = J::obj(); j.set("k", "reindex"); return add(j); }
	J perm_silos(int n) { std::vector<i64> v; for (int i = 0; i < n; i++) v.push_back(i); for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]); J a = J::arr(); for (i64 x : v) a.push(x); return a; }
};
typedef std::function<void(Gen &)> Prof;

void p_basic(Gen &g) {
	g.cfg(); int nph = 1 + (int)g.r.below(4); double rd = g.one({0.2, 0.5}); int n = 4 + (int)g.r.below(25);
	for (int k = 0; k < nph; k++) { Phase &p = g.phase(); for (int i = 0; i < n; i++) g.seq(p, g.items.empty() || !g.r.chance(rd) ? g.any_store() : g.read_op()); if (g.r.chance(0.3)) g.seq(p, g.simple("housekeeping")); if (g.r.chance(0.15)) g.seq(p, g.simple("info")); if (g.r.chance(0.2)) g.e.phases.back().env.push(g.env(g.r.chance(0.5) ? "protect" : "protectall").set("silo", (i64)g.r.below(20))); }
}
void p_segs(Gen &g) {	// objects around and above the silo size
	g.cfg(g.r.chance(0.7) ? g.r.range(8192, 40000) : g.r.range(100000, 400000)); g.p_big = 0.7; int nph = 1 + (int)g.r.below(3);
	for (int k = 0; k < nph; k++) { Phase &p = g.phase(); int n = 2 + (int)g.r.below(6); for (int i = 0; i < n; i++) { g.seq(p, g.any_store()); if (g.r.chance(0.4)) g.seq(p, g.read_op()); } if (g.r.chance(0.3)) g.seq(p, g.simple("housekeeping")); }
}
int conc_op(Gen &g, double rd) { double x = g.r.unit(); if (g.items.empty() || x > rd + 0.13) return g.any_store(); if (x < rd) return g.read_op(); if (x < rd + 0.07) return g.simple("housekeeping"); if (x < rd + 0.1) { J j = J::obj(); j.set("k", "mksilo").set("n", (i64)g.r.below(8)); return g.add(j); } if (x < rd + 0.12) return g.simple("info"); return g.reindex_op(); }
void p_conc(Gen &g) {
	g.cfg(g.r.chance(0.8) ? g.r.range(8192, 30000) : 0); double rd = g.one({0.0, 0.25, 0.5}); int nph = 1 + (int)g.r.below(3);
	if (g.r.chance(0.6)) { Phase &p = g.phase("prelude"); int n = 1 + (int)g.r.below(8); for (int i = 0; i < n; i++) g.seq(p, g.any_store()); if (g.r.chance(0.4)) g.seq(p, g.simple("housekeeping")); }
	for (int k = 0; k < nph; k++) { Phase p; int nc = 2 + (int)g.r.below(4); size_t known = g.items.size(); for (int c = 0; c < nc; c++) { p.clients.emplace_back(); int n = 1 + (int)g.r.below(4); for (int i = 0; i < n; i++) { bool same = g.r.chance(0.15) && g.items.size() > known; int id = same ? g.store(false, &g.items[known + g.r.below(g.items.size() - known)]) : conc_op(g, rd); p.clients[(size_t)c].push_back(id); } } p.pol = g.pol(); g.e.phases.push_back(p); }
	if (g.r.chance(0.5)) { Phase &p = g.phase("after"); for (int i = 0; i < 4; i++) g.seq(p, g.r.chance(0.3) ? g.any_store() : g.read_op()); }
}
void p_race(Gen &g) {	// stores which fit in what is left of a silo, but not all of them
	i64 m = g.r.range(8192, 40000); g.cfg(m); g.style = 0; g.p_similar = 0; i64 used = 700; int nph = 1 + (int)g.r.below(3);
	for (int k = 0; k < nph; k++) {
		if (g.r.chance(0.7)) { Phase &p = g.phase("prelude"); i64 n = g.r.range(1, m / 2); g.seq(p, g.store(false, nullptr, n)); used = (used + n + 800) % m; }
		Phase p; int nc = 2 + (int)g.r.below(3); i64 left = std::max<i64>(m - used, 2500);
		for (int c = 0; c < nc; c++) { p.clients.emplace_back(); int n = g.r.chance(0.8) ? 1 : 2; for (int i = 0; i < n; i++) p.clients.back().push_back(g.store(false, nullptr, g.r.range(std::max<i64>(1, left / nc - 900), std::max<i64>(2, left - 800)))); }
		p.pol = g.pol(); g.e.phases.push_back(p); used = g.r.range(700, m);
	}
}
void p_crash(Gen &g) {
	g.cfg(g.r.chance(0.8) ? g.r.range(8192, 30000) : 0); g.p_big = g.one({0.1, 0.4}); { Phase &p = g.phase("prelude"); int n = (int)g.r.below(7); for (int i = 0; i < n; i++) g.seq(p, g.any_store()); }
	int nph = 1 + (int)g.r.below(4); bool conc = g.r.chance(0.35);
	for (int k = 0; k < nph; k++) {
		{ Phase p; int nc = conc ? 2 + (int)g.r.below(3) : 1; std::vector<int> mine; for (int c = 0; c < nc; c++) { p.clients.emplace_back(); int n = 1 + (int)g.r.below(3); for (int i = 0; i < n; i++) { double x = g.r.unit(); int id = x < 0.62 ? g.any_store() : x < 0.78 ? g.simple("housekeeping") : x < 0.86 ? g.reindex_op() : x < 0.9 ? g.add(J::obj().set("k", "mksilo").set("n", (i64)g.r.below(6))) : g.items.empty() ? g.any_store() : g.read_op(); p.clients[(size_t)c].push_back(id); mine.push_back(id); } }
			int nf = 1 + (int)g.r.below(2); for (int i = 0; i < nf; i++) p.faults.push_back(g.kill(g.r.pick(mine))); p.pol = conc ? g.pol() : g.seqpol(); g.e.phases.push_back(p);
			Phase &q = g.phase("recovery"); if (g.r.chance(0.15)) q.env.push(g.env("rmholds")); for (int id : mine) if (g.e.ops[id].str("k") == "store" && g.r.chance(0.7)) { J j = g.e.ops[id]; g.seq(q, g.add(j)); } if (g.r.chance(0.5)) g.seq(q, g.any_store()); if (g.r.chance(0.4)) g.seq(q, g.simple("housekeeping")); if (g.r.chance(0.15)) g.seq(q, g.reindex_op()); for (int i = 0; i < 2; i++) if (!g.items.empty()) g.seq(q, g.read_op()); }
	}
}
void p_ioerr(Gen &g) {
	g.cfg(g.r.chance(0.8) ? g.r.range(8192, 40000) : 0); g.p_big = g.one({0.1, 0.5}); { Phase &p = g.phase("prelude"); int n = 1 + (int)g.r.below(6); for (int i = 0; i < n; i++) g.seq(p, g.any_store()); if (g.r.chance(0.3)) g.seq(p, g.simple("housekeeping")); }
	int nph = 1 + (int)g.r.below(4); bool conc = g.r.chance(0.2);
	for (int k = 0; k < nph; k++) {
		Phase p; int nc = conc ? 2 : 1; std::vector<int> mine; for (int c = 0; c < nc; c++) { p.clients.emplace_back(); int n = 1 + (int)g.r.below(2); for (int i = 0; i < n; i++) { double x = g.r.unit(); int id = x < 0.5 ? g.any_store() : x < 0.6 ? g.simple("housekeeping") : x < 0.67 ? g.reindex_op() : x < 0.7 ? g.simple("rebuild") : x < 0.73 ? g.add(J::obj().set("k", "mksilo").set("n", (i64)g.r.below(6))) : g.read_op(); p.clients[(size_t)c].push_back(id); mine.push_back(id); } }
		if (g.r.chance(0.15)) { p.env.push(g.env("quota").set("v", (i64)g.r.range(0, 30000))); } else { int nf = 1 + (int)g.r.below(2); for (int i = 0; i < nf; i++) p.faults.push_back(g.err(g.r.pick(mine))); }
		if (g.r.chance(0.08) && g.e.ops[mine[0]].str("k") == "get") g.e.ops[mine[0]].set("outlim", (i64)g.r.below(3000));
		p.pol = conc ? g.pol() : g.seqpol(); g.e.phases.push_back(p);
		Phase &q = g.phase("recovery"); q.env.push(g.env("quota").set("v", -1)); for (int id : mine) if (g.e.ops[id].str("k") == "store" && g.r.chance(0.6)) { J j = g.e.ops[id]; g.seq(q, g.add(j)); } for (int i = 0; i < 2; i++) g.seq(q, g.r.chance(0.3) ? g.any_store() : g.read_op()); if (g.r.chance(0.3)) g.seq(q, g.simple("housekeeping"));
	}
}
// every reading or rewriting operation with one failing call
Fault rfault(Gen &g, int op) {
	if (g.r.chance(0.2)) return g.err(op);
	Fault f; f.op = op; f.kind = FK_ERR; f.arg = EIO; const std::string k = g.e.ops[op].str("k"); double x = g.r.unit(); bool outs = k == "get" || k == "cgi" || k == "filter" || k == "dumpindex" || k == "byid" || k == "audit";
	if (outs && x < 0.25) { f.cls = 1u << SC_WRITE; f.obj = (1u << OB_STDOUT) | (1u << OB_FILE); f.kind = g.r.chance(0.5) ? FK_ERR : g.r.chance(0.5) ? FK_PART : FK_SHORT; f.arg = f.kind == FK_ERR ? g.one({EIO, ENOSPC}) : (i64)g.r.below(5000); f.nth = (int)g.r.below(g.r.chance(0.6) ? 2 : 6); return f; }
	if (k == "rebuild" && x < 0.45) { f.cls = 1u << SC_WRITE; f.kind = g.r.chance(0.4) ? FK_ERR : g.r.chance(0.5) ? FK_PART : FK_SHORT; f.arg = f.kind == FK_ERR ? g.one({EIO, ENOSPC}) : (i64)g.r.below(5000); f.nth = (int)g.r.below(g.r.chance(0.5) ? 6 : 40); return f; }
	if (x < 0.7) { f.cls = 1u << SC_READ; f.obj = 1u << g.one({OB_SILO, OB_SILO, OB_INDEX, OB_INDEX, OB_FILE}); f.nth = (int)g.r.below(g.r.chance(0.6) ? 6 : 40); return f; }
	struct { Sc s; std::vector<int> e; } t[] = {{SC_OPEN, {EIO, EMFILE, EACCES, ENFILE}}, {SC_OPEN, {EIO, EMFILE, EACCES}}, {SC_STAT, {EIO, EACCES}}, {SC_MMAP, {ENOMEM}}, {SC_SEEK, {EIO}}, {SC_CLOSE, {EIO, ENOSPC}}, {SC_CREAT, {EIO, ENOSPC}}};
	size_t q = (size_t)g.r.below(7); f.cls = 1u << t[q].s; f.arg = t[q].e[g.r.below(t[q].e.size())]; f.nth = (int)g.r.below(g.r.chance(0.6) ? 3 : 12); if (g.r.chance(0.5)) f.obj = 1u << g.one({OB_SILO, OB_INDEX, OB_FILE}); return f;
}
void p_readerr(Gen &g) {
	g.cfg(g.r.chance(0.8) ? g.r.range(8192, 40000) : 0); g.p_big = g.one({0.1, 0.4, 0.7}); int nph = 1 + (int)g.r.below(3); if (g.r.chance(0.3)) g.e.cfg.sort_size = 4096;
	for (int k = 0; k < nph; k++) {
		{ Phase &p = g.phase("fill"); int n = 2 + (int)g.r.below(g.r.chance(0.8) ? 8 : 40); for (int i = 0; i < n; i++) g.seq(p, g.any_store()); if (g.r.chance(0.5)) g.seq(p, g.simple("housekeeping")); if (g.r.chance(0.5)) g.seq(p, g.any_store()); }
		if (g.r.chance(0.3)) { Phase &p = g.phase("index lost"); p.env.push(g.env("rmindex").set("which", g.one<std::string>({"all", "all", "sorted", "appendix"}))); int id = g.reindex_op(); g.seq(p, id); p.faults.push_back(rfault(g, id)); Phase &q = g.phase("again"); if (g.r.chance(0.7)) q.env.push(g.env("rmholds")); g.seq(q, g.reindex_op()); }
		{ Phase &p = g.phase("faulty"); int n = 4 + (int)g.r.below(10); for (int i = 0; i < n; i++) { double x = g.r.unit(); int id = x < 0.35 ? g.get() : x < 0.42 ? g.cgi() : x < 0.5 ? g.byid() : x < 0.6 ? g.dump() : x < 0.7 ? g.filter() : x < 0.78 ? g.audit(g.r.chance(0.7)) : x < 0.88 ? g.simple("rebuild") : x < 0.92 ? g.reindex_op() : x < 0.97 ? g.simple("housekeeping") : g.simple("info"); g.seq(p, id); p.faults.push_back(rfault(g, id)); } }
		{ Phase &p = g.phase("after"); for (int i = 0; i < 2; i++) g.seq(p, g.r.chance(0.3) ? g.any_store() : g.read_op()); }
	}
}
void p_index(Gen &g) {	// many small records, all index layouts, any distribution of IDs
	g.cfg(g.one<i64>({200000, 1000000, 4000000})); g.e.cfg.sort_size = g.one<i64>({4096, 4096, 4096, 8192}); g.sz_small = 30; g.p_big = 0; int sk = (int)g.r.below(4); int n = g.one({15, 60, 160}); std::string stem;
	{ Phase &p = g.phase("fill"); g.seq(p, g.store(false)); int hk = 0;
		for (int i = 0; i < n; i++) {
			int id; if (sk && g.r.chance(0.85)) {	// forced IDs: clusters, extremes, ladders
				unsigned l = g.e.cfg.idlen(); std::string f(l, '0'); for (auto &c : f) c = "0123456789abcdef"[g.r.below(16)];
				if (sk == 1) { for (unsigned q = 0; q < 3 + g.r.below(l - 4); q++) f[q] = g.r.chance(0.5) ? '0' : 'f'; } else if (sk == 2) { if (stem.empty() || g.r.chance(0.1)) { stem = f; } f = stem.substr(0, 4 + g.r.below(22)) + f; f.resize(l); } else { f[0] = "0f"[g.r.below(2)]; f[1] = f[0]; f[2] = "0123456789abcdef"[g.r.below(16)]; }
				bool used = false; for (auto &x : g.items) if (x.cid == f) used = true; if (used) continue; J j = J::obj(); j.set("k", "store").set("t", "m").set("b", g.blob(g.r.range(1, 20))).set("mime", "text/plain").set("ref", g.items[0].cid).set("refcid", g.items[0].cid).set("forced", f).set("i", f); Item it; it.cid = f; it.meta = it.forced = true; it.b = *j.get("b"); it.op_j = j; g.items.push_back(it); id = g.add(j);
			} else id = g.any_store();
			g.seq(p, id); if (g.r.chance(0.04) && hk < 4) { g.seq(p, g.simple("housekeeping")); hk++; } }
		if (g.r.chance(0.5)) g.seq(p, g.simple("housekeeping")); }
	{ Phase &p = g.phase("look"); for (int i = 0; i < 25; i++) switch (g.r.below(8)) { case 0: case 1: g.seq(p, g.byid()); break; case 2: g.seq(p, g.dump()); break; case 3: g.seq(p, g.filter()); break; case 4: g.seq(p, g.cgi()); break; case 5: if (g.r.chance(0.3)) { g.seq(p, g.simple("housekeeping")); } else g.seq(p, g.any_store()); break; default: g.seq(p, g.get()); } }
	if (g.r.chance(0.4)) { Phase p; p.clients = {{g.simple("housekeeping")}, {}, {}}; for (int c = 1; c < 3; c++) for (int i = 0; i < 3; i++) p.clients[(size_t)c].push_back(g.r.chance(0.4) ? g.any_store() : g.r.chance(0.5) ? g.get() : g.r.chance(0.5) ? g.filter() : g.byid()); p.pol = g.pol(); g.e.phases.push_back(p); }
}
void p_big(Gen &g) {	// objects of many megabytes or of very many segments
	bool many = g.r.chance(0.5); g.cfg(many ? g.r.range(8192, 12000) : g.one<i64>({60000, 300000, 1000000, 9000000, 40000000})); g.p_big = 0; int rounds = 1 + (int)g.r.below(2);
	auto big = [&]() { i64 n; int st = -1; if (many) { n = g.r.range(40000, g.r.chance(0.3) ? 1500000 : 300000); st = g.one({0, 0, 4, 6}); } else { double x = g.r.unit(); n = x < 0.5 ? g.r.range(1000000, 9000000) : x < 0.9 ? g.r.range(8300000, 20000000) : g.r.range(16700000, 40000000); if (g.r.chance(0.15)) n = g.one<i64>({1 << 20, 1 << 23, 1 << 24, (1 << 24) + 1, (1 << 20) - 1, (1 << 23) - 1}); st = g.one({2, 2, 3, 3, 5, 0}); if (n / 60 > g.e.cfg.max_size && st != 2 && st != 3) st = 2; }
		J j = J::obj(); Item it; it.size = n; it.b = g.blob(n, st); it.mime = "application/octet-stream"; j.set("k", "store").set("t", "r").set("b", it.b).set("mime", it.mime); if (g.r.chance(0.5)) { j.set("via", g.r.chance(0.5) ? "stdin" : "dash"); if (g.r.chance(0.5)) { J c = J::arr(); c.push((i64)g.r.range(20000, 3000000)); j.set("ch", c); } }
		it.op_j = j; it.op = g.nid; it.cid = expect_id(g.e.cfg, blob_data(it.b), j); for (auto &x : g.items) if (x.cid == it.cid) return g.any_store(); g.items.push_back(it); return g.add(j); };
	for (int k = 0; k < rounds; k++) {
		Phase &p = g.phase(); if (g.r.chance(0.5)) g.seq(p, g.any_store()); g.seq(p, big()); if (g.r.chance(0.3)) g.seq(p, big()); for (int i = 0; i < 3; i++) g.seq(p, g.r.chance(0.6) ? g.get(g.r.pick(g.items).cid) : g.r.chance(0.5) ? g.cgi() : g.any_store()); if (g.r.chance(0.3)) g.seq(p, g.simple("housekeeping"));
		if (g.r.chance(0.4)) { Phase &q = g.phase("reindex"); if (g.r.chance(0.7)) q.env.push(g.env("rmindex")); g.seq(q, g.reindex_op()); g.seq(q, g.get()); }
		else if (g.r.chance(0.3)) { Phase &q = g.phase("rebuild"); g.seq(q, g.simple("rebuild")); Phase &s = g.phase("swapped"); s.env.push(g.env("swaprebuilt")); g.seq(s, g.reindex_op()); g.seq(s, g.get()); }
	}
}
void p_many(Gen &g) {	// silo numbers which need another level of directories
	g.cfg(g.r.chance(0.8) ? g.r.range(8192, 14000) : 0); g.p_big = g.one({0.1, 0.4, 0.7}); int top = (int)g.r.range(94, 101); i64 gap = g.r.chance(0.3) ? (i64)g.r.below((u64)top) : -1;
	{ Phase &p = g.phase("silos"); for (int i = 0; i < top; i++) { if (i == gap) continue; g.seq(p, g.add(J::obj().set("k", "mksilo").set("n", i))); } if (g.r.chance(0.3)) g.seq(p, g.simple("housekeeping")); }
	int nph = 1 + (int)g.r.below(3);
	for (int k = 0; k < nph; k++) {
		Phase p; bool conc = g.r.chance(0.3); int nc = conc ? 2 : 1; for (int c = 0; c < nc; c++) { p.clients.emplace_back(); int n = 2 + (int)g.r.below(6); for (int i = 0; i < n; i++) p.clients[(size_t)c].push_back(g.items.empty() || g.r.chance(0.7) ? g.any_store() : g.get()); } p.pol = conc ? g.pol() : g.seqpol(); if (g.r.chance(0.3)) g.cache_env(p); if (g.r.chance(0.2)) p.faults.push_back(g.r.chance(0.5) ? g.kill(p.clients[0][0]) : g.err(p.clients[0][0])); g.e.phases.push_back(p);
		if (g.r.chance(0.3)) { Phase &q = g.phase("reindex"); if (g.r.chance(0.7)) q.env.push(g.env("rmindex")); g.seq(q, g.reindex_op()); g.seq(q, g.get()); }
		if (g.r.chance(0.2)) { Phase &q = g.phase("rebuild"); g.seq(q, g.simple("rebuild")); }
	}
}
void p_alias(Gen &g) {	// objects with identical segments, within one and between several
	i64 m = g.r.range(8192, 30000); g.cfg(m); g.p_big = 0; J o = J::obj(); o.set("k", "store").set("t", "r").set("b", g.blob(m * g.r.range(5, 7), 0)).set("mime", "application/octet-stream"); { Phase &p = g.phase("pattern"); g.seq(p, g.add(o)); if (g.r.chance(0.5)) g.seq(p, g.any_store()); }
	int nph = 1 + (int)g.r.below(3);
	for (int k = 0; k < nph; k++) {
		Phase p; bool conc = g.r.chance(0.35); int nc = conc ? 2 : 1; std::vector<int> mine; for (int c = 0; c < nc; c++) { p.clients.emplace_back(); int n = 1 + (int)g.r.below(3); for (int i = 0; i < n; i++) { std::string a(1, "AB"[g.r.below(2)]); int l = 1 + (int)g.r.below(5); for (int q = 0; q < l; q++) a.push_back("LMM"[g.r.below(3)]); if (g.r.chance(0.7)) a.push_back("YZ"[g.r.below(2)]); J j = J::obj(); j.set("k", "store").set("t", "r").set("b", g.blob(10, 0)).set("mime", "application/octet-stream").set("alias", a); if (g.r.chance(0.3)) j.set("via", "stdin"); int id = g.add(j); p.clients[(size_t)c].push_back(id); mine.push_back(id); if (g.r.chance(0.2)) p.clients[(size_t)c].push_back(g.any_store()); } }
		p.pol = conc ? g.pol() : g.seqpol(); if (g.r.chance(0.2)) p.faults.push_back(g.r.chance(0.6) ? g.kill(g.r.pick(mine)) : g.err(g.r.pick(mine))); if (g.r.chance(0.5)) p.env.push(g.env("clock").set("d", (i64)g.r.range(1, 100))); g.e.phases.push_back(p);
		if (g.r.chance(0.3)) { Phase &q = g.phase("housekeeping"); g.seq(q, g.simple("housekeeping")); }
		if (g.r.chance(0.35)) { Phase &q = g.phase("reindex"); if (g.r.chance(0.7)) q.env.push(g.env("rmindex")); if (g.r.chance(0.4)) g.seq(q, g.add(J::obj().set("k", "reindex").set("silos", g.perm_silos(400)).set("exist", 1))); else g.seq(q, g.reindex_op()); }
		if (g.r.chance(0.15)) { Phase &q = g.phase("rebuild"); g.seq(q, g.simple("rebuild")); }
		{ Phase &q = g.phase("look"); g.seq(q, g.read_op()); }
	}
}
void p_bulkidx(Gen &g) {	// an index of a large archive: several bucket layouts, merges in many pieces
	g.cfg(g.one<i64>({200000, 1000000})); g.sz_small = 60; g.p_big = 0.05; g.e.cfg.sort_size = g.one<i64>({65536, 100000, 300000, 1000000, 4000000}); i64 tot = 0; std::vector<J> bulks;
	{ Phase &p = g.phase("fill"); int n = 3 + (int)g.r.below(12); for (int i = 0; i < n; i++) g.seq(p, g.any_store()); if (g.r.chance(0.5)) g.seq(p, g.simple("housekeeping")); }
	int rounds = 1 + (int)g.r.below(3);
	auto bid = [&](bool full) { if (bulks.empty()) return g.some_id(); const J &b = g.r.pick(bulks); std::string q = bulk_rec((u64)b.num("s"), (i64)g.r.below((u64)b.num("n")), b.str("m")), h = hex(q.substr(0, 12)); if (full) { unsigned l = g.e.cfg.idlen(); while (h.size() < l) h += "0123456789abcdef"[g.r.below(16)]; h.resize(l); } return h; };
	auto dump = [&]() { J j = J::obj(), p = J::arr(); j.set("k", "dumpindex"); int n = g.r.chance(0.12) ? 0 : 1 + (int)g.r.below(4); for (int i = 0; i < n; i++) { std::string h = g.r.chance(0.25) ? g.some_id() : bid(false); h = h.substr(0, g.r.chance(0.5) ? 1 + g.r.below(4) : 1 + g.r.below(h.size())); if (h.size() > g.e.cfg.idlen()) h.resize(g.e.cfg.idlen()); p.push(h); } if (n) j.set("pre", p); g.dtype(j); return g.add(j); };
	auto filt = [&]() { J j = J::obj(), ls = J::arr(); j.set("k", "filter"); int n = 1 + (int)g.r.below(12); for (int i = 0; i < n; i++) { std::string h = g.r.chance(0.5) ? bid(true) : g.some_id(); if (g.r.chance(0.2)) h[g.r.below(20)] = '5'; ls.push(h); } if (g.r.chance(0.4)) j.set("r", 1); if (g.r.chance(0.4)) j.set("v", 1); j.set("lines", ls); return g.add(j); };
	for (int k = 0; k < rounds; k++) {
		Phase &p = g.phase("bulk"); J b = g.env("bulk"); i64 n = g.one<i64>({300, 3000, 16300, 16500, 20000, 40000, 68000, 80000}); n += (i64)g.r.below(200); if (tot + n > 100000) n = 1000; tot += n; if (!bulks.empty() && g.r.chance(0.15)) b = g.r.pick(bulks); else b.set("n", n).set("s", (i64)g.r.below(1 << 30)).set("m", g.one<std::string>({"uni", "uni", "dup", "skew", "skew", "lad", "one", "edge"})); p.env.push(b); bulks.push_back(b);
		int m = (int)g.r.below(4); for (int i = 0; i < m; i++) g.seq(p, g.r.chance(0.5) ? g.any_store() : g.get());
		Phase q; q.clients = {{g.simple("housekeeping")}}; q.pol = g.seqpol(); if (g.r.chance(0.35)) { int nc = 1 + (int)g.r.below(2); for (int c = 0; c < nc; c++) { q.clients.emplace_back(); for (int i = 0; i < 2; i++) q.clients.back().push_back(g.r.chance(0.4) ? g.any_store() : g.r.chance(0.4) ? dump() : g.r.chance(0.5) ? filt() : g.get()); } q.pol = g.pol(); }
		if (g.r.chance(0.2)) { Fault f = g.kill(q.clients[0][0]); f.obj = 1u << OB_INDEX; f.cls = ~0u; f.nth = (int)g.r.below(2000); q.faults.push_back(f); } g.e.phases.push_back(q);
		Phase &s = g.phase("look"); if (!q.faults.empty()) { s.env.push(g.env("rmholds")); g.seq(s, g.simple("housekeeping")); } for (int i = 0; i < 6; i++) g.seq(s, g.r.chance(0.15) ? g.any_store() : g.r.chance(0.45) ? dump() : g.r.chance(0.4) ? filt() : g.r.chance(0.2) ? g.cgi() : g.get());
	}
}
void p_house(Gen &g) {	// housekeeping against everything, interrupted
	g.cfg(g.one<i64>({20000, 200000, 1000000})); g.e.cfg.sort_size = 4096; g.sz_small = 40; g.p_big = 0.05; int rounds = 1 + (int)g.r.below(4);
	for (int k = 0; k < rounds; k++) {
		Phase &p = g.phase(); int n = g.one({2, 10, 40}); for (int i = 0; i < n; i++) g.seq(p, g.any_store());
		Phase q; q.clients = {{g.simple("housekeeping")}}; std::vector<int> mine = {q.clients[0][0]}; bool conc = g.r.chance(0.6); if (conc) { int nc = 1 + (int)g.r.below(3); for (int c = 0; c < nc; c++) { q.clients.emplace_back(); int m = 1 + (int)g.r.below(3); for (int i = 0; i < m; i++) { int id = g.r.chance(0.5) ? g.any_store() : g.r.chance(0.3) ? g.simple("housekeeping") : g.read_op(); q.clients.back().push_back(id); mine.push_back(id); } } q.pol = g.pol(); } else q.pol = g.seqpol();
		if (g.r.chance(0.5)) { Fault f = g.kill(g.r.chance(0.7) ? mine[0] : g.r.pick(mine)); if (g.r.chance(0.5)) { f.obj = (1u << OB_INDEX) | (1u << OB_HOLD); f.cls = ~0u; f.nth = (int)g.r.below(18); } q.faults.push_back(f); } else if (g.r.chance(0.2)) { Fault f = g.err(mine[0]); q.faults.push_back(f); } g.e.phases.push_back(q);
		Phase &s = g.phase("recovery"); if (g.r.chance(0.7)) s.env.push(g.env("rmholds")); g.seq(s, g.any_store()); if (g.r.chance(0.8)) g.seq(s, g.simple("housekeeping")); for (int i = 0; i < 4; i++) g.seq(s, g.read_op());
	}
}
void p_large(Gen &g) {	// silos of gigabytes: records beyond 2 and 4 GB, also next to the maximum size
	const i64 G2 = 1LL << 31, G4 = 1LL << 32; auto near = [&](i64 x) { return x + g.r.range(-60000, 60000); };
	g.cfg(g.one<i64>({near(G2 + 200000), near(G4 - 100000), near(G4 + 200000), 3758096384LL, near(5 * G2), near(20 * G4)})); if (g.e.cfg.max_expr.empty() && g.r.chance(0.3)) g.e.cfg.max_expr = g.equiv(g.e.cfg.max_size);
	g.p_big = g.one({0.05, 0.3}); int nph = 2 + (int)g.r.below(3), gid = 0; { Phase &p = g.phase("prelude"); int n = 1 + (int)g.r.below(4); for (int i = 0; i < n; i++) g.seq(p, g.any_store()); }
	for (int k = 0; k < nph; k++) {
		Phase p; int ng = g.r.chance(0.75) ? 1 + (int)g.r.below(2) : 0; i64 mx = g.e.cfg.max_size;
		for (int i = 0; i < ng; i++) { i64 to = g.one<i64>({near(G2), near(G4), mx, mx, g.r.range(G2, std::max(G2 + 1, mx))}); std::string id = sfmt("fee1%02d", gid++); for (int q = 0; q < 58; q++) id += "0123456789abcdef"[g.r.below(16)]; p.env.push(g.env("ghost").set("silo", (i64)g.r.below(20)).set("to", to).set("room", g.one<i64>({0, g.r.range(0, 3000), g.r.range(0, 300000)})).set("id", id)); }
		bool ri = g.r.chance(0.3); if (ri) p.env.push(g.env("rmindex").set("which", "all")); if (g.r.chance(0.1)) p.env.push(g.env(g.r.chance(0.5) ? "protect" : "protectall").set("silo", (i64)g.r.below(20)));
		bool conc = g.r.chance(0.3); int nc = conc ? 2 + (int)g.r.below(2) : 1; if (ri) { Phase q = p; q.clients = {{g.reindex_op()}}; q.pol = g.seqpol(); g.e.phases.push_back(q); p = Phase(); }
		std::vector<int> mine; for (int c = 0; c < nc; c++) { p.clients.emplace_back(); int n = 2 + (int)g.r.below(conc ? 4 : 9); for (int i = 0; i < n; i++) { p.clients[(size_t)c].push_back(g.r.chance(0.5) ? g.any_store() : g.r.chance(0.15) ? g.simple("housekeeping") : g.read_op()); mine.push_back(p.clients[(size_t)c].back()); } }
		p.pol = conc ? g.pol() : g.seqpol(); if (g.r.chance(0.12)) p.faults.push_back(g.r.chance(0.5) ? g.kill(g.r.pick(mine)) : g.err(g.r.pick(mine))); g.e.phases.push_back(p);
		if (g.r.chance(0.3)) { Phase &q = g.phase("more"); q.env.push(g.env("rmholds")); for (int i = 0; i < 4; i++) g.seq(q, g.r.chance(0.4) ? g.any_store() : g.read_op()); }
	}
	for (auto &o : g.e.ops) if (o.second.str("k") == "audit") { o.second = J::obj(); o.second.set("k", "dumpindex"); }	// audit has to read every body
}
void p_reindex(Gen &g) {
	g.cfg(g.r.chance(0.8) ? g.r.range(8192, 30000) : 0); g.p_big = g.one({0.1, 0.4, 0.7}); bool conc = g.r.chance(0.3);
	{ Phase p; int nc = conc ? 2 + (int)g.r.below(2) : 1; for (int c = 0; c < nc; c++) { p.clients.emplace_back(); int n = 3 + (int)g.r.below(10); for (int i = 0; i < n / nc + 1; i++) p.clients[(size_t)c].push_back(g.any_store()); } p.pol = conc ? g.pol() : g.seqpol(); if (g.r.chance(0.15)) p.faults.push_back(g.kill(g.r.pick(p.clients[0]))); g.e.phases.push_back(p); }
	int rounds = 1 + (int)g.r.below(3);
	for (int k = 0; k < rounds; k++) {
		Phase &p = g.phase("reindex"); double x = g.r.unit(); if (x < 0.7) p.env.push(g.env("rmindex").set("which", g.one<std::string>({"all", "all", "all", "sorted", "appendix"}))); 
		if (g.r.chance(0.25)) { J j = J::obj(); j.set("k", "reindex").set("silos", g.perm_silos(400)).set("exist", 1); g.seq(p, g.add(j)); }
		else if (g.r.chance(0.2)) { J s = g.perm_silos(30); for (auto &q : s.a) { J j = J::obj(), a = J::arr(); a.push(q); j.set("k", "reindex").set("silos", a).set("exist", 1); g.seq(p, g.add(j)); } J j = J::obj(); j.set("k", "reindex").set("silos", g.perm_silos(400)).set("exist", 1); g.seq(p, g.add(j)); }
		else { int id = g.reindex_op(); g.seq(p, id); if (g.r.chance(0.25)) { p.faults.push_back(g.kill(id)); Phase &q = g.phase("again"); if (g.r.chance(0.7)) q.env.push(g.env("rmholds")); g.seq(q, g.reindex_op()); } }
		Phase &q = g.phase("use"); for (int i = 0; i < 5; i++) g.seq(q, g.r.chance(0.35) ? g.any_store() : g.read_op()); if (g.r.chance(0.4)) g.seq(q, g.simple("housekeeping")); if (g.r.chance(0.2)) g.seq(q, g.reindex_op());
	}
}
void p_rebuild(Gen &g) {
	g.cfg(g.r.chance(0.8) ? g.r.range(8192, 40000) : 0); g.p_big = g.one({0.1, 0.4, 0.7}); { Phase &p = g.phase(); int n = 2 + (int)g.r.below(14); for (int i = 0; i < n; i++) g.seq(p, g.any_store()); if (g.r.chance(0.2)) g.seq(p, g.add(J::obj().set("k", "mksilo").set("n", (i64)g.r.below(12)))); }
	{ Phase &p = g.phase("rebuild"); if (g.r.chance(0.25)) p.env.push(g.env("protectall")); if (g.r.chance(0.15)) p.env.push(g.env("junkcopies").set("n", (i64)g.r.below(60000))); if (g.r.chance(0.7)) g.seq(p, g.simple("rebuild")); else { J j = J::obj(); j.set("k", "rebuild").set("silos", g.perm_silos(400)).set("exist", 1); g.seq(p, g.add(j)); } if (g.r.chance(0.15)) g.seq(p, g.simple("rebuild")); if (g.r.chance(0.3)) { p.faults.push_back(g.r.chance(0.6) ? rfault(g, p.clients[0][0]) : g.kill(p.clients[0][0])); Phase &q = g.phase("once more"); if (g.r.chance(0.5)) { g.seq(q, g.any_store()); Phase &s = g.phase("and copy"); g.seq(s, g.simple("rebuild")); } else g.seq(q, g.simple("rebuild")); } }
	if (g.e.phases.back().faults.empty() && g.r.chance(0.7)) { Phase &p = g.phase("use copies"); p.env.push(g.env("swaprebuilt")); g.seq(p, g.reindex_op()); Phase &q = g.phase("use"); for (int i = 0; i < 8; i++) g.seq(q, g.r.chance(0.25) ? g.any_store() : g.read_op()); }
}
void p_corrupt(Gen &g) {
	g.cfg(g.r.chance(0.8) ? g.r.range(8192, 40000) : 0); g.p_big = g.one({0.1, 0.4, 0.7}); g.e.cfg.root = true; { Phase &p = g.phase(); int n = 2 + (int)g.r.below(10); for (int i = 0; i < n; i++) g.seq(p, g.any_store()); if (g.r.chance(0.4)) g.seq(p, g.simple("housekeeping")); }
	Phase &p = g.phase("altered"); int n = 1 + (g.r.chance(0.2) ? 1 : 0); bool idx = false;
	for (int i = 0; i < n; i++) {
		std::string k = g.one<std::string>({"flip", "flip", "flip", "flip", "cut", "cut", "edit", "edit", "edit", "edit", "zerotail", "dup", "idxflip", "idxcut", "idxswap", "idxswap", "delsilo"}); J a = g.env(k); a.set("silo", (i64)g.r.below(64)).set("rec", (i64)g.r.below(64)).set("frac", (i64)g.r.below(1000000)).set("xor", (i64)g.r.range(1, 255)).set("part", g.one<std::string>({"hdr", "body", "body", "any", "crnl"})); if (k == "flip" && g.r.chance(0.3)) a.set("cnt", (i64)g.r.range(2, 40)); if (g.r.chance(0.1)) a.set("frac", g.r.chance(0.5) ? 0 : 999999); if (k == "edit") a.set("what", g.one<std::string>({"body", "body", "digest", "digtail", "length", "payload", "total", "segno", "origin", "id", "forge", "forge", "nosha", "segjunk", "refers", "drop:WARC-Block-Digest", "drop:Content-Length", "drop:WARC-Payload-Digest", "drop:WARC-Segment-Number", "drop:WARC-Segment-Total-Length", "drop:WARC-Segment-Origin-ID"})); if (k == "dup") a.set("frac", g.r.chance(0.6) ? 1000000 : (i64)g.r.below(1000000)); if (k.compare(0, 3, "idx") == 0) { idx = true; a.set("which", g.one<std::string>({"appendix", "sorted"})); } p.env.push(a); }
	(void)idx; g.seq(p, g.audit(true)); { J j = J::obj(); J s = J::arr(); s.push((i64)g.r.below(5)); j.set("k", "audit").set("silos", s); g.seq(p, g.add(j)); }
	{ std::vector<Item> v = g.items; for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[g.r.below(i)]); for (size_t i = 0; i < v.size() && i < 10; i++) { J j = J::obj(); j.set("k", "get").set("cid", v[i].cid).set("id", v[i].cid); if (g.r.chance(0.2)) j.set("o", 1); if (g.r.chance(0.2)) j.set("q", 1); g.seq(p, g.add(j)); } }
}
void p_neg(Gen &g) {	// refused stores
	g.cfg(); g.p_meta = 0.5; g.p_forced = 0.5; Phase *p = &g.phase(); int n = 4 + (int)g.r.below(6); for (int i = 0; i < n; i++) g.seq(*p, g.any_store());
	int rounds = 1 + (int)g.r.below(3);
	for (int k = 0; k < rounds; k++) {
		p = &g.phase("refused"); int m = 1 + (int)g.r.below(6);
		for (int i = 0; i < m; i++) {
			J j = J::obj(); j.set("k", "store"); std::string why; const Item &it = g.r.pick(g.items); i64 sz = g.r.chance(0.3) ? g.size() : g.r.range(1, 500); J b = g.blob(sz); std::string bad = g.absent();
			auto meta = [&]() { j.set("t", "m").set("b", b).set("mime", "text/plain").set("ref", it.cid).set("refcid", it.cid); };
			switch (g.r.below(14)) {
			case 0: why = "empty input"; j.set("t", "r").set("b", g.blob(0)).set("mime", "text/plain"); break;
			case 1: why = "reference to an absent object"; meta(); { bool have = false; for (auto &x : g.items) if (x.cid == bad) have = true; if (have) continue; } j.set("ref", spell(g.e.cfg, bad, (int)g.r.below(4))).set("refcid", bad); break;
			case 2: why = "reference too short"; meta(); j.set("ref", it.cid.substr(1)); break;
			case 3: why = "reference too long"; meta(); j.set("ref", it.cid + "0"); break;
			case 4: why = "reference not hexadecimal"; meta(); { std::string s = it.cid; s[g.r.below(s.size())] = g.one({'g', 'x', '-', ' ', '.', 'G'}); j.set("ref", s); } break;
			case 5: why = "reference with another prefix"; meta(); j.set("ref", "http://other.example/" + it.cid); break;
			case 6: why = "resource with a reference"; j.set("t", "r").set("b", b).set("mime", "text/plain").set("ref", it.cid); break;
			case 7: why = "resource with a forced ID"; j.set("t", "r").set("b", b).set("mime", "text/plain").set("i", bad); break;
			case 8: why = "metadata without a reference"; j.set("t", "m").set("b", b).set("mime", "text/plain"); break;
			case 9: why = "forced ID malformed"; meta(); j.set("i", g.r.chance(0.5) ? bad.substr(2) : bad + "00"); break;
			case 10: why = "media type not allowed"; meta(); j.set("mime", g.one<std::string>({"application/octet-stream", "image/png", "text/plainx", "text", "text/html", "application/json2"})); break;
			case 11: why = "media type not allowed"; j.set("t", "r").set("b", b).set("mime", g.one<std::string>({"application/json", "text/html", "image/pn", "application/octet-stream2"})); break;
			case 12: why = "input file missing"; { J a = J::arr(); a.push("-m").push("text/plain"); j.set("t", "r").set("b", b).set("via", "stdin"); J x = J::arr(); x.push("/in/nonexistent"); j.set("args", x).set("xargs", a); } break;
			default: why = "empty metadata"; meta(); j.set("b", g.blob(0)); break; }
			j.set("neg", why); g.seq(*p, g.add(j)); if (g.r.chance(0.2)) g.seq(*p, g.any_store()); }
	}
}
// command lines, IDs and configurations which must be refused
std::string bad_id(Gen &g) {
	std::string s = g.some_id(), p = g.e.cfg.prefix; size_t l = s.size(); switch (g.r.below(12)) {
	case 0: return s.substr(0, l - 1); case 1: return s + "0"; case 2: s[g.r.below(l)] = g.one({'g', 'x', ' ', '-', 'G', '.', '\n', '_'}); return s; case 3: return p + s.substr(0, l - 1); case 4: return p + s + g.one<std::string>({"0", "/", " ", "\n", "?"}); case 5: return p + p + s;
	case 6: return "http://elsewhere.example/" + s; case 7: return p.substr(0, p.size() - 1) + s; case 8: return ""; case 9: return p; case 10: return s.substr(0, 1 + g.r.below(l - 1)); default: return "<" + p + s + ">"; }
}
std::string bad_size(Gen &g) { std::string d = std::to_string(g.r.range(8192, 200000)); switch (g.r.below(14)) { case 0: return d + "Q"; case 1: return d + "KK"; case 2: return d + "KiB"; case 3: return d + ".5.2K"; case 4: return g.one<std::string>({".", "-", "+", "K", "B", "MB", "e5", ".K", "-.5"}); case 5: return d + g.one<std::string>({"e", "e+", "eK", "E-"}); case 6: return "--" + d; case 7: return "-" + d + g.one<std::string>({"", "K", "B", "e2"}); case 8: return "0x" + d; case 9: return d + "," + d; case 10: return d + "%"; case 11: return d + "K5"; case 12: return d + g.one<std::string>({"BK", "BB", "e400", "0000000000000000000", "99P"}); default: return g.one<std::string>({"nan", "inf", "9223372036854775808", "1e19", "8192P", "9007199254740992K", "x1M", "1MM", "sixteen"}); } }
std::string some_size(Gen &g) {
	std::string m; int nd = 1 + (int)g.r.below(g.r.chance(0.8) ? 6 : 15); for (int i = 0; i < nd; i++) m.push_back((char)('0' + g.r.below(10))); if (g.r.chance(0.5)) m.insert(g.r.below(m.size() + 1), "."); if (g.r.chance(0.1)) m = "+" + m; if (g.r.chance(0.1)) m = "00" + m;
	if (g.r.chance(0.25)) m += g.one<std::string>({"e", "E"}) + g.one<std::string>({"", "+", "-", ""}) + std::to_string(g.r.below(g.r.chance(0.5) ? 3 : 9)); if (g.r.chance(0.75)) m += g.one<std::string>({"k", "K", "m", "M", "g", "G", "t", "T", "p", "P", "K", "M", "G", "M"}); if (g.r.chance(0.25)) m += g.one<std::string>({"b", "B"}); return m;
}
int raw(Gen &g, std::vector<std::string> a, const std::string &cls, const std::string &why, const std::string &tags = "C24", J x = J::obj()) { J l = J::arr(); for (auto &s : a) l.push(s); x.set("k", "raw").set("args", l).set("cls", cls).set("why", why).set("tags", tags); return g.add(x); }
int raw_size(Gen &g) {
	J x = J::obj(); double u = g.r.unit(); bool mx = g.r.chance(0.25); std::string s = u < 0.4 ? bad_size(g) : u < 0.8 ? some_size(g) : g.equiv(g.one<i64>({g.r.range(4064, 4200), g.r.range(262144, 4000000), 1LL << (10 + g.r.below(52)), (1LL << (10 + g.r.below(50))) + g.r.range(-2, 2), g.r.range(30000000, 80000000), 3758096384LL}));
	if (mx) { Cfg c = g.e.cfg; c.max_expr = s; x.set("conf", c.text(false)).set("expr", s).set("plain", 1); return raw(g, {"info"}, "size", "silo.max_size " + s, "C23", x.set("out", 1)); }
	Cfg c = g.e.cfg; c.sort_expr = s; x.set("conf", c.text(false)).set("expr", s).set("out", 1); return raw(g, {"housekeeping"}, "size", "index.sort_size " + s, "C23", x);
}
int raw_conf(Gen &g, int which = -1) {
	Cfg c = g.e.cfg; std::string t, why; if (c.max_expr == "(default)") c.max_expr.clear(); if (c.sort_expr == "(default)") c.sort_expr.clear(); auto base = [&]() { return c.text(false); }; auto rm = [&](const std::string &sec, const std::string &with) { c.fmt = 0; t = base(); size_t a = t.find(sec + ":\n"), b = t.find("\n\n", a); t.replace(a, b - a, with); };
	if (which < 0) which = (int)g.r.below(17);
	switch (which) {
	case 0: why = "section given twice"; c.fmt = 0; t = base() + "\n" + g.one<std::string>({"silo.directory:\n\t/silo/\n", "silo.max_size:\n\t9000\n", "x.y:\n\ta\nx.y:\n\tb\n"}); if (t.find("\nsilo.directory:") == std::string::npos || t.find("\nsilo.max_size:") == std::string::npos) { t = base() + "\nsilo.directory:\n\t/silo/\n"; } break;
	case 1: why = "section without colon"; t = base() + "\n" + g.one<std::string>({"silo.more\n\t10\n", "x y\n", "a: b\n", "key value:x\n"}); break;
	case 2: why = "entry before the first section"; t = "\t/silo/\n" + base(); break;
	case 3: why = "no WARC-Record-ID"; rm("WARC-Record-ID", ""); break;
	case 4: why = "no silo.directory"; rm("silo.directory", ""); break;
	case 5: why = "prefix does not end in /"; c.prefix.pop_back(); t = base(); break;
	case 6: why = "directory does not end in /"; t = c.text(false, "/silo"); break;
	case 7: why = "illegal number of bits"; c.bits = g.one({0u, 4u, 32u, 60u, 63u, 65u, 66u, 127u, 130u, 255u, 257u, 260u, 512u, 1024u, 4096u}); t = base(); break;
	case 8: why = "basename not usable for a number"; c.base = g.one<std::string>({"%s", "%u%u", "%lu.gz", "a/%u", "%", "%08u.%s", "%f", "%n", "%*u", "/%u"}); t = base(); break;
	case 9: why = "a NUL"; t = base(); t.insert(g.r.below(t.size()), 1, '\0'); break;
	case 10: why = "not UTF-8"; t = base(); t.insert(g.r.below(t.size()), 1, g.one({'\xff', '\xc0', '\xf8', '\xc1'})); break;
	case 11: why = "empty"; t = g.one<std::string>({"", "\n", "# nothing\n", "  \n\t\n"}); break;
	case 12: why = "two silo directories"; rm("silo.directory", "silo.directory:\n\t/silo/\n\t/silo/"); break;
	case 13: why = "section without a value"; { std::string s = g.one<std::string>({"silo.directory", "WARC-Record-ID", "silo.max_size", "silo.basename", "index.sort_size"}); rm(s, s + ":"); break; }
	case 14: why = "several values"; { std::string s = g.one<std::string>({"silo.max_size", "index.sort_size", "silo.basename"}); std::string v = s == "silo.basename" ? "%08u.gz" : "65536"; rm(s, s + ":\n\t" + v + g.one<std::string>({" K", " x", "\n\t" + v, " 1"})); break; }
	case 15: why = "prefix without a value"; rm("WARC-Record-ID", "WARC-Record-ID:\n\t" + c.prefix + " " + g.one<std::string>({"abc", "-", "x128", "-64", "many"})); break;
	default: why = "index.sort_size too small"; c.sort_expr = g.one<std::string>({"0", "1", "4095", "3K", "31", "4095.9", "0.003M"}); t = base(); }
	std::vector<std::vector<std::string>> cmds = {{"info"}, {"housekeeping"}, {"store", "-m", "text/plain"}, {"audit"}, {"reindex"}, {"rebuild"}, {"dumpindex"}, {"mksilo", "3"}, {"get", g.some_id()}, {"stevedore"}, {"byid", "0"}};
	if (g.r.chance(0.1)) return raw(g, cmds[g.r.below(cmds.size())], "configuration", "configuration in $HOME: " + why, which == 0 || which == 13 || which == 14 || which == 16 ? "C24 C23" : "C24", J::obj().set("bare", 1).set("files", J::obj().set("/home/bad/.aardwarc.conf", t)).set("env", J::obj().set("HOME", "/home/bad")).set("in", "some data\n"));
	return raw(g, cmds[g.r.below(cmds.size())], "configuration", "configuration: " + why, which == 0 || which == 13 || which == 14 || which == 16 ? "C24 C23" : "C24", J::obj().set("conf", t).set("in", "some data\n"));
}
int raw_stowconf(Gen &g) {
	std::string t = g.e.cfg.text(false), why, j; switch (g.r.below(5)) { case 0: why = "job without a directory"; j = "\tcmd aardwarc stevedore\n"; break; case 1: why = "unknown entry"; j = "\tdirectory /tree\n\tfoo bar\n"; break; case 2: why = "directory missing"; j = "\tdirectory /nowhere\n"; break; case 3: why = "job without entries"; break; default: why = "a good job and an unknown one"; return raw(g, {"stow", "bad", "nosuch"}, "stow", "stow: " + why, "C24 C15", J::obj().set("conf", t + "\nstow.bad:\n\tdirectory /tree\n\tcmd exit 0\n")); }
	return raw(g, {"stow", "bad"}, "stow", "stow: " + why, "C24 C15", J::obj().set("conf", t + "\nstow.bad:\n" + j));
}
int raw_op(Gen &g) {
	typedef std::vector<std::string> L; std::string id = g.some_id(), bad = bad_id(g); J x = J::obj(); static const char *ops[] = {"audit", "byid", "cgi", "dumpindex", "filter", "get", "housekeeping", "info", "mksilo", "rebuild", "reindex", "stevedore", "store", "stow"}; std::string op = ops[g.r.below(14)];
	switch (g.r.below(24)) {
	case 0: switch (g.r.below(6)) { case 0: return raw(g, {}, "global", "no operation", "C24", x.set("bare", g.r.below(2) ? 1 : 0)); case 1: return raw(g, {"-x", op}, "global", "unknown global option", "C24", x.set("bare", 1)); case 2: return raw(g, {g.one<std::string>({"nosuch", "Store", "stor", "storex", "", "_", "GET"}), id}, "global", "unknown operation"); case 3: return raw(g, {"-c", g.one<std::string>({"/nonexistent", "/silo", "/dev/null", ""}), op}, "global", "no such configuration", "C24", x.set("bare", 1)); case 4: return raw(g, {"-h"}, "global", "help", "C24", x.set("bare", 1)); default: if (g.e.cfg.where == 2) return raw(g, {op}, "configuration", "broken configuration in $HOME, good one in /etc", "C24", x.set("bare", 1).set("in", "some data\n").set("files", J::obj().set("/home/bad/.aardwarc.conf", g.one<std::string>({"junk\n", "WARC-Record-ID:\n\thttp://a.b/\n", "", "WARC-Record-ID:\n\thttp://no-slash\nsilo.directory:\n\t/silo/\n", "WARC-Record-ID:\n\thttp://a.b/\t1000\nsilo.directory:\n\t/silo/\n"}))).set("env", J::obj().set("HOME", "/home/bad"))); return raw(g, {op}, "global", "no configuration anywhere", "C24", x.set("bare", 1)); }
	case 1: { std::string o2 = op == "info" ? "get" : op; L a = {"-c", "/etc/aa.conf", "-j", o2}; if (o2 == "get") a.push_back(id); return raw(g, a, "global", "no JSON form", "C24", x.set("bare", 1).set("in", "x")); }
	case 2: return raw(g, {op, g.one<std::string>({"-Q", "-h", "-Z", "-?", "-1"})}, "option", "unknown option or help", "C24", x.set("in", "some data\n"));
	case 3: { L a = {op}; if (op == "info" || op == "housekeeping" || op == "cgi" || op == "stevedore") a.push_back(g.one<std::string>({"x", id, "--", "0"})); else if (op == "mksilo") { a.push_back("77"); a.push_back("78"); } else if (op == "get") { a.push_back(id); a.push_back(id); } else if (op == "store") { x.set("files", J::obj().set("/in/a", "aa").set("/in/b", "bb")); a = {"store", "/in/a", "/in/b"}; } else a = {"get"}; if (a.size() == 2 && a[1] == "--") a[1] = "-"; if (op == "cgi") x.set("cgi0", 1); return raw(g, a, "operands", "wrong number of operands", "C24", x); }
	case 4: { L a = {"get"}; if (g.r.chance(0.5)) { a.push_back("-o"); a.push_back("/out/keep"); } if (g.r.chance(0.2)) a.push_back("-z"); if (g.r.chance(0.2)) a.push_back("-n"); a.push_back(bad); return raw(g, a, "id", "malformed ID"); }
	case 5: { std::string ab = g.absent(); return raw(g, {"get", "-o", g.one<std::string>({"/out/keep", "/out/new"}), spell(g.e.cfg, ab, (int)g.r.below(6))}, "absent", "ID which is not there", "C24 C13", x.set("absent", ab)); }
	case 6: { std::string s = bad; if (s.find_first_not_of("0123456789abcdefABCDEF") == std::string::npos) s += "g"; if (!strncasecmp(s.c_str(), g.e.cfg.prefix.c_str(), g.e.cfg.prefix.size()) && s.find_first_not_of("0123456789abcdefABCDEF", g.e.cfg.prefix.size()) == std::string::npos) s += "/"; return raw(g, {"byid", s}, "id", "malformed ID fragment"); }
	case 7: { std::string s = bad; if (s.find_first_not_of("0123456789abcdefABCDEF") == std::string::npos && s.size() <= g.e.cfg.idlen()) s += "!"; return raw(g, {"dumpindex", s}, "id", "malformed ID fragment"); }
	case 8: return raw(g, {"store", "-t", "metadata", "-m", "text/plain", "-r", bad}, "id", "malformed -r", "C24 C20", x.set("in", "meta data"));
	case 9: return raw(g, {"store", "-t", "metadata", "-m", "text/plain", "-r", id, "-i", bad}, "id", "malformed -i", "C24 C20", x.set("in", "meta data"));
	case 10: { std::string s = bad; std::string l = g.e.cfg.prefix; size_t n = s.compare(0, l.size(), l) ? 0 : l.size(); size_t k = s.find_first_not_of("0123456789abcdefABCDEF", n); if (s.empty()) s = "x"; else if ((k == std::string::npos ? s.size() : k) - n >= g.e.cfg.idlen()) s = "zz" + s; else if (k == 0 || s.find('\n') != std::string::npos) s = "q" + s; std::string in; if (g.r.chance(0.5)) in = id + "\n"; in += s + "\n"; if (g.r.chance(0.5)) in += id + "\n"; L a = {"filter"}; if (g.r.chance(0.5)) { a.push_back("-o"); a.push_back("/out/keep"); } if (g.r.chance(0.3)) a.push_back("-v"); if (g.r.chance(0.3)) a.push_back("-s"); if (g.r.chance(0.4)) { x.set("files", J::obj().set("/in/list", in)); a.push_back("/in/list"); } else { x.set("in", in); if (g.r.chance(0.3)) a.push_back("-"); } return raw(g, a, "id", "malformed line", "C24 C16", x); }
	case 11: return raw(g, {"mksilo", g.one<std::string>({"abc", "1x", "99999999999", "", "-1", " 3", "+4", "3.0", "1e2", "4294967296", "18446744073709551617", "0x", "7 ", "silo3"})}, "number", "not a silo number");
	case 12: return raw(g, {"audit", "-i", g.one<std::string>({"bogus", "", "ignore", "ignore-metadata-record-idx", "IGNORE-METADATA-RECORD-ID"})}, "option", "unknown -i");
	case 13: return raw(g, {"dumpindex", "-t", g.one<std::string>({"bogus", "", "Resource", "meta", "warcinfo2", "4"})}, "option", "unknown -t");
	case 14: { L a = {"store", "-m", "text/plain"}; switch (g.r.below(5)) { case 0: a.insert(a.end(), {"-t", g.one<std::string>({"bogus", "", "continuation", "warcinfo", "resources"})}); break; case 1: a.insert(a.end(), {"-t", "resource", "-t", "resource"}); break; case 2: a.insert(a.end(), {"-t", "metadata", "-r", id, "-r", id}); break; case 3: a.insert(a.end(), {"-t", "metadata", "-r", id, "-i", g.absent(), "-i", g.absent()}); break; default: a.insert(a.end(), {"-t", "metadata"}); } return raw(g, a, "option", "bad combination of options", "C24 C20", x.set("in", "some data")); }
	case 15: return raw(g, {"store", "-t", "resource", "-m", "text/plain", g.one<std::string>({"-r", "-i"}), id}, "option", "-r or -i of a resource", "C24 C20", x.set("in", "some data"));
	case 16: return raw(g, {"store", "-m", g.one<std::string>({"", "text", "text/", "/", "text/plainx", "ext/plain", "image/*", "*", "text/plain; charset=utf-8", "application/json"})}, "mime", "media type not allowed", "C24 C20", x.set("in", "some data"));
	case 17: return raw(g, {"store", "-m", "text/plain", g.one<std::string>({"/nonexistent", "/in/none", "/nonexistent/x", ""})}, "file", "no such input");
	case 18: { std::string f = g.one<std::string>({"/nonexistent", "/silo/none.warc.gz", "/nonexistent/00000000.warc.gz"}); if (op == "filter") return raw(g, {"filter", "-o", "/out/keep", f}, "file", "no such input"); return raw(g, {g.one<std::string>({"audit", "reindex", "rebuild"}), f}, "file", "no such silo", "C24", x.set("out", 1)); }
	case 19: { L a = {g.one<std::string>({"get", "filter", "store", "dumpindex", "audit"})}; a.push_back(a[0] == "get" || a[0] == "filter" ? "-o" : a[0] == "store" ? g.one<std::string>({"-m", "-t", "-r", "-i"}) : a[0] == "audit" ? "-i" : "-t"); return raw(g, a, "option", "option without its argument", "C24", x.set("in", id + "\n")); }
	case 20: { L a = {"stow"}; if (g.r.chance(0.7)) a.push_back(g.one<std::string>({"nosuch", "", "job0", "silo"})); return raw(g, a, "stow", "no such job", "C24 C15"); }
	case 21: return raw_stowconf(g);
	case 22: { std::string s = bad; return raw(g, {"cgi"}, "id", "malformed ID in PATH_INFO", "C24 C13", x.set("cgi", (g.r.chance(0.7) ? "/" : "") + s)); }
	default: switch (g.r.below(4)) { case 0: return raw(g, {"cgi"}, "cgi", "no gateway"); case 1: return raw(g, {"cgi"}, "cgi", "wrong gateway", "C24", x.set("env", J::obj().set("GATEWAY_INTERFACE", "CGI/1.0").set("REQUEST_METHOD", "GET").set("PATH_INFO", "/" + id))); case 2: return raw(g, {"cgi"}, "cgi", "not GET", "C24", x.set("env", J::obj().set("GATEWAY_INTERFACE", "CGI/1.1").set("REQUEST_METHOD", g.one<std::string>({"POST", "PUT", "HEAD", "get", ""})).set("PATH_INFO", "/" + id))); default: return raw(g, {"cgi"}, "cgi", "no path", "C24", x.set("env", J::obj().set("GATEWAY_INTERFACE", "CGI/1.1").set("REQUEST_METHOD", "GET"))); } }
}
void p_args(Gen &g) {
	g.cfg(g.r.chance(0.85) ? g.r.range(8192, 20000) : 0); if (g.e.cfg.where > 2) g.e.cfg.where = 2; g.p_big = g.one({0.0, 0.1}); int nph = 1 + (int)g.r.below(3);
	if (g.r.chance(0.9)) { Phase &p = g.phase("prelude"); int n = 1 + (int)g.r.below(6); for (int i = 0; i < n; i++) g.seq(p, g.any_store()); if (g.r.chance(0.3)) g.seq(p, g.simple("housekeeping")); }
	for (int k = 0; k < nph; k++) {
		Phase &p = g.phase("refused"); int n = 10 + (int)g.r.below(30); std::vector<int> mine; for (int i = 0; i < n; i++) { double x = g.r.unit(); int id = x < 0.75 ? raw_op(g) : x < 0.9 ? raw_conf(g) : x < 0.92 ? raw_size(g) : x < 0.94 ? g.add(J::obj().set("k", "mksilo").set("n", (i64)g.r.below(6))) : x < 0.97 ? g.any_store() : g.read_op(); g.seq(p, id); mine.push_back(id); }
		if (g.r.chance(0.2)) { int nf = 1 + (int)g.r.below(4); for (int i = 0; i < nf; i++) { Fault f = g.r.chance(0.3) ? g.kill(g.r.pick(mine)) : g.err(g.r.pick(mine)); if (g.r.chance(0.5)) f.nth = (int)g.r.below(4); p.faults.push_back(f); } } }
}
void p_sizes(Gen &g) {
	g.cfg(g.r.chance(0.7) ? g.r.range(8192, 60000) : g.r.chance(0.7) ? -1 : 0); Cfg &c = g.e.cfg; if (c.max_expr != "(default)") c.max_expr = g.equiv(c.max_size); if (c.sort_expr != "(default)") c.sort_expr = g.equiv(c.sort_size); g.p_big = g.one({0.3, 0.6});
	for (int k = 0; k < 2; k++) { Phase &p = g.phase("sizes"); int n = 1 + (int)g.r.below(4); for (int i = 0; i < n; i++) g.seq(p, g.any_store()); n = 10 + (int)g.r.below(20); for (int i = 0; i < n; i++) { int id = g.r.chance(0.08) ? raw_conf(g, g.one({0, 13, 14, 14, 16})) : raw_size(g); g.seq(p, id); if (g.r.chance(0.03)) { Fault f; f.op = id; f.kind = FK_MALLOC; f.nth = (int)g.r.below(40); p.faults.push_back(f); } } if (g.r.chance(0.5)) g.seq(p, g.simple("housekeeping")); for (int i = 0; i < 3; i++) g.seq(p, g.read_op()); }
}
void p_clock(Gen &g) {
	g.cfg(g.r.chance(0.7) ? g.r.range(8192, 30000) : 0); int nph = 2 + (int)g.r.below(4);
	for (int k = 0; k < nph; k++) {
		Phase p; g.mutate_clock(p); if (g.r.chance(0.4)) p.env.push(g.env("us").set("v", g.one<i64>({0, 100, 2000000, 86400000000LL / 3}))); bool conc = g.r.chance(0.4); int nc = conc ? 2 + (int)g.r.below(2) : 1;
		for (int c = 0; c < nc; c++) { p.clients.emplace_back(); int n = 2 + (int)g.r.below(5); for (int i = 0; i < n; i++) { int id = g.items.empty() || g.r.chance(0.6) ? g.any_store() : g.r.chance(0.15) ? g.simple("housekeeping") : g.r.chance(0.1) ? g.reindex_op() : g.read_op(); if (g.r.chance(0.2)) g.e.ops[id].set("clk", g.one<i64>({-1, 1, -86400, 100000, -100000000, 100000000, -1500000000})); if (g.r.chance(0.3)) g.e.ops[id].set("tz", g.one<std::string>({"AAA-14", "BBB+12", "CCC-5:30", "DDD+3"})); p.clients[(size_t)c].push_back(id); } }
		p.pol = conc ? g.pol() : g.seqpol(); g.e.phases.push_back(p); }
	if (g.r.chance(0.3)) { Phase &p = g.phase("reindex"); p.env.push(g.env("rmindex")); g.seq(p, g.reindex_op()); }
}
void p_cache(Gen &g) {
	g.cfg(g.r.chance(0.85) ? g.r.range(8192, 20000) : 0); g.p_big = g.one({0.1, 0.4}); int nph = 3 + (int)g.r.below(4);
	for (int k = 0; k < nph; k++) {
		Phase p; if (k) g.cache_env(p); if (g.r.chance(0.3)) p.env.push(g.env("savecache")); bool conc = g.r.chance(0.4); int nc = conc ? 2 + (int)g.r.below(2) : 1; std::vector<int> mine;
		for (int c = 0; c < nc; c++) { p.clients.emplace_back(); int n = 2 + (int)g.r.below(6); for (int i = 0; i < n; i++) { int id = g.items.empty() || g.r.chance(0.75) ? g.any_store() : g.r.chance(0.2) ? g.add(J::obj().set("k", "mksilo").set("n", (i64)g.r.below(20))) : g.read_op(); p.clients[(size_t)c].push_back(id); mine.push_back(id); } }
		if (g.r.chance(0.15)) { Fault f; f.op = g.r.pick(mine); f.kind = FK_ERR; f.cls = 1u << g.one({SC_WRITE, SC_READ, SC_OPEN, SC_CREAT, SC_RENAME, SC_LINK, SC_UNLINK}); f.obj = 1u << OB_CACHE; f.arg = g.one({EIO, EACCES}); f.nth = (int)g.r.below(2); p.faults.push_back(f); } else if (g.r.chance(0.15)) { Fault f = g.kill(g.r.pick(mine)); f.obj = 1u << OB_CACHE; f.cls = ~0u; f.nth = (int)g.r.below(5); p.faults.push_back(f); }
		p.pol = conc ? g.pol() : g.seqpol(); g.e.phases.push_back(p); }
}
void p_holds(Gen &g) {	// what dead processes leave behind does not stop anyone
	g.cfg(g.r.chance(0.85) ? g.r.range(8192, 20000) : 0); int nph = 2 + (int)g.r.below(4);
	for (int k = 0; k < nph; k++) {
		Phase p; int m = (int)g.r.below(4); for (int i = 0; i < m; i++) p.env.push(g.env("mkhold").set("n", (i64)g.r.below(7)).set("junk", g.r.chance(0.5) ? (i64)g.r.below(5000) : 0)); if (g.r.chance(0.15)) p.env.push(g.env("mkihold")); if (g.r.chance(0.15)) p.env.push(g.env("rmholds")); if (g.r.chance(0.2)) p.env.push(g.env("protect").set("silo", (i64)g.r.below(9)));
		bool conc = g.r.chance(0.5); int nc = conc ? 2 + (int)g.r.below(3) : 1; std::vector<int> mine; for (int c = 0; c < nc; c++) { p.clients.emplace_back(); int n = 1 + (int)g.r.below(5); for (int i = 0; i < n; i++) { int id = conc_op(g, 0.25); p.clients[(size_t)c].push_back(id); mine.push_back(id); } }
		if (g.r.chance(0.3)) p.faults.push_back(g.kill(g.r.pick(mine))); p.pol = conc ? g.pol() : g.seqpol(); g.e.phases.push_back(p); }
}
void p_filter(Gen &g) {
	g.cfg(g.one<i64>({30000, 1000000})); g.sz_small = 60; g.p_big = 0.05; g.p_meta = 0.4; g.p_forced = 0.6; { Phase &p = g.phase(); int n = 3 + (int)g.r.below(30); for (int i = 0; i < n; i++) g.seq(p, g.any_store()); if (g.r.chance(0.5)) g.seq(p, g.simple("housekeeping")); }
	{ Phase &p = g.phase("filter"); int n = 5 + (int)g.r.below(15); for (int i = 0; i < n; i++) g.seq(p, g.r.chance(0.1) ? g.any_store() : g.filter()); if (g.r.chance(0.15)) { J j = J::obj(), l = J::arr(); std::string id = g.some_id(); l.push(g.r.chance(0.5) ? id.substr(1 + g.r.below(id.size() - 1)) : "http://other/" + id); j.set("k", "filter").set("lines", l).set("neg", "malformed line"); g.seq(p, g.add(j)); } }
	if (g.r.chance(0.5)) { Phase p; p.clients.resize(3); for (int c = 0; c < 3; c++) for (int i = 0; i < 3; i++) p.clients[(size_t)c].push_back(c == 0 ? g.filter() : g.r.chance(0.5) ? g.any_store() : g.r.chance(0.3) ? g.simple("housekeeping") : g.filter()); p.pol = g.pol(); g.e.phases.push_back(p); }
}
// ---- stow ------------------------------------------------------------------------------------
std::string fname(Gen &g) {
	static const char *n[] = {"a", "b.txt", "README", "x y", "tab\there", "new\nline", "#hash", "back\\slash", "-dash", "\xc3\xa6\xc3\xb8", "q\"uote", "[brace]", "star*", "%41", "..x", ".hidden", "=eq", "a/", "\x01" "ctl", "\xff\xfe"}; std::string s = g.r.chance(0.5) ? n[g.r.below(20)] : std::string("f") + std::to_string(g.r.below(40)); if (!s.empty() && s.back() == '/') s.pop_back(); if (g.r.chance(0.1)) s += std::string(g.r.below(60), 'n'); return s;
}
J tree(Gen &g, const std::string &dir, bool clear, int n) {
	J a = g.env("tree").set("dir", dir), fs = J::arr(), ds = J::arr(); if (clear) a.set("clear", 1); std::vector<std::string> dirs = {""}; int nd = (int)g.r.below(4); std::set<std::string> used; for (int i = 0; i < nd; i++) { std::string d = g.r.pick(dirs) + fname(g); if (used.count(d)) continue; used.insert(d); dirs.push_back(d + "/"); ds.push(hex(d.data(), d.size())); }
	if (g.r.chance(0.03)) { std::string d; for (int i = 0, k = 4 + (int)g.r.below(6); i < k; i++) { std::string n; while (n.size() < 200) n += "\xc3\xa6"; d += n; ds.push(hex(d.data(), d.size())); d += "/"; dirs.push_back(d); } }	// a path which is much longer when it is encoded
	for (int i = 0; i < n; i++) { std::string f = g.r.pick(dirs) + fname(g); if (used.count(f)) continue; used.insert(f); J b = g.r.chance(0.12) ? g.blob(0) : (!g.items.empty() && g.r.chance(0.2)) ? g.r.pick(g.items).b : g.blob(g.size()); if (b.get("t")) b = g.blob(10); J x = J::obj(); x.set("n", hex(f.data(), f.size())).set("b", b); fs.push(x); if (fs.a.size() > 1 && g.r.chance(0.1)) fs.a.back().set("b", *fs.a[0].get("b")); }
	a.set("files", fs); if (!ds.a.empty()) a.set("dirs", ds); return a;
}
void stow_cfg(Gen &g, int njobs) {
	for (int i = 0; i < njobs; i++) { J j = J::obj(); j.set("name", sfmt("job%d", i)).set("directory", sfmt("/tree/d%d", i)).set("cmd", "aardwarc -c /etc/aa.conf stevedore"); double x = g.r.unit(); if (x < 0.35) { std::string h = "host"; if (g.r.chance(0.5)) h += sfmt(":chunk=%d", g.one({61, 100, 4096})); j.set("remote", h); } if (g.r.chance(0.12)) j.set("exclude", sfmt("/etc/exclude%d", i)); g.e.cfg.jobs.push(j); }
}
J mtree(Gen &g) { J m = J::obj(); if (g.r.chance(0.5)) m.set("cstyle", 1); if (g.r.chance(0.5)) m.set("cont", 1); if (g.r.chance(0.3)) m.set("set", 1); if (g.r.chance(0.25)) m.set("others", (i64)g.r.range(1, 4)); if (g.r.chance(0.5)) m.set("comments", 1); if (g.r.chance(0.4)) m.set("chunk", g.one<i64>({1, 13, 200, 1000})); return m; }
int stow_op(Gen &g, std::vector<std::string> names) { J j = J::obj(), n = J::arr(); for (auto &s : names) n.push(s); j.set("k", "stow").set("job", n).set("mtree", mtree(g)); return g.add(j); }
J muts(Gen &g, const J &tree) { J a = J::arr(); const J *fs = tree.get("files"); int n = g.r.chance(0.1) ? 80 : 1 + (int)g.r.below(2); for (int i = 0; i < n && fs && !fs->a.empty(); i++) { const J &f = fs->a[g.r.below(fs->a.size())]; J m = J::obj(); m.set("n", f.str("n")).set("dir", tree.str("dir")); if (g.r.chance(0.25)) m.set("rm", 1); else m.set("b", g.blob(g.r.chance(0.2) ? 0 : g.size())); a.push(m); } return a; }
void p_stow(Gen &g) {
	g.cfg(g.r.chance(0.8) ? g.r.range(8192, 60000) : 0); g.sz_small = std::min<i64>(g.sz_small, 2000); int nj = 1 + (int)g.r.below(3); stow_cfg(g, nj); if (g.r.chance(0.4)) { Phase &p = g.phase("prelude"); int n = 1 + (int)g.r.below(5); for (int i = 0; i < n; i++) g.seq(p, g.any_store()); }
	std::vector<std::string> names; for (auto &j : g.e.cfg.jobs.a) names.push_back(j.str("name")); int rounds = 1 + (int)g.r.below(3);
	for (int k = 0; k < rounds; k++) {
		Phase &p = g.phase("stow"); std::vector<J> trees; for (int i = 0; i < nj; i++) if (k == 0 || g.r.chance(0.6)) { int n = g.r.chance(0.1) ? 0 : g.r.chance(0.85) ? (int)g.r.below(8) : 20 + (int)g.r.below(60); trees.push_back(tree(g, sfmt("/tree/d%d", i), k == 0 || g.r.chance(0.3), n)); p.env.push(trees.back()); }
		if (g.r.chance(0.3) && nj > 1) { for (auto &s : names) { p.clients.emplace_back(); p.clients.back().push_back(stow_op(g, {s})); } } else { std::vector<std::string> v = names; if (g.r.chance(0.2)) v.push_back(names[g.r.below(names.size())]); int id = stow_op(g, v); if (!trees.empty() && g.r.chance(0.25)) g.e.ops[id].set("mut", muts(g, g.r.pick(trees))); g.seq(p, id); }
		if (g.r.chance(0.3)) { p.clients.emplace_back(); for (int i = 0; i < 3; i++) p.clients.back().push_back(g.r.chance(0.6) || g.items.empty() ? g.any_store() : g.r.chance(0.4) ? g.simple("housekeeping") : g.read_op()); }
		p.pol = g.r.chance(0.2) ? g.seqpol() : g.pol(); if (g.r.chance(0.3)) { Phase &q = g.phase("again"); g.seq(q, stow_op(g, names)); }
	}
}
void p_stowfail(Gen &g) {
	g.cfg(g.r.chance(0.8) ? g.r.range(8192, 60000) : 0); g.sz_small = std::min<i64>(g.sz_small, 2000); stow_cfg(g, 1 + (int)g.r.below(2)); std::vector<std::string> names; for (auto &j : g.e.cfg.jobs.a) names.push_back(j.str("name"));
	if (g.r.chance(0.3)) { Phase &p = g.phase("prelude"); for (int i = 0; i < 3; i++) g.seq(p, g.any_store()); }
	J bad = g.e.cfg.jobs.a[0]; bad.set("name", "bad"); std::string neg; bool fails = true; double x = g.r.unit(); int what = (int)g.r.below(5);
	if (x < 0.3) { std::string h = "host"; if (what == 0) h += sfmt(":cutin=%lld", (long long)g.r.below(g.r.chance(0.5) ? 600 : 20000)); else if (what == 1) h += sfmt(":cutout=%lld", (long long)g.r.below(g.r.chance(0.7) ? 900 : 4000)); else h += sfmt(":eofin=%lld", (long long)g.r.below(g.r.chance(0.5) ? 600 : 20000)); h += sfmt(":rc=%d", g.one({0, 0, 1, 255})); if (g.r.chance(0.3)) h += ":chunk=50"; bad.set("remote", h); }
	else if (x < 0.42) { std::vector<J> keep; J b2 = J::obj(); for (auto &q : bad.o) if (q.first != "remote") b2.set(q.first, q.second); bad = b2; bad.set("cmd", g.one<std::string>({"exit 0", "exit 3", "true", "nosuchprogram", "aardwarc -c /etc/aa.conf nosuchcommand", "aardwarc -c /nonexistent stevedore", "aardwarc -c /etc/aa.conf info", "aardwarc -c /etc/aa.conf get 00 || true"})); neg = "the remote command is no stevedore"; }
	g.e.cfg.jobs.push(bad);
	Phase &p = g.phase("stow"); J t; for (size_t i = 0; i < names.size(); i++) { J u = tree(g, sfmt("/tree/d%zu", i), true, 1 + (int)g.r.below(8)); p.env.push(u); if (!i) t = u; }
	std::vector<std::string> v = {"bad"}; if (names.size() > 1 && g.r.chance(0.4)) v.push_back(names[1]); if (names.size() > 1 && g.r.chance(0.3)) v.insert(v.begin(), names[1]); int id = stow_op(g, v); J &o = g.e.ops[id]; if (fails) o.set("fails", 1); if (!neg.empty()) o.set("neg", neg);
	if (x >= 0.92) {	// a read error within a file which is sent in several pieces
		g.e.cfg.nofile = 1000; J big = J::obj(); std::string n = "large.bin"; big.set("n", hex(n.data(), n.size())).set("b", g.blob(131072 * g.r.range(1, 2) + g.r.range(1, 3000))); J fs = *p.env.a[0].get("files"); fs.push(big); p.env.a[0].set("files", fs); t = p.env.a[0];
		Fault f = g.err(id); f.kind = FK_ERR; f.cls = 1u << SC_READ; f.obj = 1u << OB_FILE; f.arg = EIO; f.nth = (int)g.r.below(2 + fs.a.size()); f.sub = -1; p.faults.push_back(f); }
	else if (x >= 0.42 && x < 0.55) { J m = *o.get("mtree"); m.set("die", (i64)g.r.below(6)).set("rc", g.one({1, 1, 2})); o.set("mtree", m); }
	else if (x >= 0.55) { Fault f = g.r.chance(0.6) ? g.kill(id) : g.err(id); f.sub = g.r.chance(0.2) ? -1 : (int)g.r.below(g.r.chance(0.5) ? 6 : 20); if (f.kind == FK_KILLALL && g.r.chance(0.7)) f.kind = FK_KILL; if (g.r.chance(0.4)) { f.cls = f.kind == FK_KILL ? (1u << SC_READ) | (1u << SC_WRITE) | (1u << SC_EXIT) | (1u << SC_WAIT) | (1u << SC_POLL) : f.cls; if (f.kind == FK_KILL) { f.obj = ~0u; f.nth = (int)g.r.below(20); } } p.faults.push_back(f); }
	if (g.r.chance(0.2)) o.set("mut", muts(g, t)); g.seq(p, id); p.pol = g.r.chance(0.3) ? g.seqpol() : g.pol();
	Phase &q = g.phase("again"); if (g.r.chance(0.3)) q.env.push(g.env("rmholds")); g.seq(q, stow_op(g, names)); for (int i = 0; i < 2; i++) g.seq(q, g.read_op());
}
void p_mix(Gen &g) {	// everything at once
	g.cfg(g.r.chance(0.85) ? g.r.range(8192, 30000) : 0); int nph = 2 + (int)g.r.below(5); g.p_big = g.one({0.1, 0.3});
	for (int k = 0; k < nph; k++) {
		Phase p; if (g.r.chance(0.2)) g.mutate_clock(p); if (g.r.chance(0.2)) g.cache_env(p); if (g.r.chance(0.1)) p.env.push(g.env("protect").set("silo", (i64)g.r.below(9))); if (g.r.chance(0.1)) p.env.push(g.env("mkhold").set("n", (i64)g.r.below(9)));
		int nc = 1 + (int)g.r.below(4); std::vector<int> mine; for (int c = 0; c < nc; c++) { p.clients.emplace_back(); int n = 1 + (int)g.r.below(4); for (int i = 0; i < n; i++) { int id = conc_op(g, 0.3); p.clients[(size_t)c].push_back(id); mine.push_back(id); } }
		if (g.r.chance(0.3)) p.faults.push_back(g.r.chance(0.5) ? g.kill(g.r.pick(mine)) : g.err(g.r.pick(mine))); p.pol = nc > 1 ? g.pol() : g.seqpol(); g.e.phases.push_back(p); }
}
void p_wprot(Gen &g) {	// silos are closed while others look for space in them
	g.cfg(g.r.range(8192, 14000)); g.sz_small = 300; g.p_big = g.one({0.0, 0.1}); int nph = 2 + (int)g.r.below(4);
	{ Phase &p = g.phase("prelude"); int n = (int)g.r.below(8); for (int i = 0; i < n; i++) g.seq(p, g.any_store()); }
	for (int k = 0; k < nph; k++) {
		Phase p; int nc = 1 + (int)g.r.below(3); for (int c = 0; c < nc; c++) { p.clients.emplace_back(); int n = 1 + (int)g.r.below(4); for (int i = 0; i < n; i++) p.clients[(size_t)c].push_back(g.r.chance(0.85) || g.items.empty() ? g.any_store() : g.read_op()); }
		int np = 1 + (int)g.r.below(3); for (int i = 0; i < np; i++) { p.clients.emplace_back(); int m = 1 + (int)g.r.below(3); i64 n0 = k ? (i64)g.r.below(5) : 0; for (int q = 0; q < m; q++) p.clients.back().push_back(g.add(J::obj().set("k", "protect").set("n", n0 + q))); }
		p.pol = g.pol(); g.e.phases.push_back(p); }
}
const std::vector<std::pair<std::string, Prof>> &profs() {
	static std::vector<std::pair<std::string, Prof>> v = {{"basic", p_basic}, {"segs", p_segs}, {"conc", p_conc}, {"race", p_race}, {"crash", p_crash}, {"ioerr", p_ioerr}, {"readerr", p_readerr}, {"index", p_index}, {"house", p_house}, {"bulkidx", p_bulkidx}, {"many", p_many}, {"alias", p_alias}, {"big", p_big}, {"large", p_large}, {"reindex", p_reindex}, {"rebuild", p_rebuild}, {"corrupt", p_corrupt}, {"neg", p_neg}, {"clock", p_clock}, {"args", p_args}, {"sizes", p_sizes}, {"cache", p_cache}, {"holds", p_holds}, {"filter", p_filter}, {"stow", p_stow}, {"stowfail", p_stowfail}, {"wprot", p_wprot}, {"mix", p_mix}};
	return v;
}
}
Episode gen_episode(const std::string &profile, u64 seed) {
	Gen g(seed ^ hash_str(profile)); g.e.profile = profile; g.e.seed = seed; for (auto &p : profs()) if (p.first == profile) p.second(g);
	// A limit of open files which a leak in a loop meets soon
	static const std::set<std::string> lo = {"many", "index", "reindex", "filter"}, mid = {"rebuild", "stow", "stowfail", "readerr", "corrupt", "bulkidx", "mix", "house"};
	Rng r(seed * 31 + 7); if (g.e.cfg.nofile != 1024) {} else if (lo.count(profile)) g.e.cfg.nofile = 32 + (i64)r.below(17); else if (mid.count(profile) && r.chance(0.7)) g.e.cfg.nofile = 40 + (i64)r.below(25);
	return g.e;
}
std::vector<std::string> profile_names() { std::vector<std::string> v; for (auto &p : profs()) v.push_back(p.first); return v; }
