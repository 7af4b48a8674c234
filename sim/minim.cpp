// Shrinks a failing episode while the same class of violation persists.
#include "minim.hpp"
#include <algorithm>
#include <chrono>
#include <functional>
namespace {
double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
struct Min {
	std::string cls, prop; double end; int runs = 0; Episode best; Result bres;
	bool hits(const Result &r) { if (!cls.compare(0, 3, "K1:")) { for (auto &f : r.known) if (f.cls == cls && (prop.empty() || f.tags.count(prop))) return true; return false; } for (auto &f : r.fails) if (f.cls == cls && (prop.empty() || f.tags.count(prop))) return true; return false; }
	bool attempt(const Episode &e) { if (now() > end) return false; Stats st; runs++; Result r = run_episode(e, st); if (!hits(r)) return false; best = e; bres = r; return true; }
	template <class T> bool ddmin(std::vector<T> items, std::function<void(Episode &, const std::vector<T> &)> put) {
		bool any = false; size_t n = 2;
		while (!items.empty() && now() < end) {
			size_t len = std::max<size_t>(1, items.size() / n); bool red = false;
			for (size_t i = 0; i < items.size() && now() < end;) { std::vector<T> c; for (size_t k = 0; k < items.size(); k++) if (k < i || k >= i + len) c.push_back(items[k]); Episode e = best; put(e, c); if (attempt(e)) { items = c; red = any = true; } else i += len; }
			if (!red) { if (len == 1) break; n = std::min(items.size(), n * 2); if (!n) n = 1; } }
		return any;
	}
	void ops() {
		std::vector<int> ids; for (auto &p : best.phases) for (auto &c : p.clients) for (int i : c) ids.push_back(i);
		ddmin<int>(ids, [](Episode &e, const std::vector<int> &keep) { std::set<int> k(keep.begin(), keep.end()); for (auto &p : e.phases) { for (auto &c : p.clients) c.erase(std::remove_if(c.begin(), c.end(), [&](int i) { return !k.count(i); }), c.end()); p.faults.erase(std::remove_if(p.faults.begin(), p.faults.end(), [&](const Fault &f) { return f.op >= 0 && !k.count(f.op); }), p.faults.end()); } std::map<int, J> o; for (auto &x : e.ops) if (k.count(x.first)) o.insert(x); e.ops = o; });
	}
	void envs() { std::vector<std::pair<int, int>> v; for (size_t i = 0; i < best.phases.size(); i++) for (size_t k = 0; k < best.phases[i].env.a.size(); k++) v.push_back({(int)i, (int)k}); Episode base = best; ddmin<std::pair<int, int>>(v, [base](Episode &e, const std::vector<std::pair<int, int>> &keep) { for (auto &p : e.phases) p.env = J::arr(); for (auto &x : keep) if ((size_t)x.first < e.phases.size()) e.phases[(size_t)x.first].env.push(base.phases[(size_t)x.first].env.a[(size_t)x.second]); }); }
	void flts() { std::vector<std::pair<int, int>> v; for (size_t i = 0; i < best.phases.size(); i++) for (size_t k = 0; k < best.phases[i].faults.size(); k++) v.push_back({(int)i, (int)k}); Episode base = best; ddmin<std::pair<int, int>>(v, [base](Episode &e, const std::vector<std::pair<int, int>> &keep) { for (auto &p : e.phases) p.faults.clear(); for (auto &x : keep) e.phases[(size_t)x.first].faults.push_back(base.phases[(size_t)x.first].faults[(size_t)x.second]); }); }
	void phases() { for (size_t i = best.phases.size(); i-- > 0;) { Phase &p = best.phases[i]; bool empty = p.env.a.empty() && p.faults.empty(); for (auto &c : p.clients) if (!c.empty()) empty = false; if (empty) { Episode e = best; e.phases.erase(e.phases.begin() + (long)i); attempt(e); } } for (size_t i = 0; i < best.phases.size(); i++) { Episode e = best; auto &c = e.phases[i].clients; size_t n = c.size(); c.erase(std::remove_if(c.begin(), c.end(), [](const std::vector<int> &x) { return x.empty(); }), c.end()); if (c.size() != n) attempt(e); } }
	void sizes() {
		std::vector<int> ids; for (auto &o : best.ops) ids.push_back(o.first);
		for (int id : ids) {
			const J *b = best.ops[id].get("b"); if (!b || best.ops[id].get("neg")) continue;
			for (i64 n : {(i64)1, (i64)100, b->num("n") / 8, b->num("n") / 2, b->num("n") * 3 / 4}) { b = best.ops[id].get("b"); if (!b || n < 1 || n >= b->num("n")) continue; Episode e = best; J nb = *b; nb.set("n", n); std::string old = expect_id(e.cfg, blob_data(*b), e.ops[id]); std::string olds = b->dump(); for (auto &o : e.ops) if (o.second.get("b") && o.second.get("b")->dump() == olds) o.second.set("b", nb); std::string nid = expect_id(e.cfg, blob_data(nb), e.ops[id]);
				if (nid != old) for (auto &o : e.ops) { auto sub = [&](const char *k) { std::string s = o.second.str(k), l = lower(s); size_t q = l.rfind(old); if (q != std::string::npos && q + old.size() == l.size() && o.second.get(k)) o.second.set(k, s.substr(0, q) + nid); }; sub("cid"); sub("id"); sub("ref"); sub("refcid"); }
				if (attempt(e)) break; }
			for (const char *k : {"via", "ch", "json", "expt", "upt"}) if (best.ops[id].get(k)) { Episode e = best; auto &o = e.ops[id].o; o.erase(std::remove_if(o.begin(), o.end(), [&](const std::pair<std::string, J> &x) { return x.first == k; }), o.end()); attempt(e); }
		}
		for (int id : ids) if (best.ops.count(id)) for (const char *l : {"lines", "pre"}) if (const J *q = best.ops[id].get(l)) ddmin<J>(q->a, [id, l](Episode &e, const std::vector<J> &keep) { J a = J::arr(); for (auto &x : keep) a.push(x); if (a.a.empty() && !strcmp(l, "pre")) return; e.ops[id].set(l, a); });
		for (size_t i = 0; i < best.phases.size(); i++) for (size_t k = 0; k < best.phases[i].env.a.size(); k++) if (const J *q = best.phases[i].env.a[k].get("files")) ddmin<J>(q->a, [i, k](Episode &e, const std::vector<J> &keep) { J a = J::arr(); for (auto &x : keep) a.push(x); e.phases[i].env.a[k].set("files", a); });
	}
	void freeze() { Stats st; Result r = run_episode(best, st); Episode e = best; e.replay_sched = true; e.overrides = r.recorded; if (!attempt(e)) {} }
	void sched() { if (!best.replay_sched) return; std::vector<std::pair<u64, int>> v(best.overrides.begin(), best.overrides.end()); ddmin<std::pair<u64, int>>(v, [](Episode &e, const std::vector<std::pair<u64, int>> &keep) { e.overrides.clear(); for (auto &x : keep) e.overrides[x.first] = x.second; }); }
};
}
int minimise(Episode e, const std::string &cls, const std::string &prop, double secs, const std::string &outfile) {
	Min m; m.cls = cls; m.prop = prop; double t0 = now(); m.end = t0 + secs * 10;
	if (!m.attempt(e)) { fprintf(stderr, "minimise: the episode does not fail in this way\n"); return 2; }
	m.end = t0 + secs; m.ops(); m.flts(); m.envs(); m.phases(); m.freeze(); m.sched(); m.ops(); m.sizes(); m.ops(); m.envs(); m.phases(); m.sched();
	m.end = now() + secs; if (!m.best.replay_sched) m.freeze();
	Stats st; Result r = run_episode(m.best, st, true); J j = J::obj(), ex = J::obj(), tags = J::arr(), tr = J::arr(); const Fail *f = nullptr; for (auto &x : r.fails) if (x.cls == cls && (prop.empty() || x.tags.count(prop))) { f = &x; break; } for (auto &x : r.known) if (!f && x.cls == cls && (prop.empty() || x.tags.count(prop))) f = &x; if (!f) return 2;
	for (auto &x : f->tags) tags.push(x); ex.set("class", f->cls).set("tags", tags).set("msg", f->msg).set("hash", sfmt("%016llx", (unsigned long long)r.thash)); size_t a = r.trace.size() > 400 ? r.trace.size() - 400 : 0; for (size_t i = a; i < r.trace.size(); i++) tr.push(r.trace[i]);
	j.set("violation", ex).set("minimiser_runs", m.runs).set("episode", m.best.toJ()).set("trace_tail", tr); FILE *o = fopen(outfile.c_str(), "w"); if (!o) return 2; std::string s = j.dump(1); fwrite(s.data(), 1, s.size(), o); fclose(o); return 0;
}
