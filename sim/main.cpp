// Command line of the simulator.
#include "exec.hpp"
#include "minim.hpp"
#include <algorithm>
#include <chrono>
#include <unistd.h>
#include <signal.h>
static volatile sig_atomic_t stopping; static void on_term(int) { stopping = 1; }
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static std::vector<std::string> split(const std::string &s, char c) { std::vector<std::string> v; size_t i = 0; while (i <= s.size()) { size_t j = s.find(c, i); if (j == std::string::npos) j = s.size(); if (j > i) v.push_back(s.substr(i, j - i)); i = j + 1; } return v; }
static J fail_toJ(const Fail &f) { J j = J::obj(), t = J::arr(); for (auto &x : f.tags) t.push(x); return j.set("class", f.cls).set("tags", t).set("msg", f.msg).set("phase", f.phase).set("op", f.op); }
static std::string h64(u64 h) { return sfmt("%016llx", (unsigned long long)h); }
static void out(const J &j) { std::string s = j.dump() + "\n"; if (write(1, s.data(), s.size()) < 0) _exit(3); }
static int usage() { fprintf(stderr, "aasim run -p profile[=weight],... -s seed [-n count] [-t seconds] [-k step] [-P property] [-a]\naasim one -p profile -s seed [-v] [-o file]\naasim replay file [-v]\naasim minimise file out -c class [-P property] [-t seconds]\naasim profiles\naasim selftest -p profile|all -s seed -n count [-v]\n"); return 2; }
static J report(const Episode &e, const Result &r) { J j = J::obj(), f = J::arr(); for (auto &x : r.fails) f.push(fail_toJ(x)); J kn = J::arr(); for (auto &x : r.known) kn.push(fail_toJ(x)); return j.set("profile", e.profile).set("seed", (i64)e.seed).set("hash", h64(r.thash)).set("fails", f).set("known", kn); }
static bool load(const std::string &fn, Episode &e, J &j) { bool ok; std::string s = read_whole_file(fn, &ok); return ok && J::parse(s, j) && e.fromJ(j.get("episode") ? *j.get("episode") : j); }
int main(int argc, char **argv) {
	if (argc < 2) return usage();
	std::string cmd = argv[1], profs = "basic", outf, prop, cls; u64 seed = 1, count = ~0ULL, step = 1; double secs = 1e9; bool verbose = false, all = false; std::vector<std::string> files;
	for (int i = 2; i < argc; i++) {
		std::string a = argv[i]; auto arg = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
		if (a == "-p") profs = arg(); else if (a == "-s") seed = strtoull(arg().c_str(), 0, 10); else if (a == "-n") count = strtoull(arg().c_str(), 0, 10); else if (a == "-t") secs = atof(arg().c_str()); else if (a == "-k") step = strtoull(arg().c_str(), 0, 10); else if (a == "-P") prop = arg(); else if (a == "-c") cls = arg(); else if (a == "-v") verbose = true; else if (a == "-a") all = true; else if (a == "-o") outf = arg(); else files.push_back(a);
	}
	if (cmd == "profiles") { for (auto &s : profile_names()) printf("%s\n", s.c_str()); return 0; }
	if (cmd == "run") {
		double t0 = now(); std::vector<std::pair<std::string, double>> pw; for (auto &s : split(profs, ',')) { size_t q = s.find('='); pw.push_back({s.substr(0, q), q == std::string::npos ? 1.0 : atof(s.c_str() + q + 1)}); } std::vector<double> w; for (auto &p : pw) w.push_back(p.second);
		Stats st; u64 n = 0, checks = 0; std::map<std::string, u64> per; std::set<u64> hashes; J sample = J::arr(); u64 nontrivial = 0;
		struct sigaction sa = {}; sa.sa_handler = on_term; sa.sa_flags = SA_RESTART; sigaction(SIGTERM, &sa, nullptr);
		for (u64 s = seed; n < count && now() - t0 < secs && !stopping; s += step, n++) {
			Rng pr(s * 7919); const std::string &p = pw[pr.weighted(w)].first; Episode e = gen_episode(p, s); u64 f0 = 0; for (auto &x : st.faults) f0 += x.second; u64 d0 = st.decisions, o0 = st.ops; Result r = run_episode(e, st); checks += r.checks; per[p]++;
			u64 f1 = 0; for (auto &x : st.faults) f1 += x.second; bool nt = st.ops - o0 >= 2 && (f1 > f0 || st.decisions > d0 || !e.phases.empty()); if (nt && hashes.insert(r.thash).second) nontrivial++;
			if (sample.a.size() < 2 && r.fails.empty()) sample.push(J::obj().set("profile", p).set("seed", (i64)s).set("hash", h64(r.thash)).set("episode", e.toJ().dump().size() < 6000 ? e.toJ() : J(sfmt("%zu operations in %zu phases (regenerate: aasim one -p %s -s %llu)", e.ops.size(), e.phases.size(), p.c_str(), (unsigned long long)s))));
			bool hit = false; for (auto &x : r.fails) if (prop.empty() || x.tags.count(prop)) hit = true;
			bool kn = false; for (auto &x : r.known) if (prop.empty() || x.tags.count(prop)) kn = true; if (!r.fails.empty() || kn) { J j = report(e, r); j.set("isknown", kn); j.set("relevant", hit); out(j.set("t", "fail")); }
			if (hit && !all) { n++; break; }
		}
		J pp = J::obj(); for (auto &x : per) pp.set(x.first, (i64)x.second); J ii = J::arr(), ss = J::arr(), hh = J::arr(); for (u64 x : st.inter) ii.push(h64(x)); for (u64 x : st.states) ss.push(h64(x)); for (u64 x : hashes) hh.push(h64(x)); out(J::obj().set("t", "stats").set("n", (i64)n).set("checks", (i64)checks).set("profiles", pp).set("stats", st.toJ()).set("wall", now() - t0).set("samples", sample).set("nontrivial", (i64)nontrivial).set("inter", ii).set("states", ss).set("hashes", hh)); return 0;
	}
	if (cmd == "selftest") {	// every episode twice, once by way of its file form, and once under a recorded schedule
		u64 bad = 0, n = 0; double t0 = now(); auto pn = profile_names(); for (u64 s = seed; n < count && now() - t0 < secs; s += step, n++) { const std::string &p = profs == "all" ? pn[s % pn.size()] : profs; Stats st; Episode e = gen_episode(p, s), f, g; Result a = run_episode(e, st); J j; if (!J::parse(e.toJ().dump(1), j) || !f.fromJ(j)) { bad++; printf("cannot parse %s %llu\n", p.c_str(), (unsigned long long)s); continue; } Result b = run_episode(f, st); e.replay_sched = true; e.overrides = a.recorded; J k; if (!J::parse(e.toJ().dump(), k) || !g.fromJ(k)) { bad++; continue; } Result c = run_episode(g, st); if (a.thash != b.thash || a.thash != c.thash || a.fails.size() != b.fails.size()) { bad++; printf("DIFFERS %s %llu %s %s %s\n", p.c_str(), (unsigned long long)s, h64(a.thash).c_str(), h64(b.thash).c_str(), h64(c.thash).c_str()); } else if (verbose) printf("%s %llu %s\n", p.c_str(), (unsigned long long)s, h64(a.thash).c_str()); } printf("selftest %llu episodes %llu bad\n", (unsigned long long)n, (unsigned long long)bad); return bad ? 1 : 0; }
	Episode e; J j; Stats st;
	if (cmd == "one") { e = gen_episode(profs, seed); if (!outf.empty()) { FILE *f = fopen(outf.c_str(), "w"); std::string s = e.toJ().dump(1); fwrite(s.data(), 1, s.size(), f); fclose(f); } }
	else if (cmd == "replay" || cmd == "minimise") { if (files.empty() || !load(files[0], e, j)) { fprintf(stderr, "cannot read %s\n", files.empty() ? "" : files[0].c_str()); return 2; } }
	else return usage();
	if (cmd == "minimise") { if (files.size() < 2) return usage(); return minimise(e, cls, prop, secs > 1e8 ? 60 : secs, files[1]); }
	Result r = run_episode(e, st, verbose); if (verbose) for (auto &s : r.trace) fprintf(stderr, "%s\n", s.c_str()); out(report(e, r)); return r.fails.empty() ? 0 : 1;
}
