// An episode: configuration, operations, phases, faults, schedule.
#pragma once
#include "kernel.hpp"
#include "warc.hpp"
#include <set>

struct Cfg {
	unsigned bits = 128; i64 max_size = 16384, sort_size = 4096; std::string base = "%08u.warc.gz", prefix = "http://example.com/arch/";
	bool root = true; i64 pipe_cap = 65536, us = 100; i64 quota = -1, nofile = 1024; bool meta_json = true; std::string winfo = "simulated archive"; std::vector<std::string> winfo_lines() const;
	std::string max_expr, sort_expr; int fmt = 0, where = 0;	// where it is: with -c, in $HOME, /etc, /usr/local/etc; how the configuration file is written
	J jobs = J::arr();	// stow jobs of the client configuration
	J toJ() const; void fromJ(const J &j);
	unsigned idlen() const { return bits / 4; }
	std::string text(bool client, const std::string &dir = "") const;
};
struct Op {
	int id = 0; std::string k; J p; OpRun run;
	// derived
	std::shared_ptr<std::string> data; std::string eid;	// content and expected id (lower case) of a store
	bool acked = false; int phase = -1, silos0 = -1; u64 snap0 = 0, snap1 = 0; bool snapped = false, hold0 = false, file0 = false; std::string list0, list1; std::map<unsigned, size_t> recs0; bool ran = false;
};
typedef std::shared_ptr<Op> OpP;
struct Phase {
	J env = J::arr(); std::vector<std::vector<int>> clients; std::vector<Fault> faults; J pol = J::obj(); std::string note;
};
struct Episode {
	std::string profile; u64 seed = 0; Cfg cfg; std::map<int, J> ops; std::vector<Phase> phases;
	std::map<u64, int> overrides; bool replay_sched = false;
	J toJ() const; bool fromJ(const J &j);
};
struct Fail { std::set<std::string> tags; std::string cls, msg; int phase = 0, op = -1; };
struct Stats {
	u64 episodes = 0, ops = 0, ticks = 0, decisions = 0, switches = 0, procs = 0; i64 sim_us = 0;
	std::map<std::string, u64> faults, opkinds, probes, pols, env; std::set<u64> inter, states; u64 inter_n = 0;
	void add(const Stats &o); J toJ() const;
};
struct Result { std::vector<Fail> fails, known; u64 thash = 0, ihash = 0; std::map<u64, int> recorded; std::vector<std::string> trace; u64 checks = 0; };

std::string blob_data(const J &b);
std::string expect_id(const Cfg &c, const std::string &data, const J &op);
J fault_toJ(const Fault &f); bool fault_fromJ(const J &j, Fault &f);
Policy pol_fromJ(const J &j);
Result run_episode(const Episode &e, Stats &st, bool trace = false);
Episode gen_episode(const std::string &profile, u64 seed);
std::vector<std::string> profile_names();
std::string spell(const Cfg &c, const std::string &id, int sp);
// records of a large archive, of which only the index takes part
inline std::string bulk_rec(u64 seed, i64 i, const std::string &m) {
	Rng r(mix64(seed * 0x9e37 + 11) ^ (u64)((m == "dup" ? i - (i & 1) : i) * 2 + 1)); std::string k(32, 0); for (int q = 0; q < 12; q++) k[(size_t)q] = (char)r.below(256);
	if (m == "skew") { u64 h = mix64(seed); k[0] = (char)(h >> (8 * r.below(1 + seed % 4))); } else if (m == "lad") { for (int q = 0; q < 4; q++) k[(size_t)q] = (char)((u64)(i * 41) >> (24 - 8 * q)); } else if (m == "one") { for (int q = 0; q < 6; q++) k[(size_t)q] = (char)(seed >> (8 * q % 24)); } else if (m == "edge") { if (r.chance(0.6)) { int v = r.chance(0.5) ? 0 : 255; int n = 1 + (int)r.below(8); for (int q = 0; q < n; q++) k[(size_t)q] = (char)v; } }
	static const unsigned fl[] = {2, 4, 8}; auto be = [&](size_t at, int n, u64 v) { for (int q = 0; q < n; q++) k[at + (size_t)q] = (char)(v >> (8 * (n - 1 - q))); };
	be(12, 4, fl[r.below(3)]); be(16, 4, 0x40000000 + r.below(100000)); be(20, 8, r.below(1ULL << (r.chance(0.5) ? 41 : 20))); return k;
}
