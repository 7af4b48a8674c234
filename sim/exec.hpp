// Executes an episode and judges it.
#pragma once
#include "episode.hpp"
#include <tuple>
bool ref_size(const std::string &expr, unsigned __int128 &v, unsigned __int128 &tol);	// what a size expression means; false: malformed
#include <unordered_map>
#include <unordered_set>
struct SrcOp { OpP op; std::shared_ptr<std::string> data; std::string mime, refers, type; };
struct ObjT { std::vector<SrcOp> src; };
struct IdxLine { std::string key; unsigned flag, silo; i64 off; std::string cont; bool operator<(const IdxLine &o) const { return std::tie(key, flag, silo, off, cont) < std::tie(o.key, o.flag, o.silo, o.off, o.cont); } };
struct SiloSt { i64 pos = 0; bool bad = false; std::vector<RecP> recs; };

struct StowJob {
	std::string name, dir, cmd, remote, excl, manifest, mid, uri; bool mtree_done = false, stowed = false, done_line = false; OpP op, mop, parent;
	std::map<std::string, std::string> files, muts, encp, changed;	// by relative path; changed by digest
	void saw(const std::string &rel, const std::string &enc, const std::string &data); void mutated(const std::string &rel, const std::string &data);
};
struct World {
	const Episode &e; Cfg cfg; Stats &st; Result res; Rng rng; std::map<int, OpP> ops;
	std::map<std::string, ObjT> objs; std::map<unsigned, SiloSt> silos; std::map<std::string, std::vector<RecP>> byid_recs, old_recs, next_recs;
	std::unordered_map<std::string, char> bulk; std::unordered_set<std::string> bulk24; std::string bulk_key(const IdxLine &l); std::set<IdxLine> D, Dprev; std::set<std::pair<unsigned, i64>> orphans; std::map<std::string, std::vector<std::vector<RecP>>> copies;
	std::set<std::string> forged;	// records rewritten together with their digest: for audit to find, not for get
	bool corrupted = false, dead = false, index_lost = false, phase_lost = false, killed = false, erred = false, conc = false, ever_conc = false, housekept = false, reindexed = false, ever_lost = false, cache_env = false, clock_env = false, stowed = false, forced_any = false, junk_holds = false, ghosts = false, swapped = false, gap = false;
	std::set<unsigned> covered; std::set<std::string> must_ids; std::map<unsigned, std::string> saved_silos; i64 jump_lo = 0, jump_hi = 0; std::string saved_cache; int ph = 0; u64 phase_tick0 = 0; i64 phase_clk0 = 0; int next_int = 1000000; std::vector<std::pair<u64, i64>> jumps; i64 max_at_parse = 0;
	std::map<std::string, std::map<std::string, std::string>> trees;	// directories of stow jobs as generated
	std::map<int, std::vector<StowJob>> stowjobs; void stow_manifest(OpP o, StowJob &j); void close_stow(OpP o); bool stow_may_fail(OpP o); bool other_rebuild(OpP o); bool ambig(const std::string &id); std::string k1_obj; bool stow_partial(const Rec &r, const std::string &body, OpP *op); bool stow_meta(const std::string &ref, const std::string &body, const std::string &ctype, const std::string &id, StowJob **jp, std::string *why);
	World(const Episode &ep, Stats &s) : e(ep), cfg(ep.cfg), st(s), rng(ep.seed ^ 0x77) {}
	void fail(const std::string &tags, const std::string &cls, const std::string &msg, int op = -1);
	std::string ctx(const Op *o = nullptr) const; void probe(const std::string &n) { st.probes[n]++; }
	void run(bool trace); bool run_phase(const Phase &p, int idx); void do_env(const J &a); void start_op(OpP o); OpP internal(const std::string &k, const J &p);
	std::vector<std::string> build_argv(OpP o, std::map<std::string, std::string> &env, OFile **in);
	std::vector<std::string> raw_argv(OpP o, std::map<std::string, std::string> &env, OFile **in); void settle(); bool parse_all(); void analyse(); void check_index(); void check_holds(); void check_gets(); void check_audit(); void check_new_records();
	bool match_src(const SrcOp &s, const Rec &first, const std::string &body); bool date_ok(const SrcOp &s, const std::string &d, std::string *why);
	void eval(OpP o); void eval_store(OpP o); void eval_get(OpP o); void eval_cgi(OpP o); void eval_byid(OpP o); void eval_filter(OpP o); void eval_dump(OpP o); void eval_audit(OpP o); void eval_rebuild(OpP o); void eval_stow(OpP o); void eval_raw(OpP o); void eval_neutral(OpP o); u64 snapshot(std::string *what = nullptr); void register_stow(OpP o);
	bool acked_before(const std::string &id, u64 t); bool started_before(const std::string &id, u64 t);
	void clk_range(const OpRun &r, i64 &lo, i64 &hi);
	bool parse_dump(const std::string &out, std::vector<IdxLine> &v); bool clean_exit(const OpRun &r) { return (r.status & 127) == 0; } int code(const OpRun &r) { return (r.status >> 8) & 255; }
	std::string head(const Op *o) const; std::string tail(const std::string &s) const { return printable(s.size() > 300 ? s.substr(s.size() - 300) : s, 300); }
	bool check_data(OpP o, const std::string &id, const std::string &got, const std::string &hdr, bool hdr_given, bool body_given);
	void compare_audit(OpP o); std::map<std::pair<std::string, i64>, std::vector<RecP>> conts;
	bool find_chain(const std::string &id, const std::string &data, size_t pos, i64 no, const std::function<bool(const RecP &)> &pred, std::vector<RecP> &ch);
};
std::string describe_op(const Op &o);
int stub_mtree(Proc *, const std::vector<std::string> &); int stub_sh(Proc *, const std::vector<std::string> &); int stub_ssh(Proc *, const std::vector<std::string> &);
extern World *W;
