// Stow: the manifest generator, shell and ssh as stand-ins, and the judgement.
#include "exec.hpp"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <fcntl.h>
#include <poll.h>
extern "C" {
ssize_t sim_read(int, void *, size_t); ssize_t sim_write(int, const void *, size_t); int sim_close(int); int sim_poll(struct pollfd *, nfds_t, int); pid_t sim_wait4(pid_t, int *, int, void *); int sim_execvp(const char *, char *const *);
}
static std::string vis(const std::string &s, bool cstyle) {
	std::string r; for (unsigned char c : s) { if (isalnum(c) || strchr("._-+,=@%", c)) r.push_back((char)c); else if (c == ' ' && cstyle) r += "\\s"; else if (c == '\t' && cstyle) r += "\\t"; else if (c == '\n' && cstyle) r += "\\n"; else r += sfmt("\\%03o", c); } return r;
}
static bool out_all(int fd, const std::string &s, size_t chunk) {
	size_t i = 0; while (i < s.size()) { size_t n = std::min(chunk ? chunk : s.size(), s.size() - i); ssize_t r = sim_write(fd, s.data() + i, n); if (r <= 0) return false; i += (size_t)r; } return true;
}
// ---- mtree -----------------------------------------------------------------------------
int stub_mtree(Proc *p, const std::vector<std::string> &av) {
	std::string dir, excl; for (size_t i = 1; i + 1 < av.size(); i++) { if (av[i] == "-p") dir = av[i + 1]; if (av[i] == "-X") excl = av[i + 1]; }
	OpP o; if (p->op && W->ops.count(p->op->id)) o = W->ops[p->op->id]; StowJob *job = nullptr; if (o) for (auto &j : W->stowjobs[o->id]) if (j.dir == dir && !j.mtree_done) { job = &j; break; }
	const J *mt = o ? o->p.get("mtree") : nullptr; int others = mt ? (int)mt->num("others") : 0; bool cst = mt && mt->num("cstyle"), cont = mt && mt->num("cont"), set = mt && mt->num("set"); size_t chunk = mt ? (size_t)mt->num("chunk") : 0; i64 die = mt ? mt->num("die", -1) : -1; int dierc = mt ? (int)mt->num("rc", 1) : 1;
	if (job && job->excl != excl) W->fail("C14 C24", "stow-exclude", "the exclusion list of stow job " + job->name + " is not what mtree is given: " + excl, o->id);
	std::set<std::string> ex; if (!excl.empty()) { std::string s; K.host_read(excl, s); size_t i = 0; while (i < s.size()) { size_t j = s.find('\n', i); if (j == std::string::npos) j = s.size(); ex.insert(s.substr(i, j - i)); i = j + 1; } }
	std::string all, pend; i64 nfile = 0; bool dead = false;
	auto emit = [&](const std::string &s) { all += s; pend += s; if (pend.size() >= 4096) { if (!out_all(1, pend, chunk)) dead = true; pend.clear(); } };
	std::function<void(Inode *, const std::string &, const std::string &, int)> walk = [&](Inode *n, const std::string &rel, const std::string &path, int lvl) {
		std::string ind((size_t)lvl * 4, ' '); if (dead) return;
		std::string name = rel.empty() ? "." : vis(rel.substr(rel.rfind('/') == std::string::npos ? 0 : rel.rfind('/') + 1), cst);
		if (set) emit("/set type=file uid=0 gid=0 mode=0644 nlink=1\n"); if (!rel.empty()) emit("\n"); 
		emit(ind + name + std::string(name.size() < 16 ? 16 - name.size() : 1, ' ') + "type=dir mode=0755 nlink=" + std::to_string(2 + lvl) + (cont ? " \\\n" + ind + "                " : " ") + "size=512\n");
		std::vector<std::string> names; for (auto &e : n->ents) names.push_back(e.first);
		for (int q = 0; q < others; q++) emit(ind + "    " + (q % 2 ? "lnk\\040" : "zz") + std::to_string(q) + (q % 3 == 0 ? "         type=link mode=0777 nlink=1 size=7" + std::string(cont ? " \\\n" + ind + "                " : " ") + "time=1500000000.0 link=../a\\040b\n" : q % 3 == 1 ? "  type=fifo mode=0600 nlink=1 size=0 time=1500000000.0\n" : "   type=char mode=0600 device=native,1,2 time=1500000000.0\n"));
		for (int pass = 0; pass < 2; pass++) for (auto &s : names) {
			auto it = n->ents.find(s); if (it == n->ents.end() || ex.count(s)) continue; Inode *c = it->second; std::string r = rel.empty() ? s : rel + "/" + s, f = path + "/" + s;
			if (c->dir) { if (pass == 1) walk(c, r, f, lvl + 1); continue; } if (pass) continue;
			if (dead || (die >= 0 && nfile >= die)) { dead = true; return; }
			std::string data = c->data, dg = sha256_hex(data), v = vis(s, cst); nfile++;
			emit(ind + "    " + v + std::string(v.size() < 12 ? 12 - v.size() : 1, ' ') + (set ? "" : "type=file ") + "mode=0644 nlink=1 size=" + std::to_string(data.size()) + (cont ? " \\\n" + ind + "                " : " ") + "time=1500000000.0" + (cont ? " \\\n" + ind + "                " : " ") + "sha256digest=" + dg + "\n");
			if (job) job->saw(r, "./" + (r == s ? "" : vis(r.substr(0, r.rfind('/')), false) + "/") + vis(s, cst), data);
			// the file changes after it has been looked at
			if (o && o->p.get("mut")) for (auto &m : o->p.get("mut")->a) if (unhex(m.str("n")) == r && dir == m.str("dir", dir)) { std::string pth = dir + "/" + r; if (m.num("rm")) { K.host_unlink(pth); W->trees[dir].erase(r); } else { std::string nd = blob_data(*m.get("b")); K.host_write(pth, nd); W->trees[dir][r] = nd; } if (job) job->mutated(r, m.num("rm") ? std::string() : blob_data(*m.get("b"))); }
		}
		emit(ind + "..\n\n");
	};
	Inode *root = K.lookup(dir); if (!root || !root->dir) return 1;
	walk(root, "", dir, 0);
	if (!pend.empty() && !out_all(1, pend, chunk)) dead = true;
	if (dead) return dierc;
	if (job) { job->mtree_done = true; job->manifest = all; W->stow_manifest(o, *job); }
	return 0;
}
// ---- shell -----------------------------------------------------------------------------------
static int exec_words(const std::vector<std::string> &w) {
	std::vector<char *> a; for (auto &s : w) a.push_back(strdup(s.c_str())); a.push_back(nullptr); sim_execvp(a[0], a.data()); return 127;
}
static std::vector<std::string> words(const std::string &s) { std::vector<std::string> v; size_t i = 0; while (i < s.size()) { while (i < s.size() && s[i] == ' ') i++; size_t j = s.find(' ', i); if (j == std::string::npos) j = s.size(); if (j > i) v.push_back(s.substr(i, j - i)); i = j; } return v; }
static Proc *child(Proc *p, const std::vector<std::string> &w, OFile *in, OFile *out) {
	Proc *c = K.spawn(p->op, w[0] == "aardwarc" ? "aardwarc" : w[0], w, p->env, in); c->ppid = p->pid; c->foreground = false; 
	K.close_file(c->fds[1]); c->fds[1] = out; out->refs++; K.close_file(c->fds[2]); c->fds[2] = p->fds[2]; if (c->fds[2]) c->fds[2]->refs++;
	for (size_t i = 3; i < c->fds.size(); i++) c->fds[i] = nullptr; return c;
}
static int run_cmd(Proc *p, const std::string &cmd) {
	std::vector<std::string> w = words(cmd); if (w.empty()) return 0;
	if (w[0] == "exit") return atoi(w.size() > 1 ? w[1].c_str() : "0"); if (w[0] == "true") return 0;
	if (w.size() > 2 && w[w.size() - 2] == "||") {	// cmd || true
		w.resize(w.size() - 2); child(p, w, p->fds[0], p->fds[1]); sim_close(0); sim_close(1); int st; pid_t q = sim_wait4(-1, &st, 0, nullptr); (void)q; return 0; }
	return exec_words(w);
}
int stub_sh(Proc *p, const std::vector<std::string> &av) { return run_cmd(p, av.size() > 2 ? av[2] : ""); }
// ---- ssh: relays between the local pipes and a process on the remote host ----------------------
// remote name: host[:opt=n]...   opts: cutin cutout (bytes, then the connection breaks),
// eofin (bytes, then the remote sees end of input), rc (exit status on a break), chunk
static OFile *pipe_end(std::shared_ptr<Pipe> q, bool w) { OFile *f = new OFile; f->k = w ? OFile::PIPE_W : OFile::PIPE_R; f->ob = OB_PIPE; f->pipe = q; f->path = "net"; if (w) q->writers++; else q->readers++; return f; }
int stub_ssh(Proc *p, const std::vector<std::string> &av) {
	std::string host = av.size() > 1 ? av[1] : "", cmd = av.size() > 2 ? av[2] : ""; std::map<std::string, i64> opt; size_t i = host.find(':');
	while (i != std::string::npos) { size_t j = host.find(':', i + 1); std::string t = host.substr(i + 1, (j == std::string::npos ? host.size() : j) - i - 1); size_t e = t.find('='); if (e != std::string::npos) opt[t.substr(0, e)] = atoll(t.c_str() + e + 1); i = j; }
	auto get = [&](const char *k, i64 d) { auto it = opt.find(k); return it == opt.end() ? d : it->second; };
	i64 cutin = get("cutin", -1), cutout = get("cutout", -1), eofin = get("eofin", -1), nin = 0, nout = 0; int rc = (int)get("rc", 255); size_t chunk = (size_t)get("chunk", 4096);
	auto pi = std::make_shared<Pipe>(), po = std::make_shared<Pipe>(); pi->cap = po->cap = K.pipe_cap;
	OFile *ir = pipe_end(pi, false), *iw = pipe_end(pi, true), *orr = pipe_end(po, false), *ow = pipe_end(po, true);
	std::vector<std::string> w = words(cmd); Proc *c = child(p, w, ir, ow); (void)c;
	int tofd = K.newfd(iw, 3), fmfd = K.newfd(orr, 3); std::string bi, bo; bool eof_in = false, eof_out = false, closed = false; char buf[8192];
	for (;;) {
		struct pollfd pf[4]; int n = 0, ii = -1, io = -1, oi = -1, oo = -1;
		if (!eof_in && bi.size() < 65536) { pf[n] = {0, POLLIN, 0}; ii = n++; }
		if (!bi.empty() && !closed) { pf[n] = {tofd, POLLOUT, 0}; io = n++; }
		if (!eof_out && bo.size() < 65536) { pf[n] = {fmfd, POLLIN, 0}; oi = n++; }
		if (!bo.empty()) { pf[n] = {1, POLLOUT, 0}; oo = n++; }
		if (eof_in && bi.empty() && !closed) { sim_close(tofd); closed = true; }
		if (eof_out && bo.empty()) break; if (!n) break;
		if (sim_poll(pf, (nfds_t)n, -1) < 0) return 255;
		if (ii >= 0 && pf[ii].revents) { size_t m = chunk; if (cutin >= 0) m = (size_t)std::min<i64>((i64)m, cutin - nin); if (eofin >= 0) m = (size_t)std::min<i64>((i64)m, eofin - nin); m = std::min(m, sizeof buf); ssize_t r = m ? sim_read(0, buf, m) : 0; if (m && r > 0) { bi.append(buf, (size_t)r); nin += r; } else eof_in = true; if (cutin >= 0 && nin >= cutin) return rc; if (eofin >= 0 && nin >= eofin && !eof_in) { eof_in = true; sim_close(0); } }
		if (oi >= 0 && pf[oi].revents) { size_t m = std::min(chunk, sizeof buf); if (cutout >= 0) m = (size_t)std::min<i64>((i64)m, cutout - nout); ssize_t r = m ? sim_read(fmfd, buf, m) : 0; if (r > 0) { bo.append(buf, (size_t)r); nout += r; } else if (m) eof_out = true; if (cutout >= 0 && nout >= cutout) return rc; }
		if (io >= 0 && pf[io].revents) { if (pf[io].revents & (POLLERR | POLLHUP)) { bi.clear(); eof_in = true; sim_close(tofd); closed = true; sim_close(0); /* ssh stops reading its input when the remote does */ } else { ssize_t r = sim_write(tofd, bi.data(), std::min<size_t>(bi.size(), 4096)); if (r > 0) bi.erase(0, (size_t)r); } }
		if (oo >= 0 && pf[oo].revents) { if (pf[oo].revents & (POLLERR | POLLHUP)) return 255; ssize_t r = sim_write(1, bo.data(), std::min<size_t>(bo.size(), 4096)); if (r > 0) bo.erase(0, (size_t)r); }
	}
	if (!closed) sim_close(tofd); sim_close(fmfd); int st = 0; if (sim_wait4(-1, &st, 0, nullptr) < 0) return 255; return (st & 127) ? 255 : (st >> 8) & 255;
}
// ---- bookkeeping and judgement -------------------------------------------------------------------
void StowJob::saw(const std::string &rel, const std::string &enc, const std::string &data) { files[rel] = data; encp[rel] = enc; }
void StowJob::mutated(const std::string &rel, const std::string &data) { muts[rel] = data; }
void World::register_stow(OpP o) {
	stowjobs[o->id].clear(); if (!o->p.get("job")) return;
	for (auto &n : o->p.get("job")->a) for (auto &jb : cfg.jobs.a) if (jb.str("name") == n.s) {
		StowJob j; j.name = n.s; j.dir = jb.str("directory"); j.cmd = jb.str("cmd"); j.remote = jb.str("remote"); j.excl = jb.str("exclude"); if (!j.excl.empty()) K.host_write(j.excl, "a\nb.txt\nf1\nf2\nf3\nf5\nf8\n.hidden\nx y\n");
		j.op = std::make_shared<Op>(); j.op->id = o->id; j.op->k = "stow"; j.op->p = J::obj(); j.op->run.started = true; j.op->run.t_start = K.tick; j.op->run.clk_start = K.clock_us; j.op->phase = ph; j.op->ran = true; j.mop = std::make_shared<Op>(*j.op); j.parent = o;
		auto reg = [&](const std::string &d, OpP op) { if (d.empty()) return; auto sp = std::make_shared<std::string>(d); objs[sha256_hex(d).substr(0, cfg.idlen())].src.push_back({op, sp, "application/octet-stream", "", "resource"}); };
		std::set<std::string> muts; if (o->p.get("mut")) for (auto &m : o->p.get("mut")->a) if (m.str("dir", j.dir) == j.dir) { muts.insert(unhex(m.str("n"))); if (!m.num("rm")) reg(blob_data(*m.get("b")), j.mop); }
		std::vector<std::string> fl; K.host_list(j.dir, fl); for (auto &f : fl) { std::string rel = f.substr(j.dir.size() + (j.dir.back() == '/' ? 0 : 1)), d; K.host_read(f, d); reg(d, j.mop); }
		stowjobs[o->id].push_back(j); break; }
}
void World::stow_manifest(OpP o, StowJob &j) {
	(void)o; j.mid = sha256_hex(j.manifest).substr(0, cfg.idlen());
	objs[j.mid].src.push_back({j.mop, std::make_shared<std::string>(j.manifest), "application/octet-stream", "", "resource"});
}
bool World::stow_may_fail(OpP o) { if (o->run.faulted || o->p.get("fails")) return true; if (o->p.get("mut")) for (auto &m : o->p.get("mut")->a) if (m.num("rm") || blob_data(*m.get("b")).empty()) return true; return false; }
// a broken connection can leave the part of an object which got through in the archive
bool World::stow_partial(const Rec &r, const std::string &body, OpP *op) {
	for (auto &v : stowjobs) for (auto &j : v.second) { if (!j.parent || !stow_may_fail(j.parent)) continue; auto pre = [&](const std::string &d) { return body.size() < d.size() && !d.compare(0, body.size(), body); };
		*op = j.mop; if (r.type() == "metadata") { std::string h = "[\n    \"STOW3.0\",\n    {\n"; size_t n = std::min(h.size(), body.size()); if (j.mtree_done && r.val("WARC-Refers-To") == "<" + cfg.prefix + j.mid + ">" && !body.compare(0, n, h, 0, n)) return true; continue; }
		if (r.type() != "resource") continue; if (pre(j.manifest)) return true; for (auto &f : j.files) if (pre(f.second)) return true; for (auto &f : j.muts) if (pre(f.second)) return true; }
	return false;
}
// after the phase: what did the run claim?
void World::close_stow(OpP o) {
	std::string s = o->run.err.data; size_t pos = 0;
	for (auto &j : stowjobs[o->id]) {
		for (auto &q : {j.op, j.mop}) { bool st = q->run.started; u64 ts = q->run.t_start; i64 cs = q->run.clk_start; q->run.done = o->run.done; q->run.t_end = o->run.t_end; q->run.clk_end = o->run.clk_end; q->run.faulted = o->run.faulted; q->run.status = o->run.status; q->run.started = st; q->run.t_start = ts; q->run.clk_start = cs; }
		if (stow_may_fail(o)) { j.op->run.faulted = j.mop->run.faulted = true; if (!clean_exit(o->run) || code(o->run)) j.op->run.clk_end = j.mop->run.clk_end = std::max(o->run.clk_end, K.clock_us); }
		size_t b = s.find("Starting job " + j.name + "\n", pos); if (b == std::string::npos) { j.op->run.started = j.mop->run.started = o->run.started; continue; } size_t e = s.find("Starting job ", b + 5); if (e == std::string::npos) e = s.size(); std::string part = s.substr(b, e - b); pos = b + 5;
		size_t k = part.find("STOWED as "); if (k != std::string::npos) { size_t nl = part.find('\n', k); if (nl != std::string::npos) { j.uri = part.substr(k + 10, nl - k - 10); j.stowed = true; } }
		j.done_line = part.find("Done job " + j.name + "\n") != std::string::npos;
		if (j.stowed) {
			j.op->acked = true; for (auto &f : j.files) if (!f.second.empty() && !j.muts.count(f.first)) objs[sha256_hex(f.second).substr(0, cfg.idlen())].src.push_back({j.op, std::make_shared<std::string>(f.second), "application/octet-stream", "", "resource"});
			if (j.mtree_done) objs[j.mid].src.push_back({j.op, std::make_shared<std::string>(j.manifest), "application/octet-stream", "", "resource"});
		}
	}
}
// metadata records made by stow runs cannot be predicted (they hold the time); recognise them
bool World::stow_meta(const std::string &ref, const std::string &body, const std::string &ctype, const std::string &id, StowJob **jp, std::string *why) {
	StowJob *first = nullptr; for (auto &v : stowjobs) for (auto &j : v.second) {
		if (!j.mtree_done || ref != "<" + cfg.prefix + j.mid + ">") continue; std::string b = body, pre = "[\n    \"STOW3.0\",\n    {\n"; *why = "metadata document of stow job " + j.name + " malformed: " + printable(body, 300);
		if (ctype != "application/json" || b.compare(0, pre.size(), pre)) continue; size_t q = pre.size(); std::map<std::string, std::string> changed; bool bad = false;
		for (const char *sec : {"changed", "missing"}) { std::string h = std::string("\t\"") + sec + "\": {\n"; if (b.compare(q, h.size(), h)) continue; q += h.size(); size_t e = b.find("\n\t},\n", q); if (e == std::string::npos) { bad = true; break; } std::string in = b.substr(q, e - q) + ",\n"; q = e + 5; size_t i = 0; while (i < in.size()) { size_t l = in.find(",\n", i); std::string x = in.substr(i, l - i); i = l + 2; char d[100], v2[100]; if (sscanf(x.c_str(), " \"sha256:%64[0-9a-f]\": \"id:%64[0-9a-f]\"", d, v2) == 2 && !strcmp(sec, "changed")) changed[d] = v2; else bad = true; } }
		if (bad) continue; char mt[100], tg[200]; long long tm; int e = 0; if (sscanf(b.c_str() + q, "\t\"mtree\": \"sha256:%64[0-9a-f]\",\n\t\"target\": \"%190[^\"]\",\n\t\"time\": %lld\n    }\n]%n", mt, tg, &tm, &e) != 3 || b.substr(q + (size_t)e) != "\n") continue;
		if (mt != sha256_hex(j.manifest) || tg != j.name) { *why = "metadata document of stow job " + j.name + " names the wrong manifest or job"; continue; }
		i64 lo, hi; clk_range(j.op->run, lo, hi); if (tm < lo || tm > hi) { *why = sfmt("time %lld in the stow metadata is outside of the run", tm); continue; }
		bool cb = false; for (auto &c : changed) { bool f = false; for (auto &m : j.muts) if (sha256_hex(j.files[m.first]) == c.first && sha256_hex(m.second).substr(0, cfg.idlen()) == c.second) f = true; if (!f) cb = true; } if (cb) { *why = "stow metadata lists a change that did not happen"; continue; }
		j.changed = changed; if (j.stowed && lower(j.uri) == lower(cfg.prefix + id)) { *jp = &j; return true; } if (!first) first = &j; }
	if (first) { *jp = first; return true; }
	return false;
}
void World::eval_stow(OpP o) {
	const OpRun &r = o->run; if (!r.done || corrupted) return; std::string T = "C14" + ctx(o.get()); auto &js = stowjobs[o->id]; bool ok = clean_exit(r) && code(r) == 0;
	bool may_fail = stow_may_fail(o);
	for (auto &j : js) {
		if (j.done_line && !j.stowed) { fail("C15 C14", "stow-false-done", head(o.get()) + "reports job " + j.name + " as done, but the archive never confirmed it: " + tail(r.err.data), o->id); return; }
		if (ok && !j.done_line) { fail("C15 C14", "stow-false-exit", head(o.get()) + "exits 0 without having done job " + j.name, o->id); return; }
		if (!j.stowed) continue; std::string F = "C14" + std::string(may_fail ? " C15" : "") + ctx(o.get());
		if (!j.mtree_done) { fail("C15 C14", "stow-false-done", head(o.get()) + "job " + j.name + " STOWED although the manifest generator failed", o->id); return; }
		for (auto &f : j.files) {
			if (f.second.empty()) continue; std::string id = sha256_hex(f.second).substr(0, cfg.idlen()); bool have = !copies[id].empty(); bool mut = j.muts.count(f.first);
			if (mut) { const std::string &m = j.muts[f.first]; if (!m.empty() && !copies[sha256_hex(m).substr(0, cfg.idlen())].empty()) have = true; if (!acked_before(id, r.t_start) && copies[id].empty() && !m.empty() && m != f.second && !j.changed.count(sha256_hex(f.second))) { fail(F, "stow-change-unrecorded", head(o.get()) + "job " + j.name + ": " + printable(f.first) + " changed while being stowed, but the metadata does not say so", o->id); return; } }
			if (!have) { fail(F, "stow-file-missing", head(o.get()) + "job " + j.name + " STOWED, but the content of " + printable(f.first) + sfmt(" (%zu bytes) is not in the archive", f.second.size()), o->id); return; }
		}
		if (copies[j.mid].empty()) { fail(F, "stow-manifest-missing", head(o.get()) + "job " + j.name + " STOWED, but its manifest is not in the archive", o->id); return; }
		std::string u = j.uri; bool good = false; if (!u.compare(0, cfg.prefix.size(), cfg.prefix)) { std::string id = u.substr(cfg.prefix.size()); for (auto &ch : copies[id]) if (ch[0]->type() == "metadata" && ch[0]->val("WARC-Refers-To") == "<" + cfg.prefix + j.mid + ">") good = true; }
		if (!good) { fail(F, "stow-id", head(o.get()) + "job " + j.name + " STOWED as " + printable(u) + ", which is not the metadata record of its manifest", o->id); return; }
		std::map<std::string, int> same; for (auto &x : js) for (auto &f : x.encp) same[f.second]++;
		for (auto &f : j.files) if (!f.second.empty() && same[j.encp[f.first]] == 1 && acked_before(sha256_hex(f.second).substr(0, cfg.idlen()), r.t_start) && !j.encp[f.first].empty() && r.out.data.find("get\t" + j.encp[f.first] + "\n") != std::string::npos) { fail(F, "stow-resent", head(o.get()) + "asks for " + printable(f.first) + " although its content is already archived", o->id); return; }
		probe("stow job completed"); if (!j.muts.empty()) probe("stow with a file changing under it"); if (!j.changed.empty()) probe("stow recorded a change");
	}
	if (!ok && !may_fail) { bool forced = o->p.get("neg") != nullptr; if (!forced) fail(T, "stow-fails", head(o.get()) + sfmt("status %d without any fault: ", r.status) + tail(r.err.data), o->id); }
	if (ok && o->p.get("neg")) fail("C14 C15", "stow-neg", head(o.get()) + "exits 0 although it cannot work (" + o->p.str("neg") + ")", o->id);
	if (!ok && may_fail) probe("stow broken off");
	for (auto &s : r.subcrash) { (void)s; }
}
