#include "kernel.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>

Kernel K;
const char *const sc_name[SC_N] = {"open", "creat", "read", "write", "link", "unlink", "rename", "mkdir", "stat", "mmap",
	"close", "pipe", "fork", "exec", "wait", "poll", "trunc", "fsync", "seek", "other", "malloc", "exit", "start"};
const char *const ob_name[OB_N] = {"-", "index", "silo", "hold", "cache", "dir", "pipe", "file", "stdin", "stdout", "stderr"};
const char *const fk_name[FK_N] = {"kill", "error", "shortwrite", "malloc", "killall", "partial"};

// ---- context switching -----------------------------------------------------------
extern "C" {
long ctx_switch(Ctx *from, Ctx *to);
long ctx_fork(Ctx *save, void (*fn)(void *), void *arg);
void crash_tramp(void);
extern char aa_guard_lo[], aa_guard_lo_end[], aa_guard_hi[], aa_guard_hi_end[];
#define aa_start aa_guard_lo_end
#define aa_stop aa_guard_hi
}
asm(R"(
.text
.globl ctx_switch
ctx_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp,(%rdi)
	movq (%rsi),%rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	movl $1,%eax
	ret
.globl ctx_fork
ctx_fork:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp,(%rdi)
	subq $8,%rsp
	movq %rdx,%rdi
	call *%rsi
	addq $8,%rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	xorl %eax,%eax
	ret
)");

static Ctx sched_ctx;
static Proc *gowner = nullptr;	// whose globals are live
static char *pristine = nullptr;
static size_t gsize() { return (size_t)(aa_stop - aa_start); }

// ---- memory regions -------------------------------------------------------------------
static std::vector<Region *> free_regions;
static char *next_va = (char *)0x100000000000ULL;
static const size_t STRIDE = 512UL << 20;
static char *map_at(char *a) {
	void *p = mmap(a, REGION, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
	if (p != a) { perror("mmap"); _exit(3); }
	return a;
}
static Region *get_region() {
	if (!free_regions.empty()) { Region *r = free_regions.back(); free_regions.pop_back(); return r; }
	Region *r = new Region; r->a = next_va; next_va += STRIDE; r->b = next_va; next_va += STRIDE;
	map_at(r->a); r->mapped_a = true; return r;
}
static void move_region(char *from, char *to) {
	void *p = mremap(from, REGION, REGION, MREMAP_MAYMOVE | MREMAP_FIXED, to);
	if (p != to) { perror("mremap"); _exit(3); }
}

void Kernel::activate(Proc *p) {
	Region *h = p->home;
	if (h && h->resident != p) {
		Proc *o = h->resident;
		if (o) move_region(h->a, o->own->b), o->own->mapped_b = true;
		move_region(p->own->b, h->a); p->own->mapped_b = false; h->resident = p;
	}
	if (gowner != p && !p->native) {
		if (gowner) memcpy(gowner->globals, aa_start, gsize());
		memcpy(aa_start, p->globals, gsize()); gowner = p;
	}
	cur = p;
}

void Kernel::release_mem(Proc *p) {
	if (!p->own) return;
	Region *own = p->own, *home = p->home;
	if (gowner == p) gowner = nullptr;
	free(p->globals); p->globals = nullptr;
	if (home->resident == p) {
		if (home != own || home->users > 1) { move_region(home->a, own->b); own->mapped_b = true; }
		home->resident = nullptr;
	}
	madvise(own->mapped_b ? own->b : own->a, STACK, MADV_DONTNEED);
	p->own = p->home = nullptr; own->users--;
	if (home != own) home->users--;
	// A region can be reused once nobody uses its window
	auto recycle = [](Region *r) {
		if (r->users > 0) return;
		if (r->mapped_b) { move_region(r->b, r->a); r->mapped_b = false; }
		r->resident = nullptr; free_regions.push_back(r);
	};
	recycle(home); if (home != own) recycle(own);
}

// ---- crash handling -----------------------------------------------------------------------
static char emerg_stack[65536] __attribute__((aligned(64)));
static char sig_stack[65536];
static const char *crash_reason = "";
static char crash_buf[128];
static void sig_handler(int sig, siginfo_t *si, void *uc) {
	ucontext_t *u = (ucontext_t *)uc;
	static int hang; static u64 last = ~0ULL;
	if (sig == SIGVTALRM) {
		if (!K.cur) { hang = 0; return; }
		if (last != K.tick) { last = K.tick; hang = 0; return; }
		if (++hang < 6) return;
		hang = 0; crash_reason = "CPU loop without system calls";
	} else {
		if (!K.cur) { signal(sig, SIG_DFL); return; }
		snprintf(crash_buf, sizeof crash_buf, "%s at rip=%#llx addr=%p", sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : sig == SIGBUS ? "SIGBUS" : "SIGSEGV",
		    (unsigned long long)u->uc_mcontext.gregs[REG_RIP], si->si_addr);
		crash_reason = crash_buf;
	}
	u->uc_mcontext.gregs[REG_RIP] = (greg_t)(uintptr_t)crash_tramp;
	u->uc_mcontext.gregs[REG_RSP] = (greg_t)(uintptr_t)(emerg_stack + sizeof emerg_stack - 72);
}
extern "C" void crash_tramp(void) { crash_now(crash_reason); }
void crash_now(const char *why) {
	Proc *p = K.cur; p->crash = why; K.log(SC_EXIT, OB_NONE, why, -1);
	K.kill_proc(p, SIGSEGV, why); Ctx d; ctx_switch(&d, &sched_ctx); abort();
}
void crash_abort() __attribute__((noreturn));

// ---- setup ---------------------------------------------------------------------------------------
void Kernel::reset() {
	static bool once = false;
	if (!once) {
		once = true;
		sim_libc_init();
		if (mprotect(aa_guard_lo, aa_guard_lo_end - aa_guard_lo, PROT_NONE) || mprotect(aa_guard_hi, aa_guard_hi_end - aa_guard_hi, PROT_NONE)) { perror("mprotect"); _exit(3); }
		pristine = (char *)malloc(gsize()); memcpy(pristine, aa_start, gsize());
		stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = sig_stack; ss.ss_size = sizeof sig_stack; sigaltstack(&ss, nullptr);
		struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = sig_handler; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
		for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGVTALRM}) sigaction(s, &sa, nullptr);
		struct itimerval it = {{1, 0}, {1, 0}}; setitimer(ITIMER_VIRTUAL, &it, nullptr);
	}
	clear_procs();
	std::function<void(Inode *)> del = [&](Inode *n) { if (n->dir) for (auto &e : n->ents) { if (e.second->dir) del(e.second); else if (--e.second->nlink <= 0) delete e.second; } delete n; };
	if (rootdir) del(rootdir);
	next_ino = 1; rootdir = mknode(true); rootdir->nlink = 1; rootdir->parent = rootdir;
	next_pid = 100; next_ord = 0; clock_us = 1500000000LL * 1000000; used = 0; tick = 0; sim_us = 0;
	faults.clear(); trace.clear(); thash = 0x1234; ihash = 0x4321; overrides.clear(); recorded.clear(); replaying = false; decision = 0; nswitch = 0;
	deadlock = stepcap = stop = false; deadlock_who.clear(); quota = -1; on_guard = nullptr; on_exit_check = nullptr; on_main_exit = nullptr; on_start = nullptr;
	st = KStats(); cur = nullptr;
}
void Kernel::clear_procs() {
	for (Proc *p : procs) {
		if (p->st != Proc::ZOMBIE && p->st != Proc::DEAD) for (auto &f : p->fds) if (f) { close_file(f); f = nullptr; }
		release_mem(p); delete p;
	}
	procs.clear(); cur = nullptr;
}

// ---- file system ------------------------------------------------------------------------------------
Inode *Kernel::mknode(bool dir) { Inode *n = new Inode; n->ino = next_ino++; n->dir = dir; n->mode = dir ? 0755 : 0644; n->mtime = clock_us / 1000000; return n; }
static void split(const std::string &p, std::vector<std::string> &v) {
	size_t i = 0;
	while (i < p.size()) { size_t j = p.find('/', i); if (j == std::string::npos) j = p.size(); if (j > i) v.push_back(p.substr(i, j - i)); i = j + 1; }
}
static std::string canon(const std::string &p, const std::string &cwd = "/") {
	std::vector<std::string> v, r; split(p.size() && p[0] == '/' ? p : cwd + "/" + p, v);
	for (auto &s : v) { if (s == ".") continue; if (s == "..") { if (!r.empty()) r.pop_back(); continue; } r.push_back(s); }
	std::string o; for (auto &s : r) o += "/" + s; return o.empty() ? "/" : o;
}
Inode *Kernel::lookup(const std::string &path, Inode **dirp, std::string *leaf, int *err, const std::string &cwd) {
	if (path.empty()) { if (err) *err = ENOENT; return nullptr; }
	std::vector<std::string> v; split(canon(path, cwd), v);
	Inode *n = rootdir;
	if (dirp) *dirp = nullptr;
	for (size_t i = 0; i < v.size(); i++) {
		if (!n->dir) { if (err) *err = ENOTDIR; return nullptr; }
		if (i + 1 == v.size()) { if (dirp) *dirp = n; if (leaf) *leaf = v[i]; }
		auto it = n->ents.find(v[i]);
		if (it == n->ents.end()) { if (err) *err = ENOENT; return nullptr; }
		n = it->second;
	}
	if (path[path.size() - 1] == '/' && !n->dir) { if (err) *err = ENOTDIR; return nullptr; }
	if (v.empty() && dirp) *dirp = rootdir;
	return n;
}
std::string silo_path(const std::string &dir, const std::string &base, unsigned n) {
	// Documented layout: level 0 holds 100 silos, level k 100^k * 100
	std::vector<unsigned> parts; unsigned m = n; int lvl = 0; std::string mid;
	while (m >= 100) { m /= 100; lvl++; mid = sfmt("%02u/", m % 100) + mid; }
	std::string r = dir + sfmt("%d/", lvl) + mid; char b[256]; snprintf(b, sizeof b, base.c_str(), n); return r + b;
}
int Kernel::silo_number(const std::string &path) {
	std::string c = canon(path), d = canon(silo_dir);
	if (c.compare(0, d.size() + 1, d + "/")) return -1;
	size_t s = c.rfind('/'); std::string leaf = c.substr(s + 1);
	size_t pc = silo_base.find('%'); if (leaf.compare(0, pc, silo_base, 0, pc)) return -1;
	size_t i = pc; while (i < leaf.size() && isdigit((unsigned char)leaf[i])) i++;
	if (i == pc || i - pc > 10) return -1;
	unsigned n = (unsigned)strtoul(leaf.substr(pc, i - pc).c_str(), 0, 10);
	return canon(silo_path(silo_dir, silo_base, n)) == c ? (int)n : -1;
}
Obj Kernel::classify(const std::string &path) {
	std::string c = canon(path), d = canon(silo_dir);
	if (c.compare(0, d.size() + 1, d + "/")) return OB_FILE;
	size_t s = c.rfind('/'); std::string leaf = c.substr(s + 1);
	if (s == d.size()) {
		if (!leaf.compare(0, 5, "index")) return leaf == "index.hold" ? OB_HOLD : OB_INDEX;
		if (leaf == "_.cache") return OB_CACHE;
	}
	if (leaf.size() > 5 && !leaf.compare(leaf.size() - 5, 5, ".hold")) return OB_HOLD;
	if (silo_number(c) >= 0) return OB_SILO;
	return OB_FILE;
}
void Kernel::drop(Inode *n) { if (n->nlink <= 0 && n->opens <= 0) { used -= (i64)n->data.size(); delete n; } }
void Kernel::set_entry(Inode *dir, const std::string &name, Inode *n, const std::string &path) {
	auto it = dir->ents.find(name);
	int sn = n->dir ? -1 : silo_number(path);
	if (it != dir->ents.end()) {
		Inode *o = it->second;
		if (o->silo_no >= 0 && o != n && on_guard) on_guard("silo-replaced", "silo " + path + " was replaced");
		if (!o->dir) { o->nlink--; if (o != n) drop(o); }
	}
	dir->ents[name] = n; if (!n->dir) n->nlink++; else n->parent = dir;
	if (sn >= 0) { n->silo_no = sn; n->solid = n->size(); }
}
void Kernel::del_entry(Inode *dir, const std::string &name) {
	auto it = dir->ents.find(name); if (it == dir->ents.end()) return;
	Inode *n = it->second;
	// a silo name goes away: find out whether this entry is the silo's name
	if (n->silo_no >= 0 && on_guard) {
		Inode *s = lookup(silo_path(silo_dir, silo_base, (unsigned)n->silo_no));
		Inode *d2 = nullptr; std::string leaf; lookup(silo_path(silo_dir, silo_base, (unsigned)n->silo_no), &d2, &leaf);
		if (s == n && d2 == dir && leaf == name) on_guard("silo-removed", sfmt("silo %d was removed", n->silo_no));
	}
	dir->ents.erase(it); if (!n->dir) { n->nlink--; drop(n); } else delete n;
}
Inode *Kernel::host_mkdirs(const std::string &path) {
	std::vector<std::string> v; split(canon(path), v); Inode *n = rootdir;
	for (auto &s : v) { auto it = n->ents.find(s); if (it == n->ents.end()) { Inode *d = mknode(true); d->nlink = 1; d->parent = n; n->ents[s] = d; n = d; } else n = it->second; }
	return n;
}
void Kernel::host_write(const std::string &path, const std::string &data) {
	std::string c = canon(path); size_t s = c.rfind('/'); Inode *d = host_mkdirs(c.substr(0, s + 1)); std::string leaf = c.substr(s + 1);
	auto it = d->ents.find(leaf); Inode *n;
	if (it == d->ents.end()) { n = mknode(false); d->ents[leaf] = n; n->nlink = 1; } else n = it->second;
	used += (i64)data.size() - (i64)n->data.size();
	n->hole = 0; n->data = data; n->silo_no = silo_number(c); n->solid = (i64)data.size(); n->mtime = clock_us / 1000000;
}
bool Kernel::host_read(const std::string &path, std::string &out) { Inode *n = lookup(path); if (!n || n->dir) return false; out = n->data; return true; }
void Kernel::host_hole(const std::string &path, i64 at, i64 len) { Inode *n = lookup(path); if (!n || n->dir || n->hole) return; n->hole = len; n->hole_at = at; n->solid = n->size(); }
i64 Kernel::host_holes(const std::string &path, i64 *at) { Inode *n = lookup(path); if (!n) return 0; *at = n->hole_at; return n->hole; }
bool Kernel::exists(const std::string &path) { return lookup(path) != nullptr; }
bool Kernel::host_unlink(const std::string &path) {
	Inode *d; std::string leaf; Inode *n = lookup(path, &d, &leaf); if (!n || n->dir || !d) return false;
	d->ents.erase(leaf); n->nlink--; drop(n); return true;
}
void Kernel::host_rmtree(const std::string &path) {
	Inode *n = lookup(path); if (!n) return;
	if (!n->dir) { host_unlink(path); return; }
	std::vector<std::string> names; for (auto &e : n->ents) names.push_back(e.first);
	for (auto &s : names) host_rmtree(path + "/" + s);
	Inode *d; std::string leaf; lookup(path, &d, &leaf); if (d && d != n) { d->ents.erase(leaf); delete n; }
}
void Kernel::host_list(const std::string &dir, std::vector<std::string> &out, bool rec) {
	Inode *n = lookup(dir); if (!n || !n->dir) return;
	for (auto &e : n->ents) { std::string p = canon(dir) + "/" + e.first; if (e.second->dir) { if (rec) host_list(p, out, rec); } else out.push_back(p); }
}

// ---- files ---------------------------------------------------------------------------------------------
OFile *mk_src(const std::string &data, const std::vector<size_t> &chunks) {
	OFile *f = new OFile; f->k = OFile::SRC; f->ob = OB_STDIN; f->src = std::make_shared<Src>(); f->src->data = data; f->src->chunks = chunks; return f;
}
OFile *mk_null() { OFile *f = new OFile; f->k = OFile::NUL; return f; }
void Kernel::close_file(OFile *f) {
	if (--f->refs > 0) return;
	if (f->ino) { f->ino->opens--; drop(f->ino); }
	if (f->k == OFile::PIPE_R) f->pipe->readers--;
	if (f->k == OFile::PIPE_W) f->pipe->writers--;
	delete f;
}
int Kernel::newfd(OFile *f, int from) {
	Proc *p = cur;
	for (size_t i = (size_t)from; i < nofile; i++) { if (i >= p->fds.size()) p->fds.resize(i + 1, nullptr); if (!p->fds[i]) { p->fds[i] = f; f->refs++; return (int)i; } }
	return -1;
}

// ---- processes ---------------------------------------------------------------------------------------------
static void proc_entry() {	// runs on the stack of the simulated process
	Proc *p = K.cur; int rc;
	if (p->native) { auto fn = p->native; rc = fn(p); K.do_exit((rc & 255) << 8); }
	size_t n = p->argv.size(); char **av = (char **)ar_malloc((n + 1) * sizeof(char *));
	for (size_t i = 0; i < n; i++) { av[i] = (char *)ar_malloc(p->argv[i].size() + 1); memcpy(av[i], p->argv[i].c_str(), p->argv[i].size() + 1); }
	av[n] = nullptr; rc = aa_main((int)n, av); sim_exit_flush(); K.do_exit((rc & 255) << 8);
}
static void start_mem(Proc *p) {	// fresh memory image
	if (!p->own) { p->own = p->home = get_region(); p->own->users = 1; p->own->resident = p; p->globals = (char *)malloc(gsize()); }
	memcpy(p->globals, pristine, gsize()); if (gowner == p) gowner = nullptr;
	ar_init(p->home->a + STACK, p->home->a + REGION);
	u64 *sp = (u64 *)(p->home->a + STACK - 64);
	*--sp = 0; *--sp = (u64)(uintptr_t)proc_entry; for (int i = 0; i < 6; i++) *--sp = 0;
	p->ctx.sp = sp; p->fresh = false;
}
Proc *Kernel::spawn(OpRun *op, const std::string &prog, const std::vector<std::string> &argv, const std::map<std::string, std::string> &env, OFile *in, std::function<int(Proc *)> native) {
	Proc *p = new Proc; p->pid = next_pid++; p->ord = next_ord++; p->op = op; p->sub = op ? op->nproc++ : 0; p->prog = prog; p->argv = argv; p->env = env; p->native = native;
	p->fds.resize(3, nullptr);
	auto put = [&](int i, OFile *f) { f->refs++; p->fds[i] = f; };
	put(0, in ? in : mk_null());
	for (int i = 1; i <= 2; i++) { OFile *f = new OFile; f->k = OFile::SINK; f->ob = i == 1 ? OB_STDOUT : OB_STDERR; f->sink = op ? (i == 1 ? &op->out : &op->err) : nullptr; if (!op) f->k = OFile::NUL; put(i, f); }
	if (pol.k == Policy::PCT) p->prio = srng.next() >> 1;
	if (pol.k == Policy::STALL && srng.chance(pol.stall_p)) p->stall_at = (i64)srng.below(srng.chance(0.5) ? 15 : 60);
	procs.push_back(p); st.procs++; return p;
}
void Kernel::log(Sc sc, Obj ob, const char *what, i64 res) {
	u64 h = mix64(thash ^ ((u64)(cur ? cur->ord : 9999) << 32) ^ ((u64)sc << 8) ^ (u64)res * 0x9E37ULL); if (what) for (const char *q = what; *q; q++) h = (h ^ (unsigned char)*q) * 0x100000001b3ULL;
	thash = h;
	if (trace_on) {
		std::string who = cur ? (cur->op ? sfmt("op%d.%d", cur->op->id, cur->sub) : std::string("env")) : "-";
		if (trace.size() < 200000) trace.push_back(sfmt("%6llu %-9s %-12s %-6s %-5s %s = %lld", (unsigned long long)tick, who.c_str(), cur ? cur->prog.c_str() : "", sc_name[sc], ob_name[ob], what ? printable(what, 160).c_str() : "", (long long)res));
	}
}
bool Kernel::ready(Proc *p) {
	if (p->st == Proc::RUN) return true;
	if (p->st != Proc::BLOCKED) return false;
	switch (p->bk) {
	case Proc::B_RPIPE: return !p->bpipe->buf.empty() || p->bpipe->writers == 0;
	case Proc::B_WPIPE: return p->bpipe->readers == 0 || p->bpipe->cap - std::min(p->bpipe->cap, p->bpipe->buf.size()) >= p->bneed;
	case Proc::B_POLL:
		for (auto &e : p->bpoll) {
			OFile *f = e.f; if (!f) return true;
			if (f->k == OFile::PIPE_R) { if (f->pipe->writers == 0 || ((e.ev & POLLIN) && !f->pipe->buf.empty())) return true; }
			else if (f->k == OFile::PIPE_W) { if (f->pipe->readers == 0 || ((e.ev & POLLOUT) && f->pipe->buf.size() + 4096 <= f->pipe->cap)) return true; }
			else return true;
		}
		return p->bpoll_to;
	case Proc::B_WAIT: {
		bool any = false;
		for (Proc *c : procs) if (c->ppid == p->pid && (p->bpid <= 0 || c->pid == p->bpid) && c->st != Proc::DEAD) { any = true; if (c->st == Proc::ZOMBIE) return true; }
		return !any; }
	case Proc::B_SLEEP: return true;
	default: return true;
	}
}
std::string Policy::name() const {
	switch (k) { case SEQ: return "seq"; case RANDOM: return sfmt("random(%.2f)", p); case HOT: return sfmt("hot(%.2f,%.2f)", p, p_hot); case PCT: return sfmt("pct(%zu)", change.size()); default: return sfmt("stall(%.2f,%d)", stall_p, stall_len); }
}
Proc *Kernel::decide(std::vector<Proc *> &r, Sc sc, Obj ob, bool cur_ok) {
	if (r.size() == 1) return r[0];
	Proc *def = cur_ok ? cur : r[0]; Proc *c = def; u64 idx = decision++; st.decisions++;
	if (replaying) {
		auto it = overrides.find(idx);
		if (it != overrides.end()) for (Proc *p : r) if (p->ord == it->second) c = p;
	} else switch (pol.k) {
	case Policy::SEQ: break;
	case Policy::RANDOM: if (!cur_ok || srng.chance(pol.p)) c = r[srng.below(r.size())]; break;
	case Policy::HOT: {
		bool hot = (ob == OB_INDEX || ob == OB_SILO || ob == OB_CACHE || ob == OB_HOLD) && sc != SC_READ;
		if (!cur_ok || srng.chance(hot ? pol.p_hot : pol.p)) c = r[srng.below(r.size())]; break; }
	case Policy::PCT: {
		if (cur_ok && std::find(pol.change.begin(), pol.change.end(), idx) != pol.change.end()) cur->prio = 1000000 - idx;
		for (Proc *p : r) if (p->prio > c->prio) c = p;
		break; }
	case Policy::STALL: {
		if (cur_ok && cur->stall_at >= 0 && (i64)cur->nsys >= cur->stall_at && cur->stall_until == 0)
			cur->stall_until = decision + (pol.stall_len ? srng.below((u64)pol.stall_len) + 1 : 1000000);
		std::vector<Proc *> q; for (Proc *p : r) if (p->stall_until <= decision) q.push_back(p);
		if (q.empty()) q = r;
		bool ok = cur_ok && std::find(q.begin(), q.end(), cur) != q.end();
		if (!ok || srng.chance(pol.p)) c = q[srng.below(q.size())];
		break; }
	}
	if (c != def) { recorded[idx] = c->ord; }
	if (cur_ok && c != cur) { nswitch++; st.switches++; }
	return c;
}
void Kernel::switch_out() {
	Proc *p = cur; ctx_switch(&p->ctx, &sched_ctx);
}
static Proc *next_proc = nullptr;
void Kernel::yield_point(Sc sc, Obj ob) {
	std::vector<Proc *> r; r.reserve(procs.size());
	for (Proc *p : procs) if (p == cur || ready(p)) r.push_back(p);
	if (r.size() <= 1) return;
	Proc *c = decide(r, sc, ob, true);
	std::vector<Proc *>().swap(r);
	if (c == cur) return;
	next_proc = c; switch_out();
}
void Kernel::block() { cur->st = Proc::BLOCKED; next_proc = nullptr; switch_out(); }

Fault *Kernel::enter(Sc sc, Obj ob, const char *what, bool shared) {
	tick++; st.ticks++; clock_us += us_per_call; sim_us += us_per_call; Proc *p = cur;
	if (p->op) p->op->ncalls++;
	if (shared) { p->nsys++; ihash = mix64(ihash ^ ((u64)p->ord << 16) ^ ((u64)sc << 8) ^ ob); yield_point(sc, ob); }
	if (step_cap && tick - phase_start > step_cap && !stepcap) { stepcap = true; stop = true; block(); }
	if (stop) { block(); }
	if (p->op) for (auto &f : faults) {
		if (f.fired || f.op != p->op->id || (f.sub >= 0 && f.sub != p->sub)) continue;
		if (!(f.cls & (1u << sc)) || !(f.obj & (1u << ob))) continue;
		if (f.kind == FK_MALLOC ? sc != SC_MALLOC : sc == SC_MALLOC) continue;
		if (ob == OB_STDERR && f.kind != FK_KILL && f.kind != FK_KILLALL) continue;	// diagnostics are evidence, not behaviour
		if (ob == OB_PIPE && (sc == SC_READ || sc == SC_WRITE || sc == SC_CLOSE) && f.kind != FK_KILL && f.kind != FK_KILLALL) continue;	// pipes fail by losing their other end, which kills provide
		if (f.seen++ != f.nth) continue;
		f.fired = true; f.hit = sc; f.where = sfmt("op%d.%d %s %s", p->op->id, p->sub, sc_name[sc], what ? what : ""); st.fault_fired[f.kind]++; p->op->faulted = true;
		if (trace_on) trace.push_back(sfmt("%6llu FAULT %s arg=%lld at %s", (unsigned long long)tick, fk_name[f.kind], (long long)f.arg, f.where.c_str()));
		if (f.kind == FK_KILL) { kill_proc(p, SIGKILL, "injected kill"); switch_out(); }
		if (f.kind == FK_KILLALL) {
			for (Proc *q : std::vector<Proc *>(procs)) if (q != p && (q->st == Proc::RUN || q->st == Proc::BLOCKED)) { if (q->op) q->op->faulted = true; kill_proc(q, SIGKILL, "injected power-off"); }
			kill_proc(p, SIGKILL, "injected power-off"); switch_out();
		}
		if (f.kind == FK_ERR) st.err_kinds[sfmt("%s:%s", sc_name[sc], strerrorname_np((int)f.arg))]++;
		return &f;
	}
	return nullptr;
}
void Kernel::kill_proc(Proc *p, int sig, const std::string &why) {
	for (auto &f : p->fds) if (f) { OFile *g = f; f = nullptr; close_file(g); }
	p->status = sig; p->st = Proc::ZOMBIE; p->bk = Proc::B_NONE; p->bpoll.clear(); p->bpipe.reset();
	if (p->op && why.compare(0, 8, "injected") && sig != SIGPIPE && p->sub != 0) p->op->subcrash.push_back(p->prog + ": " + why);
	if (p->op && p->sub == 0) { p->op->done = true; p->op->status = sig; p->op->t_end = tick; p->op->clk_end = clock_us; p->op->crash = why; }
}
void Kernel::do_exit(int status) {
	Proc *p = cur; enter(SC_EXIT, OB_NONE, "", true); log(SC_EXIT, OB_NONE, "", status);
	if (on_exit_check && p->op && !p->temps.empty() && (status == 0 || !p->op->faulted)) {	// a process which ends by itself cleans up
		bool exc = false; for (auto &f : faults) if (f.fired && f.op == p->op->id && f.kind == FK_ERR && f.hit == SC_UNLINK && status != 0) exc = true;
		if (!exc) for (auto &t : p->temps) { Inode *n = lookup(t.first); if (!n || n->ino != t.second) continue;  on_exit_check(sfmt("op%d (%s) ended with exit %d and left %s behind", p->op->id, p->op->label.c_str(), status >> 8 & 255, t.first.c_str())); break; }
	}
	for (auto &f : p->fds) if (f) { OFile *g = f; f = nullptr; close_file(g); }
	p->status = status; p->st = Proc::ZOMBIE;
	if (p->op && p->sub == 0) { p->op->done = true; p->op->status = status; p->op->t_end = tick; p->op->clk_end = clock_us; }
	switch_out(); abort();
}
void Kernel::reap(Proc *p) { p->st = Proc::DEAD; }

// fork support -----------------------------------------------------------------------
struct ForkArg { Proc *par, *ch; };
static void fork_copy(void *a) {
	ForkArg *fa = (ForkArg *)a; Proc *p = fa->par, *c = fa->ch;
	c->own = get_region(); c->own->users = 1; move_region(c->own->a, c->own->b); c->own->mapped_b = true; c->own->mapped_a = false;
	c->home = p->home; c->home->users++;
	char *top = p->home->a + STACK, *low = (char *)__builtin_frame_address(0) - 256;
	memcpy(c->own->b + (low - p->home->a), low, (size_t)(top - low));
	char *hb = p->home->a + STACK; memcpy(c->own->b + STACK, hb, ar_used(hb));
	c->globals = (char *)malloc(gsize()); memcpy(c->globals, aa_start, gsize());
}
extern "C" int sim_fork(void);
int sim_fork(void) {
	Proc *p = K.cur;
	Fault *f = K.enter(SC_FORK, OB_NONE, "fork", true);
	if (f) { p->err = (int)f->arg; return -1; }
	Proc *c = new Proc; c->pid = K.next_pid++; c->ord = K.next_ord++; c->ppid = p->pid; c->op = p->op; c->sub = p->op ? p->op->nproc++ : 0;
	c->prog = p->prog; c->argv = p->argv; c->env = p->env; c->cwd = p->cwd; c->fds = p->fds; for (auto *x : c->fds) if (x) x->refs++;
	c->fresh = false; c->native = p->native; c->atexits = p->atexits; c->rnd = p->rnd;
	if (K.pol.k == Policy::PCT) c->prio = K.srng.next() >> 1;
	if (K.pol.k == Policy::STALL && K.srng.chance(K.pol.stall_p)) c->stall_at = (i64)K.srng.below(60);
	ForkArg fa{p, c};
	if (ctx_fork(&c->ctx, fork_copy, &fa)) return 0;
	K.procs.push_back(c); K.st.procs++; K.log(SC_FORK, OB_NONE, "fork", c->ord); return c->pid;
}

// ---- main loop ------------------------------------------------------------------------
void Kernel::run() {
	phase_start = tick; stepcap = deadlock = false;
	for (;;) {
		// bookkeeping of finished processes
		for (size_t i = 0; i < procs.size(); i++) {
			Proc *p = procs[i];
			if (p->st == Proc::ZOMBIE || p->st == Proc::DEAD) {
				if (p->own) release_mem(p);
				if (p->op && p->sub == 0 && p->foreground) { p->foreground = false; if (on_main_exit) on_main_exit(p); }
			}
		}
		for (size_t i = 0; i < procs.size();) {
			Proc *p = procs[i];
			if (p->st == Proc::ZOMBIE) { bool par = false; for (Proc *q : procs) if (q->pid == p->ppid && (q->st == Proc::RUN || q->st == Proc::BLOCKED)) par = true; if (!par) p->st = Proc::DEAD; }
			if (p->st == Proc::DEAD) { procs.erase(procs.begin() + (long)i); delete p; } else i++;
		}
		if (stop) return;
		std::vector<Proc *> r; bool live = false;
		for (Proc *p : procs) { if (p->st == Proc::RUN || p->st == Proc::BLOCKED) live = true; if (ready(p)) r.push_back(p); }
		if (!live) return;
		if (r.empty()) { deadlock = true; for (Proc *p : procs) if (p->st == Proc::BLOCKED) deadlock_who += sfmt(" [op%d.%d %s blocked in %s]", p->op ? p->op->id : -1, p->sub, p->prog.c_str(), p->bk == Proc::B_RPIPE ? "read" : p->bk == Proc::B_WPIPE ? "write" : p->bk == Proc::B_WAIT ? "wait" : "poll"); return; }
		Proc *n = next_proc; next_proc = nullptr; if (n && std::find(r.begin(), r.end(), n) == r.end()) n = nullptr;
		if (!n) n = decide(r, SC_START, OB_NONE, false);
		n->st = Proc::RUN;
		if (n->fresh) { if (n->own) release_mem(n); start_mem(n); }
		activate(n);
		if (n->op && !n->op->started) { n->op->started = true; n->op->t_start = tick; n->op->clk_start = clock_us; if (on_start) on_start(n->op); }
		ctx_switch(&sched_ctx, &n->ctx);
		cur = nullptr;
	}
}

// ---- arena allocator ----------------------------------------------------------------------
struct Hdr { uint32_t cls; uint32_t state; u64 req; u64 can; u64 pad; };	// 32 bytes
static const u64 CAN = 0xC0FFEE0DDF00DULL; static const uint32_t ST_USED = 0x55534544, ST_FREE = 0x46524545;
struct ArHead { char *brk, *end; void *freel[40]; };
void ar_init(char *base, char *end) { ArHead *h = (ArHead *)base; memset(h, 0, sizeof *h); h->brk = base + 4096; h->end = end; }
static char *ar_base() { return K.cur->home->a + STACK; }
size_t ar_used(char *base) { return (size_t)(((ArHead *)base)->brk - base); }
static int ar_class(size_t n) { int c = 5; while (((size_t)1 << c) < n) c++; return c; }
void *ar_malloc(size_t n) {
	ArHead *h = (ArHead *)ar_base(); size_t need = n + sizeof(Hdr) + 8; int c = ar_class(need); size_t sz = (size_t)1 << c;
	Hdr *b;
	if (c < 40 && h->freel[c]) { b = (Hdr *)h->freel[c]; h->freel[c] = *(void **)(b + 1); }
	else { if (n > REGION || h->brk + sz > h->end) crash_now("heap: more than 240 MB in use"); b = (Hdr *)h->brk; h->brk += sz; }
	b->cls = (uint32_t)c; b->state = ST_USED; b->req = n; b->can = CAN; memset(b + 1, 0xA5, n); u64 t = CAN ^ n; memcpy((char *)(b + 1) + n, &t, 8);
	return b + 1;
}
static Hdr *ar_check(void *p, const char *what) {
	char *base = ar_base(); Hdr *b = (Hdr *)p - 1;
	if ((char *)b < base + 4096 || (char *)b >= ((ArHead *)base)->brk || ((uintptr_t)p & 15)) { crash_now("heap: free/realloc of a wild pointer"); }
	if (b->state == ST_FREE) crash_now("heap: double free or use after free");
	u64 t; if (b->state != ST_USED || b->can != CAN) crash_now("heap: corrupted block header");
	memcpy(&t, (char *)p + b->req, 8); if (t != (CAN ^ b->req)) crash_now("heap: write beyond end of block");
	(void)what; return b;
}
void ar_free(void *p) {
	if (!p) return;
	Hdr *b = ar_check(p, "free"); ArHead *h = (ArHead *)ar_base();
	memset(p, 0xDF, b->req < 4096 ? b->req : 4096); b->state = ST_FREE; *(void **)p = h->freel[b->cls]; h->freel[b->cls] = b;
}
void *ar_realloc(void *p, size_t n) {
	if (!p) return ar_malloc(n);
	Hdr *b = ar_check(p, "realloc"); void *q = ar_malloc(n); memcpy(q, p, b->req < n ? b->req : n); ar_free(p); return q;
}
