// The simulated operating system: processes, memory, file system, pipes,
// clock, scheduler, faults.
#pragma once
#include "util.hpp"
#include <functional>
#include <memory>
#include <sys/types.h>

// ---- classes of simulated calls (fault targets, trace, schedule policy) ------
enum Sc { SC_OPEN, SC_CREAT, SC_READ, SC_WRITE, SC_LINK, SC_UNLINK, SC_RENAME,
	SC_MKDIR, SC_STAT, SC_MMAP, SC_CLOSE, SC_PIPE, SC_FORK, SC_EXEC, SC_WAIT,
	SC_POLL, SC_TRUNC, SC_FSYNC, SC_SEEK, SC_OTHER, SC_MALLOC, SC_EXIT, SC_START, SC_N };
extern const char *const sc_name[SC_N];
enum Obj { OB_NONE, OB_INDEX, OB_SILO, OB_HOLD, OB_CACHE, OB_DIR, OB_PIPE, OB_FILE, OB_STDIN, OB_STDOUT, OB_STDERR, OB_N };
extern const char *const ob_name[OB_N];

struct Inode {
	int ino = 0; bool dir = false; mode_t mode = 0644; std::string data;
	std::map<std::string, Inode *> ents; Inode *parent = nullptr;
	int nlink = 0, opens = 0; i64 mtime = 0;
	int silo_no = -1;	// >= 0 while linked under a silo name
	i64 solid = 0;		// silo bytes that may never change again
	Obj ob = OB_FILE; u64 wp_tick = 0;	// when it was last write-protected
	i64 hole = 0, hole_at = 0;	// that many zero bytes at hole_at which data leaves out
	i64 size() const { return (i64)data.size() + hole; }
};
struct Pipe { std::string buf; size_t cap = 65536; int readers = 0, writers = 0; u64 total = 0; };
// A scripted input stream (stdin of an operation): bytes plus chunk plan
struct Src { std::string data; size_t pos = 0; std::vector<size_t> chunks; size_t ci = 0, left = 0; bool eof_seen = false; };
struct Sink { std::string data; i64 limit = -1; bool overflow = false; };
struct OFile {
	enum K { FILE_, PIPE_R, PIPE_W, NUL, SRC, SINK } k = NUL;
	int refs = 0, flags = 0; i64 off = 0;
	Inode *ino = nullptr; std::shared_ptr<Pipe> pipe; std::shared_ptr<Src> src; Sink *sink = nullptr;
	std::string path; Obj ob = OB_FILE; u64 opened = 0;
};

// ---- fault directives ------------------------------------------------------------
enum Fk { FK_KILL, FK_ERR, FK_SHORT, FK_MALLOC, FK_KILLALL, FK_PART, FK_N };
extern const char *const fk_name[FK_N];
struct Fault {
	int op = -1, sub = -1;	// operation (episode-wide id), process within it (-1: any)
	Fk kind = FK_KILL; unsigned cls = ~0u, obj = ~0u;	// masks of Sc / Obj
	int hit = -1; int nth = 0;		// fires at the nth (0-based) matching call
	i64 arg = 0;		// errno, or bytes written before the failure
	// run state
	int seen = 0; bool fired = false; std::string where;
};

struct OpRun {	// kernel-side state of one operation
	int id = 0; std::string label;
	Sink out, err;
	bool started = false, done = false; int status = -1;
	u64 t_start = 0, t_end = 0; i64 clk_start = 0, clk_end = 0;
	int nproc = 0; bool faulted = false; std::string crash; u64 ncalls = 0; size_t max_alloc = 0, max_read = 0; int killed_sub = -1;
	std::vector<std::string> subcrash;	// abnormal ends of helper processes
};

struct Ctx { void *sp = nullptr; };
struct Region { char *a, *b; int users = 0; struct Proc *resident = nullptr; bool mapped_a = false, mapped_b = false; };

struct Proc {
	int pid = 0, ppid = 0, sub = 0, ord = 0; OpRun *op = nullptr; std::string prog;
	enum S { RUN, BLOCKED, ZOMBIE, DEAD } st = RUN;
	Ctx ctx; bool fresh = true; std::vector<std::string> argv; std::map<std::string, std::string> env;
	std::string cwd = "/";
	std::vector<OFile *> fds; int status = 0;
	Region *own = nullptr, *home = nullptr; char *globals = nullptr; bool globals_live = false;
	int err = 0; u64 nsys = 0; bool enospc = false; std::vector<void (*)(void)> atexits; u64 rnd = 1;
	// blocking condition
	enum B { B_NONE, B_RPIPE, B_WPIPE, B_POLL, B_WAIT, B_SLEEP } bk = B_NONE;
	std::shared_ptr<Pipe> bpipe; size_t bneed = 0; int bpid = 0;
	struct Pf { OFile *f; short ev; }; std::vector<Pf> bpoll; bool bpoll_to = false;
	u64 prio = 0; i64 stall_at = -1; u64 stall_until = 0; bool stalled = false;
	std::function<int(Proc *)> native;	// stub programs / environment actors
	std::string crash; bool foreground = true; u64 cpu_mark = 0;
	std::vector<std::pair<std::string, int>> temps;	// hold and temporary files it created: path, inode
};

struct Policy {
	enum K { SEQ, RANDOM, HOT, PCT, STALL } k = SEQ; double p = 0.1, p_hot = 0.5;
	int stall_len = 50; double stall_p = 0.5; std::vector<u64> change; std::string name() const;
};

struct KStats { u64 ticks = 0, decisions = 0, switches = 0, procs = 0; u64 fault_fired[FK_N] = {0}; std::map<std::string, u64> err_kinds; u64 sigpipe = 0; };

struct Kernel {
	// configuration of the episode
	bool root = true; size_t pipe_cap = 65536, nofile = 1024; i64 quota = -1; u64 step_cap = 600000; i64 us_per_call = 100;
	bool trace_on = false;
	// state
	Inode *rootdir = nullptr; int next_ino = 1, next_pid = 100, next_ord = 0; i64 clock_us = 0; i64 used = 0; i64 sim_us = 0;
	std::vector<Proc *> procs; Proc *cur = nullptr; u64 tick = 0;
	std::vector<Fault> faults; std::vector<std::string> trace; u64 thash = 0, ihash = 0;
	Rng srng{1}; Policy pol; bool replaying = false; std::map<u64, int> overrides, recorded; u64 decision = 0; u64 nswitch = 0;
	u64 phase_start = 0; bool deadlock = false, stepcap = false; std::string deadlock_who;
	KStats st;
	std::string silo_dir = "/silo", silo_base = "%08u.warc.gz";
	std::function<void(const std::string &tag, const std::string &msg)> on_guard;	// silo guard violations
	std::function<void(const std::string &msg)> on_exit_check;	// left behind by a process which ended
	std::function<void(Proc *)> on_main_exit; bool stop = false;
	std::function<void(OpRun *)> on_start;
	std::function<int(Proc *, const std::vector<std::string> &)> stub_mtree, stub_sh, stub_ssh;

	void reset(); void clear_procs();
	// file system (host side, no scheduling)
	Inode *lookup(const std::string &path, Inode **dirp = nullptr, std::string *leaf = nullptr, int *err = nullptr, const std::string &cwd = "/");
	Inode *mknode(bool dir); Inode *host_mkdirs(const std::string &path);
	void host_write(const std::string &path, const std::string &data); bool host_read(const std::string &path, std::string &out);
	void host_hole(const std::string &path, i64 at, i64 len); i64 host_holes(const std::string &path, i64 *at);
	bool host_unlink(const std::string &path); void host_rmtree(const std::string &path); bool exists(const std::string &path);
	void host_list(const std::string &dir, std::vector<std::string> &out, bool recurse = true);
	void set_entry(Inode *dir, const std::string &name, Inode *n, const std::string &path); void del_entry(Inode *dir, const std::string &name);
	void drop(Inode *n); Obj classify(const std::string &path); int silo_number(const std::string &path);
	// processes
	Proc *spawn(OpRun *op, const std::string &prog, const std::vector<std::string> &argv, const std::map<std::string, std::string> &env, OFile *in, std::function<int(Proc *)> native = nullptr);
	void run(); void kill_proc(Proc *p, int sig, const std::string &why); void do_exit(int status);
	void switch_out(); bool ready(Proc *p); Proc *decide(std::vector<Proc *> &r, Sc sc, Obj ob, bool cur_ok);
	void yield_point(Sc sc, Obj ob); Fault *enter(Sc sc, Obj ob, const char *what, bool shared);
	void log(Sc sc, Obj ob, const char *what, i64 res); void block();
	void close_file(OFile *f); void activate(Proc *p); void reap(Proc *p); void release_mem(Proc *p);
	int newfd(OFile *f, int from = 0);
};
extern Kernel K;
std::string silo_path(const std::string &dir, const std::string &base, unsigned n);

// arena allocator used by simulated processes
void *ar_malloc(size_t n); void ar_free(void *p); void *ar_realloc(void *p, size_t n); void ar_init(char *base, char *end); size_t ar_used(char *base);
void crash_now(const char *why) __attribute__((noreturn));
extern "C" { void sim_exit_flush(void); int aa_main(int, char **); void sim_libc_init(void); }
const size_t REGION = 256UL << 20, STACK = 8UL << 20;
OFile *mk_src(const std::string &data, const std::vector<size_t> &chunks);
OFile *mk_null();
