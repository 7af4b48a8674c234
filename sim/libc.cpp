// sim_*: the libc the code under test runs on.  Every function here replaces
// the libc function of the same name at link time (objcopy --redefine-syms).
#include "kernel.hpp"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <wchar.h>
#define ZLIB_CONST
#include <zlib.h>
#include <sha2.h>

#define SHARED true
#define PRIV false
#define GLOBAL __attribute__((section("aa_data")))

static inline int fail(int e) { K.cur->err = e; return -1; }
static OFile *getf(int fd) { Proc *p = K.cur; if (fd < 0 || (size_t)fd >= p->fds.size()) return nullptr; return p->fds[(size_t)fd]; }

extern "C" {
int *sim___errno_location(void) { return &K.cur->err; }

// ---- paths ------------------------------------------------------------------------
static bool may(Inode *n, int want) { if (K.root) return true; return ((n->mode >> 6) & (mode_t)want) == (mode_t)want; }

static int do_open(const char *path, int flags, mode_t mode, const std::string &cwd) {
	Proc *p = K.cur; bool creat = flags & O_CREAT; Obj ob = K.classify(path);
	char what[400]; snprintf(what, sizeof what, "%s fl=%x", path, flags);
	Fault *f = K.enter(creat ? SC_CREAT : SC_OPEN, ob, what, SHARED);
	if (f) { K.log(SC_OPEN, ob, what, -f->arg); return fail((int)f->arg); }
	if (!strcmp(path, "/dev/null")) { OFile *o = mk_null(); o->flags = flags; int fd = K.newfd(o); K.log(SC_OPEN, OB_NONE, what, fd); return fd; }
	Inode *dir = nullptr; std::string leaf; int err = 0; Inode *n = K.lookup(path, &dir, &leaf, &err, cwd);
	int e = 0;
	if (n) {
		if (creat && (flags & O_EXCL)) e = EEXIST;
		else if (n->dir && (flags & O_ACCMODE) != O_RDONLY) e = EISDIR;
		else if (!n->dir && (flags & O_DIRECTORY)) e = ENOTDIR;
		else { int acc = flags & O_ACCMODE; if (acc != O_WRONLY && !may(n, 4)) e = EACCES; if (acc != O_RDONLY && !may(n, 2)) e = EACCES; }
	} else {
		if (!creat || err != ENOENT || !dir) e = err ? err : ENOENT;
		else if (!may(dir, 2)) e = EACCES;
		else if (K.quota >= 0 && K.used >= K.quota) { e = ENOSPC; K.st.err_kinds["creat:disk full"]++; if (p->op) p->op->faulted = true; }
		else { n = K.mknode(false); n->mode = mode & 0777 & ~022u; n->ob = ob; std::string full = path[0] == '/' ? std::string(path) : cwd + "/" + path; K.set_entry(dir, leaf, n, full); if (ob == OB_HOLD || leaf.find(".tmp.") != std::string::npos) p->temps.push_back({full, n->ino}); }
	}
	if (e) { K.log(SC_OPEN, ob, what, -e); return fail(e); }
	if ((flags & O_TRUNC) && !n->dir && (flags & O_ACCMODE) != O_RDONLY) {
		if (n->silo_no >= 0 && n->solid > 0 && K.on_guard) K.on_guard("silo-truncated", sfmt("silo %d truncated by open(O_TRUNC)", n->silo_no));
		K.used -= (i64)n->data.size(); n->data.clear(); n->hole = 0;
	}
	OFile *o = new OFile; o->k = OFile::FILE_; o->flags = flags; o->ino = n; o->path = path; o->ob = ob; n->opens++; o->opened = K.tick;
	int fd = K.newfd(o); (void)p; K.log(SC_OPEN, ob, what, fd); return fd;
}
int sim_open(const char *path, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = (flags & O_CREAT) ? va_arg(ap, mode_t) : 0; va_end(ap); return do_open(path, flags, m, K.cur->cwd); }
int sim_open64(const char *path, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = (flags & O_CREAT) ? va_arg(ap, mode_t) : 0; va_end(ap); return do_open(path, flags, m, K.cur->cwd); }
int sim_creat(const char *path, mode_t m) { return do_open(path, O_WRONLY | O_CREAT | O_TRUNC, m, K.cur->cwd); }
static std::string path_at(int dfd, const char *path, bool *ok) {
	*ok = true; if (dfd == AT_FDCWD || path[0] == '/') return path[0] == '/' ? std::string(path) : K.cur->cwd + "/" + path;
	OFile *o = getf(dfd); if (!o || !o->ino || !o->ino->dir) { *ok = false; return ""; } return o->path + "/" + path;
}
int sim_openat(int dfd, const char *path, int flags, ...) {
	va_list ap; va_start(ap, flags); mode_t m = (flags & O_CREAT) ? va_arg(ap, mode_t) : 0; va_end(ap);
	bool ok; std::string s = path_at(dfd, path, &ok); if (!ok) return fail(getf(dfd) ? ENOTDIR : EBADF);
	return do_open(s.c_str(), flags, m, "/");
}
int sim_openat64(int dfd, const char *path, int flags, ...) {
	va_list ap; va_start(ap, flags); mode_t m = (flags & O_CREAT) ? va_arg(ap, mode_t) : 0; va_end(ap);
	return sim_openat(dfd, path, flags, m);
}

int sim_close(int fd) {
	OFile *o = getf(fd); if (!o) return fail(EBADF);
	bool pipe = o->k == OFile::PIPE_R || o->k == OFile::PIPE_W;
	Fault *f = K.enter(SC_CLOSE, o->ob, o->path.c_str(), pipe);
	K.log(SC_CLOSE, o->ob, o->path.c_str(), fd);
	K.cur->fds[(size_t)fd] = nullptr; K.close_file(o);
	if (f) return fail((int)f->arg);
	return 0;
}
void sim_closefrom(int low) { for (size_t i = (size_t)low; i < K.cur->fds.size(); i++) if (K.cur->fds[i]) sim_close((int)i); }

// ---- reading and writing ----------------------------------------------------------------
static ssize_t read_at(OFile *o, void *buf, size_t n, i64 off) {
	const Inode *i = o->ino; const std::string &d = i->data; if (off < 0) return fail(EINVAL);
	if (!i->hole || off + (i64)n <= i->hole_at) {
		if ((size_t)off >= d.size()) return 0;
		size_t m = std::min(n, d.size() - (size_t)off); memcpy(buf, d.data() + off, m); return (ssize_t)m;
	}
	size_t m = 0; char *b = (char *)buf;
	for (; m < n && off < i->size(); m++, off++) b[m] = off < i->hole_at ? d[(size_t)off] : off < i->hole_at + i->hole ? 0 : d[(size_t)(off - i->hole)];
	return (ssize_t)m;
}
ssize_t sim_read(int fd, void *buf, size_t n) {
	OFile *o = getf(fd); if (!o) return fail(EBADF); if (K.cur->op) K.cur->op->max_read = std::max(K.cur->op->max_read, n);
	char what[300]; snprintf(what, sizeof what, "%s n=%zu", o->path.c_str(), n);
	Fault *f = K.enter(SC_READ, o->ob, what, true);
	if (f) { K.log(SC_READ, o->ob, what, -f->arg); return fail((int)f->arg); }
	ssize_t r = 0;
	switch (o->k) {
	case OFile::NUL: r = 0; break;
	case OFile::SINK: case OFile::PIPE_W: return fail(EBADF);
	case OFile::FILE_:
		if (o->ino->dir) return fail(EISDIR);
		if ((o->flags & O_ACCMODE) == O_WRONLY) return fail(EBADF);
		r = read_at(o, buf, n, o->off); if (r > 0) o->off += r; break;
	case OFile::SRC: {
		Src &s = *o->src;
		if (s.pos >= s.data.size()) { r = 0; break; }
		if (s.left == 0) s.left = s.chunks.empty() ? s.data.size() : std::max<size_t>(1, s.chunks[s.ci++ % s.chunks.size()]);
		size_t m = std::min({n, s.left, s.data.size() - s.pos}); memcpy(buf, s.data.data() + s.pos, m); s.pos += m; s.left -= m; r = (ssize_t)m; break; }
	case OFile::PIPE_R: {
		std::shared_ptr<Pipe> *pp = &o->pipe;
		while ((*pp)->buf.empty() && (*pp)->writers > 0) { K.cur->bk = Proc::B_RPIPE; K.cur->bpipe = *pp; K.block(); K.cur->bpipe.reset(); }
		Pipe &q = *o->pipe; size_t m = std::min(n, q.buf.size()); memcpy(buf, q.buf.data(), m); q.buf.erase(0, m); r = (ssize_t)m; break; }
	}
	K.log(SC_READ, o->ob, what, r); return r;
}
ssize_t sim_pread(int fd, void *buf, size_t n, off_t off) {
	OFile *o = getf(fd); if (!o) return fail(EBADF); if (o->k != OFile::FILE_) return fail(ESPIPE);
	Fault *f = K.enter(SC_READ, o->ob, o->path.c_str(), true); if (f) return fail((int)f->arg);
	ssize_t r = read_at(o, buf, n, off); K.log(SC_READ, o->ob, o->path.c_str(), r); return r;
}
ssize_t sim_pread64(int fd, void *buf, size_t n, off_t off) { return sim_pread(fd, buf, n, off); }
ssize_t sim_readv(int fd, const struct iovec *iov, int c) { ssize_t t = 0; for (int i = 0; i < c; i++) { if (!iov[i].iov_len) continue; ssize_t r = sim_read(fd, iov[i].iov_base, iov[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < iov[i].iov_len) break; } return t; }

static ssize_t write_file(OFile *o, const char *buf, size_t n, i64 off, bool app, Fault *f) {
	Inode *i = o->ino; Proc *p = K.cur; bool full = true;
	if (app) off = i->size();
	// Bytes inside existing blocks can always be written; growth happens in
	// whole blocks, so a full disk cuts a write at a block boundary.
	i64 room = -1;	// bytes up to which the file may extend, -1: no limit
	const i64 BLK = 4096; i64 alloc = (i->size() + BLK - 1) / BLK * BLK;
	if (f && f->kind == FK_SHORT) { p->enospc = true; room = std::max(alloc, (off + f->arg) / BLK * BLK); }
	else if (p->enospc) room = alloc;
	else if (f && f->kind == FK_PART) room = std::max(alloc, (off + f->arg) / BLK * BLK);	// the disk has space again right after
	if (K.quota >= 0) {
		i64 q = alloc + std::max<i64>(0, (K.quota - K.used) / BLK * BLK);
		if (off + (i64)n > q) { K.st.err_kinds["write:disk full"]++; room = room < 0 ? q : std::min(room, q); }
	}
	if (room >= 0 && off + (i64)n > room) { if (K.cur->op) K.cur->op->faulted = true; if (room <= off) return fail(ENOSPC); n = (size_t)(room - off); full = false; }
	if (i->silo_no >= 0 && K.on_guard) {
		if (off < i->solid) K.on_guard("silo-overwritten", sfmt("silo %d: bytes [%lld,%lld) of %zu existing bytes overwritten by %s", i->silo_no, (long long)off, (long long)(off + (i64)n), (size_t)i->size(), o->path.c_str()));
		else if (off != i->size()) K.on_guard("silo-gap", sfmt("silo %d: write at %lld beyond its end %zu", i->silo_no, (long long)off, (size_t)i->size()));
		if (!(i->mode & S_IWUSR) && o->opened >= i->wp_tick) K.on_guard("silo-protected", sfmt("write-protected silo %d was modified", i->silo_no));
	}
	if (i->hole && off + (i64)n > i->hole_at) { if (off < i->hole_at + i->hole) return (ssize_t)n; off -= i->hole; }
	if (off > (i64)i->data.size() + (1LL << 30)) return fail(EFBIG);
	size_t end = (size_t)off + n; if (end > i->data.size()) { K.used += (i64)(end - i->data.size()); i->data.resize(end, '\0'); }
	memcpy(&i->data[(size_t)off], buf, n); i->mtime = K.clock_us / 1000000;
	if (i->silo_no >= 0 && full) i->solid = i->size();
	return (ssize_t)n;
}
static ssize_t do_write(int fd, const char *buf, size_t n, const char *name) {
	OFile *o = getf(fd); if (!o) return fail(EBADF);
	char what[300]; snprintf(what, sizeof what, "%s n=%zu", o->path.c_str(), n); (void)name;
	Fault *f = K.enter(SC_WRITE, o->ob, what, o->k != OFile::SINK);
	if (f && f->kind == FK_ERR) { K.log(SC_WRITE, o->ob, what, -f->arg); if (f->arg == ENOSPC) K.cur->enospc = true; return fail((int)f->arg); }
	ssize_t r = 0;
	switch (o->k) {
	case OFile::NUL: r = (ssize_t)n; break;
	case OFile::SRC: case OFile::PIPE_R: return fail(EBADF);
	case OFile::SINK: {
		Sink *s = o->sink; size_t m = n;
		if (f && f->kind == FK_SHORT && (s->limit < 0 || s->limit > (i64)s->data.size() + f->arg)) s->limit = (i64)s->data.size() + f->arg;
		if (f && f->kind == FK_PART && (i64)m > std::max<i64>(1, f->arg)) m = (size_t)std::max<i64>(1, f->arg);
		if (s->limit >= 0) { i64 room = s->limit - (i64)s->data.size(); if (room <= 0) { s->overflow = true; if (K.cur->op) K.cur->op->faulted = true; return fail(ENOSPC); } if ((i64)m > room) { m = (size_t)room; s->overflow = true; if (K.cur->op) K.cur->op->faulted = true; } }
		s->data.append(buf, m); r = (ssize_t)m; break; }
	case OFile::FILE_:
		if ((o->flags & O_ACCMODE) == O_RDONLY) return fail(EBADF);
		r = write_file(o, buf, n, o->off, o->flags & O_APPEND, f);
		if (r > 0) o->off = (o->flags & O_APPEND) ? o->ino->size() : o->off + r;
		break;
	case OFile::PIPE_W: {
		size_t done = 0;
		while (done < n || n == 0) {
			if (o->pipe->readers == 0) {
				K.log(SC_WRITE, o->ob, "SIGPIPE", -EPIPE); K.st.sigpipe++; K.kill_proc(K.cur, SIGPIPE, "killed by SIGPIPE"); K.switch_out();
			}
			size_t room = o->pipe->cap - std::min(o->pipe->cap, o->pipe->buf.size()), want = n - done;
			if (n == 0) break;
			size_t need = n <= 4096 ? want : 1;
			if (room < need) { K.cur->bk = Proc::B_WPIPE; K.cur->bpipe = o->pipe; K.cur->bneed = need; K.block(); K.cur->bpipe.reset(); continue; }
			size_t m = std::min(room, want); o->pipe->buf.append(buf + done, m); o->pipe->total += m; done += m;
		}
		r = (ssize_t)n; break; }
	}
	K.log(SC_WRITE, o->ob, what, r < 0 ? -K.cur->err : r); return r;
}
ssize_t sim_write(int fd, const void *buf, size_t n) { return do_write(fd, (const char *)buf, n, "write"); }
ssize_t sim_writev(int fd, const struct iovec *iov, int c) {
	size_t t = 0; for (int i = 0; i < c; i++) t += iov[i].iov_len;
	char *b = (char *)ar_malloc(t ? t : 1); t = 0; for (int i = 0; i < c; i++) { memcpy(b + t, iov[i].iov_base, iov[i].iov_len); t += iov[i].iov_len; }
	ssize_t r = do_write(fd, b, t, "writev"); ar_free(b); return r;
}
ssize_t sim_pwrite(int fd, const void *buf, size_t n, off_t off) {
	OFile *o = getf(fd); if (!o) return fail(EBADF); if (o->k != OFile::FILE_) return fail(ESPIPE);
	char what[300]; snprintf(what, sizeof what, "%s n=%zu @%lld", o->path.c_str(), n, (long long)off);
	Fault *f = K.enter(SC_WRITE, o->ob, what, true); if (f && f->kind == FK_ERR) { if (f->arg == ENOSPC) K.cur->enospc = true; return fail((int)f->arg); }
	if ((o->flags & O_ACCMODE) == O_RDONLY) return fail(EBADF);
	ssize_t r = write_file(o, (const char *)buf, n, off, o->flags & O_APPEND, f); K.log(SC_WRITE, o->ob, what, r); return r;
}
ssize_t sim_pwrite64(int fd, const void *buf, size_t n, off_t off) { return sim_pwrite(fd, buf, n, off); }
ssize_t sim_pwritev(int fd, const struct iovec *iov, int c, off_t off) { ssize_t t = 0; for (int i = 0; i < c; i++) { ssize_t r = sim_pwrite(fd, iov[i].iov_base, iov[i].iov_len, off + t); if (r < 0) return t ? t : r; t += r; } return t; }
off_t sim_lseek(int fd, off_t off, int wh) {
	OFile *o = getf(fd); if (!o) return fail(EBADF);
	Fault *f = K.enter(SC_SEEK, o->ob, o->path.c_str(), false); if (f) return fail((int)f->arg);
	if (o->k == OFile::SRC) { return fail(ESPIPE); }
	if (o->k != OFile::FILE_) return fail(ESPIPE);
	i64 b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? o->off : o->ino->size();
	if (b + off < 0) return fail(EINVAL);
	o->off = b + off; K.log(SC_SEEK, o->ob, o->path.c_str(), o->off); return o->off;
}
off_t sim_lseek64(int fd, off_t off, int wh) { return sim_lseek(fd, off, wh); }
int sim_ftruncate(int fd, off_t len) {
	OFile *o = getf(fd); if (!o || o->k != OFile::FILE_) return fail(EBADF);
	Fault *f = K.enter(SC_TRUNC, o->ob, o->path.c_str(), true); if (f) return fail((int)f->arg);
	Inode *i = o->ino; if (i->silo_no >= 0 && len < i->solid && K.on_guard) K.on_guard("silo-truncated", sfmt("silo %d truncated from %lld to %lld", i->silo_no, (long long)i->solid, (long long)len));
	if (i->hole && len > i->hole_at) len = std::max(i->hole_at, len - i->hole); if (len > (1LL << 31)) return fail(EFBIG);
	K.used += len - (i64)i->data.size(); i->data.resize((size_t)len, '\0'); K.log(SC_TRUNC, o->ob, o->path.c_str(), len);
	if (i->silo_no >= 0 && len > i->solid) i->solid = i->solid;
	return 0;
}
int sim_ftruncate64(int fd, off_t len) { return sim_ftruncate(fd, len); }
int sim_truncate(const char *path, off_t len) { int fd = sim_open(path, O_WRONLY); if (fd < 0) return -1; int r = sim_ftruncate(fd, len); sim_close(fd); return r; }
int sim_fsync(int fd) { OFile *o = getf(fd); if (!o) return fail(EBADF); Fault *f = K.enter(SC_FSYNC, o->ob, o->path.c_str(), true); if (f) return fail((int)f->arg); return 0; }
int sim_fdatasync(int fd) { return sim_fsync(fd); }
void sim_sync(void) {}
int sim_posix_fadvise(int, off_t, off_t, int) { return 0; }
int sim_posix_fallocate(int, off_t, off_t) { return 0; }

// ---- names ----------------------------------------------------------------------------------
static void fill_stat(Inode *n, struct stat *st) {
	memset(st, 0, sizeof *st); st->st_dev = 42; st->st_ino = (ino_t)n->ino; st->st_mode = (n->dir ? S_IFDIR : S_IFREG) | n->mode; st->st_nlink = (nlink_t)(n->dir ? 2 : n->nlink);
	st->st_size = (off_t)(n->dir ? 4096 : n->size()); st->st_blksize = 4096; st->st_blocks = (st->st_size + 511) / 512; st->st_mtim.tv_sec = n->mtime; st->st_ctim.tv_sec = n->mtime; st->st_atim.tv_sec = n->mtime; st->st_uid = K.root ? 0 : 1000;
}
static int do_stat(const std::string &path, struct stat *st) {
	Obj ob = K.classify(path); Fault *f = K.enter(SC_STAT, ob, path.c_str(), true); if (f) { K.log(SC_STAT, ob, path.c_str(), -f->arg); return fail((int)f->arg); }
	int e = 0; Inode *n = K.lookup(path, nullptr, nullptr, &e, K.cur->cwd); K.log(SC_STAT, ob, path.c_str(), n ? n->ino : -e); if (!n) return fail(e); fill_stat(n, st); return 0;
}
int sim_stat(const char *path, struct stat *st) { return do_stat(path, st); }
int sim_stat64(const char *path, struct stat *st) { return do_stat(path, st); }
int sim_lstat(const char *path, struct stat *st) { return do_stat(path, st); }
int sim_lstat64(const char *path, struct stat *st) { return do_stat(path, st); }
int sim_fstatat(int d, const char *path, struct stat *st, int) { bool ok; std::string s = path_at(d, path, &ok); if (!ok) return fail(EBADF); return do_stat(s, st); }
int sim_fstat(int fd, struct stat *st) {
	OFile *o = getf(fd); if (!o) return fail(EBADF); Fault *f = K.enter(SC_STAT, o->ob, o->path.c_str(), o->k == OFile::FILE_); if (f) return fail((int)f->arg);
	if (o->ino) fill_stat(o->ino, st);
	else { memset(st, 0, sizeof *st); st->st_mode = o->k == OFile::NUL ? (S_IFCHR | 0666) : (S_IFIFO | 0600); st->st_blksize = 4096; st->st_ino = 1; }
	return 0;
}
int sim_fstat64(int fd, struct stat *st) { return sim_fstat(fd, st); }
int sim_access(const char *path, int m) { struct stat st; if (do_stat(path, &st)) return -1; if (K.root) return 0; if ((m & W_OK) && !(st.st_mode & S_IWUSR)) return fail(EACCES); if ((m & R_OK) && !(st.st_mode & S_IRUSR)) return fail(EACCES); return 0; }
int sim_faccessat(int d, const char *path, int m, int) { bool ok; std::string s = path_at(d, path, &ok); if (!ok) return fail(EBADF); return sim_access(s.c_str(), m); }
int sim_chmod(const char *path, mode_t m) { struct stat st; if (do_stat(path, &st)) return -1; K.lookup(path, nullptr, nullptr, nullptr, K.cur->cwd)->mode = m & 07777; if (!(m & S_IWUSR)) K.lookup(path, nullptr, nullptr, nullptr, K.cur->cwd)->wp_tick = K.tick; return 0; }
int sim_fchmod(int fd, mode_t m) { OFile *o = getf(fd); if (!o || !o->ino) return fail(EBADF); K.enter(SC_OTHER, o->ob, "fchmod", true); o->ino->mode = m & 07777; if (!(m & S_IWUSR)) o->ino->wp_tick = K.tick; return 0; }
mode_t sim_umask(mode_t) { return 022; }

int sim_link(const char *a, const char *b) {
	Obj ob = K.classify(b); char what[600]; snprintf(what, sizeof what, "%s -> %s", a, b);
	Fault *f = K.enter(SC_LINK, ob, what, true); if (f) { K.log(SC_LINK, ob, what, -f->arg); return fail((int)f->arg); }
	int e = 0; Inode *n = K.lookup(a, nullptr, nullptr, &e, K.cur->cwd); if (!n) { K.log(SC_LINK, ob, what, -e); return fail(e); }
	if (n->dir) return fail(EPERM);
	Inode *d = nullptr; std::string leaf; Inode *m = K.lookup(b, &d, &leaf, &e, K.cur->cwd);
	if (m) { K.log(SC_LINK, ob, what, -EEXIST); return fail(EEXIST); } if (!d) return fail(e);
	K.set_entry(d, leaf, n, b); K.log(SC_LINK, ob, what, 0); return 0;
}
int sim_unlink(const char *a) {
	Obj ob = K.classify(a); Fault *f = K.enter(SC_UNLINK, ob, a, true); if (f) { K.log(SC_UNLINK, ob, a, -f->arg); return fail((int)f->arg); }
	int e = 0; Inode *d = nullptr; std::string leaf; Inode *n = K.lookup(a, &d, &leaf, &e, K.cur->cwd); if (!n) { K.log(SC_UNLINK, ob, a, -e); return fail(e); }
	if (n->dir) return fail(EISDIR);
	K.del_entry(d, leaf); K.log(SC_UNLINK, ob, a, 0); return 0;
}
int sim_unlinkat(int dfd, const char *a, int) { bool ok; std::string s = path_at(dfd, a, &ok); if (!ok) return fail(EBADF); return sim_unlink(s.c_str()); }
int sim_remove(const char *a) { return sim_unlink(a); }
int sim_linkat(int d1, const char *a, int d2, const char *b, int) { bool ok, ok2; std::string s = path_at(d1, a, &ok), t = path_at(d2, b, &ok2); if (!ok || !ok2) return fail(EBADF); return sim_link(s.c_str(), t.c_str()); }
int sim_rename(const char *a, const char *b) {
	Obj ob = K.classify(b); char what[600]; snprintf(what, sizeof what, "%s -> %s", a, b);
	Fault *f = K.enter(SC_RENAME, ob, what, true); if (f) { K.log(SC_RENAME, ob, what, -f->arg); return fail((int)f->arg); }
	int e = 0; Inode *d1 = nullptr, *d2 = nullptr; std::string l1, l2; Inode *n = K.lookup(a, &d1, &l1, &e, K.cur->cwd); if (!n) { K.log(SC_RENAME, ob, what, -e); return fail(e); }
	Inode *m = K.lookup(b, &d2, &l2, &e, K.cur->cwd); if (!d2) return fail(e);
	if (m == n) return 0;
	if (n->dir) return fail(EPERM);
	K.set_entry(d2, l2, n, b); K.del_entry(d1, l1); K.log(SC_RENAME, ob, what, 0); return 0;
}
int sim_renameat(int d1, const char *a, int d2, const char *b) { bool ok, ok2; std::string s = path_at(d1, a, &ok), t = path_at(d2, b, &ok2); if (!ok || !ok2) return fail(EBADF); return sim_rename(s.c_str(), t.c_str()); }
int sim_mkdir(const char *a, mode_t m) {
	Fault *f = K.enter(SC_MKDIR, OB_DIR, a, true); if (f) { K.log(SC_MKDIR, OB_DIR, a, -f->arg); return fail((int)f->arg); }
	int e = 0; Inode *d = nullptr; std::string leaf, s = a; while (s.size() > 1 && s.back() == '/') s.pop_back();
	Inode *n = K.lookup(s, &d, &leaf, &e, K.cur->cwd); if (n) { K.log(SC_MKDIR, OB_DIR, a, -EEXIST); return fail(EEXIST); } if (!d) { K.log(SC_MKDIR, OB_DIR, a, -e); return fail(e); }
	if (!may(d, 2)) return fail(EACCES);
	Inode *x = K.mknode(true); x->mode = m & 0777; x->nlink = 1; K.set_entry(d, leaf, x, s); K.log(SC_MKDIR, OB_DIR, a, 0); return 0;
}
int sim_rmdir(const char *a) { K.enter(SC_UNLINK, OB_DIR, a, true); int e = 0; Inode *d; std::string leaf; Inode *n = K.lookup(a, &d, &leaf, &e, K.cur->cwd); if (!n) return fail(e); if (!n->dir) return fail(ENOTDIR); if (!n->ents.empty()) return fail(ENOTEMPTY); K.del_entry(d, leaf); return 0; }
char *sim_getcwd(char *b, size_t n) { snprintf(b, n, "%s", K.cur->cwd.c_str()); return b; }
int sim_chdir(const char *p) { K.cur->cwd = p; return 0; }
char *sim_realpath(const char *p, char *out) { if (!K.lookup(p, nullptr, nullptr, nullptr, K.cur->cwd)) { K.cur->err = ENOENT; return nullptr; } if (!out) out = (char *)ar_malloc(strlen(p) + 1); strcpy(out, p); return out; }

int sim_mkstemp(char *t) { size_t l = strlen(t); for (int i = 0; i < 1000; i++) { snprintf(t + l - 6, 7, "%06d", K.cur->pid * 100 + i); int fd = sim_open(t, O_RDWR | O_CREAT | O_EXCL, 0600); if (fd >= 0 || K.cur->err != EEXIST) return fd; } return -1; }

// ---- memory mapping -----------------------------------------------------------------------
void *sim_mmap(void *, size_t len, int prot, int flags, int fd, off_t off) {
	if (flags & MAP_ANONYMOUS) { char *p = (char *)ar_malloc(len + 8192); char *q = (char *)(((uintptr_t)p + 4096 + 16) & ~4095UL); ((void **)q)[-1] = p; memset(q, 0, len); return q; }
	OFile *o = getf(fd); if (!o || o->k != OFile::FILE_) { fail(EBADF); return MAP_FAILED; }
	Fault *f = K.enter(SC_MMAP, o->ob, o->path.c_str(), true); if (f) { K.log(SC_MMAP, o->ob, o->path.c_str(), -f->arg); fail((int)f->arg); return MAP_FAILED; }
	if (len == 0 || (off & 4095)) { fail(EINVAL); return MAP_FAILED; } (void)prot;
	size_t rl = (len + 4095) & ~4095UL; char *p = (char *)ar_malloc(rl + 8192); char *q = (char *)(((uintptr_t)p + 4096 + 16) & ~4095UL); ((void **)q)[-1] = p;
	memset(q, 0, rl); (void)read_at(o, q, rl, off);
	K.log(SC_MMAP, o->ob, o->path.c_str(), (i64)len); return q;
}
void *sim_mmap64(void *a, size_t len, int prot, int flags, int fd, off_t off) { return sim_mmap(a, len, prot, flags, fd, off); }
int sim_munmap(void *p, size_t) { if ((uintptr_t)p & 4095) return fail(EINVAL); ar_free(((void **)p)[-1]); return 0; }
int sim_madvise(void *, size_t, int) { return 0; }

// ---- pipes, processes --------------------------------------------------------------------------
int sim_pipe(int fd[2]) {
	Fault *f = K.enter(SC_PIPE, OB_PIPE, "pipe", false); if (f) return fail((int)f->arg);
	auto p = std::make_shared<Pipe>(); p->cap = K.pipe_cap; p->readers = p->writers = 1;
	OFile *r = new OFile, *w = new OFile; r->k = OFile::PIPE_R; w->k = OFile::PIPE_W; r->pipe = w->pipe = p; r->ob = w->ob = OB_PIPE; r->path = "pipe-r"; w->path = "pipe-w";
	fd[0] = K.newfd(r); fd[1] = K.newfd(w); K.log(SC_PIPE, OB_PIPE, "pipe", fd[0]); return 0;
}
int sim_pipe2(int fd[2], int) { return sim_pipe(fd); }
int sim_dup2(int a, int b) {
	OFile *o = getf(a); if (!o) return fail(EBADF); if (a == b) return b;
	Fault *f = K.enter(SC_OTHER, o->ob, "dup2", false); if (f) return fail((int)f->arg);
	Proc *p = K.cur; if ((size_t)b >= p->fds.size()) p->fds.resize((size_t)b + 1, nullptr);
	if (p->fds[(size_t)b]) { OFile *x = p->fds[(size_t)b]; p->fds[(size_t)b] = nullptr; K.close_file(x); }
	p->fds[(size_t)b] = o; o->refs++; return b;
}
int sim_dup(int a) { OFile *o = getf(a); if (!o) return fail(EBADF); return K.newfd(o); }
int sim_dup3(int a, int b, int) { return sim_dup2(a, b); }
int sim_fcntl(int fd, int cmd, ...) {
	OFile *o = getf(fd); if (!o) return fail(EBADF); va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
	if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) return K.newfd(o, (int)arg);
	if (cmd == F_GETFL) return o->flags;
	if (cmd == F_SETFL) { o->flags = (o->flags & O_ACCMODE) | (int)arg; return 0; }
	return 0;
}
int sim_fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return sim_fcntl(fd, cmd, arg); }
int sim_flock(int, int) { return 0; }
int sim_lockf(int, int, off_t) { return 0; }
int sim_isatty(int) { return fail(ENOTTY) + 1; }

int sim_poll(struct pollfd *fds, nfds_t n, int timeout) {
	Fault *f = K.enter(SC_POLL, OB_PIPE, "poll", true); if (f) return fail((int)f->arg);
	for (;;) {
		int cnt = 0;
		for (nfds_t i = 0; i < n; i++) {
			fds[i].revents = 0; if (fds[i].fd < 0) continue;
			OFile *o = getf(fds[i].fd); short e = fds[i].events, r = 0;
			if (!o) r = POLLNVAL;
			else if (o->k == OFile::PIPE_R) { if ((e & POLLIN) && !o->pipe->buf.empty()) r |= POLLIN; if (o->pipe->writers == 0) r |= POLLHUP; }
			else if (o->k == OFile::PIPE_W) { if (o->pipe->readers == 0) { r |= POLLERR; if (e & POLLOUT) r |= POLLOUT; } else if ((e & POLLOUT) && o->pipe->buf.size() + 4096 <= o->pipe->cap) r |= POLLOUT; }
			else r = e & (POLLIN | POLLOUT);
			fds[i].revents = r; if (r) cnt++;
		}
		if (cnt || timeout == 0) { K.log(SC_POLL, OB_PIPE, "poll", cnt); return cnt; }
		Proc *p = K.cur; if (p->bk == Proc::B_POLL && p->bpoll_to) { p->bk = Proc::B_NONE; p->bpoll.clear(); p->bpoll_to = false; K.clock_us += (i64)timeout * 1000; return 0; }
		p->bk = Proc::B_POLL; p->bpoll.clear(); for (nfds_t i = 0; i < n; i++) if (fds[i].fd >= 0) p->bpoll.push_back({getf(fds[i].fd), fds[i].events});
		p->bpoll_to = timeout > 0; K.block();
		if (timeout < 0) { p->bpoll.clear(); p->bk = Proc::B_NONE; }
	}
}
int sim_ppoll(struct pollfd *fds, nfds_t n, const struct timespec *ts, const void *) { return sim_poll(fds, n, ts ? (int)(ts->tv_sec * 1000 + ts->tv_nsec / 1000000) : -1); }

pid_t sim_wait4(pid_t pid, int *st, int opt, struct rusage *) {
	Fault *f = K.enter(SC_WAIT, OB_NONE, "wait", true); if (f) return fail((int)f->arg);
	for (;;) {
		bool any = false;
		for (Proc *c : K.procs) if (c->ppid == K.cur->pid && c->st != Proc::DEAD && (pid <= 0 || c->pid == pid)) {
			any = true;
			if (c->st == Proc::ZOMBIE) { if (st) *st = c->status; int r = c->pid; K.reap(c); K.log(SC_WAIT, OB_NONE, "wait", c->status); return r; }
		}
		if (!any) return fail(ECHILD);
		if (opt & WNOHANG) return 0;
		K.cur->bk = Proc::B_WAIT; K.cur->bpid = pid; K.block(); K.cur->bk = Proc::B_NONE;
	}
}
pid_t sim_waitpid(pid_t pid, int *st, int opt) { return sim_wait4(pid, st, opt, nullptr); }
pid_t sim_wait(int *st) { return sim_wait4(-1, st, 0, nullptr); }
pid_t sim_getpid(void) { return K.cur->pid; }
pid_t sim_getppid(void) { return K.cur->ppid; }
uid_t sim_getuid(void) { return K.root ? 0 : 1000; }
uid_t sim_geteuid(void) { return K.root ? 0 : 1000; }
int sim_getpagesize(void) { return 4096; }
long sim_sysconf(int n) { return n == _SC_PAGESIZE ? 4096 : n == _SC_OPEN_MAX ? 1024 : n == _SC_NPROCESSORS_ONLN ? 1 : -1; }
int sim_kill(pid_t pid, int sig) { K.enter(SC_OTHER, OB_NONE, "kill", true); for (Proc *p : K.procs) if (p->pid == pid && (p->st == Proc::RUN || p->st == Proc::BLOCKED)) { if (sig) { K.kill_proc(p, sig, "killed by signal"); if (p == K.cur) K.switch_out(); } return 0; } return fail(ESRCH); }
typedef void (*sighandler)(int);
sighandler sim_signal(int, sighandler) { return SIG_DFL; }
int sim_sigaction(int, const struct sigaction *, struct sigaction *o) { if (o) memset(o, 0, sizeof *o); return 0; }
int sim_sigprocmask(int, const void *, void *) { return 0; }
unsigned sim_alarm(unsigned) { return 0; }
unsigned sim_sleep(unsigned s) { K.enter(SC_OTHER, OB_NONE, "sleep", true); K.clock_us += (i64)s * 1000000; K.sim_us += (i64)s * 1000000; return 0; }
int sim_usleep(unsigned us) { K.enter(SC_OTHER, OB_NONE, "usleep", true); K.clock_us += us; K.sim_us += us; return 0; }
int sim_nanosleep(const struct timespec *t, struct timespec *) { K.enter(SC_OTHER, OB_NONE, "nanosleep", true); i64 u = t->tv_sec * 1000000LL + t->tv_nsec / 1000; K.clock_us += u; K.sim_us += u; return 0; }
int sim_sched_yield(void) { K.enter(SC_OTHER, OB_NONE, "sched_yield", true); return 0; }

static int do_exec(const char *file, char *const *argv, const char *envp_unused) {
	(void)envp_unused;
	Fault *f = K.enter(SC_EXEC, OB_NONE, file, true); if (f) return fail((int)f->arg);
	Proc *p = K.cur; std::string base = file; size_t s = base.rfind('/'); if (s != std::string::npos) base = base.substr(s + 1);
	std::vector<std::string> av; for (int i = 0; argv[i]; i++) av.push_back(argv[i]);
	std::function<int(Proc *)> nat; bool found = true;
	if (base == "aardwarc") nat = nullptr;
	else if (base == "mtree" && K.stub_mtree) nat = [av](Proc *q) { return K.stub_mtree(q, av); };
	else if (base == "sh" && K.stub_sh) nat = [av](Proc *q) { return K.stub_sh(q, av); };
	else if (base == "ssh" && K.stub_ssh) nat = [av](Proc *q) { return K.stub_ssh(q, av); };
	else found = false;
	if (!found) { K.log(SC_EXEC, OB_NONE, file, -ENOENT); return fail(ENOENT); }
	K.log(SC_EXEC, OB_NONE, file, 0);
	p->argv = av; p->prog = base; p->native = nat; p->fresh = true; p->st = Proc::RUN; p->bk = Proc::B_NONE; p->enospc = false;
	nat = nullptr; std::vector<std::string>().swap(av); std::string().swap(base);
	K.switch_out(); abort();
}
int sim_execvp(const char *f, char *const *av) { return do_exec(f, av, nullptr); }
int sim_execv(const char *f, char *const *av) { return do_exec(f, av, nullptr); }
int sim_execve(const char *f, char *const *av, char *const *) { return do_exec(f, av, nullptr); }
static int exec_va(const char *f, const char *a, va_list ap) { const char *av[64]; int n = 0; av[n++] = a; while (n < 63 && av[n - 1]) av[n++] = va_arg(ap, const char *); av[63] = nullptr; return do_exec(f, (char *const *)av, nullptr); }
int sim_execlp(const char *f, const char *a, ...) { va_list ap; va_start(ap, a); int r = exec_va(f, a, ap); va_end(ap); return r; }
int sim_execl(const char *f, const char *a, ...) { va_list ap; va_start(ap, a); int r = exec_va(f, a, ap); va_end(ap); return r; }
int sim_fork(void);
int sim_vfork(void) { return sim_fork(); }
void sim__exit(int st) { K.do_exit((st & 255) << 8); }
void sim__Exit(int st) { K.do_exit((st & 255) << 8); }
void sim_exit(int st) { while (!K.cur->atexits.empty()) { auto f = K.cur->atexits.back(); K.cur->atexits.pop_back(); f(); } sim_exit_flush(); K.do_exit((st & 255) << 8); }
int sim_atexit(void (*f)(void)) { K.cur->atexits.push_back(f); return 0; }
void sim_abort(void) {
	Proc *p = K.cur; K.log(SC_EXIT, OB_NONE, "abort", SIGABRT); p->crash = "abort";
	K.kill_proc(p, SIGABRT, "abort"); K.switch_out(); __builtin_unreachable();
}
void sim___stack_chk_fail(void) { crash_now("stack smashing"); }
void sim___assert_fail(const char *, const char *, unsigned, const char *) { sim_abort(); }
int sim_raise(int sig) { Proc *p = K.cur; K.kill_proc(p, sig, "raise"); K.switch_out(); return 0; }

// ---- environment, time ----------------------------------------------------------------------------
char *sim_getenv(const char *n) { auto it = K.cur->env.find(n); return it == K.cur->env.end() ? nullptr : (char *)it->second.c_str(); }
char *sim_secure_getenv(const char *n) { return sim_getenv(n); }
time_t sim_time(time_t *t) { K.enter(SC_OTHER, OB_NONE, "time", false); time_t r = (time_t)(K.clock_us / 1000000); if (t) *t = r; return r; }
int sim_gettimeofday(struct timeval *tv, void *) { K.enter(SC_OTHER, OB_NONE, "time", false); tv->tv_sec = K.clock_us / 1000000; tv->tv_usec = K.clock_us % 1000000; return 0; }
int sim_clock_gettime(clockid_t c, struct timespec *ts) { K.enter(SC_OTHER, OB_NONE, "time", false); i64 u = c == CLOCK_REALTIME ? K.clock_us : (i64)K.tick * 100; ts->tv_sec = u / 1000000; ts->tv_nsec = (u % 1000000) * 1000; return 0; }

// local time: TZ of the form NAME[+-]h[:mm], west positive, as POSIX has it; nothing else is known
static long tz_off(void) { const char *z = sim_getenv("TZ"); if (!z) return 0; while (*z && (isalpha((unsigned char)*z))) z++; if (!*z) return 0; int sg = -1; if (*z == '-') { sg = 1; z++; } else if (*z == '+') z++; long h = strtol(z, (char **)&z, 10), m = 0; if (*z == ':') m = strtol(z + 1, nullptr, 10); return sg * (h * 3600 + m * 60); }
struct tm *sim_localtime_r(const time_t *t, struct tm *tm) { time_t l = *t + tz_off(); if (!gmtime_r(&l, tm)) return nullptr; tm->tm_gmtoff = tz_off(); return tm; }
struct tm *sim_localtime(const time_t *t) { static struct tm tm; return sim_localtime_r(t, &tm); }
struct tm *sim_gmtime(const time_t *t) { static struct tm tm; return gmtime_r(t, &tm); }
time_t sim_mktime(struct tm *tm) { time_t l = timegm(tm); return l - tz_off(); }
void sim_tzset(void) {}
// randomness, should the code come to use any: a fixed stream per process
static u64 rnd_(void) { Proc *p = K.cur; p->rnd = mix64(p->rnd + 0x9e3779b97f4a7c15ULL * (u64)(p->pid + 1)); return p->rnd; }
long sim_random(void) { return (long)(rnd_() >> 33); }
int sim_rand(void) { return (int)(rnd_() >> 33); }
void sim_srandom(unsigned) {}
void sim_srand(unsigned) {}
void sim_srandomdev(void) {}
long sim_lrand48(void) { return (long)(rnd_() >> 33); }
double sim_drand48(void) { return (double)(rnd_() >> 11) / 9007199254740992.0; }
uint32_t sim_arc4random(void) { return (uint32_t)rnd_(); }
uint32_t sim_arc4random_uniform(uint32_t n) { return n ? (uint32_t)(rnd_() % n) : 0; }
void sim_arc4random_buf(void *b, size_t n) { for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = (unsigned char)rnd_(); }
int sim_getentropy(void *b, size_t n) { sim_arc4random_buf(b, n); return 0; }
ssize_t sim_getrandom(void *b, size_t n, unsigned) { sim_arc4random_buf(b, n); return (ssize_t)n; }
int sim_gethostname(char *b, size_t n) { snprintf(b, n, "simhost"); return 0; }
clock_t sim_clock(void) { return (clock_t)K.tick; }

// ---- allocation --------------------------------------------------------------------------------------
static bool alloc_fails(void) { Fault *f = K.enter(SC_MALLOC, OB_NONE, "malloc", false); K.tick--; if (f) { K.cur->err = ENOMEM; return true; } return false; }
// memory is limited: nobody gets more than this in one piece
static bool too_much(size_t n) { if (K.cur->op) K.cur->op->max_alloc = std::max(K.cur->op->max_alloc, n); if (n <= (96UL << 20)) return false; K.st.err_kinds["memory exhausted"]++; K.cur->err = ENOMEM; return true; }
void *sim_malloc(size_t n) { if (alloc_fails() || too_much(n)) return nullptr; return ar_malloc(n); }
void *sim_calloc(size_t a, size_t b) { if (alloc_fails() || too_much(b && a > ~0UL / b ? ~0UL : a * b)) return nullptr; void *p = ar_malloc(a * b); memset(p, 0, a * b); return p; }
void *sim_realloc(void *p, size_t n) { if (alloc_fails() || too_much(n)) return nullptr; return ar_realloc(p, n); }
void *sim_reallocarray(void *p, size_t a, size_t b) { return sim_realloc(p, a * b); }
void *sim_reallocf(void *p, size_t n) { void *q = sim_realloc(p, n); if (!q) ar_free(p); return q; }
void sim_free(void *p) { ar_free(p); }
char *sim_strdup(const char *s) { if (alloc_fails()) return nullptr; size_t n = strlen(s) + 1; char *p = (char *)ar_malloc(n); memcpy(p, s, n); return p; }
char *sim_strndup(const char *s, size_t m) { if (alloc_fails()) return nullptr; size_t n = strnlen(s, m); char *p = (char *)ar_malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
int sim_vasprintf(char **r, const char *f, va_list ap) { va_list a2; va_copy(a2, ap); int n = vsnprintf(nullptr, 0, f, a2); va_end(a2); if (n < 0) return n; if (alloc_fails()) { *r = nullptr; return -1; } *r = (char *)ar_malloc((size_t)n + 1); vsnprintf(*r, (size_t)n + 1, f, ap); return n; }
int sim_asprintf(char **r, const char *f, ...) { va_list ap; va_start(ap, f); int n = sim_vasprintf(r, f, ap); va_end(ap); return n; }
int sim_posix_memalign(void **r, size_t, size_t n) { *r = sim_malloc(n); return *r ? 0 : ENOMEM; }

// ---- zlib and libmd: same code, memory from the simulated process -------------------------------------
static void *z_alloc(void *, unsigned a, unsigned b) { void *p = sim_malloc((size_t)a * b); return p; }
static void z_free(void *, void *p) { ar_free(p); }
int sim_deflateInit2_(z_streamp z, int l, int m, int w, int mem, int st, const char *v, int sz) { z->zalloc = z_alloc; z->zfree = z_free; return deflateInit2_(z, l, m, w, mem, st, v, sz); }
int sim_deflateInit_(z_streamp z, int l, const char *v, int sz) { z->zalloc = z_alloc; z->zfree = z_free; return deflateInit_(z, l, v, sz); }
int sim_inflateInit2_(z_streamp z, int w, const char *v, int sz) { z->zalloc = z_alloc; z->zfree = z_free; return inflateInit2_(z, w, v, sz); }
int sim_inflateInit_(z_streamp z, const char *v, int sz) { z->zalloc = z_alloc; z->zfree = z_free; return inflateInit_(z, v, sz); }
char *sim_SHA256_End(SHA2_CTX *c, char *buf) { if (!buf) { buf = (char *)sim_malloc(SHA256_DIGEST_STRING_LENGTH); if (!buf) return nullptr; } return SHA256End(c, buf); }
char *sim_SHA256End(SHA2_CTX *c, char *buf) { return sim_SHA256_End(c, buf); }
char *sim_SHA256_Data(const void *d, size_t n, char *buf) { SHA2_CTX c; SHA256Init(&c); SHA256Update(&c, (const uint8_t *)d, n); return sim_SHA256_End(&c, buf); }
char *sim_SHA256Data(const void *d, size_t n, char *buf) { return sim_SHA256_Data(d, n, buf); }
int sim_flush_dummy(void) { return 0; }

// ---- getopt (BSD semantics: stops at the first operand) ---------------------------------------------------
GLOBAL int sim_optind = 1; GLOBAL int sim_opterr = 1; GLOBAL int sim_optopt = '?'; GLOBAL int sim_optreset = 0; GLOBAL char *sim_optarg = nullptr;
GLOBAL char *opt_place = nullptr;
int sim_fprintf(void *f, const char *fmt, ...);
}
struct SFILE;
extern "C" { extern SFILE *sim_stderr;
int sim_bsd_getopt(int argc, char *const *argv, const char *os) {
	static char empty[1] = ""; if (*os == '+' || *os == '-') os++;
	if (sim_optreset || !opt_place || !*opt_place) {
		sim_optreset = 0;
		if (sim_optind >= argc || *(opt_place = argv[sim_optind]) != '-') { opt_place = empty; return -1; }
		if (opt_place[1] == 0) { opt_place = empty; return -1; }
		if (*++opt_place == '-' && opt_place[1] == 0) { ++sim_optind; opt_place = empty; return -1; }
	}
	int c = *opt_place++; const char *q = c == ':' ? nullptr : strchr(os, c);
	if (!q) { if (!*opt_place) ++sim_optind; if (sim_opterr) sim_fprintf(sim_stderr, "%s: invalid option -- '%c'\n", argv[0], c); sim_optopt = c; return '?'; }
	if (q[1] != ':') { sim_optarg = nullptr; if (!*opt_place) ++sim_optind; return c; }
	if (*opt_place) sim_optarg = opt_place;
	else if (argc <= ++sim_optind) { opt_place = empty; if (sim_opterr) sim_fprintf(sim_stderr, "%s: option requires an argument -- '%c'\n", argv[0], c); sim_optopt = c; return *os == ':' ? ':' : '?'; }
	else sim_optarg = argv[sim_optind];
	opt_place = empty; ++sim_optind; return c;
}
int sim_getopt(int argc, char *const *argv, const char *os) { return sim_bsd_getopt(argc, argv, os); }
}
// ---- stdio ------------------------------------------------------------------------------------------------------
struct SFILE { int fd; bool rd, wr, app, err, eof, unbuf, line, stat_; int mode; unsigned char *buf; size_t cap, rpos, rend, wpos; int unget; SFILE *next; };
extern "C" {
GLOBAL SFILE f_in = {0, true, false, false, false, false, false, false, true, 0, nullptr, 4096, 0, 0, 0, -1, nullptr};
GLOBAL SFILE f_out = {1, false, true, false, false, false, false, false, true, 0, nullptr, 4096, 0, 0, 0, -1, nullptr};
GLOBAL SFILE f_err = {2, false, true, false, false, false, true, false, true, 0, nullptr, 4096, 0, 0, 0, -1, nullptr};
GLOBAL SFILE *sim_stdin = &f_in; GLOBAL SFILE *sim_stdout = &f_out; GLOBAL SFILE *sim_stderr = &f_err; GLOBAL SFILE *f_list = nullptr;
void sim_libc_init(void) {}
static int flush1(SFILE *f) {
	if (f->mode != 2) return 0;
	size_t off = 0; int rc = 0;
	while (off < f->wpos) { ssize_t r = sim_write(f->fd, f->buf + off, f->wpos - off); if (r <= 0) { f->err = true; rc = -1; break; } off += (size_t)r; }
	f->wpos = 0; return rc;	// like glibc: what could not be written is gone
}
static void need_buf(SFILE *f) { if (!f->buf) f->buf = (unsigned char *)ar_malloc(f->cap); }
static void to_write(SFILE *f) { if (f->mode == 1) { if (f->rend > f->rpos) sim_lseek(f->fd, -(off_t)(f->rend - f->rpos), SEEK_CUR); f->rpos = f->rend = 0; } f->mode = 2; need_buf(f); }
static void to_read(SFILE *f) { if (f->mode == 2) flush1(f); f->mode = 1; need_buf(f); }
static size_t wr(SFILE *f, const char *p, size_t n) {
	if (!f->wr) { f->err = true; fail(EBADF); return 0; }
	to_write(f); size_t done = 0;
	if (f->unbuf) { while (done < n) { ssize_t r = sim_write(f->fd, p + done, n - done); if (r <= 0) { f->err = true; return done; } done += (size_t)r; } return done; }
	while (done < n) {
		if (f->wpos == f->cap) { if (flush1(f)) return done; }
		if (f->wpos == 0 && n - done >= f->cap) { size_t m = (n - done) / f->cap * f->cap; ssize_t r = sim_write(f->fd, p + done, m); if (r <= 0) { f->err = true; return done; } done += (size_t)r; continue; }
		size_t m = std::min(f->cap - f->wpos, n - done); memcpy(f->buf + f->wpos, p + done, m); f->wpos += m; done += m;
	}
	if (f->line && memchr(p, '\n', n)) flush1(f);
	return done;
}
static size_t rdb(SFILE *f, char *p, size_t n) {
	if (!f->rd) { f->err = true; fail(EBADF); return 0; }
	to_read(f); size_t done = 0;
	if (f->unget >= 0 && n) { p[done++] = (char)f->unget; f->unget = -1; }
	while (done < n) {
		if (f->rpos < f->rend) { size_t m = std::min(n - done, f->rend - f->rpos); memcpy(p + done, f->buf + f->rpos, m); f->rpos += m; done += m; continue; }
		if (n - done >= f->cap && !f->unbuf) { ssize_t r = sim_read(f->fd, p + done, (n - done) / f->cap * f->cap); if (r < 0) { f->err = true; break; } if (r == 0) { f->eof = true; break; } done += (size_t)r; continue; }
		ssize_t r = sim_read(f->fd, f->buf, f->cap); if (r < 0) { f->err = true; break; } if (r == 0) { f->eof = true; break; }
		f->rpos = 0; f->rend = (size_t)r;
	}
	return done;
}
static SFILE *mkfile(int fd, bool r, bool w, bool app) { SFILE *f = (SFILE *)ar_malloc(sizeof(SFILE)); memset(f, 0, sizeof *f); f->fd = fd; f->rd = r; f->wr = w; f->app = app; f->cap = 4096; f->unget = -1; f->next = f_list; f_list = f; return f; }
static int modeflags(const char *m, bool &r, bool &w, bool &a) {
	r = *m == 'r'; w = *m != 'r'; a = *m == 'a'; int fl = *m == 'r' ? O_RDONLY : *m == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
	for (const char *q = m + 1; *q; q++) { if (*q == '+') { r = w = true; fl = (fl & ~O_ACCMODE) | O_RDWR; } if (*q == 'x') fl |= O_EXCL; }
	return fl;
}
SFILE *sim_fopen(const char *path, const char *m) { bool r, w, a; int fl = modeflags(m, r, w, a); int fd = sim_open(path, fl, 0666); if (fd < 0) return nullptr; return mkfile(fd, r, w, a); }
SFILE *sim_fopen64(const char *path, const char *m) { return sim_fopen(path, m); }
SFILE *sim_fdopen(int fd, const char *m) { bool r, w, a; modeflags(m, r, w, a); if (!getf(fd)) { fail(EBADF); return nullptr; } return mkfile(fd, r, w, a); }
SFILE *sim_tmpfile(void) {
	Fault *f = K.enter(SC_CREAT, OB_FILE, "tmpfile", false); if (f) { fail((int)f->arg); return nullptr; }
	Inode *n = K.mknode(false); OFile *o = new OFile; o->k = OFile::FILE_; o->flags = O_RDWR; o->ino = n; n->opens = 1; o->path = "tmpfile"; int fd = K.newfd(o); return mkfile(fd, true, true, false);
}
SFILE *sim_tmpfile64(void) { return sim_tmpfile(); }
int sim_fflush(SFILE *f) { if (!f) { int r = 0; for (SFILE *q = f_list; q; q = q->next) r |= flush1(q); r |= flush1(sim_stdout); return r ? EOF : 0; } if (f->mode == 1 && f->rend > f->rpos && getf(f->fd) && getf(f->fd)->k == OFile::FILE_) { sim_lseek(f->fd, -(off_t)(f->rend - f->rpos), SEEK_CUR); f->rpos = f->rend = 0; } return flush1(f) ? EOF : 0; }
int sim_fclose(SFILE *f) {
	int r = flush1(f); if (sim_close(f->fd)) r = -1;
	for (SFILE **q = &f_list; *q; q = &(*q)->next) if (*q == f) { *q = f->next; break; }
	if (f->buf) ar_free(f->buf);
	f->buf = nullptr; if (!f->stat_) ar_free(f);
	return r ? EOF : 0;
}
void sim_exit_flush(void) { flush1(sim_stdout); for (SFILE *q = f_list; q; q = q->next) flush1(q); }
size_t sim_fread(void *p, size_t a, size_t b, SFILE *f) { if (!a || !b) return 0; return rdb(f, (char *)p, a * b) / a; }
size_t sim_fwrite(const void *p, size_t a, size_t b, SFILE *f) { if (!a || !b) return 0; return wr(f, (const char *)p, a * b) / a; }
size_t sim_fread_unlocked(void *p, size_t a, size_t b, SFILE *f) { return sim_fread(p, a, b, f); }
size_t sim_fwrite_unlocked(const void *p, size_t a, size_t b, SFILE *f) { return sim_fwrite(p, a, b, f); }
int sim_fputs(const char *s, SFILE *f) { size_t n = strlen(s); return wr(f, s, n) == n ? 1 : EOF; }
int sim_fputc(int c, SFILE *f) { char b = (char)c; return wr(f, &b, 1) == 1 ? (unsigned char)c : EOF; }
int sim_putc(int c, SFILE *f) { return sim_fputc(c, f); }
int sim__IO_putc(int c, SFILE *f) { return sim_fputc(c, f); }
int sim_putchar(int c) { return sim_fputc(c, sim_stdout); }
int sim_puts(const char *s) { if (sim_fputs(s, sim_stdout) < 0) return EOF; return sim_fputc('\n', sim_stdout); }
int sim_fgetc(SFILE *f) { unsigned char c; return rdb(f, (char *)&c, 1) == 1 ? c : EOF; }
int sim_getc(SFILE *f) { return sim_fgetc(f); }
int sim__IO_getc(SFILE *f) { return sim_fgetc(f); }
int sim_getchar(void) { return sim_fgetc(sim_stdin); }
int sim_ungetc(int c, SFILE *f) { f->unget = c & 255; f->eof = false; return c; }
char *sim_fgets(char *b, int n, SFILE *f) { int i = 0; while (i < n - 1) { int c = sim_fgetc(f); if (c == EOF) break; b[i++] = (char)c; if (c == '\n') break; } if (!i) return nullptr; b[i] = 0; return b; }
ssize_t sim_getdelim(char **l, size_t *n, int d, SFILE *f) { size_t i = 0; for (;;) { int c = sim_fgetc(f); if (c == EOF) break; if (!*l || i + 2 > *n) { *n = (i + 2) * 2; *l = (char *)ar_realloc(*l, *n); } (*l)[i++] = (char)c; if (c == d) break; } if (!i) return -1; (*l)[i] = 0; return (ssize_t)i; }
ssize_t sim_getline(char **l, size_t *n, SFILE *f) { return sim_getdelim(l, n, '\n', f); }
ssize_t sim___getdelim(char **l, size_t *n, int d, SFILE *f) { return sim_getdelim(l, n, d, f); }
int sim_feof(SFILE *f) { return f->eof; }
int sim_ferror(SFILE *f) { return f->err; }
void sim_clearerr(SFILE *f) { f->err = f->eof = false; }
int sim_fileno(SFILE *f) { return f->fd; }
int sim_setvbuf(SFILE *f, char *, int mode, size_t) { flush1(f); f->unbuf = mode == _IONBF; f->line = mode == _IOLBF; return 0; }
void sim_setbuf(SFILE *f, char *b) { flush1(f); f->unbuf = b == nullptr; }
void sim_setlinebuf(SFILE *f) { f->line = true; }
int sim_fseeko(SFILE *f, off_t off, int wh) {
	if (f->mode == 2) { if (flush1(f)) return -1; }
	if (f->mode == 1 && wh == SEEK_CUR) off -= (off_t)(f->rend - f->rpos);
	f->rpos = f->rend = 0; f->unget = -1; if (f->mode == 1) f->mode = 0;
	if (sim_lseek(f->fd, off, wh) < 0) return -1;
	f->eof = false; return 0;
}
int sim_fseeko64(SFILE *f, off_t off, int wh) { return sim_fseeko(f, off, wh); }
int sim_fseek(SFILE *f, long off, int wh) { return sim_fseeko(f, off, wh); }
off_t sim_ftello(SFILE *f) { off_t o = sim_lseek(f->fd, 0, SEEK_CUR); if (o < 0) return o; if (f->mode == 2) { if (f->app && f->wpos) { OFile *x = getf(f->fd); if (x && x->ino) o = (off_t)x->ino->size(); } return o + (off_t)f->wpos; } if (f->mode == 1) return o - (off_t)(f->rend - f->rpos); return o; }
off_t sim_ftello64(SFILE *f) { return sim_ftello(f); }
long sim_ftell(SFILE *f) { return sim_ftello(f); }
void sim_rewind(SFILE *f) { sim_fseeko(f, 0, SEEK_SET); f->err = false; }
int sim_vfprintf(SFILE *f, const char *fmt, va_list ap) {
	char sb[1024]; va_list a2; va_copy(a2, ap); int n = vsnprintf(sb, sizeof sb, fmt, a2); va_end(a2); if (n < 0) return n;
	if ((size_t)n < sizeof sb) return wr(f, sb, (size_t)n) == (size_t)n ? n : -1;
	char *b = (char *)ar_malloc((size_t)n + 1); vsnprintf(b, (size_t)n + 1, fmt, ap); size_t r = wr(f, b, (size_t)n); ar_free(b); return r == (size_t)n ? n : -1;
}
int sim_fprintf(void *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vfprintf((SFILE *)f, fmt, ap); va_end(ap); return r; }
int sim_printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vfprintf(sim_stdout, fmt, ap); va_end(ap); return r; }
int sim_vprintf(const char *fmt, va_list ap) { return sim_vfprintf(sim_stdout, fmt, ap); }
int sim_dprintf(int fd, const char *fmt, ...) { char sb[4096]; va_list ap; va_start(ap, fmt); int n = vsnprintf(sb, sizeof sb, fmt, ap); va_end(ap); return (int)sim_write(fd, sb, std::min<size_t>((size_t)n, sizeof sb - 1)); }
void sim_perror(const char *s) { sim_fprintf(sim_stderr, "%s: %s\n", s, strerror(K.cur->err)); }
static void vwarn_(const char *fmt, va_list ap, bool e) { int er = K.cur->err; sim_fprintf(sim_stderr, "aardwarc: "); if (fmt) sim_vfprintf(sim_stderr, fmt, ap); if (e) sim_fprintf(sim_stderr, ": %s", strerror(er)); sim_fprintf(sim_stderr, "\n"); }
void sim_warn(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vwarn_(fmt, ap, true); va_end(ap); }
void sim_warnx(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vwarn_(fmt, ap, false); va_end(ap); }
void sim_err(int x, const char *fmt, ...) { va_list ap; va_start(ap, fmt); vwarn_(fmt, ap, true); va_end(ap); sim_exit(x); }
void sim_errx(int x, const char *fmt, ...) { va_list ap; va_start(ap, fmt); vwarn_(fmt, ap, false); va_end(ap); sim_exit(x); }

// ---- directories -------------------------------------------------------------------------------------------------
struct SDIR { char *names; int n, i; struct { unsigned long d_ino; long d_off; unsigned short d_reclen; unsigned char d_type; char d_name[256]; } de; };
SDIR *sim_opendir(const char *path) {
	Fault *f = K.enter(SC_OPEN, OB_DIR, path, true); if (f) { fail((int)f->arg); return nullptr; }
	int e = 0; Inode *n = K.lookup(path, nullptr, nullptr, &e, K.cur->cwd); if (!n || !n->dir) { fail(n ? ENOTDIR : e); return nullptr; }
	SDIR *d = (SDIR *)ar_malloc(sizeof *d); memset(d, 0, sizeof *d); d->n = (int)n->ents.size(); d->names = (char *)ar_malloc((size_t)d->n * 257 + 1); int i = 0;
	for (auto &en : n->ents) { char *p = d->names + 257 * i++; p[0] = en.second->dir ? 4 : 8; snprintf(p + 1, 256, "%s", en.first.c_str()); }
	return d;
}
void *sim_readdir(SDIR *d) { if (d->i >= d->n) return nullptr; char *p = d->names + 257 * d->i++; d->de.d_type = (unsigned char)p[0]; d->de.d_ino = (unsigned long)d->i; snprintf(d->de.d_name, 256, "%s", p + 1); return &d->de; }
void *sim_readdir64(SDIR *d) { return sim_readdir(d); }
int sim_closedir(SDIR *d) { ar_free(d->names); ar_free(d); return 0; }
}
