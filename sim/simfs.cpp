#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstring>
#include <set>

#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/uio.h>
#include <unistd.h>

#include "simfs.hpp"

namespace sim::fs {

Disk disk;
Plan plan;
long points = 0;
bool active = false;
int fired = 0, read_faults = 0, write_faults = 0;
bool record_points = true;
std::vector<std::string> touched;
std::function<void()> on_crash;

static int kcount[16];
static bool dead = false;
static int dead_err = EIO;

constexpr int FD_BASE = 1000000;

struct Open {
	bool used = false;
	std::string path;
	Inode inode_copy;      // Kept when the file was replaced or removed while open.
	bool orphan = false;
	off_t pos = 0;
	int flags = 0;
	FILE* file = nullptr;
	bool dirty = false;    // Something was written through it.
};
static std::vector<Open>& opens() { static auto* v = new std::vector<Open>; return *v; }
static std::map<FILE*, int>& files() { static auto* v = new std::map<FILE*, int>; return *v; }

char const* name(Op op) {
	switch(op) {
	case Op::OPEN_R: return "open_r"; case Op::OPEN_W: return "open_w"; case Op::READ: return "read"; case Op::WRITE: return "write";
	case Op::CLOSE: return "close"; case Op::STAT: return "stat"; case Op::RENAME: return "rename"; case Op::UNLINK: return "unlink";
	case Op::SYNC: return "sync"; case Op::CHMOD: return "chmod"; case Op::TRUNCATE: return "truncate"; default: return "other";
	}
}

std::string Disk::serialise() const {
	std::string s;
	for(auto const& [p, n] : nodes)
		s += fmt("%zu %d %u %zu\n", p.size(), (int) n.kind, n.mode, n.data.size()) + p + n.data;
	return s + "0\n";
}
Disk Disk::parse(std::string const& im) {
	Disk d;
	std::size_t off = 0;
	while(off < im.size()) {
		std::size_t ps = 0, ds = 0; int kind = 0; unsigned mode = 0; int n = 0;
		if(sscanf(im.c_str() + off, "%zu %d %u %zu\n%n", &ps, &kind, &mode, &ds, &n) != 4 || !ps) break;
		// The scanned newline may have swallowed leading white space of nothing: paths start with '/'.
		off = im.find('\n', off) + 1;
		Inode in;
		in.kind = (Inode::Kind) kind;
		in.mode = mode;
		std::string p = im.substr(off, ps);
		in.data = im.substr(off + ps, ds);
		off += ps + ds;
		d.nodes[p] = in;
	}
	return d;
}

//---------------------------------------------------------------------- paths
static bool ours(char const* p) { return p && std::strncmp(p, "/sim", 4) == 0 && (p[4] == '/' || p[4] == 0); }

static std::string norm(std::string const& p) {
	std::vector<std::string> parts;
	std::string cur;
	for(std::size_t i = 0; i <= p.size(); ++i) {
		if(i == p.size() || p[i] == '/') {
			if(cur == "..") { if(!parts.empty()) parts.pop_back(); }
			else if(!cur.empty() && cur != ".") parts.push_back(cur);
			cur.clear();
		} else cur += p[i];
	}
	std::string r;
	for(auto const& x : parts) r += "/" + x;
	return r.empty() ? "/" : r;
}
static std::string parent(std::string const& p) {
	auto i = p.rfind('/');
	return i == 0 || i == std::string::npos ? "/" : p.substr(0, i);
}

std::string resolve(std::string path) {
	path = norm(path);
	for(int i = 0; i < 10; ++i) {
		auto it = disk.nodes.find(path);
		if(it == disk.nodes.end() || it->second.kind != Inode::LINK_) return path;
		auto const& t = it->second.data;
		path = norm(t[0] == '/' ? t : parent(path) + "/" + t);
	}
	return path;
}
void put(std::string const& path, std::string const& data, unsigned mode) {
	mkdir_p(parent(path));
	Inode n; n.data = data; n.mode = mode;
	disk.nodes[norm(path)] = n;
}
void mkdir_p(std::string const& path) {
	std::string p = norm(path);
	while(p != "/" && !p.empty()) {
		if(!disk.nodes.contains(p)) { Inode n; n.kind = Inode::DIR_; n.mode = 0755; disk.nodes[p] = n; }
		p = parent(p);
	}
}
bool exists(std::string const& path) { return disk.nodes.contains(resolve(path)); }
std::string const* get(std::string const& path) {
	auto it = disk.nodes.find(resolve(path));
	return it == disk.nodes.end() || it->second.kind != Inode::FILE_ ? nullptr : &it->second.data;
}

void start_life(Plan const& p) {
	plan = p;
	points = 0;
	fired = read_faults = write_faults = 0;
	dead = false;
	std::memset(kcount, 0, sizeof kcount);
	touched.clear();
	active = true;
}
void end_life() { active = false; }

//--------------------------------------------------------------------- faults
static void crash_now(char const* where) {
	count("fault.crash");
	event(fmt("CRASH at I/O point %ld (%s)", points, where));
	active = false;
	if(on_crash) on_crash();
	_exit(0);
}

// One I/O point.  Returns the fault that applies, if any.
static Fault* point(Op op, std::string const& path) {
	if(!active) return nullptr;
	++points;
	int const k = kcount[(int) op]++;
	if(record_points) event(fmt("io %ld %s %s", points, name(op), path.c_str()));
	if(plan.crash_at >= 0 && points == plan.crash_at && plan.crash_arg % 3 == 0) crash_now("before");
	if(dead && op != Op::CLOSE && op != Op::STAT) {
		static Fault f { op, 0, Fault::ERR, EIO, 0 };
		f.err = dead_err;
		count((std::string("fault.dead_device_") + name(op)).c_str());
		return &f;
	}
	for(auto& f : plan.faults) {
		if(f.fired || f.op != op || f.k != k) continue;
		f.fired = true;
		++fired;
		if(op == Op::OPEN_R || op == Op::READ) ++read_faults; else ++write_faults;
		static char const* const what[] = { "error", "short", "torn", "vanish" };
		count(fmt("fault.%s_%s%s", name(op), what[f.what], f.what == Fault::ERR ? fmt("_%d", f.err).c_str() : "").c_str());
		event(fmt("FAULT %s %s errno %d", name(op), what[f.what], f.err));
		if(f.sticky) { dead = true; dead_err = f.err; }
		return &f;
	}
	return nullptr;
}
static void after(char const* where) {
	if(active && plan.crash_at >= 0 && points == plan.crash_at && plan.crash_arg % 3 != 0) crash_now(where);
}
static void touch(std::string const& p) { if(active) touched.push_back(p); }

static int dir_error(std::string const& p) { // Errors of the directory part.
	auto d = resolve(parent(p));
	auto it = disk.nodes.find(d);
	if(it == disk.nodes.end()) return ENOENT;
	if(it->second.kind != Inode::DIR_) return ENOTDIR;
	return 0;
}
static bool dir_writable(std::string const& p) {
	auto it = disk.nodes.find(resolve(parent(p)));
	return !plan.permissions || !active || (it != disk.nodes.end() && (it->second.mode & 0200));
}
static std::string real_dir(std::string const& path) { // Resolves links in the directory part.
	auto p = norm(path);
	auto d = resolve(parent(p));
	auto i = p.rfind('/');
	return d + p.substr(i);
}

//----------------------------------------------------------------- primitives
static int do_open(std::string const& raw, int flags, unsigned mode) {
	bool const w = (flags & O_ACCMODE) != O_RDONLY;
	std::string path = real_dir(raw);
	if(auto* f = point(w ? Op::OPEN_W : Op::OPEN_R, path)) {
		if(f->what == Fault::VANISH) { disk.nodes.erase(resolve(path)); }
		else { errno = f->err; return -1; }
	}
	if(int e = dir_error(path)) { errno = e; return -1; }
	if((flags & O_NOFOLLOW)) {
		auto it = disk.nodes.find(path);
		if(it != disk.nodes.end() && it->second.kind == Inode::LINK_) { errno = ELOOP; return -1; }
	}
	if((flags & O_CREAT) && (flags & O_EXCL) && disk.nodes.contains(path)) { errno = EEXIST; return -1; }
	path = resolve(path);
	auto it = disk.nodes.find(path);
	if(it == disk.nodes.end()) {
		if(!(flags & O_CREAT)) { errno = ENOENT; return -1; }
		if(int e = dir_error(path)) { errno = e; return -1; }
		if(!dir_writable(path)) { errno = EACCES; return -1; }
		Inode n; n.mode = mode & ~022u & 0777;
		disk.nodes[path] = n;
		touch(path);
	} else {
		if(it->second.kind == Inode::DIR_ && w) { errno = EISDIR; return -1; }
		if(plan.permissions && active) {
			if(w && !(it->second.mode & 0200)) { errno = EACCES; return -1; }
			if((flags & O_ACCMODE) != O_WRONLY && !(it->second.mode & 0400)) { errno = EACCES; return -1; }
		}
		if((flags & O_TRUNC) && w) {
			if(!it->second.data.empty() && plan.capacity >= 0) plan.capacity += (long) it->second.data.size();
			it->second.data.clear();
			touch(path);
		}
	}
	after("open");
	auto& v = opens();
	std::size_t i = 0;
	while(i < v.size() && v[i].used) ++i;
	if(i == v.size()) v.emplace_back();
	v[i] = Open();
	v[i].used = true;
	v[i].path = path;
	v[i].flags = flags;
	return FD_BASE + (int) i;
}
static Open* of(int fd) {
	if(fd < FD_BASE) return nullptr;
	auto& v = opens();
	std::size_t const i = (std::size_t) (fd - FD_BASE);
	return i < v.size() && v[i].used ? &v[i] : nullptr;
}
static std::string* content(Open& o) {
	if(o.orphan) return &o.inode_copy.data;
	auto it = disk.nodes.find(o.path);
	return it == disk.nodes.end() ? nullptr : &it->second.data;
}
static void orphan(std::string const& path) { // The node at path goes away; open files keep it.
	auto it = disk.nodes.find(path);
	if(it == disk.nodes.end()) return;
	for(auto& o : opens()) if(o.used && !o.orphan && o.path == path) { o.orphan = true; o.inode_copy = it->second; }
}

static ssize_t do_read(Open& o, void* buf, std::size_t n, off_t* at) {
	std::size_t want = n;
	if(auto* f = point(Op::READ, o.path)) {
		if(f->what == Fault::ERR || f->what == Fault::TORN) { errno = f->err; return -1; }
		if(want) want = std::min<std::size_t>(want, 1 + (std::size_t) f->arg % want);
	}
	auto* c = content(o);
	if(!c) { errno = EIO; return -1; }
	if(disk.nodes.contains(o.path) && !o.orphan && disk.nodes[o.path].kind == Inode::DIR_) { errno = EISDIR; return -1; }
	if(plan.chunk && active) want = std::min<std::size_t>(want, (std::size_t) plan.chunk);
	std::size_t const pos = std::min<std::size_t>((std::size_t) *at, c->size());
	std::size_t const k = std::min(want, c->size() - pos);
	std::memcpy(buf, c->data() + pos, k);
	*at += (off_t) k;
	if(k < n && k && pos + k < c->size()) count("fault.read_partial");
	return (ssize_t) k;
}

static ssize_t do_write(Open& o, void const* buf, std::size_t n, off_t* at) {
	std::size_t want = n;
	int err_after = 0;
	if(auto* f = point(Op::WRITE, o.path)) {
		if(f->what == Fault::ERR) { errno = f->err; return -1; }
		if(want) want = std::min<std::size_t>(want, (f->what == Fault::TORN ? 0 : 1) + (std::size_t) f->arg % want);
		if(f->what == Fault::TORN) err_after = f->err;
	}
	if((o.flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
	auto* c = content(o);
	if(!c) { errno = EIO; return -1; }
	if(plan.chunk && active) want = std::min<std::size_t>(want, (std::size_t) plan.chunk);
	if(plan.capacity >= 0 && active && !err_after) {
		if((long) want > plan.capacity) {
			want = (std::size_t) plan.capacity;
			count("fault.write_disk_full");
			++fired; ++write_faults;
			if(!want && n) { event("FAULT disk full"); errno = ENOSPC; return -1; }
		}
		plan.capacity -= (long) want;
	}
	bool const crash_in = active && plan.crash_at >= 0 && points == plan.crash_at && plan.crash_arg % 3 == 1 && want;
	if(crash_in) want = (std::size_t) (plan.crash_arg / 3) % (want + 1);
	off_t pos = (o.flags & O_APPEND) ? (off_t) c->size() : *at;
	if((std::size_t) pos > c->size()) c->resize((std::size_t) pos);
	c->replace((std::size_t) pos, std::min(want, c->size() - (std::size_t) pos), (char const*) buf, want);
	*at = pos + (off_t) want;
	o.dirty = true;
	touch(o.path);
	after(crash_in ? "in write" : "write");
	if(err_after) { errno = err_after; return -1; }
	if(want < n) count("fault.write_partial");
	return (ssize_t) want;
}

static int do_close(int fd) {
	auto* o = of(fd);
	if(!o) { errno = EBADF; return -1; }
	bool const w = (o->flags & O_ACCMODE) != O_RDONLY;
	int err = 0;
	if(w && o->dirty) { if(auto* f = point(Op::CLOSE, o->path)) err = f->err; }
	o->used = false;
	if(w) after("close");
	if(err) { errno = err; return -1; }
	return 0;
}

static void fill(struct stat* st, Inode const& n, std::string const& path) {
	std::memset(st, 0, sizeof *st);
	st->st_mode = n.mode | (n.kind == Inode::DIR_ ? S_IFDIR : n.kind == Inode::LINK_ ? S_IFLNK : S_IFREG);
	st->st_size = (off_t) n.data.size();
	st->st_nlink = 1;
	st->st_dev = 42;
	st->st_ino = fnv(path) | 1;
	st->st_uid = st->st_gid = 1000;
	st->st_blksize = 4096;
	st->st_blocks = (st->st_size + 511) / 512;
}
static int do_stat(std::string const& raw, struct stat* st, bool follow) {
	std::string path = real_dir(raw);
	if(auto* f = point(Op::STAT, path)) { errno = f->err; return -1; }
	if(path != "/sim") if(int e = dir_error(path)) { errno = e; return -1; }
	if(follow) path = resolve(path);
	auto it = disk.nodes.find(path);
	if(it == disk.nodes.end()) { errno = ENOENT; return -1; }
	fill(st, it->second, path);
	return 0;
}
static int do_fstat(int fd, struct stat* st) {
	auto* o = of(fd);
	if(!o) { errno = EBADF; return -1; }
	if(auto* f = point(Op::STAT, o->path)) { errno = f->err; return -1; }
	if(o->orphan) fill(st, o->inode_copy, o->path);
	else {
		auto it = disk.nodes.find(o->path);
		if(it == disk.nodes.end()) { errno = EIO; return -1; }
		fill(st, it->second, o->path);
	}
	return 0;
}
static int do_rename(std::string const& a0, std::string const& b0) {
	std::string const a = real_dir(a0), b = real_dir(b0);
	if(auto* f = point(Op::RENAME, b)) { errno = f->err; return -1; }
	auto it = disk.nodes.find(a);
	if(it == disk.nodes.end()) { errno = ENOENT; return -1; }
	if(int e = dir_error(b)) { errno = e; return -1; }
	if(!dir_writable(a) || !dir_writable(b)) { errno = EACCES; return -1; }
	auto jt = disk.nodes.find(b);
	if(jt != disk.nodes.end() && jt->second.kind == Inode::DIR_ && it->second.kind != Inode::DIR_) { errno = EISDIR; return -1; }
	if(a != b) {
		orphan(b);
		for(auto& o : opens()) if(o.used && !o.orphan && o.path == a) o.path = b;
		Inode n = it->second;
		disk.nodes.erase(a);
		disk.nodes[b] = n;
		touch(a); touch(b);
	}
	after("rename");
	return 0;
}
static int do_unlink(std::string const& p0) {
	std::string const p = real_dir(p0);
	if(auto* f = point(Op::UNLINK, p)) { errno = f->err; return -1; }
	auto it = disk.nodes.find(p);
	if(it == disk.nodes.end()) { errno = ENOENT; return -1; }
	if(it->second.kind == Inode::DIR_) { errno = EISDIR; return -1; }
	if(!dir_writable(p)) { errno = EACCES; return -1; }
	orphan(p);
	disk.nodes.erase(it);
	touch(p);
	after("unlink");
	return 0;
}
static int do_truncate(std::string const& path, off_t n) {
	if(auto* f = point(Op::TRUNCATE, path)) { errno = f->err; return -1; }
	auto it = disk.nodes.find(resolve(path));
	if(it == disk.nodes.end()) { errno = ENOENT; return -1; }
	if(plan.permissions && active && !(it->second.mode & 0200)) { errno = EACCES; return -1; }
	it->second.data.resize((std::size_t) n);
	touch(path);
	after("truncate");
	return 0;
}

//-------------------------------------------------------------------- cookies
static ssize_t ck_read(void* c, char* buf, size_t n) {
	auto* o = of((int) (intptr_t) c);
	return o ? do_read(*o, buf, n, &o->pos) : -1;
}
static ssize_t ck_write(void* c, char const* buf, size_t n) {
	auto* o = of((int) (intptr_t) c);
	if(!o) return 0;
	// As stdio does on a descriptor: goes on after short writes, stops at an error.
	std::size_t done = 0;
	while(done < n) {
		ssize_t k = do_write(*o, buf + done, n - done, &o->pos);
		if(k < 0) return (ssize_t) done;
		done += (std::size_t) k;
	}
	return (ssize_t) done;
}
static int ck_seek(void* c, off64_t* off, int whence) {
	auto* o = of((int) (intptr_t) c);
	if(!o) return -1;
	auto* d = content(*o);
	off_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? o->pos : (off_t) (d ? d->size() : 0);
	o->pos = base + *off;
	*off = o->pos;
	return 0;
}
static int ck_close(void* c) { return do_close((int) (intptr_t) c); }

static int mode_flags(char const* m) {
	bool const plus = std::strchr(m, '+');
	switch(m[0]) {
	case 'r': return plus ? O_RDWR : O_RDONLY;
	case 'w': return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC | (std::strchr(m, 'x') ? O_EXCL : 0);
	default:  return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
	}
}
static FILE* wrap(int fd, char const* mode) {
	cookie_io_functions_t io { ck_read, ck_write, ck_seek, ck_close };
	FILE* f = fopencookie((void*) (intptr_t) fd, mode, io);
	if(f) {
		files()[f] = fd;
		if(auto* o = of(fd)) o->file = f;
	}
	return f;
}
static FILE* do_fopen(char const* path, char const* mode) {
	int const fd = do_open(path, mode_flags(mode), 0666);
	if(fd < 0) return nullptr;
	return wrap(fd, mode);
}

} // namespace sim::fs

using namespace sim::fs;
using namespace sim;

#define REAL(ret, fn, ...) \
	static auto real_##fn = (ret (*)(__VA_ARGS__)) dlsym(RTLD_NEXT, #fn)

extern "C" {

FILE* fopen(char const* p, char const* m) {
	if(ours(p)) return do_fopen(p, m);
	REAL(FILE*, fopen, char const*, char const*);
	return real_fopen(p, m);
}
FILE* fopen64(char const* p, char const* m) {
	if(ours(p)) return do_fopen(p, m);
	REAL(FILE*, fopen64, char const*, char const*);
	return real_fopen64(p, m);
}
FILE* fdopen(int fd, char const* m) {
	if(fd >= 1000000) return wrap(fd, m);
	REAL(FILE*, fdopen, int, char const*);
	return real_fdopen(fd, m);
}
FILE* freopen(char const* p, char const* m, FILE* f) {
	if(ours(p)) { errno = ENOSYS; return nullptr; }
	REAL(FILE*, freopen, char const*, char const*, FILE*);
	return real_freopen(p, m, f);
}
int fclose(FILE* f) {
	REAL(int, fclose, FILE*);
	files().erase(f);
	return real_fclose(f);
}
int fileno(FILE* f) {
	auto it = files().find(f);
	if(it != files().end()) return it->second;
	REAL(int, fileno, FILE*);
	return real_fileno(f);
}
int open(char const* p, int flags, ...) {
	va_list ap; va_start(ap, flags);
	unsigned const mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, unsigned) : 0;
	va_end(ap);
	if(ours(p)) return do_open(p, flags, mode);
	REAL(int, open, char const*, int, ...);
	return real_open(p, flags, mode);
}
int open64(char const* p, int flags, ...) {
	va_list ap; va_start(ap, flags);
	unsigned const mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, unsigned) : 0;
	va_end(ap);
	if(ours(p)) return do_open(p, flags, mode);
	REAL(int, open64, char const*, int, ...);
	return real_open64(p, flags, mode);
}
int openat(int d, char const* p, int flags, ...) {
	va_list ap; va_start(ap, flags);
	unsigned const mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, unsigned) : 0;
	va_end(ap);
	if(ours(p)) return do_open(p, flags, mode);
	REAL(int, openat, int, char const*, int, ...);
	return real_openat(d, p, flags, mode);
}
int openat64(int d, char const* p, int flags, ...) {
	va_list ap; va_start(ap, flags);
	unsigned const mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, unsigned) : 0;
	va_end(ap);
	if(ours(p)) return do_open(p, flags, mode);
	REAL(int, openat64, int, char const*, int, ...);
	return real_openat64(d, p, flags, mode);
}
int creat(char const* p, mode_t mode) {
	if(ours(p)) return do_open(p, O_WRONLY | O_CREAT | O_TRUNC, mode);
	REAL(int, creat, char const*, mode_t);
	return real_creat(p, mode);
}
int close(int fd) {
	if(fd >= 1000000) return do_close(fd);
	REAL(int, close, int);
	return real_close(fd);
}
ssize_t read(int fd, void* b, size_t n) {
	if(auto* o = of(fd)) return do_read(*o, b, n, &o->pos);
	REAL(ssize_t, read, int, void*, size_t);
	return real_read(fd, b, n);
}
ssize_t pread(int fd, void* b, size_t n, off_t at) {
	if(auto* o = of(fd)) return do_read(*o, b, n, &at);
	REAL(ssize_t, pread, int, void*, size_t, off_t);
	return real_pread(fd, b, n, at);
}
ssize_t readv(int fd, struct iovec const* v, int c) {
	if(auto* o = of(fd)) {
		ssize_t total = 0;
		for(int i = 0; i < c; ++i) {
			ssize_t k = do_read(*o, v[i].iov_base, v[i].iov_len, &o->pos);
			if(k < 0) return total ? total : -1;
			total += k;
			if((size_t) k < v[i].iov_len) break;
		}
		return total;
	}
	REAL(ssize_t, readv, int, struct iovec const*, int);
	return real_readv(fd, v, c);
}
ssize_t write(int fd, void const* b, size_t n) {
	if(auto* o = of(fd)) return do_write(*o, b, n, &o->pos);
	REAL(ssize_t, write, int, void const*, size_t);
	return real_write(fd, b, n);
}
ssize_t pwrite(int fd, void const* b, size_t n, off_t at) {
	if(auto* o = of(fd)) return do_write(*o, b, n, &at);
	REAL(ssize_t, pwrite, int, void const*, size_t, off_t);
	return real_pwrite(fd, b, n, at);
}
ssize_t writev(int fd, struct iovec const* v, int c) {
	if(auto* o = of(fd)) {
		std::string all;
		for(int i = 0; i < c; ++i) all.append((char const*) v[i].iov_base, v[i].iov_len);
		return do_write(*o, all.data(), all.size(), &o->pos);
	}
	REAL(ssize_t, writev, int, struct iovec const*, int);
	return real_writev(fd, v, c);
}
static off_t seek(Open& o, off_t off, int whence) {
	off64_t x = off;
	(void) o;
	auto* d = content(o);
	off_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? o.pos : (off_t) (d ? d->size() : 0);
	if(base + x < 0) { errno = EINVAL; return -1; }
	return o.pos = base + x;
}
off_t lseek(int fd, off_t off, int whence) {
	if(auto* o = of(fd)) return seek(*o, off, whence);
	REAL(off_t, lseek, int, off_t, int);
	return real_lseek(fd, off, whence);
}
off64_t lseek64(int fd, off64_t off, int whence) {
	if(auto* o = of(fd)) return seek(*o, off, whence);
	REAL(off64_t, lseek64, int, off64_t, int);
	return real_lseek64(fd, off, whence);
}
int stat(char const* p, struct stat* st) {
	if(ours(p)) return do_stat(p, st, true);
	REAL(int, stat, char const*, struct stat*);
	return real_stat(p, st);
}
int stat64(char const* p, struct stat64* st) {
	if(ours(p)) return do_stat(p, (struct stat*) st, true);
	REAL(int, stat64, char const*, struct stat64*);
	return real_stat64(p, st);
}
int lstat(char const* p, struct stat* st) {
	if(ours(p)) return do_stat(p, st, false);
	REAL(int, lstat, char const*, struct stat*);
	return real_lstat(p, st);
}
int lstat64(char const* p, struct stat64* st) {
	if(ours(p)) return do_stat(p, (struct stat*) st, false);
	REAL(int, lstat64, char const*, struct stat64*);
	return real_lstat64(p, st);
}
int fstat(int fd, struct stat* st) {
	if(fd >= 1000000) return do_fstat(fd, st);
	REAL(int, fstat, int, struct stat*);
	return real_fstat(fd, st);
}
int fstat64(int fd, struct stat64* st) {
	if(fd >= 1000000) return do_fstat(fd, (struct stat*) st);
	REAL(int, fstat64, int, struct stat64*);
	return real_fstat64(fd, st);
}
int fstatat(int d, char const* p, struct stat* st, int flags) {
	if(ours(p)) return do_stat(p, st, !(flags & AT_SYMLINK_NOFOLLOW));
	REAL(int, fstatat, int, char const*, struct stat*, int);
	return real_fstatat(d, p, st, flags);
}
int fstatat64(int d, char const* p, struct stat64* st, int flags) {
	if(ours(p)) return do_stat(p, (struct stat*) st, !(flags & AT_SYMLINK_NOFOLLOW));
	REAL(int, fstatat64, int, char const*, struct stat64*, int);
	return real_fstatat64(d, p, st, flags);
}
static int do_access(char const* p, int mode) {
	struct stat st;
	if(do_stat(p, &st, true)) return -1;
	if(plan.permissions && active) {
		if((mode & W_OK) && !(st.st_mode & 0200)) { errno = EACCES; return -1; }
		if((mode & R_OK) && !(st.st_mode & 0400)) { errno = EACCES; return -1; }
	}
	return 0;
}
int access(char const* p, int mode) {
	if(ours(p)) return do_access(p, mode);
	REAL(int, access, char const*, int);
	return real_access(p, mode);
}
int faccessat(int d, char const* p, int mode, int flags) {
	if(ours(p)) return do_access(p, mode);
	REAL(int, faccessat, int, char const*, int, int);
	return real_faccessat(d, p, mode, flags);
}
int rename(char const* a, char const* b) {
	if(ours(a) || ours(b)) return do_rename(a, b);
	REAL(int, rename, char const*, char const*);
	return real_rename(a, b);
}
int renameat(int da, char const* a, int db, char const* b) {
	if(ours(a) || ours(b)) return do_rename(a, b);
	REAL(int, renameat, int, char const*, int, char const*);
	return real_renameat(da, a, db, b);
}
int unlink(char const* p) {
	if(ours(p)) return do_unlink(p);
	REAL(int, unlink, char const*);
	return real_unlink(p);
}
int unlinkat(int d, char const* p, int flags) {
	if(ours(p)) return do_unlink(p);
	REAL(int, unlinkat, int, char const*, int);
	return real_unlinkat(d, p, flags);
}
int remove(char const* p) {
	if(ours(p)) return do_unlink(p);
	REAL(int, remove, char const*);
	return real_remove(p);
}
int fsync(int fd) {
	if(auto* o = of(fd)) {
		if(auto* f = point(Op::SYNC, o->path)) { errno = f->err; return -1; }
		after("sync");
		return 0;
	}
	REAL(int, fsync, int);
	return real_fsync(fd);
}
int fdatasync(int fd) {
	if(auto* o = of(fd)) {
		if(auto* f = point(Op::SYNC, o->path)) { errno = f->err; return -1; }
		after("sync");
		return 0;
	}
	REAL(int, fdatasync, int);
	return real_fdatasync(fd);
}
int truncate(char const* p, off_t n) {
	if(ours(p)) return do_truncate(p, n);
	REAL(int, truncate, char const*, off_t);
	return real_truncate(p, n);
}
int truncate64(char const* p, off64_t n) {
	if(ours(p)) return do_truncate(p, n);
	REAL(int, truncate64, char const*, off64_t);
	return real_truncate64(p, n);
}
int ftruncate(int fd, off_t n) {
	if(auto* o = of(fd)) return do_truncate(o->path, n);
	REAL(int, ftruncate, int, off_t);
	return real_ftruncate(fd, n);
}
int ftruncate64(int fd, off64_t n) {
	if(auto* o = of(fd)) return do_truncate(o->path, n);
	REAL(int, ftruncate64, int, off64_t);
	return real_ftruncate64(fd, n);
}
static int do_chmod(std::string const& path, mode_t m) {
	if(auto* f = point(Op::CHMOD, path)) { errno = f->err; return -1; }
	auto it = disk.nodes.find(resolve(path));
	if(it == disk.nodes.end()) { errno = ENOENT; return -1; }
	it->second.mode = m & 07777;
	after("chmod");
	return 0;
}
int chmod(char const* p, mode_t m) {
	if(ours(p)) return do_chmod(p, m);
	REAL(int, chmod, char const*, mode_t);
	return real_chmod(p, m);
}
int fchmod(int fd, mode_t m) {
	if(auto* o = of(fd)) return do_chmod(o->path, m);
	REAL(int, fchmod, int, mode_t);
	return real_fchmod(fd, m);
}
int fchmodat(int d, char const* p, mode_t m, int flags) {
	if(ours(p)) return do_chmod(p, m);
	REAL(int, fchmodat, int, char const*, mode_t, int);
	return real_fchmodat(d, p, m, flags);
}
int fchown(int fd, uid_t u, gid_t g) {
	if(of(fd)) return 0;
	REAL(int, fchown, int, uid_t, gid_t);
	return real_fchown(fd, u, g);
}
int chown(char const* p, uid_t u, gid_t g) {
	if(ours(p)) return 0;
	REAL(int, chown, char const*, uid_t, gid_t);
	return real_chown(p, u, g);
}
int mkdir(char const* p, mode_t m) {
	if(ours(p)) {
		auto q = real_dir(p);
		if(auto* f = point(Op::OTHER, q)) { errno = f->err; return -1; }
		if(disk.nodes.contains(q)) { errno = EEXIST; return -1; }
		if(int e = dir_error(q)) { errno = e; return -1; }
		Inode n; n.kind = Inode::DIR_; n.mode = m & 0777;
		disk.nodes[q] = n;
		touch(q);
		return 0;
	}
	REAL(int, mkdir, char const*, mode_t);
	return real_mkdir(p, m);
}
ssize_t readlink(char const* p, char* buf, size_t n) {
	if(ours(p)) {
		auto q = real_dir(p);
		auto it = disk.nodes.find(q);
		if(it == disk.nodes.end()) { errno = ENOENT; return -1; }
		if(it->second.kind != Inode::LINK_) { errno = EINVAL; return -1; }
		size_t k = std::min(n, it->second.data.size());
		std::memcpy(buf, it->second.data.data(), k);
		return (ssize_t) k;
	}
	REAL(ssize_t, readlink, char const*, char*, size_t);
	return real_readlink(p, buf, n);
}
char* realpath(char const* p, char* out) {
	if(ours(p)) {
		auto q = resolve(real_dir(p));
		if(!disk.nodes.contains(q)) { errno = ENOENT; return nullptr; }
		if(!out) out = (char*) malloc(PATH_MAX);
		std::strcpy(out, q.c_str());
		return out;
	}
	REAL(char*, realpath, char const*, char*);
	return real_realpath(p, out);
}
int link(char const* a, char const* b) {
	if(ours(a) || ours(b)) { errno = EPERM; return -1; }
	REAL(int, link, char const*, char const*);
	return real_link(a, b);
}
int statx(int d, char const* p, int flags, unsigned mask, struct statx* sx) {
	if(ours(p)) {
		struct stat st;
		if(do_stat(p, &st, !(flags & AT_SYMLINK_NOFOLLOW))) return -1;
		std::memset(sx, 0, sizeof *sx);
		sx->stx_mask = STATX_BASIC_STATS;
		sx->stx_mode = (unsigned short) st.st_mode;
		sx->stx_size = (unsigned long long) st.st_size;
		sx->stx_ino = st.st_ino;
		sx->stx_nlink = 1;
		return 0;
	}
	REAL(int, statx, int, char const*, int, unsigned, struct statx*);
	return real_statx(d, p, flags, mask, sx);
}
ssize_t sendfile(int o, int i, off_t* off, size_t n) {
	if(of(o) || of(i)) { errno = EINVAL; return -1; }
	REAL(ssize_t, sendfile, int, int, off_t*, size_t);
	return real_sendfile(o, i, off, n);
}
ssize_t copy_file_range(int i, off64_t* oi, int o, off64_t* oo, size_t n, unsigned f) {
	if(of(o) || of(i)) { errno = EINVAL; return -1; }
	REAL(ssize_t, copy_file_range, int, off64_t*, int, off64_t*, size_t, unsigned);
	return real_copy_file_range(i, oi, o, oo, n, f);
}
static int make_temp(char* tmpl, int suffix, int flags) {
	static unsigned n = 0;
	std::size_t const len = std::strlen(tmpl);
	if(len < (std::size_t) (6 + suffix)) { errno = EINVAL; return -1; }
	for(int tries = 0; tries < 100; ++tries) {
		auto s = fmt("%06u", n++ % 1000000);
		std::memcpy(tmpl + len - (std::size_t) suffix - 6, s.data(), 6);
		int fd = do_open(tmpl, O_RDWR | O_CREAT | O_EXCL | flags, 0600);
		if(fd >= 0 || errno != EEXIST) return fd;
	}
	errno = EEXIST;
	return -1;
}
int mkstemp(char* t) {
	if(ours(t)) return make_temp(t, 0, 0);
	REAL(int, mkstemp, char*);
	return real_mkstemp(t);
}
int mkstemps(char* t, int s) {
	if(ours(t)) return make_temp(t, s, 0);
	REAL(int, mkstemps, char*, int);
	return real_mkstemps(t, s);
}
int mkostemp(char* t, int f) {
	if(ours(t)) return make_temp(t, 0, f);
	REAL(int, mkostemp, char*, int);
	return real_mkostemp(t, f);
}

} // extern "C"
