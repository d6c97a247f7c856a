/* LD_PRELOAD shim: the operating system as the simulator wants it.
 *
 * Every call through which the simulated program meets its environment (files, standard streams,
 * randomness, clocks, memory) goes through here. A plan, given in the environment variable
 * LRPSIM_PLAN, says what happens to it; a log, in the shared mapping of the file LRPSIM_LOG, says
 * what did. Nothing here draws on anything but the plan, so a plan is one repeatable execution.
 *
 * The plan is a list of entries separated by ';':
 *   keys=N          seed of everything getrandom returns
 *   clock=MODE,N    0 runs forward evenly, 1 stands still, 2 jumps about (also back)
 *   CLASS.OP.NTH=A  at the NTH call of this kind (from 0), do A
 * CLASS: src (files opened for reading in the scratch directory), out (files opened for writing),
 * in, say (standard output), any. OP: open, read, write, close, call. A:
 *   eE   fail once with errno E            EE   fail with errno E from now on
 *   sN   transfer at most N bytes          kN   transfer at most N bytes, then the process is killed
 *   zN   (read) pretend end of file from now on
 *   fN   (out.write, NTH ignored) the disk is full after N bytes in all
 *   chunk=a,b,c...  sizes of the reads from standard input, in turn, 0 an EINTR; then unlimited
 *   src.limit / mem.NTH  the NTH allocation (counted once the program has opened its first file) fails
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { SRC, OUT, IN, SAY, ANY, NONE };
enum { OPEN, READ, WRITE, CLOSE, CALL };
#define MAXF 64
#define LOGSZ (1 << 20)
#define MAXCALLS 400000

struct fault { int cls, op; long nth; char act; long arg; int fired; };
static struct fault F[MAXF];
static int nf;
static long cnt[5][5];
static long calls, outbytes, full = -1, memnth = -1, mems;
static int chunks[256], nchunks, chunkpos;
static uint64_t keys = 1, clk = 1;
static int clkmode, active, memactive;
static char fdcls[1024];
static char *logp;
static size_t logn;

static void put(const char *fmt, ...)
{
	char b[256];
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	if (logp && n > 0 && logn + (size_t)n + 1 < LOGSZ) {
		memcpy(logp + logn, b, n);
		logn += n;
	}
}

static uint64_t mix(uint64_t *s)
{
	uint64_t z = (*s += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}

static void die(void)
{
	put("killed\n");
	syscall(SYS_kill, getpid(), SIGKILL);
	for (;;)
		syscall(SYS_pause);
}

static int clsof(const char *s, size_t n)
{
	static const char *names[] = {"src", "out", "in", "say", "any"};
	for (int i = 0; i < 5; i++)
		if (strlen(names[i]) == n && !memcmp(names[i], s, n))
			return i;
	return NONE;
}

static void parse(char *p)
{
	char *save = NULL;
	for (char *t = strtok_r(p, ";", &save); t; t = strtok_r(NULL, ";", &save)) {
		char *eq = strchr(t, '=');
		if (!eq)
			continue;
		*eq = 0;
		char *v = eq + 1;
		if (!strcmp(t, "keys")) {
			keys = strtoull(v, NULL, 10);
		} else if (!strcmp(t, "clock")) {
			clkmode = atoi(v);
			char *c = strchr(v, ',');
			clk = c ? strtoull(c + 1, NULL, 10) : 1;
		} else if (!strcmp(t, "chunk")) {
			while (*v && nchunks < 256) {
				chunks[nchunks++] = (int)strtol(v, &v, 10);
				if (*v == ',')
					v++;
			}
		} else if (!strncmp(t, "mem.", 4)) {
			memnth = atol(t + 4);
		} else if (nf < MAXF) {
			char *a = strchr(t, '.'), *b = a ? strchr(a + 1, '.') : NULL;
			if (!b)
				continue;
			struct fault f = {0};
			f.cls = clsof(t, a - t);
			f.op = !strncmp(a + 1, "open", 4) ? OPEN : !strncmp(a + 1, "read", 4) ? READ : !strncmp(a + 1, "write", 5) ? WRITE : !strncmp(a + 1, "close", 5) ? CLOSE : CALL;
			f.nth = atol(b + 1);
			f.act = v[0];
			f.arg = atol(v + 1);
			if (f.act == 'f')
				full = f.arg;
			else
				F[nf++] = f;
		}
	}
}

__attribute__((constructor)) static void init(void)
{
	for (int i = 0; i < 1024; i++)
		fdcls[i] = NONE;
	fdcls[0] = IN;
	fdcls[1] = SAY;
	const char *l = getenv("LRPSIM_LOG"), *p = getenv("LRPSIM_PLAN");
	if (!l || !p)
		return;
	int fd = (int)syscall(SYS_openat, AT_FDCWD, l, O_RDWR | O_CLOEXEC, 0600);
	if (fd < 0)
		return;
	logp = mmap(NULL, LOGSZ, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	syscall(SYS_close, fd);
	if (logp == MAP_FAILED) {
		logp = NULL;
		return;
	}
	static char plan[16384];
	strncpy(plan, p, sizeof plan - 1);
	parse(plan);
	unsetenv("LD_PRELOAD");
	put("start\n");
	active = 1;
}

/* What is to happen to this call. */
static struct fault *at(int cls, int op)
{
	long n = cnt[cls][op]++, c = calls++;
	if (c > MAXCALLS) {
		put("runaway\n");
		die();
	}
	for (int i = 0; i < nf; i++) {
		struct fault *f = &F[i];
		int hit = f->cls == cls && f->op == op && (f->nth == n || ((f->act == 'E' || f->act == 'z') && n > f->nth));
		hit |= f->cls == ANY && f->nth == c;
		if (hit) {
			f->fired = 1;
			return f;
		}
	}
	return NULL;
}

static const char *CN[] = {"src", "out", "in", "say", "any", "none"};
static void fired(const char *what, int cls, struct fault *f) { put("fault %s %s %c %ld\n", CN[cls], what, f->act, f->arg); }

static int do_open(int dfd, const char *path, int flags, mode_t mode)
{
	int wr = (flags & O_ACCMODE) != O_RDONLY, ours = active && strncmp(path, "/proc", 5) && strncmp(path, "/sys", 4) && strncmp(path, "/dev", 4) && strncmp(path, "/etc", 4) && strncmp(path, "/usr", 4) && strncmp(path, "/lib", 4);
	int cls = wr ? OUT : SRC;
	if (ours) {
		struct fault *f = at(cls, OPEN);
		memactive = 1;
		if (f) {
			fired("open", cls, f);
			if (f->act == 'e' || f->act == 'E') {
				errno = (int)f->arg;
				return -1;
			}
			if (f->act == 'k')
				die();
		}
	}
	int fd = (int)syscall(SYS_openat, dfd, path, flags, mode);
	if (ours && fd >= 0 && fd < 1024) {
		fdcls[fd] = (char)cls;
		put("open %s %d\n", CN[cls], fd);
	}
	return fd;
}

#define OPENBODY(dfd)                                          \
	mode_t m = 0;                                              \
	if (flags & (O_CREAT | O_TMPFILE)) {                       \
		va_list ap;                                            \
		va_start(ap, flags);                                   \
		m = va_arg(ap, mode_t);                                \
		va_end(ap);                                            \
	}                                                          \
	return do_open(dfd, path, flags, m)
int open(const char *path, int flags, ...) { OPENBODY(AT_FDCWD); }
int open64(const char *path, int flags, ...) { OPENBODY(AT_FDCWD); }
int openat(int d, const char *path, int flags, ...) { OPENBODY(d); }
int openat64(int d, const char *path, int flags, ...) { OPENBODY(d); }
int creat(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }

static int cls_of(int fd) { return active && fd >= 0 && fd < 1024 ? fdcls[fd] : NONE; }

static ssize_t do_read(int fd, void *b, size_t n, off_t off)
{
	int cls = cls_of(fd);
	if (cls != SRC && cls != IN && cls != OUT)
		return off < 0 ? syscall(SYS_read, fd, b, n) : syscall(SYS_pread64, fd, b, n, off);
	size_t want = n;
	int kill_after = 0;
	if (cls == IN)
		put("ask %ld\n", cnt[SAY][CALL]);
	if (cls == IN && chunkpos < nchunks) {
		int c = chunks[chunkpos++];
		if (c == 0) {
			put("fault in read i 0\n");
			errno = EINTR;
			return -1;
		}
		if (n && (size_t)c < n) {
			n = c;
			put("fault in read s %d\n", c);
		}
	}
	struct fault *f = at(cls, READ);
	if (f && want) {
		fired("read", cls, f);
		switch (f->act) {
		case 'e':
		case 'E':
			errno = (int)f->arg;
			return -1;
		case 'z':
			put("read %s 0\n", CN[cls]);
			return 0;
		case 's':
			if (f->arg > 0 && (size_t)f->arg < n)
				n = f->arg;
			break;
		case 'k':
			kill_after = 1;
		}
	}
	ssize_t r = off < 0 ? syscall(SYS_read, fd, b, n) : syscall(SYS_pread64, fd, b, n, off);
	put("read %s %zd\n", CN[cls], r);
	if (kill_after)
		die();
	return r;
}
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, -1); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return do_read(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec *v, int c)
{
	for (int i = 0; i < c; i++)
		if (v[i].iov_len)
			return do_read(fd, v[i].iov_base, v[i].iov_len, -1);
	return 0;
}

static ssize_t do_write(int fd, const void *b, size_t n, off_t off)
{
	int cls = cls_of(fd);
	if (cls != OUT && cls != SAY)
		return off < 0 ? syscall(SYS_write, fd, b, n) : syscall(SYS_pwrite64, fd, b, n, off);
	int kill_after = 0;
	struct fault *f = at(cls, WRITE);
	if (f && n) {
		fired("write", cls, f);
		switch (f->act) {
		case 'e':
		case 'E':
			errno = (int)f->arg;
			return -1;
		case 's':
			if (f->arg > 0 && (size_t)f->arg < n)
				n = f->arg;
			break;
		case 'k':
			kill_after = 1;
			if ((size_t)f->arg < n)
				n = f->arg;
		}
	}
	if (cls == OUT && full >= 0 && n) {
		if (outbytes >= full) {
			put("fault out write f %ld\n", full);
			errno = ENOSPC;
			return -1;
		}
		if (outbytes + (long)n > full) {
			put("fault out write s %ld\n", full - outbytes);
			n = full - outbytes;
		}
	}
	ssize_t r = n || !kill_after ? (off < 0 ? syscall(SYS_write, fd, b, n) : syscall(SYS_pwrite64, fd, b, n, off)) : 0;
	if (r > 0) {
		if (cls == OUT) {
			outbytes += r;
			put("write out %zd\n", r);
		} else
			cnt[SAY][CALL] += r;
	}
	if (kill_after)
		die();
	return r;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, -1); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c)
{
	int cls = cls_of(fd);
	if (cls != OUT && cls != SAY)
		return syscall(SYS_writev, fd, v, c);
	/* a vectored write is a write of all of it together */
	size_t n = 0;
	for (int i = 0; i < c; i++)
		n += v[i].iov_len;
	static char buf[1 << 16];
	if (n > sizeof buf) {
		for (int i = 0; i < c; i++)
			if (v[i].iov_len)
				return do_write(fd, v[i].iov_base, v[i].iov_len, -1);
	}
	n = 0;
	for (int i = 0; i < c; i++) {
		memcpy(buf + n, v[i].iov_base, v[i].iov_len);
		n += v[i].iov_len;
	}
	return do_write(fd, buf, n, -1);
}

/* a copy from file to file is a read and a write like any other */
ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned fl)
{
	(void)a, (void)ao, (void)b, (void)bo, (void)n, (void)fl;
	errno = ENOSYS;
	return -1;
}
ssize_t sendfile(int a, int b, off_t *o, size_t n)
{
	(void)a, (void)b, (void)o, (void)n;
	errno = ENOSYS;
	return -1;
}
ssize_t sendfile64(int a, int b, off64_t *o, size_t n)
{
	(void)a, (void)b, (void)o, (void)n;
	errno = ENOSYS;
	return -1;
}
ssize_t splice(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned fl)
{
	(void)a, (void)ao, (void)b, (void)bo, (void)n, (void)fl;
	errno = EINVAL;
	return -1;
}

static int sync_file(const char *what, int fd, long nr)
{
	int cls = cls_of(fd);
	if (cls == OUT) {
		struct fault *f = at(cls, CLOSE);
		if (f) {
			fired(what, cls, f);
			if (f->act == 'e' || f->act == 'E') {
				errno = (int)f->arg;
				return -1;
			}
			if (f->act == 'k')
				die();
		}
	}
	return (int)syscall(nr, fd);
}
int fsync(int fd) { return sync_file("fsync", fd, SYS_fsync); }
int fdatasync(int fd) { return sync_file("fdatasync", fd, SYS_fdatasync); }

int close(int fd)
{
	int cls = cls_of(fd);
	if (cls == OUT || cls == SRC) {
		put("close %s\n", CN[cls]);
		fdcls[fd] = NONE;
	}
	return (int)syscall(SYS_close, fd);
}

int rename(const char *a, const char *b)
{
	if (active) {
		struct fault *f = at(OUT, CALL);
		if (f && (f->act == 'k')) {
			fired("rename", OUT, f);
			die();
		}
		put("rename\n");
	}
	return (int)syscall(SYS_rename, a, b);
}

ssize_t getrandom(void *b, size_t n, unsigned fl)
{
	(void)fl;
	if (!active)
		return syscall(SYS_getrandom, b, n, fl);
	unsigned char *p = b;
	for (size_t i = 0; i < n; i++)
		p[i] = (unsigned char)(mix(&keys) >> 32);
	put("random %zu\n", n);
	return (ssize_t)n;
}
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }

int clock_gettime(clockid_t id, struct timespec *ts)
{
	static int64_t now = 1000000000000000ll;
	if (!active)
		return (int)syscall(SYS_clock_gettime, id, ts);
	switch (clkmode) {
	case 0:
		now += 1000;
		break;
	case 2: {
		uint64_t r = mix(&clk);
		int64_t d = (int64_t)(r % 7200000000000ull);
		now += (r >> 60) < 6 ? -d : d;
		if (now < 0)
			now = 1;
		put("fault any clock j 0\n");
		break;
	}
	default:
		break;
	}
	ts->tv_sec = now / 1000000000ll;
	ts->tv_nsec = now % 1000000000ll;
	return 0;
}

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
static int nomem(void)
{
	if (!memactive || memnth < 0)
		return 0;
	if (mems++ != memnth)
		return 0;
	put("fault any memory m %ld\n", memnth);
	errno = ENOMEM;
	return 1;
}
void *malloc(size_t n) { return nomem() ? NULL : __libc_malloc(n); }
void *calloc(size_t a, size_t b) { return nomem() ? NULL : __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { return nomem() ? NULL : __libc_realloc(p, n); }
