// ccsim: runs the lacsap compiler under a simulator.
//
// The compiler's own objects (main renamed to lacsap_main) are linked into this program, and the program defines the
// libc functions by which the compiler, libstdc++ and libLLVM reach the outside.  Every compilation is a node: a
// forked copy of this process, in a private directory, that asks the simulator (the parent) before each operation on
// its files and before each start of a command.  The parent lets exactly one node go at a time, picks which one by a
// seeded generator, and decides whether the operation succeeds, fails, is cut short, or is the point where the node is
// killed.  Memory comes from arenas whose order, gaps and previous contents are drawn from the node's layout seed.
//
// Started under the name of a compiler driver (clang, gcc, cc, ...) this program is the link step: a stand-in that
// reads its arguments as the driver does and writes an "executable" made of what it was given.
//
//   ccsim SCRATCH        plans on stdin ("<len>\n<plan>"), answers on stdout ("<len>\n<json>")
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <execinfo.h>
#include <fcntl.h>
#include <map>
#include <poll.h>
#include <spawn.h>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <vector>

int lacsap_main(int argc, char** argv);

extern "C" {
void* __libc_malloc(size_t);
void  __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}

static const int CTL = 250;

struct Msg
{
    int  type; // 'S' step, 'L' link settings wanted, 'A' link arguments, 'X' site of a crash, 'E' ending
    char op[12];
    long n;
    char path[1500];
};
struct Rep
{
    int  act; // 0 go, 1 fail with errno arg, 2 only arg bytes, 3 die, 4 write arg bytes and die
    long arg;
};

// ------------------------------------------------------------------------------------------------ the node's side
static bool     inNode; // this process is a node
static char     cwdPrefix[600];
static long     spentAllocs, allocLimit = 40000000, byteLimit = 3000000000L, liveBytes;
static char     exePath[600];
static long     clockNow, clockStep;
static uint64_t clockRng;

static int rawsend(const Msg& m)
{
    size_t len = offsetof(Msg, path) + strlen(m.path) + 1;
    if (m.type == 'A')
    {
	len = offsetof(Msg, path) + m.n;
    }
    return syscall(SYS_sendto, CTL, &m, len, MSG_NOSIGNAL, 0, 0) == (long)len;
}

static bool ask(const char* op, const char* path, long n, Rep& r)
{
    Msg m;
    m.type = 'S';
    strncpy(m.op, op, sizeof m.op - 1);
    m.op[sizeof m.op - 1] = 0;
    m.n = n;
    strncpy(m.path, path, sizeof m.path - 1);
    m.path[sizeof m.path - 1] = 0;
    r.act = 0;
    if (!rawsend(m))
    {
	return false;
    }
    long got;
    do
    {
	got = syscall(SYS_recvfrom, CTL, &r, sizeof r, 0, 0, 0);
    } while (got < 0 && errno == EINTR);
    if (got != sizeof r)
    {
	r.act = 0;
	return false;
    }
    if (r.act == 3)
    {
	syscall(SYS_kill, getpid(), SIGKILL);
    }
    return true;
}

struct Fd
{
    bool        on;
    std::string path;
};
static char fdName[240][300];
static bool fdWr[240];

static bool tracked(const char* p)
{
    if (!p || !*p)
    {
	return false;
    }
    return p[0] != '/' || !strncmp(p, cwdPrefix, strlen(cwdPrefix));
}

static const char* shortName(const char* p)
{
    size_t n = strlen(cwdPrefix);
    return !strncmp(p, cwdPrefix, n) ? (p[n] ? p + n : "/") : p;
}

static bool fdTracked(int fd)
{
    return inNode && fd > 2 && fd < 240 && fdName[fd][0];
}

static void setFd(int fd, const char* p)
{
    if (fd >= 0 && fd < 240)
    {
	strncpy(fdName[fd], p ? shortName(p) : "", sizeof fdName[fd] - 1);
    }
}

#define EXPORT extern "C" __attribute__((visibility("default")))

static int doOpen(int dirfd, const char* path, int flags, int mode)
{
    if (inNode && tracked(path))
    {
	Rep r;
	ask((flags & O_ACCMODE) == O_RDONLY ? "open" : "create", shortName(path), flags & (O_TRUNC | O_CREAT | O_EXCL), r);
	if (r.act == 1)
	{
	    errno = r.arg;
	    return -1;
	}
	int fd = syscall(SYS_openat, dirfd, path, flags, mode);
	setFd(fd, path);
	if (fd >= 0 && fd < 240)
	{
	    fdWr[fd] = (flags & O_ACCMODE) != O_RDONLY;
	}
	return fd;
    }
    return syscall(SYS_openat, dirfd, path, flags, mode);
}

#define MODEARG                                                                                                        \
    int mode = 0;                                                                                                      \
    if (flags & (O_CREAT | O_TMPFILE))                                                                                 \
    {                                                                                                                  \
	va_list ap;                                                                                                    \
	va_start(ap, flags);                                                                                           \
	mode = va_arg(ap, int);                                                                                        \
	va_end(ap);                                                                                                    \
    }
EXPORT int open(const char* path, int flags, ...)
{
    MODEARG return doOpen(AT_FDCWD, path, flags, mode);
}
EXPORT int open64(const char* path, int flags, ...)
{
    MODEARG return doOpen(AT_FDCWD, path, flags, mode);
}
EXPORT int openat(int d, const char* path, int flags, ...)
{
    MODEARG return doOpen(d, path, flags, mode);
}
EXPORT int openat64(int d, const char* path, int flags, ...)
{
    MODEARG return doOpen(d, path, flags, mode);
}
EXPORT int creat(const char* path, mode_t mode)
{
    return doOpen(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode);
}

EXPORT ssize_t read(int fd, void* buf, size_t n)
{
    if (fdTracked(fd))
    {
	Rep r;
	ask("read", fdName[fd], n, r);
	if (r.act == 1)
	{
	    errno = r.arg;
	    return -1;
	}
	if (r.act == 2 && (size_t)r.arg < n)
	{
	    n = r.arg;
	}
    }
    return syscall(SYS_read, fd, buf, n);
}
EXPORT ssize_t pread(int fd, void* buf, size_t n, off_t o)
{
    return syscall(SYS_pread64, fd, buf, n, o);
}

static ssize_t doWrite(int fd, const void* buf, size_t n, off_t off, bool at)
{
    long got;
    if (fdTracked(fd))
    {
	Rep r;
	ask("write", fdName[fd], n, r);
	if (r.act == 1)
	{
	    errno = r.arg;
	    return -1;
	}
	if (r.act == 4)
	{
	    size_t part = r.arg <= 100 ? n * r.arg / 100 : n;
	    at ? syscall(SYS_pwrite64, fd, buf, part, off) : syscall(SYS_write, fd, buf, part);
	    syscall(SYS_kill, getpid(), SIGKILL);
	}
	if (r.act == 2 && (size_t)r.arg < n)
	{
	    n = r.arg;
	}
    }
    return at ? syscall(SYS_pwrite64, fd, buf, n, off) : syscall(SYS_write, fd, buf, n);
}
EXPORT ssize_t write(int fd, const void* buf, size_t n)
{
    return doWrite(fd, buf, n, 0, false);
}
EXPORT ssize_t pwrite(int fd, const void* buf, size_t n, off_t o)
{
    return doWrite(fd, buf, n, o, true);
}
struct iovec;
#include <sys/uio.h>
EXPORT ssize_t writev(int fd, const struct iovec* v, int cnt)
{
    if (fdTracked(fd))
    {
	ssize_t all = 0;
	for (int i = 0; i < cnt; i++)
	{
	    if (!v[i].iov_len)
	    {
		continue;
	    }
	    ssize_t w = doWrite(fd, v[i].iov_base, v[i].iov_len, 0, false);
	    if (w < 0)
	    {
		return all ? all : -1;
	    }
	    all += w;
	    if ((size_t)w < v[i].iov_len)
	    {
		break;
	    }
	}
	return all;
    }
    return syscall(SYS_writev, fd, v, cnt);
}
EXPORT off_t lseek(int fd, off_t o, int w)
{
    // only those of files that are written are of interest: the others do nothing that could be seen outside
    if (fdTracked(fd) && fdWr[fd])
    {
	Rep r;
	ask("lseek", fdName[fd], o, r);
	if (r.act == 1)
	{
	    errno = r.arg;
	    return -1;
	}
    }
    return syscall(SYS_lseek, fd, o, w);
}
EXPORT off_t lseek64(int fd, off_t o, int w)
{
    return lseek(fd, o, w);
}
EXPORT int close(int fd)
{
    if (inNode && fd == CTL)
    {
	return 0;
    }
    if (fdTracked(fd))
    {
	Rep r;
	ask("close", fdName[fd], 0, r);
	fdName[fd][0] = 0;
	int c = syscall(SYS_close, fd);
	if (r.act == 1)
	{
	    errno = r.arg;
	    return -1;
	}
	return c;
    }
    return syscall(SYS_close, fd);
}

// C streams: those of libstdc++ are only a holder of the descriptor; others do their I/O through the functions above.
static ssize_t ckRead(void* c, char* b, size_t n)
{
    return read((int)(long)c, b, n);
}
static ssize_t ckWrite(void* c, const char* b, size_t n)
{
    size_t done = 0;
    while (done < n)
    {
	ssize_t w = write((int)(long)c, b + done, n - done);
	if (w < 0 && errno == EINTR)
	{
	    continue;
	}
	if (w <= 0)
	{
	    return done;
	}
	done += w;
    }
    return done;
}
static int ckSeek(void* c, off64_t* o, int w)
{
    off_t r = lseek((int)(long)c, *o, w);
    if (r < 0)
    {
	return -1;
    }
    *o = r;
    return 0;
}
static int ckClose(void* c)
{
    return close((int)(long)c);
}

static FILE* doFopen(const char* path, const char* mode, void* caller, const char* name)
{
    static FILE* (*real)(const char*, const char*);
    if (!real)
    {
	real = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen64");
    }
    if (!inNode || !tracked(path))
    {
	return real(path, mode);
    }
    Dl_info di;
    if (dladdr(caller, &di) && di.dli_fname && strstr(di.dli_fname, "libstdc++"))
    {
	Rep r;
	ask(mode[0] == 'r' && !strchr(mode, '+') ? "open" : "create", shortName(path), 0, r);
	if (r.act == 1)
	{
	    errno = r.arg;
	    return 0;
	}
	FILE* f = real(path, mode);
	if (f)
	{
	    setFd(fileno(f), path);
	    fdWr[fileno(f) % 240] = mode[0] != 'r' || strchr(mode, '+');
	}
	return f;
    }
    bool up = strchr(mode, '+');
    int  fl = mode[0] == 'r'   ? (up ? O_RDWR : O_RDONLY)
              : mode[0] == 'w' ? (up ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC
                               : (up ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    int  fd = doOpen(AT_FDCWD, path, fl, 0666);
    if (fd < 0)
    {
	return 0;
    }
    cookie_io_functions_t io = { ckRead, ckWrite, ckSeek, ckClose };
    return fopencookie((void*)(long)fd, mode, io);
}
EXPORT FILE* fopen(const char* p, const char* m)
{
    return doFopen(p, m, __builtin_return_address(0), "fopen");
}
EXPORT FILE* fopen64(const char* p, const char* m)
{
    return doFopen(p, m, __builtin_return_address(0), "fopen64");
}
EXPORT int fclose(FILE* f)
{
    static int (*real)(FILE*);
    if (!real)
    {
	real = (int (*)(FILE*))dlsym(RTLD_NEXT, "fclose");
    }
    int fd = inNode && f ? fileno(f) : -1;
    if (fdTracked(fd))
    {
	Rep r;
	ask("close", fdName[fd], 0, r);
	fdName[fd][0] = 0;
	int c = real(f);
	if (r.act == 1)
	{
	    errno = r.arg;
	    return -1;
	}
	return c;
    }
    return real(f);
}

static bool pathStep(const char* op, const char* p)
{
    if (inNode && tracked(p))
    {
	Rep r;
	ask(op, shortName(p), 0, r);
	if (r.act == 1)
	{
	    errno = r.arg;
	    return false;
	}
    }
    return true;
}
EXPORT int unlink(const char* p)
{
    return pathStep("unlink", p) ? syscall(SYS_unlink, p) : -1;
}
EXPORT int remove(const char* p)
{
    if (!pathStep("unlink", p))
    {
	return -1;
    }
    int r = syscall(SYS_unlink, p);
    return r < 0 && errno == EISDIR ? syscall(SYS_rmdir, p) : r;
}
EXPORT int rename(const char* a, const char* b)
{
    return pathStep("rename", b) ? syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b) : -1;
}
EXPORT int truncate(const char* p, off_t n)
{
    return pathStep("truncate", p) ? syscall(SYS_truncate, p, n) : -1;
}
EXPORT int ftruncate(int fd, off_t n)
{
    if (fdTracked(fd) && !pathStep("truncate", fdName[fd]))
    {
	return -1;
    }
    return syscall(SYS_ftruncate, fd, n);
}
EXPORT int access(const char* p, int m)
{
    return pathStep("access", p) ? syscall(SYS_faccessat, AT_FDCWD, p, m) : -1;
}

// The compiler seems to live where the plan says.
EXPORT ssize_t readlink(const char* p, char* buf, size_t n)
{
    if (inNode && !strcmp(p, "/proc/self/exe") && exePath[0])
    {
	size_t l = std::min(n, strlen(exePath));
	memcpy(buf, exePath, l);
	return l;
    }
    return syscall(SYS_readlinkat, AT_FDCWD, p, buf, n);
}
EXPORT char* realpath(const char* p, char* out)
{
    static char* (*real)(const char*, char*);
    if (!real)
    {
	real = (char* (*)(const char*, char*))dlvsym(RTLD_NEXT, "realpath", "GLIBC_2.3");
    }
    if (inNode && p && !strcmp(p, "/proc/self/exe") && exePath[0])
    {
	p = exePath;
    }
    return real(p, out);
}

// Commands
static bool spawnStep(const char* what)
{
    if (inNode)
    {
	Rep r;
	ask("spawn", what, 0, r);
	if (r.act == 1)
	{
	    errno = r.arg;
	    return false;
	}
    }
    return true;
}
EXPORT int posix_spawn(pid_t* pid, const char* path, const posix_spawn_file_actions_t* fa, const posix_spawnattr_t* at,
                       char* const argv[], char* const envp[])
{
    static decltype(&posix_spawn) real;
    if (!real)
    {
	real = (decltype(&posix_spawn))dlvsym(RTLD_NEXT, "posix_spawn", "GLIBC_2.15");
    }
    return spawnStep("posix_spawn") ? real(pid, path, fa, at, argv, envp) : errno;
}
EXPORT int posix_spawnp(pid_t* pid, const char* path, const posix_spawn_file_actions_t* fa, const posix_spawnattr_t* at,
                        char* const argv[], char* const envp[])
{
    static decltype(&posix_spawn) real;
    if (!real)
    {
	real = (decltype(&posix_spawn))dlvsym(RTLD_NEXT, "posix_spawnp", "GLIBC_2.15");
    }
    return spawnStep("posix_spawn") ? real(pid, path, fa, at, argv, envp) : errno;
}
EXPORT int system(const char* cmd)
{
    static int (*real)(const char*);
    if (!real)
    {
	real = (int (*)(const char*))dlsym(RTLD_NEXT, "system");
    }
    return spawnStep("system") ? real(cmd) : -1;
}
EXPORT pid_t fork()
{
    static pid_t (*real)();
    if (!real)
    {
	real = (pid_t(*)())dlsym(RTLD_NEXT, "fork");
    }
    return spawnStep("fork") ? real() : -1;
}

// Clocks
static long tick()
{
    clockRng = clockRng * 6364136223846793005ULL + 1442695040888963407ULL;
    long jump = (clockRng >> 33) % 16 == 0 ? (long)(clockRng >> 20) % clockStep - clockStep / 2 : (long)((clockRng >> 33) % 1000000);
    clockNow += jump;
    if (clockNow < 0)
    {
	clockNow = -clockNow;
    }
    return clockNow;
}
EXPORT int clock_gettime(clockid_t id, struct timespec* ts)
{
    if (inNode && clockStep)
    {
	long t = tick();
	ts->tv_sec = t / 1000000000;
	ts->tv_nsec = t % 1000000000;
	return 0;
    }
    return syscall(SYS_clock_gettime, id, ts);
}
EXPORT int gettimeofday(struct timeval* tv, void* tz)
{
    if (inNode && clockStep)
    {
	long t = tick();
	tv->tv_sec = t / 1000000000;
	tv->tv_usec = t % 1000000000 / 1000;
	return 0;
    }
    return syscall(SYS_gettimeofday, tv, tz);
}
EXPORT time_t time(time_t* t)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t)
    {
	*t = ts.tv_sec;
    }
    return ts.tv_sec;
}

// ------------------------------------------------------------------------------------------------ memory of a node
static bool           heapOn;
static uint64_t       heapRng;
static const uint64_t HEAPBASE = 0x100000000000ULL, ARENA = 0x100000000ULL;
static const int      NARENA = 8;
static struct
{
    char *cur, *end;
} arena[NARENA];
static const int MAXCLASS = 64;
static void*     freeList[MAXCLASS][4];

static uint64_t hrand()
{
    heapRng ^= heapRng << 13;
    heapRng ^= heapRng >> 7;
    heapRng ^= heapRng << 17;
    return heapRng;
}

static bool ours(const void* p)
{
    return (uint64_t)p - HEAPBASE < 64 * ARENA;
}

static int sizeClass(size_t n)
{
    // 16-byte steps up to 512, then powers of two
    if (n <= 512)
    {
	return (n + 15) / 16;
    }
    int c = 33;
    for (size_t s = 1024; s < n; s *= 2)
    {
	c++;
    }
    return c;
}
static size_t classSize(int c)
{
    return c <= 32 ? (c ? c * 16 : 16) : (size_t)512 << (c - 32);
}

static void outOfWork(const char* what)
{
    Msg m;
    m.type = 'E';
    m.n = 0;
    strcpy(m.op, "work");
    strcpy(m.path, what);
    rawsend(m);
    syscall(SYS_exit_group, 199);
}

static void* nodeAlloc(size_t n, size_t align)
{
    if (++spentAllocs > allocLimit)
    {
	outOfWork("allocations");
    }
    if (n > (1UL << 31))
    {
	errno = ENOMEM;
	return 0;
    }
    int    c = sizeClass(n ? n : 1);
    size_t sz = classSize(c);
    liveBytes += sz;
    if (liveBytes > byteLimit)
    {
	outOfWork("memory");
    }
    int s = hrand() & 3;
    if (align <= 16 && freeList[c][s])
    {
	char* p = (char*)freeList[c][s];
	freeList[c][s] = *(void**)p;
	memset(p, (int)(hrand() >> 40), n);
	return p;
    }
    auto&  a = arena[hrand() % NARENA];
    size_t gap = (hrand() >> 20) % 5 * 16;
    char*  p = a.cur + 16 + gap;
    p = (char*)(((uint64_t)p + align - 1) / align * align);
    if (p + sz > a.end)
    {
	outOfWork("memory");
    }
    ((uint64_t*)p)[-1] = c;
    ((uint64_t*)p)[-2] = n;
    a.cur = p + sz;
    if (n <= 4096)
    {
	memset(p, (int)(hrand() >> 40), n);
    }
    else
    {
	memset(p, (int)(hrand() >> 40), 4096);
    }
    return p;
}
static void nodeFree(void* p)
{
    int c = ((uint64_t*)p)[-1];
    if (c < 0 || c >= MAXCLASS)
    {
	return;
    }
    liveBytes -= classSize(c);
    if (c > 60)
    {
	return;
    }
    memset(p, (int)(hrand() >> 40), std::min<size_t>(classSize(c), 256));
    int s = hrand() & 3;
    *(void**)p = freeList[c][s];
    freeList[c][s] = p;
}
static void heapStart(uint64_t seed)
{
    heapRng = seed * 0x9E3779B97F4A7C15ULL + 0x1234567;
    for (int i = 0; i < 8; i++)
    {
	hrand();
    }
    int order[NARENA];
    for (int i = 0; i < NARENA; i++)
    {
	order[i] = i;
    }
    for (int i = NARENA - 1; i > 0; i--)
    {
	std::swap(order[i], order[hrand() % (i + 1)]);
    }
    for (int i = 0; i < NARENA; i++)
    {
	char* b = (char*)(HEAPBASE + order[i] * 4 * ARENA + hrand() % 256 * 4096);
	void* m = mmap(b, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (m != b)
	{
	    outOfWork("no simulated heap");
	}
	arena[i] = { b, b + ARENA };
    }
    heapOn = true;
}

EXPORT void* malloc(size_t n)
{
    return heapOn ? nodeAlloc(n, 16) : (inNode && ++spentAllocs > allocLimit ? (outOfWork("allocations"), nullptr) : __libc_malloc(n));
}
EXPORT void free(void* p)
{
    if (!p)
    {
	return;
    }
    if (ours(p))
    {
	nodeFree(p);
    }
    else
    {
	__libc_free(p);
    }
}
EXPORT void* calloc(size_t a, size_t b)
{
    if (!heapOn)
    {
	return __libc_calloc(a, b);
    }
    size_t n;
    if (__builtin_mul_overflow(a, b, &n))
    {
	errno = ENOMEM;
	return 0;
    }
    void* p = nodeAlloc(n, 16);
    if (p)
    {
	memset(p, 0, n);
    }
    return p;
}
EXPORT void* realloc(void* p, size_t n)
{
    if (!p)
    {
	return malloc(n);
    }
    if (!ours(p) && !heapOn)
    {
	return __libc_realloc(p, n);
    }
    if (!ours(p))
    {
	extern size_t malloc_usable_size_real(void*);
	static size_t (*us)(void*);
	if (!us)
	{
	    us = (size_t(*)(void*))dlsym(RTLD_NEXT, "malloc_usable_size");
	}
	size_t old = us(p);
	void*  q = malloc(n);
	memcpy(q, p, std::min(n, old));
	__libc_free(p);
	return q;
    }
    size_t old = ((uint64_t*)p)[-2], cap = classSize(((uint64_t*)p)[-1]);
    void*  q = nodeAlloc(n, 16);
    if (q)
    {
	memcpy(q, p, std::min(n, std::max(old, std::min(cap, n))));
	nodeFree(p);
    }
    return q;
}
EXPORT void* memalign(size_t al, size_t n)
{
    return heapOn ? nodeAlloc(n, std::max<size_t>(al, 16)) : __libc_memalign(al, n);
}
EXPORT void* aligned_alloc(size_t al, size_t n)
{
    return memalign(al, n);
}
EXPORT int posix_memalign(void** out, size_t al, size_t n)
{
    *out = memalign(al, n);
    return *out ? 0 : ENOMEM;
}
EXPORT size_t malloc_usable_size(void* p)
{
    if (p && ours(p))
    {
	return ((uint64_t*)p)[-2];
    }
    static size_t (*us)(void*);
    if (!us)
    {
	us = (size_t(*)(void*))dlsym(RTLD_NEXT, "malloc_usable_size");
    }
    return us(p);
}

// ------------------------------------------------------------------------------------------------ the link step
static std::string slurp(const std::string& p, bool& ok)
{
    std::string s;
    int         fd = syscall(SYS_openat, AT_FDCWD, p.c_str(), O_RDONLY);
    struct stat st;
    ok = fd >= 0 && !fstat(fd, &st) && S_ISREG(st.st_mode);
    if (ok)
    {
	s.resize(st.st_size);
	size_t n = 0;
	long   r;
	while (n < s.size() && (r = syscall(SYS_read, fd, &s[n], s.size() - n)) > 0)
	{
	    n += r;
	}
	s.resize(n);
    }
    if (fd >= 0)
    {
	syscall(SYS_close, fd);
    }
    return s;
}

static uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ULL)
{
    for (unsigned char c : s)
    {
	h = (h ^ c) * 1099511628211ULL;
    }
    return h;
}

static bool expandArgs(const std::vector<std::string>& in, std::vector<std::string>& out, int depth)
{
    for (auto& a : in)
    {
	if (a.size() > 1 && a[0] == '@' && depth < 5)
	{
	    bool        ok;
	    std::string t = slurp(a.substr(1), ok);
	    if (ok)
	    {
		std::vector<std::string> w;
		std::string              cur;
		bool                     have = false;
		char                     q = 0;
		for (size_t i = 0; i < t.size(); i++)
		{
		    char c = t[i];
		    if (q)
		    {
			if (c == q)
			    q = 0;
			else if (c == '\\' && q == '"' && i + 1 < t.size())
			    cur += t[++i];
			else
			    cur += c;
		    }
		    else if (c == '\'' || c == '"')
			q = c, have = true;
		    else if (c == '\\' && i + 1 < t.size())
			cur += t[++i], have = true;
		    else if (isspace((unsigned char)c))
		    {
			if (have)
			    w.push_back(cur);
			cur.clear();
			have = false;
		    }
		    else
			cur += c, have = true;
		}
		if (have)
		    w.push_back(cur);
		expandArgs(w, out, depth + 1);
		continue;
	    }
	}
	out.push_back(a);
    }
    return true;
}

static int driver(int argc, char** argv)
{
    // tell the simulator the arguments, and hear what is to go wrong
    Msg m;
    m.type = 'A';
    strcpy(m.op, "args");
    m.n = 0;
    for (int i = 0; i < argc; i++)
    {
	size_t l = strlen(argv[i]) + 1;
	if (m.n + l > sizeof m.path)
	{
	    break;
	}
	memcpy(m.path + m.n, argv[i], l);
	m.n += l;
    }
    struct sockaddr_storage sa;
    socklen_t               sl = sizeof sa;
    bool                    ctl = getsockname(CTL, (struct sockaddr*)&sa, &sl) == 0;
    Rep                     fail = { 0, 0 };
    if (ctl)
    {
	rawsend(m);
	ask("ldstart", "ld", 0, fail);
    }
    std::vector<std::string> args, all;
    for (int i = 1; i < argc; i++)
    {
	args.push_back(argv[i]);
    }
    expandArgs(args, all, 0);
    std::string                      out = "a.out", blob;
    std::vector<std::string>         dirs, bad;
    std::vector<std::pair<int, std::string>> inputs; // 0 file, 1 -l
    bool                             m32 = false, debug = false;
    for (size_t i = 0; i < all.size(); i++)
    {
	const std::string& a = all[i];
	auto               val = [&](size_t n) -> std::string {
            if (a.size() > n)
                return a.substr(n);
            if (i + 1 < all.size())
                return all[++i];
            bad.push_back(a);
            return "";
	};
	if (a == "-m32")
	    m32 = true;
	else if (a == "-m64")
	    m32 = false;
	else if (a == "-v" || a == "-pie" || a == "-no-pie" || a == "-fPIE" || a == "-fPIC" || a == "-s" || a == "-pipe" ||
	         a == "-lm" || a == "-lc" || a == "-no-canonical-prefixes" || a == "-pthread" || a == "--verbose" || a == "-rdynamic" || a == "-fuse-ld=lld")
	    ;
	else if (a[0] == '-' && (a[1] == 'g' || a[1] == 'W' || a[1] == 'O'))
	    debug |= a[1] == 'g';
	else if (a == "--driver-mode=gcc" || a == "--start-group" || a == "--end-group")
	    ;
	else if (a == "--library-path")
	    dirs.push_back(val(99));
	else if (a == "--output")
	    out = val(99);
	else if (a.substr(0, 2) == "-o")
	    out = val(2);
	else if (a.substr(0, 2) == "-L")
	    dirs.push_back(val(2));
	else if (a.substr(0, 2) == "-l")
	    inputs.push_back({ 1, val(2) });
	else if (a == "-x" || a == "-Xlinker" || a == "-target")
	    val(99);
	else if (a.empty())
	    bad.push_back("''");
	else if (a[0] == '-')
	    bad.push_back(a);
	else
	    inputs.push_back({ 0, a });
    }
    std::string lib;
    int         objs = 0, libs = 0;
    blob = m32 ? "EXE 32\n" : "EXE 64\n";
    for (auto& in : inputs)
    {
	bool        ok = false;
	std::string p = in.second, data;
	if (in.first)
	{
	    std::string base = p[0] == ':' ? p.substr(1) : "lib" + p + ".a";
	    for (auto& d : dirs)
	    {
		data = slurp(d + "/" + base, ok);
		if (ok)
		{
		    break;
		}
	    }
	}
	else
	{
	    if (ctl)
	    {
		Rep r;
		ask("ldread", p.c_str(), 0, r);
	    }
	    data = slurp(p, ok);
	}
	if (!ok)
	{
	    bad.push_back("no such file: " + p);
	    continue;
	}
	char        t[100];
	bool        islib = data.substr(0, 8) == "RUNTIME ";
	bool        elf = data.substr(0, 4) == "\177ELF";
	if (islib)
	{
	    libs++;
	    // an archive serves only what came before it
	    if (!objs)
	    {
		bad.push_back("undefined references: library before object");
	    }
	    if (data.substr(8, 2) != (m32 ? "32" : "64"))
	    {
		bad.push_back("incompatible library " + p);
	    }
	    blob += data.substr(0, data.find('\n')) + "\n";
	}
	else
	{
	    objs++;
	    if (!elf || data.size() < 60)
	    {
		bad.push_back("file not recognized: " + p);
	    }
	    else if ((data[4] == 1) != m32)
	    {
		bad.push_back("incompatible object " + p);
	    }
	    snprintf(t, sizeof t, "OBJ %016llx %zu\n", (unsigned long long)fnv(data), data.size());
	    blob += t;
	}
    }
    if (objs && !libs)
    {
	bad.push_back("undefined references");
    }
    if (!objs)
    {
	bad.push_back("no input files");
    }
    if (debug)
    {
	blob += "G\n";
    }
    if (fail.act == 1)
    {
	bad.push_back("link fails as planned");
    }
    if (fail.act == 5)
    {
	syscall(SYS_kill, getpid(), (int)fail.arg);
    }
    if (!bad.empty())
    {
	for (auto& b : bad)
	{
	    fprintf(stderr, "ld: error: %s\n", b.c_str());
	}
	return fail.act == 1 ? (int)fail.arg : 1;
    }
    Rep r = { 0, 0 };
    if (ctl)
    {
	ask("ldcreate", out.c_str(), 0, r);
    }
    syscall(SYS_unlinkat, AT_FDCWD, out.c_str(), 0);
    int fd = syscall(SYS_openat, AT_FDCWD, out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0777);
    if (fd < 0)
    {
	fprintf(stderr, "ld: cannot open output file %s\n", out.c_str());
	return 1;
    }
    size_t half = blob.size() / 2;
    syscall(SYS_write, fd, blob.data(), half);
    if (ctl)
    {
	ask("ldwrite", out.c_str(), 0, r);
    }
    if (fail.act == 6) // dies or fails half way
    {
	syscall(SYS_kill, getpid(), (int)fail.arg);
    }
    syscall(SYS_write, fd, blob.data() + half, blob.size() - half);
    syscall(SYS_close, fd);
    return 0;
}

// ------------------------------------------------------------------------------------------------ the simulator
struct Fault
{
    int         node;
    std::string op, path;
    long        nth;
    std::string kind;
    long        arg;
    int         sticky;
    long        seen = 0, fired = 0;
};
struct Kill
{
    int  node;
    long step;
    int  mid;
};
struct FileSpec
{
    int         phase; // -1: initially
    std::string path, data;
    int         mode; // -1: remove; -2: directory; -3: symbolic link
};
struct NodeSpec
{
    int                                              id = 0, phase = 0;
    std::vector<std::string>                         args;
    std::vector<std::pair<std::string, std::string>> env;
    std::string                                      exe, cwd;
    uint64_t                                         layout = 0;
    long                                             clock0 = 0, cstep = 0;
    int                                              fdlimit = 0;
};
struct Node
{
    NodeSpec*   spec;
    pid_t       pid = 0;
    int         fd = -1, out = -1, err = -1;
    long        steps = 0;
    bool        ready = false, closed = false, reaped = false;
    Msg         msg;
    int         status = 0;
    bool        killed = false;
    std::string end, site, work;
    std::vector<std::string> links;
};

static std::string scratch;

static uint64_t rngState;
static uint64_t rnd()
{
    rngState += 0x9E3779B97F4A7C15ULL;
    uint64_t z = rngState;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}

static std::string unhex(const std::string& h)
{
    std::string o;
    if (h == "-")
    {
	return o;
    }
    for (size_t i = 0; i + 1 < h.size(); i += 2)
    {
	auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
	o += (char)(v(h[i]) * 16 + v(h[i + 1]));
    }
    return o;
}
static std::string anon(std::string s)
{
    size_t at = 0;
    while ((at = s.find(scratch, at)) != std::string::npos)
    {
	s.replace(at, scratch.size(), "$SCRATCH");
    }
    return s;
}
static std::string tohex(const std::string& s)
{
    static const char* d = "0123456789abcdef";
    std::string        o;
    o.reserve(s.size() * 2);
    for (unsigned char c : s)
    {
	o += d[c >> 4];
	o += d[c & 15];
    }
    return o;
}

static void wipe(const std::string& dir)
{
    DIR* d = opendir(dir.c_str());
    if (!d)
    {
	return;
    }
    while (struct dirent* e = readdir(d))
    {
	std::string n = e->d_name;
	if (n == "." || n == "..")
	{
	    continue;
	}
	std::string p = dir + "/" + n;
	struct stat st;
	if (!lstat(p.c_str(), &st) && S_ISDIR(st.st_mode))
	{
	    chmod(p.c_str(), 0700);
	    wipe(p);
	    syscall(SYS_rmdir, p.c_str());
	}
	else
	{
	    syscall(SYS_unlink, p.c_str());
	}
    }
    closedir(d);
}

static void collect(const std::string& dir, const std::string& rel, std::map<std::string, std::string>& out)
{
    DIR* d = opendir(dir.c_str());
    if (!d)
    {
	return;
    }
    while (struct dirent* e = readdir(d))
    {
	std::string n = e->d_name;
	if (n == "." || n == "..")
	{
	    continue;
	}
	std::string p = dir + "/" + n, r = rel.empty() ? n : rel + "/" + n;
	struct stat st;
	if (lstat(p.c_str(), &st))
	{
	    continue;
	}
	if (S_ISDIR(st.st_mode))
	{
	    out[r] = "d";
	    collect(p, r, out);
	}
	else if (S_ISLNK(st.st_mode))
	{
	    char    b[1000];
	    ssize_t l = syscall(SYS_readlink, p.c_str(), b, sizeof b);
	    out[r] = "l" + std::string(b, l < 0 ? 0 : l);
	}
	else
	{
	    bool ok;
	    out[r] = (st.st_mode & 0100 ? "x" : "f") + slurp(p, ok);
	}
    }
    closedir(d);
}

static void writeFile(const FileSpec& f)
{
    std::string p = scratch + "/" + f.path;
    if (f.mode == -1)
    {
	wipe(p);
	syscall(SYS_unlink, p.c_str());
	syscall(SYS_rmdir, p.c_str());
	return;
    }
    for (size_t i = scratch.size() + 1; (i = p.find('/', i)) != std::string::npos; i++)
    {
	mkdir(p.substr(0, i).c_str(), 0777);
    }
    if (f.mode == -2)
    {
	mkdir(p.c_str(), 0777);
	return;
    }
    if (f.mode == -3)
    {
	syscall(SYS_unlink, p.c_str());
	symlink(f.data.c_str(), p.c_str());
	return;
    }
    syscall(SYS_unlink, p.c_str());
    int fd = syscall(SYS_openat, AT_FDCWD, p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    syscall(SYS_write, fd, f.data.data(), f.data.size());
    fchmod(fd, f.mode);
    syscall(SYS_close, fd);
}

static char altStack[1 << 16];
static void onCrash(int sig, siginfo_t* si, void* uc)
{
    Msg m;
    m.type = 'X';
    strcpy(m.op, "crash");
    m.n = sig;
    m.path[0] = 0;
    void*  bt[60];
    int    n = backtrace(bt, 60);
    size_t l = 0;
    for (int i = 0; i < n && l < sizeof m.path - 300; i++)
    {
	Dl_info di;
	if (!dladdr(bt[i], &di) || !di.dli_fname)
	{
	    continue;
	}
	const char* b = strrchr(di.dli_fname, '/');
	b = b ? b + 1 : di.dli_fname;
	if (!strncmp(b, "libc.so", 7) || !strncmp(b, "libstdc", 7) || (di.dli_sname && !strcmp(di.dli_sname, "onCrash")))
	{
	    continue;
	}
	l += snprintf(m.path + l, sizeof m.path - l, "%.12s!%.120s ", b, di.dli_sname ? di.dli_sname : "?");
    }
    rawsend(m);
    signal(sig, SIG_DFL);
    raise(sig);
}

static void runNode(Node& nd)
{
    NodeSpec& s = *nd.spec;
    // the parent's descriptors are not ours
    dup2(nd.out, 1);
    dup2(nd.err, 2);
    int null = syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDONLY);
    dup2(null, 0);
    int ctl = nd.fd;
    if (ctl != CTL)
    {
	dup2(ctl, CTL);
    }
    for (int i = 3; i < 256; i++)
    {
	if (i != CTL)
	{
	    syscall(SYS_close, i);
	}
    }
    std::string cwd = scratch + "/" + s.cwd;
    if (chdir(cwd.c_str()))
    {
	_exit(198);
    }
    clearenv();
    for (auto& e : s.env)
    {
	setenv(e.first.c_str(), e.second.c_str(), 1);
    }
    snprintf(cwdPrefix, sizeof cwdPrefix, "%s/", cwd.c_str());
    if (!s.exe.empty())
    {
	snprintf(exePath, sizeof exePath, "%s/%s", scratch.c_str(), s.exe.c_str());
    }
    std::vector<char*> av;
    for (auto& a : s.args)
    {
	std::string v = a;
	size_t      at;
	while ((at = v.find("$SCRATCH")) != std::string::npos)
	{
	    v.replace(at, 8, scratch);
	}
	av.push_back(strdup(v.c_str()));
    }
    av.push_back(0);
    struct rlimit rl = { 20, 25 };
    setrlimit(RLIMIT_CPU, &rl);
    rl = { (3UL << 30) + NARENA * ARENA, (3UL << 30) + NARENA * ARENA };
    setrlimit(RLIMIT_AS, &rl);
    rl = { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
    if (s.fdlimit)
    {
	rl = { (rlim_t)s.fdlimit, (rlim_t)s.fdlimit };
	setrlimit(RLIMIT_NOFILE, &rl);
    }
    stack_t ss = {};
    ss.ss_sp = altStack;
    ss.ss_size = sizeof altStack;
    sigaltstack(&ss, 0);
    struct sigaction sa = {};
    sa.sa_sigaction = onCrash;
    sa.sa_flags = SA_ONSTACK | SA_SIGINFO | SA_RESETHAND;
    for (int sg : { SIGSEGV, SIGABRT, SIGBUS, SIGILL, SIGFPE, SIGXCPU })
    {
	sigaction(sg, &sa, 0);
    }
    signal(SIGPIPE, SIG_IGN);
    signal(SIGCHLD, SIG_DFL);
    clockNow = s.clock0;
    clockStep = s.cstep;
    clockRng = s.layout * 77 + 5;
    errno = 0;
    inNode = true;
    if (s.layout)
    {
	heapStart(s.layout);
    }
    Rep r;
    ask("start", "", 0, r);
    exit(lacsap_main((int)av.size() - 1, av.data()));
}

static std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
	char b[8];
	if (c == '"' || c == '\\')
	{
	    o += '\\';
	    o += c;
	}
	else if (c < 32 || c > 126)
	{
	    snprintf(b, sizeof b, "\\u%04x", c);
	    o += b;
	}
	else
	{
	    o += c;
	}
    }
    return o + "\"";
}

static std::string readFd(int fd)
{
    std::string s;
    char        b[4096];
    long        n;
    syscall(SYS_lseek, fd, 0, SEEK_SET);
    while ((n = syscall(SYS_read, fd, b, sizeof b)) > 0 && s.size() < 200000)
    {
	s.append(b, n);
    }
    return s;
}

static std::string runPlan(const std::string& text)
{
    std::vector<FileSpec> files;
    std::vector<Fault>    faults;
    std::vector<Kill>     kills;
    std::map<int, NodeSpec> specs;
    uint64_t              seed = 1, shortr = 0, shortw = 0, stick = 0;
    bool                  wantTrace = false, hashOnly = false;
    size_t                pos = 0;
    while (pos < text.size())
    {
	size_t                   e = text.find('\n', pos);
	std::string              line = text.substr(pos, e - pos);
	std::vector<std::string> w;
	pos = e == std::string::npos ? text.size() : e + 1;
	for (size_t i = 0; i < line.size();)
	{
	    size_t j = line.find(' ', i);
	    if (j == std::string::npos)
	    {
		j = line.size();
	    }
	    if (j > i)
	    {
		w.push_back(line.substr(i, j - i));
	    }
	    i = j + 1;
	}
	if (w.empty())
	{
	    continue;
	}
	auto num = [&](size_t i) { return i < w.size() ? strtol(w[i].c_str(), 0, 0) : 0; };
	if (w[0] == "seed")
	    seed = strtoull(w[1].c_str(), 0, 0);
	else if (w[0] == "trace")
	    wantTrace = num(1);
	else if (w[0] == "hashonly")
	    hashOnly = num(1);
	else if (w[0] == "shortr")
	    shortr = num(1);
	else if (w[0] == "shortw")
	    shortw = num(1);
	else if (w[0] == "stick")
	    stick = num(1);
	else if (w[0] == "file") // phase path mode data
	    files.push_back({ (int)num(1), unhex(w[2]), unhex(w[4]), (int)strtol(w[3].c_str(), 0, 10) });
	else if (w[0] == "node")
	{
	    NodeSpec& n = specs[num(1)];
	    n.id = num(1);
	    n.phase = num(2);
	    n.exe = unhex(w[3]);
	    n.cwd = unhex(w[4]);
	    for (size_t i = 5; i < w.size(); i++)
		n.args.push_back(unhex(w[i]));
	}
	else if (w[0] == "env")
	    specs[num(1)].env.push_back({ unhex(w[2]), unhex(w[3]) });
	else if (w[0] == "layout")
	    specs[num(1)].layout = strtoull(w[2].c_str(), 0, 0);
	else if (w[0] == "fdlimit")
	    specs[num(1)].fdlimit = num(2);
	else if (w[0] == "clock")
	{
	    specs[num(1)].clock0 = num(2);
	    specs[num(1)].cstep = num(3);
	}
	else if (w[0] == "fault")
	    faults.push_back({ (int)num(1), w[2], w[3] == "*" ? "*" : unhex(w[3]), num(4), w[5], num(6), (int)num(7) });
	else if (w[0] == "kill")
	    kills.push_back({ (int)num(1), num(2), (int)num(3) });
    }
    rngState = seed;
    wipe(scratch);
    int maxPhase = 0;
    for (auto& s : specs)
    {
	maxPhase = std::max(maxPhase, s.second.phase);
    }
    for (auto& f : files)
    {
	if (f.phase < 0)
	{
	    writeFile(f);
	}
    }
    uint64_t                 evh = 1469598103934665603ULL, sched = evh;
    long                     switches = 0, steps = 0, shorts = 0;
    std::string              trace, phasesJson;
    std::map<int, Node>      nodes;
    std::map<std::string, long> firedCount;
    auto                     log = [&](int id, const std::string& s) {
        std::string l = std::to_string(id) + " ";
        for (char c : s)
            c == '\n' ? l += "\\n" : l += c;
        l += '\n';
        evh = fnv(l, evh);
        if (wantTrace)
            trace += l;
    };
    for (int phase = 0; phase <= maxPhase; phase++)
    {
	for (auto& f : files)
	{
	    if (f.phase == phase)
	    {
		writeFile(f);
	    }
	}
	std::vector<Node*> live;
	for (auto& sp : specs)
	{
	    if (sp.second.phase != phase)
	    {
		continue;
	    }
	    Node& nd = nodes[sp.first];
	    nd.spec = &sp.second;
	    int sv[2];
	    socketpair(AF_UNIX, SOCK_SEQPACKET, 0, sv);
	    nd.out = memfd_create("out", 0);
	    nd.err = memfd_create("err", 0);
	    fflush(0);
	    pid_t pid = (pid_t)syscall(SYS_fork);
	    if (pid == 0)
	    {
		nd.fd = sv[1];
		runNode(nd);
	    }
	    syscall(SYS_close, sv[1]);
	    nd.fd = sv[0];
	    nd.pid = pid;
	    live.push_back(&nd);
	}
	Node* last = 0;
	while (true)
	{
	    // wait until every node has asked for its next step or has gone
	    bool any = false;
	    for (Node* n : live)
	    {
		while (!n->ready && !n->closed)
		{
		    long got = syscall(SYS_recvfrom, n->fd, &n->msg, sizeof n->msg, 0, 0, 0);
		    if (got < 0 && errno == EINTR)
		    {
			continue;
		    }
		    if (got <= 0)
		    {
			n->closed = true;
			break;
		    }
		    if (n->msg.type == 'S')
		    {
			n->ready = true;
		    }
		    else if (n->msg.type == 'A')
		    {
			n->links.push_back(anon(std::string(n->msg.path, n->msg.n)));
			log(n->spec->id, "link " + tohex(n->links.back()));
		    }
		    else if (n->msg.type == 'X')
		    {
			n->site = n->msg.path;
		    }
		    else if (n->msg.type == 'E')
		    {
			n->work = n->msg.path;
		    }
		}
		any |= n->ready;
	    }
	    if (!any)
	    {
		break;
	    }
	    std::vector<Node*> ready;
	    for (Node* n : live)
	    {
		if (n->ready)
		{
		    ready.push_back(n);
		}
	    }
	    Node* n = 0;
	    if (last && last->ready && (rnd() % 100) < stick)
	    {
		n = last;
	    }
	    else
	    {
		n = ready[rnd() % ready.size()];
	    }
	    if (n != last && last)
	    {
		switches++;
	    }
	    last = n;
	    Msg&        m = n->msg;
	    std::string op = m.op, path = anon(m.path);
	    Rep         r = { 0, 0 };
	    n->steps++;
	    steps++;
	    for (auto& k : kills)
	    {
		if (k.node == n->spec->id && k.step == n->steps)
		{
		    n->killed = true;
		    bool ld = op.substr(0, 2) == "ld";
		    if (op == "write" && k.mid)
		    {
			r = { 4, k.mid };
		    }
		    else
		    {
			r = { 3, 0 };
		    }
		    if (ld)
		    {
			kill(n->pid, SIGKILL); // the compiler that waits for it goes as well
		    }
		    firedCount["kill"]++;
		}
	    }
	    if (!n->killed)
	    {
		if (shortr && op == "read" && m.n > 1 && rnd() % 100 < shortr)
		{
		    r = { 2, (long)(1 + rnd() % std::min<long>(m.n, 64)) };
		    shorts++;
		}
		if (shortw && op == "write" && m.n > 1 && rnd() % 100 < shortw)
		{
		    r = { 2, (long)(1 + rnd() % (m.n - 1)) };
		    shorts++;
		}
		for (auto& f : faults)
		{
		    if ((f.node >= 0 && f.node != n->spec->id) || f.op != op || (f.path != "*" && f.path != path))
		    {
			continue;
		    }
		    f.seen++;
		    if (f.seen == f.nth || (f.sticky && f.seen > f.nth))
		    {
			f.fired++;
			firedCount[f.kind + "-" + f.op]++;
			if (f.kind == "err")
			    r = { 1, f.arg };
			else if (f.kind == "short")
			    r = { 2, f.arg };
			else if (f.kind == "sig")
			    r = { 5, f.arg };
			else if (f.kind == "sigmid")
			    r = { 6, f.arg };
		    }
		}
	    }
	    log(n->spec->id, op + " " + path + " " + std::to_string(m.n) + " -> " + std::to_string(r.act) + " " +
	                         std::to_string(r.arg));
	    sched = fnv(std::to_string(n->spec->id) + op, sched);
	    n->ready = false;
	    syscall(SYS_sendto, n->fd, &r, sizeof r, MSG_NOSIGNAL, 0, 0);
	}
	for (Node* n : live)
	{
	    int st = 0;
	    while (waitpid(n->pid, &st, 0) < 0 && errno == EINTR)
		;
	    n->status = st;
	    syscall(SYS_close, n->fd);
	}
	while (waitpid(-1, 0, WNOHANG) > 0)
	    ;
	std::map<std::string, std::string> dump;
	collect(scratch, "", dump);
	phasesJson += phase ? ",{" : "{";
	bool first = true;
	for (auto& d : dump)
	{
	    char t[64];
	    evh = fnv(d.first + d.second, evh);
	    if (!first)
	    {
		phasesJson += ",";
	    }
	    first = false;
	    phasesJson += jstr(d.first) + ":";
	    if (hashOnly && d.second.size() > 200)
	    {
		snprintf(t, sizeof t, "\"%c#%016llx.%zu\"", d.second[0], (unsigned long long)fnv(d.second.substr(1)), d.second.size() - 1);
		phasesJson += t;
	    }
	    else
	    {
		phasesJson += "\"" + d.second.substr(0, 1) + tohex(d.second.substr(1)) + "\"";
	    }
	}
	phasesJson += "}";
    }
    std::string o = "{\"nodes\":[";
    bool        first = true;
    for (auto& p : nodes)
    {
	Node& n = p.second;
	if (!first)
	{
	    o += ",";
	}
	first = false;
	std::string out = anon(readFd(n.out)), err = anon(readFd(n.err));
	syscall(SYS_close, n.out);
	syscall(SYS_close, n.err);
	bool        sig = WIFSIGNALED(n.status);
	int         val = sig ? WTERMSIG(n.status) : WEXITSTATUS(n.status);
	std::string end = n.killed ? "killed" : !n.work.empty() ? "work" : sig ? (val == SIGXCPU || val == SIGKILL ? "work" : "signal") : "exit";
	if (n.work.empty() && end == "work")
	{
	    n.work = "cpu";
	}
	log(p.first, end + std::to_string(val) + " " + out + " " + err);
	o += "{\"id\":" + std::to_string(p.first) + ",\"end\":\"" + end + "\",\"val\":" + std::to_string(val) +
	     ",\"steps\":" + std::to_string(n.steps) + ",\"work\":" + jstr(n.work) + ",\"site\":" + jstr(n.site) +
	     ",\"stdout\":\"" + tohex(out) + "\",\"stderr\":\"" + tohex(err) + "\",\"links\":[";
	for (size_t i = 0; i < n.links.size(); i++)
	{
	    o += (i ? ",\"" : "\"") + tohex(n.links[i]) + "\"";
	}
	o += "]}";
    }
    char t[300];
    snprintf(t, sizeof t, "],\"steps\":%ld,\"switches\":%ld,\"shorts\":%ld,\"hash\":\"%016llx\",\"sched\":\"%016llx\",", steps,
             switches, shorts, (unsigned long long)evh, (unsigned long long)sched);
    o += t;
    o += "\"fired\":{";
    first = true;
    for (auto& f : firedCount)
    {
	o += (first ? "" : ",") + jstr(f.first) + ":" + std::to_string(f.second);
	first = false;
    }
    o += "},\"phases\":[" + phasesJson + "]";
    if (wantTrace)
    {
	o += ",\"trace\":" + jstr(trace);
    }
    return o + "}";
}

int main(int argc, char** argv)
{
    const char* b = strrchr(argv[0], '/');
    b = b ? b + 1 : argv[0];
    if (strncmp(b, "ccsim", 5))
    {
	return driver(argc, argv);
    }
    if (!getenv("CCSIM_NR"))
    {
	setenv("CCSIM_NR", "1", 1);
	personality(ADDR_NO_RANDOMIZE);
	execv("/proc/self/exe", argv);
    }
    if (argc < 2)
    {
	return 2;
    }
    scratch = argv[1];
    signal(SIGPIPE, SIG_IGN);
    setpriority(PRIO_PROCESS, 0, 0);
    // load what backtrace needs before anything can crash
    void* bt[4];
    backtrace(bt, 4);
    char line[64];
    while (fgets(line, sizeof line, stdin))
    {
	size_t      n = strtoul(line, 0, 10);
	std::string t(n, 0);
	if (fread(&t[0], 1, n, stdin) != n)
	{
	    break;
	}
	std::string r = runPlan(t);
	printf("%zu\n", r.size());
	fwrite(r.data(), 1, r.size(), stdout);
	fflush(stdout);
    }
    wipe(scratch);
    return 0;
}
