/* simhost: deterministic simulator for programs made by lacsap.
 *
 * A program (its object code plus the object code of /repo/runtime) is linked into a shared object in which every
 * call that reaches the operating system or the allocator goes to a __wrap_ function below.  The simulator runs
 * one or more such programs ("nodes") as coroutines inside one process over a simulated kernel: an in-memory file
 * system with a capacity, descriptors, terminals, pipes, scripted peers, a clock and an allocator.  Everything that
 * happens is decided by the plan that is read from standard input (a seed and explicit faults); nothing real is
 * touched.  One plan is one exactly repeatable execution: the event log's hash is part of the answer.
 *
 * Protocol: requests on stdin "<len>\n<plan text>", answers on stdout "<len>\n<json>".
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <link.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdio_ext.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

typedef uint64_t u64;
typedef int64_t  i64;

#define MAXNODES 8
#define MAXFD    1100
#define MAXFAULT 64
#define NSEC     1000000000LL

static void die(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vfprintf(stderr, fmt, ap);
    va_end(ap);
    fputc('\n', stderr);
    _exit(99);
}

static void* xmalloc(size_t n)
{
    void* p = malloc(n ? n : 1);
    if (!p)
	die("simhost: out of memory");
    return p;
}

static void* xcalloc(size_t n)
{
    void* p = xmalloc(n);
    memset(p, 0, n ? n : 1);
    return p;
}

/* ---------------------------------------------------------------- buffers */
typedef struct
{
    char*  p;
    size_t n, cap;
} Buf;

static void bput(Buf* b, const void* d, size_t n)
{
    if (b->n + n + 1 > b->cap)
    {
	b->cap = (b->n + n + 1) * 2 + 64;
	b->p = realloc(b->p, b->cap);
	if (!b->p)
	    die("simhost: out of memory");
    }
    memcpy(b->p + b->n, d, n);
    b->n += n;
    b->p[b->n] = 0;
}

static void bprintf(Buf* b, const char* fmt, ...)
{
    char    t[2048];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(t, sizeof t, fmt, ap);
    va_end(ap);
    if (n >= (int)sizeof t)
	n = sizeof t - 1;
    bput(b, t, n);
}

static void bhex(Buf* b, const void* d, size_t n)
{
    static const char  H[] = "0123456789abcdef";
    const unsigned char* s = d;
    for (size_t i = 0; i < n; i++)
    {
	char c[2] = { H[s[i] >> 4], H[s[i] & 15] };
	bput(b, c, 2);
    }
}

/* ---------------------------------------------------------------- PRNG */
static u64 splitmix(u64* s)
{
    u64 z = (*s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}

static u64 rngs;  /* schedule, delays, short transfers */
static u64 rngh;  /* heap layout and left-over contents */
static u64 rnd(u64* s, u64 n)
{
    return n ? splitmix(s) % n : 0;
}

/* ---------------------------------------------------------------- kernel objects */
typedef struct
{
    int      type; /* 0 file, 1 directory */
    unsigned mode;
    Buf      d;
    int      refs;
} Inode;

typedef struct
{
    char*  path;
    Inode* ino;
} Dent;

static Dent*  dents;
static size_t ndents, capdents;
static i64    diskcap = -1, diskused;

typedef struct
{
    i64   await;
    i64   delay;
    int   kind; /* 0 data, 1 eof, 2 err */
    int   err;
    char* data;
    size_t n;
} Ev;

typedef struct
{
    int    tty, hold;
    Ev*    ev;
    size_t nev, cur;
    i64    ready; /* time at which ev[cur] arrives, -1: not armed yet */
    Buf    q;     /* arrived, not yet read */
    size_t qoff;
    int    eofs, err, ended;
} InStream;

typedef struct
{
    Buf q;
    size_t off, cap;
    int readers, writers;
} Pipe;

typedef struct
{
    Buf d;
    i64 cap;
    int tty;
} Sink;

enum
{
    K_FILE,
    K_IN,
    K_SINK,
    K_PIPER,
    K_PIPEW,
    K_NULL
};

typedef struct
{
    int       refs, kind, flags;
    i64       off;
    Inode*    ino;
    InStream* in;
    Pipe*     pipe;
    Sink*     sink;
    char      name[300];
} Ofd;

typedef struct
{
    int   node; /* -1 any */
    char  op[16];
    char  path[300];
    int   nth, count;
    char  kind[12];
    int   arg, sticky;
    int   fired;
} Fault;

static Fault faults[MAXFAULT];
static int   nfaults;

typedef struct Block
{
    u64    user; /* offset in the arena */
    size_t size, room;
    int    live;
    int    next;
} Block;

typedef struct SFile
{
    FILE*         fp;
    int           fd;
    struct Node*  node;
    struct SFile* next;
    char*         vbuf;
    int           rdwr; /* 1 read 2 write */
} SFile;

enum
{
    S_NEW,
    S_READY,
    S_BLOCKED,
    S_DONE
};

typedef struct Image
{
    char  path[512];
    void* h;
    int   nseg;
    struct
    {
	char*  at;
	size_t n;
	char*  init;
    } seg[8];
    struct Node* resident;
    int          lru;
} Image;

typedef struct Node
{
    int        id, used, phase, state;
    char       so[512];
    Image*     img;
    char*      save[8];
    int        argc;
    char*      argv[64];
    ucontext_t ctx;
    char*      stack;
    size_t     stacksz;
    Ofd*       fd[MAXFD];
    int        nopen, maxopen, fdlimit;
    SFile*     files;
    FILE *     in, *out, *err;
    Sink       serr;
    i64        visible; /* bytes written to fd 1 */
    InStream*  instream;
    int        inkind;    /* 0 null 1 file 2 stream 3 pipe 4 closed */
    char       inpath[300];
    int        insrc, incap;
    int        outkind;   /* 0 sink 1 file 2 pipe 3 closed */
    char       outpath[300];
    Sink       sout;
    Pipe*      outpipe;
    char       endkind[16];
    int        endval;
    i64        steps;
    u64        cpu; /* microseconds */
    i64        killstep;
    int        killmid;
    i64        marks;
    int        saved_errno;
    int        nops, nallocs, nlive;
    i64        livebytes, maxlive, memlimit;
    char*      arena;
    size_t     arenasz, bump;
    Block*     blk;
    int        nblk, capblk;
    int        freehead[64];
    Buf        memerr;
    void (*atexitf[32])(void);
    int  natexit;
    int  exiting, inexit;
    int  sigpipe_ign;
    Ofd* waitofd;
    int  waitkind; /* 1 readable 2 writable 3 sleep */
    i64  waituntil;
    int  blockedon;
    u64  thash;
} Node;

static Node  nodes[MAXNODES];
static int   nnodes;
static Node* cur;
static ucontext_t schedctx;

static i64  now, tick = 1000, gsteps, maxsteps = 200000;
static u64  cpu0; /* microseconds that the processor clock starts at */
static i64  tjump_step[16], tjump_delta[16];
static int  ntjump;
static i64  cjump_step[16], cjump_delta[16]; /* the same for the processor clock */
static int  ncjump;
static int  shortr, shortw, bufsz, reuse, stick = 50, trace, cpums = 3000, retlog;
static u64  seed;
static u64  evhash = 1469598103934665603ULL, schash = 1469598103934665603ULL;
static Buf  tracebuf, clockbuf, retbuf;
static i64  simstart;
static i64  switches;
static int  curphase;
static long pid0 = 4000, pidd = 17;

static void hashbytes(u64* h, const void* p, size_t n)
{
    const unsigned char* s = p;
    for (size_t i = 0; i < n; i++)
	*h = (*h ^ s[i]) * 1099511628211ULL;
}

static void logev(const char* op, const char* path, i64 a, i64 b)
{
    char t[600];
    int  n = snprintf(t, sizeof t, "%d %s %s %lld %lld %lld\n", cur ? cur->id : -1, op, path, (long long)a, (long long)b,
		      (long long)now);
    if (n > (int)sizeof t)
	n = sizeof t;
    hashbytes(&evhash, t, n);
    if (cur)
	hashbytes(&cur->thash, op, strlen(op));
    if (trace)
	bput(&tracebuf, t, n);
}

/* ---------------------------------------------------------------- node ends */
static void endnode(Node* n, const char* kind, int val)
{
    if (n->state == S_DONE)
	return;
    snprintf(n->endkind, sizeof n->endkind, "%s", kind);
    n->endval = val;
    n->state = S_DONE;
    Node* sv = cur;
    cur = n;
    logev("end", kind, val, n->steps);
    cur = sv;
    for (int i = 0; i < MAXFD; i++)
    {
	Ofd* o = n->fd[i];
	if (!o)
	    continue;
	n->fd[i] = NULL;
	if (--o->refs == 0)
	{
	    if (o->kind == K_PIPEW)
		o->pipe->writers--;
	    if (o->kind == K_PIPER)
		o->pipe->readers--;
	}
    }
}

static void toscheduler(void)
{
    /* never returns: the coroutine is dead */
    cur->saved_errno = 0;
    setcontext(&schedctx);
    die("setcontext failed");
}

static void endcur(const char* kind, int val) __attribute__((noreturn));
static void endcur(const char* kind, int val)
{
    endnode(cur, kind, val);
    toscheduler();
    __builtin_unreachable();
}

/* ---------------------------------------------------------------- steps, faults */
static void yield(void)
{
    Node* n = cur;
    int   e = errno;
    if (swapcontext(&n->ctx, &schedctx) != 0)
	die("swapcontext");
    errno = e;
}

static Fault* faultat(const char* op, const char* path)
{
    Fault* hit = NULL;
    for (int i = 0; i < nfaults; i++)
    {
	Fault* f = &faults[i];
	if (f->node != -1 && f->node != cur->id)
	    continue;
	if (strcmp(f->op, op) && strcmp(f->op, "any"))
	    continue;
	if (strcmp(f->path, "*") && strcmp(f->path, path))
	    continue;
	f->count++;
	if (f->count == f->nth || (f->sticky && f->count > f->nth))
	{
	    f->fired++;
	    if (!hit)
		hit = f;
	}
    }
    return hit;
}

static int liveothers(void)
{
    for (int i = 0; i < nnodes; i++)
	if (&nodes[i] != cur && (nodes[i].state == S_READY || nodes[i].state == S_BLOCKED))
	    return 1;
    return 0;
}

static int killnow; /* set when the current operation must be cut short and the node killed */

static void step(const char* op, const char* path)
{
    if (!cur)
	die("step outside a node");
    if (cur->steps && liveothers())
	yield();
    cur->steps++;
    gsteps++;
    now += 1 + (i64)rnd(&rngs, tick);
    cur->cpu += 1 + rnd(&rngs, 50);
    for (int i = 0; i < ntjump; i++)
	if (tjump_step[i] == gsteps)
	    now += 0; /* wall jumps are applied in wallclock() */
    killnow = 0;
    if (cur->killstep >= 0 && cur->steps >= cur->killstep)
    {
	if (cur->killmid > 0 && !strcmp(op, "write"))
	    killnow = cur->killmid;
	else
	{
	    logev("killed", op, 0, 0);
	    endcur("killed", 9);
	}
    }
    if (cur->steps > maxsteps)
	endcur("steplimit", 0);
    (void)path;
}

static i64 wallclock(void)
{
    i64 t = now;
    for (int i = 0; i < ntjump; i++)
	if (gsteps >= tjump_step[i])
	    t += tjump_delta[i];
    return t;
}

static u64 cpuclock(void)
{
    i64 t = (i64)(cpu0 + cur->cpu);
    for (int i = 0; i < ncjump; i++)
	if (gsteps >= cjump_step[i])
	    t += cjump_delta[i];
    return t < 0 ? 0 : (u64)t;
}

/* ---------------------------------------------------------------- the file system */
static const char* norm(const char* p)
{
    while (p[0] == '.' && p[1] == '/')
    {
	p += 2;
	while (*p == '/')
	    p++;
    }
    return p;
}

static Dent* lookup(const char* path)
{
    path = norm(path);
    for (size_t i = 0; i < ndents; i++)
	if (!strcmp(dents[i].path, path))
	    return &dents[i];
    return NULL;
}

static Inode* mkinode(const char* path, int type, unsigned mode)
{
    if (ndents == capdents)
    {
	capdents = capdents * 2 + 16;
	dents = realloc(dents, capdents * sizeof *dents);
    }
    Inode* ino = xcalloc(sizeof *ino);
    ino->type = type;
    ino->mode = mode;
    ino->refs = 1;
    dents[ndents].path = strdup(norm(path));
    dents[ndents].ino = ino;
    ndents++;
    return ino;
}

static void rmdent(Dent* d)
{
    d->ino->refs--;
    diskused -= d->ino->d.n; /* open descriptors keep their data; good enough for the capacity */
    free(d->path);
    *d = dents[--ndents];
}

/* 0 if the directory part exists, else errno */
static int parentcheck(const char* path, int creating)
{
    path = norm(path);
    const char* sl = strrchr(path, '/');
    char        dir[600];
    if (!sl)
	strcpy(dir, ".");
    else
    {
	size_t n = sl - path;
	if (n == 0)
	    strcpy(dir, "/");
	else
	{
	    if (n >= sizeof dir)
		return ENAMETOOLONG;
	    memcpy(dir, path, n);
	    dir[n] = 0;
	}
    }
    Dent* d = NULL;
    for (size_t i = 0; i < ndents; i++)
	if (!strcmp(dents[i].path, dir))
	    d = &dents[i];
    if (!d)
    {
	if (!strcmp(dir, "."))
	    return 0;
	return ENOENT;
    }
    if (d->ino->type != 1)
	return ENOTDIR;
    if (!(d->ino->mode & 0100))
	return EACCES;
    if (creating && !(d->ino->mode & 0200))
	return EACCES;
    return 0;
}

static int newfd(Ofd* o)
{
    if (cur->nopen >= cur->fdlimit)
	return -1;
    for (int i = 0; i < MAXFD; i++)
	if (!cur->fd[i])
	{
	    cur->fd[i] = o;
	    cur->nopen++;
	    if (cur->nopen > cur->maxopen)
		cur->maxopen = cur->nopen;
	    return i;
	}
    return -1;
}

static Ofd* mkofd(int kind, const char* name)
{
    Ofd* o = xcalloc(sizeof *o);
    o->refs = 1;
    o->kind = kind;
    snprintf(o->name, sizeof o->name, "%s", name);
    return o;
}

static Ofd* getofd(int fd)
{
    if (fd < 0 || fd >= MAXFD)
	return NULL;
    return cur->fd[fd];
}

static i64 k_open(const char* path, int flags, unsigned mode)
{
    int acc = flags & O_ACCMODE;
    step("open", path);
    if (!path)
	return -EFAULT;
    Fault* f = faultat("open", norm(path));
    i64    r;
    if (f && !strcmp(f->kind, "kill"))
    {
	logev("killed", "open", 0, 0);
	endcur("killed", 9);
    }
    if (f && !strcmp(f->kind, "err"))
    {
	r = -f->arg;
	goto out;
    }
    if (!*path)
    {
	r = -ENOENT;
	goto out;
    }
    const char* base = strrchr(path, '/');
    base = base ? base + 1 : path;
    if (strlen(base) > 255)
    {
	r = -ENAMETOOLONG;
	goto out;
    }
    if (cur->nopen >= cur->fdlimit)
    {
	r = -EMFILE;
	goto out;
    }
    Dent*  d = lookup(path);
    Inode* ino;
    int    creating = 0;
    if (!d)
    {
	int e = parentcheck(path, !!(flags & O_CREAT));
	if (e)
	{
	    r = -e;
	    goto out;
	}
	if (!(flags & O_CREAT))
	{
	    r = -ENOENT;
	    goto out;
	}
	ino = mkinode(path, 0, (mode & 0777) | 0);
	creating = 1;
    }
    else
    {
	ino = d->ino;
	int e = parentcheck(path, 0);
	if (e)
	{
	    r = -e;
	    goto out;
	}
	if ((flags & O_CREAT) && (flags & O_EXCL))
	{
	    r = -EEXIST;
	    goto out;
	}
    }
    if (ino->type == 1 && (acc != O_RDONLY || (flags & O_CREAT)))
    {
	r = -EISDIR;
	goto out;
    }
    if (!creating)
    {
	if ((acc == O_RDONLY || acc == O_RDWR) && !(ino->mode & 0400))
	{
	    r = -EACCES;
	    goto out;
	}
	if ((acc == O_WRONLY || acc == O_RDWR) && !(ino->mode & 0200))
	{
	    r = -EACCES;
	    goto out;
	}
    }
    if ((flags & O_TRUNC) && acc != O_RDONLY && ino->type == 0)
    {
	diskused -= ino->d.n;
	ino->d.n = 0;
    }
    Ofd* o = mkofd(K_FILE, norm(path));
    o->ino = ino;
    ino->refs++;
    o->flags = flags;
    r = newfd(o);
    if (r < 0)
	r = -EMFILE;
out:
    logev("open", norm(path), flags & (O_ACCMODE | O_CREAT | O_TRUNC | O_APPEND | O_EXCL), r);
    return r;
}

static int instream_poll(Node* n, InStream* s)
{
    /* bring in whatever has arrived by now; 1 if readable */
    for (;;)
    {
	if (s->cur >= s->nev)
	    break;
	Ev* e = &s->ev[s->cur];
	if (s->ready < 0)
	{
	    if (n->visible < e->await)
		break;
	    s->ready = now + e->delay;
	}
	if (now < s->ready)
	    break;
	/* a terminal end-of-file is a separate delivery: it stays in front until it is read */
	if (s->eofs || s->err)
	    break;
	if (e->kind == 0)
	    bput(&s->q, e->data, e->n);
	else if (e->kind == 1)
	    s->eofs = 1;
	else
	    s->err = e->err;
	s->cur++;
	s->ready = -1;
    }
    if (s->q.n > s->qoff)
    {
	if (!s->tty || s->eofs || s->err)
	    return 1;
	if (memchr(s->q.p + s->qoff, '\n', s->q.n - s->qoff) || s->q.n - s->qoff >= 4095)
	    return 1;
	if (s->cur >= s->nev && !s->hold)
	    return 1;
	return 0;
    }
    if (s->eofs || s->err || s->ended)
	return 1;
    if (s->cur >= s->nev && !s->hold)
	return 1;
    return 0;
}

static i64 shorten(i64 n, int pct)
{
    if (n > 1 && pct && (int)rnd(&rngs, 100) < pct)
    {
	/* favour very small transfers and transfers that are one short */
	switch (rnd(&rngs, 4))
	{
	case 0: return 1;
	case 1: return n - 1;
	default: return 1 + rnd(&rngs, n - 1);
	}
    }
    return n;
}

static i64 k_read(int fd, void* buf, size_t count)
{
    Ofd* o = getofd(fd);
    step("read", o ? o->name : "?");
    o = getofd(fd);
    i64 r;
    if (!o)
    {
	logev("read", "?", fd, -EBADF);
	return -EBADF;
    }
    Fault* f = faultat("read", o->name);
    if (f)
    {
	if (!strcmp(f->kind, "kill"))
	{
	    logev("killed", "read", 0, 0);
	    endcur("killed", 9);
	}
	if (!strcmp(f->kind, "err"))
	{
	    r = -f->arg;
	    goto out;
	}
	if (!strcmp(f->kind, "short") && count > (size_t)f->arg && f->arg > 0)
	    count = f->arg;
    }
    switch (o->kind)
    {
    case K_NULL: r = 0; break;
    case K_FILE:
	if (o->ino->type == 1)
	{
	    r = -EISDIR;
	    break;
	}
	if ((o->flags & O_ACCMODE) == O_WRONLY)
	{
	    r = -EBADF;
	    break;
	}
	r = o->off >= (i64)o->ino->d.n ? 0 : (i64)o->ino->d.n - o->off;
	if (r > (i64)count)
	    r = count;
	r = shorten(r, shortr);
	memcpy(buf, o->ino->d.p + o->off, r);
	o->off += r;
	break;
    case K_IN:
    {
	InStream* s = o->in;
	while (!instream_poll(cur, s))
	{
	    cur->state = S_BLOCKED;
	    cur->waitkind = 1;
	    cur->waitofd = o;
	    yield();
	}
	i64 avail = s->q.n - s->qoff;
	if (avail > 0)
	{
	    if (s->tty)
	    {
		char* nl = memchr(s->q.p + s->qoff, '\n', avail);
		if (nl)
		    avail = nl + 1 - (s->q.p + s->qoff);
	    }
	    r = avail < (i64)count ? avail : (i64)count;
	    if (!s->tty)
		r = shorten(r, shortr);
	    memcpy(buf, s->q.p + s->qoff, r);
	    s->qoff += r;
	    /* ^D after unterminated input only pushes that input */
	    if (s->tty && s->eofs && s->qoff == s->q.n && s->q.p[s->qoff - 1] != '\n')
		s->eofs = 0;
	}
	else if (s->err)
	{
	    r = -s->err;
	    s->err = 0;
	}
	else
	{
	    r = 0;
	    s->eofs = 0;
	    if (!s->tty)
		s->ended = 1;
	}
	break;
    }
    case K_PIPER:
	while (o->pipe->q.n == o->pipe->off && o->pipe->writers > 0)
	{
	    cur->state = S_BLOCKED;
	    cur->waitkind = 1;
	    cur->waitofd = o;
	    yield();
	}
	r = o->pipe->q.n - o->pipe->off;
	if (r > (i64)count)
	    r = count;
	r = shorten(r, shortr);
	memcpy(buf, o->pipe->q.p + o->pipe->off, r);
	o->pipe->off += r;
	break;
    default: r = -EBADF;
    }
out:
    logev("read", o->name, count, r);
    if (r > 0)
	hashbytes(&evhash, buf, r);
    return r;
}

static i64 k_write(int fd, const void* buf, size_t count)
{
    Ofd* o = getofd(fd);
    step("write", o ? o->name : "?");
    o = getofd(fd);
    i64 r = count;
    int dieafter = 0;
    if (!o)
    {
	logev("write", "?", fd, -EBADF);
	return -EBADF;
    }
    Fault* f = faultat("write", o->name);
    if (f)
    {
	if (!strcmp(f->kind, "kill"))
	{
	    logev("killed", "write", 0, 0);
	    endcur("killed", 9);
	}
	if (!strcmp(f->kind, "err"))
	{
	    r = -f->arg;
	    goto out;
	}
	if (!strcmp(f->kind, "short") && f->arg > 0 && (size_t)f->arg < count)
	    r = f->arg;
	if (!strcmp(f->kind, "killmid"))
	{
	    r = count > 1 ? 1 + f->arg % (count - 1) : 0;
	    dieafter = 1;
	}
    }
    if (killnow)
    {
	r = count > 1 ? 1 + killnow % (count - 1) : 0;
	dieafter = 1;
    }
    if (!dieafter)
	r = shorten(r, shortw);
    if (r == 0 && count == 0)
	goto out;
    switch (o->kind)
    {
    case K_NULL: r = -EBADF; break;
    case K_FILE:
	if (o->ino->type == 1 || (o->flags & O_ACCMODE) == O_RDONLY)
	{
	    r = -EBADF;
	    break;
	}
	if (o->flags & O_APPEND)
	    o->off = o->ino->d.n;
	if (diskcap >= 0)
	{
	    i64 grow = o->off + r - (i64)o->ino->d.n;
	    if (grow > 0 && diskused + grow > diskcap)
	    {
		i64 room = diskcap - diskused;
		r -= grow - room;
		if (r <= 0)
		{
		    r = -ENOSPC;
		    break;
		}
	    }
	}
	{
	    Inode* ino = o->ino;
	    if (o->off + r > (1 << 26))
	    {
		r = -EFBIG;
		break;
	    }
	    while ((i64)ino->d.n < o->off)
	    {
		char   z[4096] = { 0 };
		size_t m = o->off - ino->d.n;
		bput(&ino->d, z, m > sizeof z ? sizeof z : m);
		diskused += m > sizeof z ? sizeof z : m;
	    }
	    i64 over = (i64)ino->d.n - o->off;
	    if (over > r)
		over = r;
	    memcpy(ino->d.p + o->off, buf, over);
	    if (r > over)
	    {
		bput(&ino->d, (const char*)buf + over, r - over);
		diskused += r - over;
	    }
	    o->off += r;
	}
	break;
    case K_SINK:
	if (o->sink->cap >= 0 && (i64)o->sink->d.n + r > o->sink->cap)
	{
	    r = o->sink->cap - o->sink->d.n;
	    if (r <= 0)
	    {
		r = -ENOSPC;
		break;
	    }
	}
	bput(&o->sink->d, buf, r);
	break;
    case K_PIPEW:
	if (o->pipe->readers == 0)
	    goto broken;
	while (o->pipe->q.n - o->pipe->off >= o->pipe->cap && o->pipe->readers > 0)
	{
	    cur->state = S_BLOCKED;
	    cur->waitkind = 2;
	    cur->waitofd = o;
	    yield();
	}
	if (o->pipe->readers == 0)
	{
	broken:
	    logev("write", o->name, count, -EPIPE);
	    if (!cur->sigpipe_ign)
		endcur("signal", SIGPIPE);
	    return -EPIPE;
	}
	if (r > (i64)(o->pipe->cap - (o->pipe->q.n - o->pipe->off)))
	    r = o->pipe->cap - (o->pipe->q.n - o->pipe->off);
	bput(&o->pipe->q, buf, r);
	break;
    default: r = -EBADF;
    }
    if (r > 0 && fd == 1)
	cur->visible += r;
out:
    logev("write", o->name, count, r);
    if (r > 0)
	hashbytes(&evhash, buf, r);
    if (dieafter)
    {
	logev("killed", "mid-write", r, 0);
	endcur("killed", 9);
    }
    return r;
}

static i64 k_close(int fd)
{
    Ofd* o = getofd(fd);
    step("close", o ? o->name : "?");
    o = getofd(fd);
    if (!o)
    {
	logev("close", "?", fd, -EBADF);
	return -EBADF;
    }
    i64    r = 0;
    Fault* f = faultat("close", o->name);
    if (f && !strcmp(f->kind, "kill"))
    {
	logev("killed", "close", 0, 0);
	endcur("killed", 9);
    }
    if (f && !strcmp(f->kind, "err"))
	r = -f->arg;
    cur->fd[fd] = NULL;
    cur->nopen--;
    if (--o->refs == 0)
    {
	if (o->kind == K_PIPEW)
	    o->pipe->writers--;
	if (o->kind == K_PIPER)
	    o->pipe->readers--;
	if (o->ino)
	    o->ino->refs--;
    }
    logev("close", o->name, fd, r);
    return r;
}

static i64 k_lseek(int fd, i64 off, int whence)
{
    Ofd* o = getofd(fd);
    step("lseek", o ? o->name : "?");
    o = getofd(fd);
    i64 r;
    if (!o)
    {
	logev("lseek", "?", fd, -EBADF);
	return -EBADF;
    }
    if (o->kind != K_FILE)
    {
	logev("lseek", o->name, off, -ESPIPE);
	return -ESPIPE;
    }
    Fault* f = faultat("lseek", o->name);
    if (f && !strcmp(f->kind, "err"))
	r = -f->arg;
    else
    {
	i64 base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? o->off : (i64)o->ino->d.n;
	r = base + off;
	if (r < 0 || whence > 2)
	    r = -EINVAL;
	else
	    o->off = r;
    }
    logev("lseek", o->name, off, r);
    return r;
}

/* ---------------------------------------------------------------- stdio over the kernel */
static ssize_t ck_read(void* c, char* buf, size_t n)
{
    SFile* s = c;
    i64    r = k_read(s->fd, buf, n);
    if (r < 0)
    {
	errno = -r;
	return -1;
    }
    return r;
}

static ssize_t ck_write(void* c, const char* buf, size_t n)
{
    /* glibc's own stdio keeps writing after a short write (new_do_write / _IO_new_file_write loop) */
    SFile* s = c;
    size_t done = 0;
    while (done < n)
    {
	i64 r = k_write(s->fd, buf + done, n - done);
	if (r < 0)
	{
	    errno = -r;
	    break;
	}
	if (r == 0)
	    break;
	done += r;
    }
    /* What stdio does for real files; for cookie streams it would go on with the offset from before */
    if (s->fp && s->fp->_offset >= 0)
	s->fp->_offset += done;
    return done;
}

static int ck_seek(void* c, off64_t* off, int whence)
{
    SFile* s = c;
    i64    r = k_lseek(s->fd, *off, whence);
    if (r < 0)
    {
	errno = -r;
	return -1;
    }
    *off = r;
    return 0;
}

static int ck_close(void* c)
{
    SFile* s = c;
    i64    r = k_close(s->fd);
    if (r < 0)
    {
	errno = -r;
	return -1;
    }
    return 0;
}

static SFile* mkfile(Node* n, int fd, const char* mode, int bufmode, size_t size)
{
    SFile* s = xcalloc(sizeof *s);
    s->fd = fd;
    s->node = n;
    s->next = n->files;
    cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
    s->fp = fopencookie(s, mode, io);
    if (!s->fp)
	die("fopencookie");
    if (bufmode == _IONBF)
	setvbuf(s->fp, NULL, _IONBF, 0);
    else
    {
	s->vbuf = xmalloc(size);
	setvbuf(s->fp, s->vbuf, bufmode, size);
    }
    n->files = s;
    return s;
}

static SFile* findfile(FILE* fp)
{
    for (SFile* s = cur->files; s; s = s->next)
	if (s->fp == fp)
	    return s;
    return NULL;
}

static void checkarena(Node* n);
static void* a_malloc(size_t n);

FILE* __wrap_fopen(const char* path, const char* mode)
{
    int flags;
    if (!mode)
    {
	errno = EINVAL;
	return NULL;
    }
    switch (mode[0])
    {
    case 'r': flags = O_RDONLY; break;
    case 'w': flags = O_WRONLY | O_CREAT | O_TRUNC; break;
    case 'a': flags = O_WRONLY | O_CREAT | O_APPEND; break;
    default: errno = EINVAL; return NULL;
    }
    char m[4] = { mode[0], 0 };
    for (const char* p = mode + 1; *p && *p != ','; p++)
    {
	if (*p == '+')
	{
	    flags = (flags & ~O_ACCMODE) | O_RDWR;
	    m[1] = '+';
	    m[2] = 0;
	}
	if (*p == 'x')
	    flags |= O_EXCL;
    }
    i64 fd = k_open(path, flags, 0666);
    if (fd < 0)
    {
	errno = -fd;
	return NULL;
    }
    SFile* s = mkfile(cur, fd, m, _IOFBF, bufsz ? bufsz : 4096);
    if (mode[0] == 'a')
	k_lseek(fd, 0, SEEK_END);
    return s->fp;
}

FILE* __wrap_fopen64(const char* path, const char* mode)
{
    return __wrap_fopen(path, mode);
}

FILE* __wrap_fdopen(int fd, const char* mode)
{
    Ofd* o = getofd(fd);
    if (!o)
    {
	errno = EBADF;
	return NULL;
    }
    char m[4] = { mode[0], strchr(mode, '+') ? '+' : 0, 0 };
    return mkfile(cur, fd, m, _IOFBF, bufsz ? bufsz : 4096)->fp;
}

int __wrap_fclose(FILE* fp)
{
    SFile *s, **pp;
    for (pp = &cur->files; (s = *pp); pp = &s->next)
	if (s->fp == fp)
	    break;
    if (!s)
    {
	/* closing NULL or a stream twice is undefined behaviour: it crashes or corrupts; make it crash */
	logev("badfclose", "", 0, 0);
	endcur("signal", SIGSEGV);
    }
    *pp = s->next;
    return fclose(fp);
}

int __wrap_fflush(FILE* fp)
{
    if (fp)
	return fflush(fp);
    int r = 0;
    for (SFile* s = cur->files; s; s = s->next)
	if (__fwritable(s->fp) && fflush(s->fp))
	    r = -1;
    return r;
}

int __wrap_fcloseall(void)
{
    int r = 0;
    while (cur->files)
	if (__wrap_fclose(cur->files->fp))
	    r = -1;
    return r;
}

FILE* __wrap_freopen(const char* path, const char* mode, FILE* fp)
{
    (void)fp;
    /* the program must use the result */
    if (fp)
	__wrap_fclose(fp);
    FILE* n = __wrap_fopen(path, mode);
    if (fp == cur->in)
	stdin = cur->in = n;
    if (fp == cur->out)
	stdout = cur->out = n;
    return n;
}

static int tmpn;
FILE* __wrap_tmpfile(void)
{
    char p[64];
    snprintf(p, sizeof p, "#tmpfile%d", ++tmpn);
    i64 fd = k_open(p, O_RDWR | O_CREAT | O_EXCL, 0600);
    if (fd < 0)
    {
	errno = -fd;
	return NULL;
    }
    Dent* d = lookup(p);
    if (d)
	rmdent(d);
    return mkfile(cur, fd, "w+", _IOFBF, bufsz ? bufsz : 4096)->fp;
}
FILE* __wrap_tmpfile64(void)
{
    return __wrap_tmpfile();
}

int __wrap_fileno(FILE* fp)
{
    SFile* s = findfile(fp);
    if (!s)
    {
	errno = EBADF;
	return -1;
    }
    return s->fd;
}
int __wrap_fileno_unlocked(FILE* fp)
{
    return __wrap_fileno(fp);
}

int __wrap_isatty(int fd)
{
    Ofd* o = getofd(fd);
    if (!o)
    {
	errno = EBADF;
	return 0;
    }
    if ((o->kind == K_IN && o->in->tty) || (o->kind == K_SINK && o->sink->tty))
	return 1;
    errno = ENOTTY;
    return 0;
}

static long ret(i64 r)
{
    if (r < 0)
    {
	errno = -r;
	return -1;
    }
    return r;
}

int __wrap_open(const char* path, int flags, ...)
{
    unsigned mode = 0;
    if (flags & O_CREAT)
    {
	va_list ap;
	va_start(ap, flags);
	mode = va_arg(ap, unsigned);
	va_end(ap);
    }
    return ret(k_open(path, flags, mode));
}
int __wrap_open64(const char* path, int flags, ...)
{
    unsigned mode = 0;
    if (flags & O_CREAT)
    {
	va_list ap;
	va_start(ap, flags);
	mode = va_arg(ap, unsigned);
	va_end(ap);
    }
    return ret(k_open(path, flags, mode));
}
int __wrap_creat(const char* path, unsigned mode)
{
    return ret(k_open(path, O_WRONLY | O_CREAT | O_TRUNC, mode));
}
ssize_t __wrap_read(int fd, void* b, size_t n)
{
    return ret(k_read(fd, b, n));
}
ssize_t __wrap_write(int fd, const void* b, size_t n)
{
    return ret(k_write(fd, b, n));
}
int __wrap_close(int fd)
{
    return ret(k_close(fd));
}
long __wrap_lseek(int fd, long off, int w)
{
    return ret(k_lseek(fd, off, w));
}
i64 __wrap_lseek64(int fd, i64 off, int w)
{
    i64 r = k_lseek(fd, off, w);
    if (r < 0)
    {
	errno = -r;
	return -1;
    }
    return r;
}
int __wrap_dup(int fd)
{
    Ofd* o = getofd(fd);
    if (!o)
    {
	errno = EBADF;
	return -1;
    }
    o->refs++;
    int r = newfd(o);
    if (r < 0)
    {
	o->refs--;
	errno = EMFILE;
    }
    return r;
}
static int dotrunc(Inode* ino, i64 len)
{
    diskused -= ino->d.n;
    while ((i64)ino->d.n < len)
	bput(&ino->d, "", 1);
    ino->d.n = len;
    diskused += ino->d.n;
    return 0;
}
int __wrap_ftruncate(int fd, off_t len)
{
    Ofd* o = getofd(fd);
    step("ftruncate", o ? o->name : "?");
    if (!o || !o->ino || o->ino->type)
    {
	errno = EBADF;
	return -1;
    }
    logev("ftruncate", o->name, len, 0);
    return dotrunc(o->ino, len);
}
int __wrap_ftruncate64(int fd, off64_t len)
{
    return __wrap_ftruncate(fd, len);
}
int __wrap_truncate(const char* path, off_t len)
{
    step("truncate", path);
    Dent* d = lookup(path);
    if (!d)
    {
	errno = ENOENT;
	return -1;
    }
    logev("truncate", path, len, 0);
    return dotrunc(d->ino, len);
}
int __wrap_fsync(int fd)
{
    Ofd* o = getofd(fd);
    step("fsync", o ? o->name : "?");
    if (!o)
    {
	errno = EBADF;
	return -1;
    }
    if (o->kind != K_FILE)
    {
	errno = EINVAL;
	return -1;
    }
    Fault* f = faultat("fsync", o->name);
    if (f && !strcmp(f->kind, "err"))
    {
	errno = f->arg;
	return -1;
    }
    return 0;
}
int __wrap_fdatasync(int fd)
{
    return __wrap_fsync(fd);
}
int __wrap_unlink(const char* path)
{
    step("unlink", path);
    Fault* f = faultat("unlink", norm(path));
    Dent*  d = lookup(path);
    int    e = 0;
    if (f && !strcmp(f->kind, "err"))
	e = f->arg;
    else if (!d)
	e = ENOENT;
    else if (d->ino->type)
	e = EISDIR;
    else
	e = parentcheck(path, 1);
    logev("unlink", norm(path), 0, -e);
    if (e)
    {
	errno = e;
	return -1;
    }
    rmdent(d);
    return 0;
}
int __wrap_remove(const char* path)
{
    return __wrap_unlink(path);
}
int __wrap_rename(const char* a, const char* b)
{
    step("rename", a);
    Dent* d = lookup(a);
    logev("rename", norm(a), 0, d ? 0 : -ENOENT);
    if (!d)
    {
	errno = ENOENT;
	return -1;
    }
    if (!strcmp(norm(a), norm(b)))
	return 0;
    Dent* t = lookup(b);
    if (t)
	rmdent(t);
    d = lookup(a);
    free(d->path);
    d->path = strdup(norm(b));
    return 0;
}
static int dostat(Inode* i, struct stat* st)
{
    memset(st, 0, sizeof *st);
    st->st_mode = (i->type ? S_IFDIR : S_IFREG) | i->mode;
    st->st_size = i->d.n;
    st->st_blksize = bufsz ? bufsz : 4096;
    st->st_nlink = 1;
    st->st_ino = (uintptr_t)i >> 4;
    return 0;
}
int __wrap_stat(const char* p, struct stat* st)
{
    step("stat", p);
    Dent* d = lookup(p);
    logev("stat", norm(p), 0, d ? 0 : -ENOENT);
    if (!d)
    {
	errno = ENOENT;
	return -1;
    }
    return dostat(d->ino, st);
}
int __wrap_lstat(const char* p, struct stat* st)
{
    return __wrap_stat(p, st);
}
int __wrap_fstat(int fd, struct stat* st)
{
    Ofd* o = getofd(fd);
    step("fstat", o ? o->name : "?");
    if (!o)
    {
	errno = EBADF;
	return -1;
    }
    if (o->kind == K_FILE)
	return dostat(o->ino, st);
    memset(st, 0, sizeof *st);
    st->st_mode = __wrap_isatty(fd) ? S_IFCHR | 0600 : S_IFIFO | 0600;
    st->st_blksize = 1024;
    return 0;
}
int __wrap_access(const char* p, int m)
{
    step("access", p);
    Dent* d = lookup(p);
    int   e = 0;
    if (!d)
	e = ENOENT;
    else if (((m & R_OK) && !(d->ino->mode & 0400)) || ((m & W_OK) && !(d->ino->mode & 0200)))
	e = EACCES;
    if (e)
    {
	errno = e;
	return -1;
    }
    return 0;
}
int __wrap_mkstemp(char* t)
{
    size_t n = strlen(t);
    if (n < 6 || strcmp(t + n - 6, "XXXXXX"))
    {
	errno = EINVAL;
	return -1;
    }
    for (int tries = 0; tries < 100; tries++)
    {
	for (int i = 0; i < 6; i++)
	    t[n - 6 + i] = 'a' + rnd(&rngs, 26);
	if (!lookup(t))
	    break;
    }
    return ret(k_open(t, O_RDWR | O_CREAT | O_EXCL, 0600));
}
int __wrap_mkstemp64(char* t)
{
    return __wrap_mkstemp(t);
}
int __wrap_poll(struct pollfd* p, nfds_t n, int timeout)
{
    /* ready means: reading would not block right now */
    int r = 0;
    step("poll", "");
    for (nfds_t i = 0; i < n; i++)
    {
	Ofd* o = getofd(p[i].fd);
	p[i].revents = 0;
	if (!o)
	    p[i].revents = POLLNVAL;
	else if (o->kind == K_IN)
	{
	    if ((p[i].events & POLLIN) && instream_poll(cur, o->in))
		p[i].revents |= POLLIN;
	}
	else
	    p[i].revents = p[i].events & (POLLIN | POLLOUT);
	if (p[i].revents)
	    r++;
    }
    (void)timeout;
    return r;
}

/* ---------------------------------------------------------------- process */
int __wrap_getpid(void)
{
    /* (at most 4194304 on Linux) */
    return 1 + (pid0 - 1 + cur->id * pidd + curphase * 1001) % 4194303;
}
int __wrap_getppid(void)
{
    return 1;
}
unsigned __wrap_getuid(void)
{
    return 1000;
}
char* __wrap_getenv(const char* n)
{
    if (!strcmp(n, "TZ"))
	return getenv("TZ");
    return NULL;
}
char* __wrap_secure_getenv(const char* n)
{
    return __wrap_getenv(n);
}

typedef void (*sighandler)(int);
sighandler __wrap_signal(int sig, sighandler h)
{
    if (sig == SIGPIPE)
	cur->sigpipe_ign = h != SIG_DFL;
    return SIG_DFL;
}
int __wrap_sigaction(int sig, const struct sigaction* a, struct sigaction* o)
{
    if (o)
	memset(o, 0, sizeof *o);
    if (a && sig == SIGPIPE)
	cur->sigpipe_ign = a->sa_handler != SIG_DFL;
    return 0;
}
int __wrap_raise(int sig)
{
    logev("raise", "", sig, 0);
    endcur("signal", sig);
}
int __wrap_kill(int pid, int sig)
{
    if (sig == 0)
	return 0;
    if (pid == __wrap_getpid())
	__wrap_raise(sig);
    errno = ESRCH;
    return -1;
}
int __wrap_system(const char* c)
{
    step("system", c ? c : "");
    logev("system", c ? c : "", 0, 0);
    return -1;
}

int __wrap_atexit(void (*f)(void))
{
    if (cur->natexit >= 32)
	return -1;
    cur->atexitf[cur->natexit++] = f;
    return 0;
}
int __wrap___cxa_atexit(void (*f)(void*), void* a, void* d)
{
    (void)a;
    (void)d;
    return __wrap_atexit((void (*)(void))f);
}

void __wrap__exit(int v)
{
    step("exit", "");
    logev("_exit", "", v, 0);
    endcur("exit", v & 255);
}
void __wrap__Exit(int v)
{
    __wrap__exit(v);
}

void __wrap_exit(int v)
{
    while (cur->natexit > 0)
    {
	void (*f)(void) = cur->atexitf[--cur->natexit];
	f();
    }
    /* as _IO_cleanup: flush what is buffered for output, newest stream first */
    for (SFile* s = cur->files; s; s = s->next)
	if (__fpending(s->fp) > 0)
	    fflush(s->fp);
    __wrap__exit(v);
}
void __wrap_quick_exit(int v)
{
    __wrap__exit(v);
}
void __wrap_abort(void)
{
    logev("abort", "", 0, 0);
    endcur("signal", SIGABRT);
}
void __wrap___assert_fail(const char* e, const char* f, unsigned l, const char* fn)
{
    const char* b = strrchr(f, '/');
    fprintf(stderr, "%s:%u: %s: Assertion `%s' failed.\n", b ? b + 1 : f, l, fn, e);
    __wrap_abort();
}

/* ---------------------------------------------------------------- time */
static void logclock(const char* what, i64 v)
{
    bprintf(&clockbuf, "%s[%d,\"%s\",%lld,%lld]", clockbuf.n ? "," : "", cur->id, what, (long long)v, (long long)cur->steps);
}

time_t __wrap_time(time_t* t)
{
    step("time", "");
    Fault* f = faultat("time", "");
    i64    v = f ? -1 : wallclock() / NSEC;
    if (f)
	errno = f->arg;
    logclock("time", v);
    logev("time", "", v, 0);
    if (t)
	*t = v;
    return v;
}
int __wrap_gettimeofday(struct timeval* tv, void* tz)
{
    (void)tz;
    step("time", "");
    i64 w = wallclock();
    tv->tv_sec = w / NSEC;
    tv->tv_usec = w % NSEC / 1000;
    logclock("nanos", w);
    logev("gettimeofday", "", w, 0);
    return 0;
}
int __wrap_clock_gettime(clockid_t id, struct timespec* ts)
{
    step("time", "");
    i64 w = id == CLOCK_REALTIME	       ? wallclock()
	    : id == CLOCK_PROCESS_CPUTIME_ID ? (i64)cpuclock() * 1000
					     : now - simstart;
    ts->tv_sec = w / NSEC;
    ts->tv_nsec = w % NSEC;
    if (id == CLOCK_REALTIME)
	logclock("nanos", w);
    if (id == CLOCK_PROCESS_CPUTIME_ID)
    {
	logclock("clock", cpuclock());
	cur->marks++;
    }
    logev("clock_gettime", "", w, id);
    return 0;
}
clock_t __wrap_clock(void)
{
    step("clock", "");
    Fault*  f = faultat("clock", "");
    clock_t v = f ? (clock_t)-1 : (clock_t)cpuclock();
    cur->marks++;
    logclock("clock", v);
    logev("clock", "", v, 0);
    return v;
}
static void dosleep(i64 ns)
{
    step("sleep", "");
    cur->state = S_BLOCKED;
    cur->waitkind = 3;
    cur->waituntil = now + ns;
    logev("sleep", "", ns, 0);
    yield();
}
unsigned __wrap_sleep(unsigned s)
{
    dosleep(s * NSEC);
    return 0;
}
int __wrap_usleep(unsigned s)
{
    dosleep(s * 1000LL);
    return 0;
}
int __wrap_nanosleep(const struct timespec* a, struct timespec* b)
{
    (void)b;
    dosleep(a->tv_sec * NSEC + a->tv_nsec);
    return 0;
}

/* ---------------------------------------------------------------- randomness: per node state */
static unsigned noderand[MAXNODES];
int __wrap_rand(void)
{
    unsigned* s = &noderand[cur->id];
    *s = *s * 1103515245u + 12345u;
    return (*s >> 1) & 0x7fffffff;
}
void __wrap_srand(unsigned v)
{
    noderand[cur->id] = v;
}
long __wrap_random(void)
{
    return __wrap_rand();
}
void __wrap_srandom(unsigned v)
{
    __wrap_srand(v);
}
ssize_t __wrap_getrandom(void* b, size_t n, unsigned fl)
{
    (void)fl;
    step("getrandom", "");
    for (size_t i = 0; i < n; i++)
	((char*)b)[i] = splitmix(&rngs);
    return n;
}

/* ---------------------------------------------------------------- allocator */
#define RED 32
static void memerr(const char* fmt, ...)
{
    char    t[200];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(t, sizeof t, fmt, ap);
    va_end(ap);
    logev("memerr", t, 0, 0);
    if (cur->memerr.n < 2000)
	bprintf(&cur->memerr, "%s\"%s\"", cur->memerr.n ? "," : "", t);
}

static int sizeclass(size_t n)
{
    int c = 0;
    while (((size_t)16 << c) < n && c < 40)
	c++;
    return c;
}

static void checkred(Node* n, Block* b, int idx)
{
    unsigned char* u = (unsigned char*)n->arena + b->user;
    for (int i = 1; i <= RED; i++)
	if (u[-i] != 0xA5)
	{
	    memerr("block %d of %zu bytes: written %d bytes before it", idx, b->size, i);
	    memset(u - RED, 0xA5, RED);
	    break;
	}
    for (size_t i = b->size; i < b->room + RED; i++)
	if (u[i] != 0xA5)
	{
	    memerr("block %d of %zu bytes: written %zu bytes after it", idx, b->size, i - b->size);
	    memset(u + b->size, 0xA5, b->room + RED - b->size);
	    break;
	}
}

static void checkpoison(Node* n, Block* b, int idx)
{
    unsigned char* u = (unsigned char*)n->arena + b->user;
    for (size_t i = 0; i < b->room; i++)
	if (u[i] != 0xDB)
	{
	    memerr("block %d of %zu bytes: written after it was freed", idx, b->size);
	    return;
	}
}

static void* a_alloc(size_t n, int zero)
{
    Node* nd = cur;
    nd->nallocs++;
    Fault* f = faultat("malloc", "");
    if (f || n > 0x40000000u || nd->livebytes + (i64)n > nd->memlimit)
    {
	logev("malloc", f ? "fault" : "limit", n, 0);
	errno = ENOMEM;
	return NULL;
    }
    size_t room = (n + 15) & ~(size_t)15;
    if (!room)
	room = 16;
    int idx = -1;
    if (reuse)
    {
	int c = sizeclass(room);
	int prev = -1;
	for (int i = nd->freehead[c]; i >= 0; prev = i, i = nd->blk[i].next)
	{
	    if (nd->blk[i].room < room || nd->blk[i].room > room * 2)
		continue;
	    if (reuse == 2 && rnd(&rngh, 3) == 0)
		continue;
	    idx = i;
	    if (prev < 0)
		nd->freehead[c] = nd->blk[i].next;
	    else
		nd->blk[prev].next = nd->blk[i].next;
	    break;
	}
	if (idx >= 0)
	    checkpoison(nd, &nd->blk[idx], idx);
    }
again:
    if (idx < 0)
    {
	size_t gap = rnd(&rngh, 8) * 16;
	if (nd->bump + gap + room + 2 * RED + 64 > nd->arenasz)
	{
	    /* arena used up: take any free block that fits */
	    for (int c = sizeclass(room); c < 41 && idx < 0; c++)
	    {
		int prev = -1;
		for (int i = nd->freehead[c]; i >= 0; prev = i, i = nd->blk[i].next)
		    if (nd->blk[i].room >= room)
		    {
			idx = i;
			if (prev < 0)
			    nd->freehead[c] = nd->blk[i].next;
			else
			    nd->blk[prev].next = nd->blk[i].next;
			break;
		    }
	    }
	    if (idx < 0)
	    {
		errno = ENOMEM;
		return NULL;
	    }
	    goto again;
	}
	if (nd->nblk == nd->capblk)
	{
	    nd->capblk = nd->capblk * 2 + 64;
	    nd->blk = realloc(nd->blk, nd->capblk * sizeof *nd->blk);
	}
	idx = nd->nblk++;
	nd->blk[idx].user = nd->bump + gap + RED;
	nd->blk[idx].room = room;
	nd->bump += gap + room + 2 * RED;
    }
    Block* b = &nd->blk[idx];
    b->size = n;
    b->live = 1;
    b->next = -1;
    unsigned char* u = (unsigned char*)nd->arena + b->user;
    memset(u - RED, 0xA5, RED);
    memset(u + n, 0xA5, b->room - n + RED);
    if (zero)
	memset(u, 0, n);
    else
    {
	u64 j = rngh ^ (idx * 0x9E3779B97F4A7C15ULL);
	size_t i = 0;
	for (; i + 8 <= n; i += 8)
	{
	    u64 v = splitmix(&j);
	    memcpy(u + i, &v, 8);
	}
	for (; i < n; i++)
	    u[i] = splitmix(&j);
    }
    nd->livebytes += n;
    nd->nlive++;
    if (nd->livebytes > nd->maxlive)
	nd->maxlive = nd->livebytes;
    logev("malloc", "", n, idx + 1);
    return u;
}

static int findblk(void* p)
{
    Node* nd = cur;
    u64   o = (char*)p - nd->arena;
    int   lo = 0, hi = nd->nblk - 1;
    while (lo <= hi)
    {
	int m = (lo + hi) / 2;
	if (nd->blk[m].user == o)
	    return m;
	if (nd->blk[m].user < o)
	    lo = m + 1;
	else
	    hi = m - 1;
    }
    return -1;
}

static void* a_malloc(size_t n)
{
    return a_alloc(n, 0);
}

void* __wrap_malloc(size_t n)
{
    return a_alloc(n, 0);
}
void* __wrap_calloc(size_t a, size_t b)
{
    if (b && a > 0x40000000u / b)
    {
	errno = ENOMEM;
	return NULL;
    }
    return a_alloc(a * b, 1);
}
void __wrap_free(void* p)
{
    Node* nd = cur;
    if (!p)
	return;
    if ((char*)p < nd->arena || (char*)p >= nd->arena + nd->arenasz)
    {
	logev("free", "foreign", 0, 0);
	for (int i = 0; i < nd->img->nseg; i++)
	    if ((char*)p >= nd->img->seg[i].at && (char*)p < nd->img->seg[i].at + nd->img->seg[i].n)
	    {
		memerr("free of a pointer that is not a heap block");
		endcur("signal", SIGABRT);
	    }
	if ((char*)p >= nd->stack && (char*)p < nd->stack + nd->stacksz)
	{
	    memerr("free of a pointer into the stack");
	    endcur("signal", SIGABRT);
	}
	memerr("free of a wild pointer");
	endcur("signal", SIGABRT);
    }
    int i = findblk(p);
    if (i < 0)
    {
	memerr("free of a pointer inside the heap that is not a block");
	endcur("signal", SIGABRT);
    }
    Block* b = &nd->blk[i];
    if (!b->live)
    {
	memerr("double free of block %d", i);
	endcur("signal", SIGABRT);
    }
    checkred(nd, b, i);
    b->live = 0;
    nd->livebytes -= b->size;
    nd->nlive--;
    memset(nd->arena + b->user, 0xDB, b->room);
    int c = sizeclass(b->room);
    b->next = nd->freehead[c];
    nd->freehead[c] = i;
    logev("free", "", b->size, i + 1);
}
void* __wrap_realloc(void* p, size_t n)
{
    if (!p)
	return a_alloc(n, 0);
    int i = findblk(p);
    if (i < 0 || !cur->blk[i].live)
    {
	memerr("realloc of something that is not a live block");
	endcur("signal", SIGABRT);
    }
    size_t old = cur->blk[i].size;
    void*  q = a_alloc(n, 0);
    if (!q)
	return NULL;
    memcpy(q, p, old < n ? old : n);
    __wrap_free(p);
    return q;
}
char* __wrap_strdup(const char* s)
{
    char* p = a_malloc(strlen(s) + 1);
    if (p)
	strcpy(p, s);
    return p;
}
char* __wrap_strndup(const char* s, size_t n)
{
    size_t l = strnlen(s, n);
    char*  p = a_malloc(l + 1);
    if (p)
    {
	memcpy(p, s, l);
	p[l] = 0;
    }
    return p;
}
int __wrap_vasprintf(char** r, const char* fmt, va_list ap)
{
    va_list ap2;
    va_copy(ap2, ap);
    int n = vsnprintf(NULL, 0, fmt, ap2);
    va_end(ap2);
    *r = n < 0 ? NULL : a_malloc(n + 1);
    if (!*r)
	return -1;
    return vsnprintf(*r, n + 1, fmt, ap);
}
int __wrap_asprintf(char** r, const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    int n = __wrap_vasprintf(r, fmt, ap);
    va_end(ap);
    return n;
}
void* __wrap_aligned_alloc(size_t al, size_t n)
{
    if (al > 16)
    {
	errno = EINVAL;
	return NULL;
    }
    return a_malloc(n);
}
int __wrap_posix_memalign(void** r, size_t al, size_t n)
{
    if (al > 16)
	return EINVAL;
    void* p = a_malloc(n);
    if (!p)
	return ENOMEM;
    *r = p;
    return 0;
}
ssize_t __wrap_getline(char** lp, size_t* np, FILE* fp)
{
    size_t n = 0;
    int    c;
    while ((c = fgetc(fp)) != EOF)
    {
	if (!*lp || n + 2 > *np)
	{
	    size_t m = (n + 2) * 2;
	    char*  q = __wrap_realloc(*lp, m);
	    if (!q)
		return -1;
	    *lp = q;
	    *np = m;
	}
	(*lp)[n++] = c;
	if (c == '\n')
	    break;
    }
    if (!n)
	return -1;
    (*lp)[n] = 0;
    return n;
}

static void checkarena(Node* n)
{
    Node* sv = cur;
    cur = n;
    for (int i = 0; i < n->nblk; i++)
	if (n->blk[i].live)
	    checkred(n, &n->blk[i], i);
	else
	    checkpoison(n, &n->blk[i], i);
    cur = sv;
}

/* ---------------------------------------------------------------- crashes of the program */
static Image*  curimg(void);
static i64     hang_slices;
static void crash(int sig, siginfo_t* si, void* uc)
{
    (void)si;
    (void)uc;
    if (!cur)
    {
	/* a wild write of an earlier node broke the simulator itself */
	_exit(98);
    }
    logev("signal", "", sig, 0);
    endcur("signal", sig);
}

static void cpualarm(int sig)
{
    (void)sig;
    if (!cur)
	return;
    endcur("cpuhang", 0);
}

/* ---------------------------------------------------------------- images */
#define MAXIMG 24
static Image images[MAXIMG];
static int   imgclock;

static int phdrcb(struct dl_phdr_info* info, size_t sz, void* data)
{
    Image* im = data;
    (void)sz;
    struct link_map* lm;
    if (dlinfo(im->h, RTLD_DI_LINKMAP, &lm) != 0)
	return 1;
    if (info->dlpi_addr != lm->l_addr)
	return 0;
    for (int i = 0; i < info->dlpi_phnum; i++)
    {
	const ElfW(Phdr)* p = &info->dlpi_phdr[i];
	if (p->p_type == PT_LOAD && (p->p_flags & PF_W) && im->nseg < 8)
	{
	    im->seg[im->nseg].at = (char*)(info->dlpi_addr + p->p_vaddr);
	    im->seg[im->nseg].n = p->p_memsz;
	    im->seg[im->nseg].init = xmalloc(p->p_memsz);
	    memcpy(im->seg[im->nseg].init, im->seg[im->nseg].at, p->p_memsz);
	    im->nseg++;
	}
    }
    return 1;
}

static Image* loadimage(const char* path)
{
    Image* victim = NULL;
    for (int i = 0; i < MAXIMG; i++)
    {
	if (images[i].h && !strcmp(images[i].path, path))
	{
	    images[i].lru = ++imgclock;
	    return &images[i];
	}
	if (!victim || !images[i].h || (victim->h && images[i].lru < victim->lru))
	    victim = &images[i];
    }
    if (victim->h)
    {
	for (int i = 0; i < victim->nseg; i++)
	    free(victim->seg[i].init);
	dlclose(victim->h);
	memset(victim, 0, sizeof *victim);
    }
    snprintf(victim->path, sizeof victim->path, "%s", path);
    victim->h = dlopen(path, RTLD_NOW | RTLD_LOCAL);
    if (!victim->h)
    {
	fprintf(stderr, "simhost: dlopen %s: %s\n", path, dlerror());
	return NULL;
    }
    victim->lru = ++imgclock;
    dl_iterate_phdr(phdrcb, victim);
    return victim;
}

static void swapin(Node* n)
{
    Image* im = n->img;
    if (im->resident == n)
	return;
    if (im->resident)
	for (int i = 0; i < im->nseg; i++)
	    memcpy(im->resident->save[i], im->seg[i].at, im->seg[i].n);
    for (int i = 0; i < im->nseg; i++)
	memcpy(im->seg[i].at, n->save[i], im->seg[i].n);
    im->resident = n;
}

/* ---------------------------------------------------------------- plan */
static int hexval(int c)
{
    if (c >= '0' && c <= '9')
	return c - '0';
    if (c >= 'a' && c <= 'f')
	return c - 'a' + 10;
    return -1;
}
static char* unhex(const char* s, size_t* n)
{
    size_t l = strlen(s);
    if (!strcmp(s, "-"))
	l = 0;
    char* o = xmalloc(l / 2 + 1);
    for (size_t i = 0; i < l / 2; i++)
	o[i] = hexval(s[2 * i]) * 16 + hexval(s[2 * i + 1]);
    o[l / 2] = 0;
    if (n)
	*n = l / 2;
    return o;
}

typedef struct
{
    int      phase, rm;
    char*    path;
    unsigned mode;
    char*    data;
    size_t   n;
} SetFile;
static SetFile setf[256];
static int     nsetf;

static Node* nodeof(const char* s)
{
    int i = atoi(s);
    if (i < 0 || i >= MAXNODES)
	die("bad node %s", s);
    return &nodes[i];
}

static void putfile(const char* path, unsigned mode, const char* data, size_t n, int type)
{
    Dent*  d = lookup(path);
    Inode* ino = d ? d->ino : mkinode(path, type, mode);
    ino->type = type;
    ino->mode = mode;
    diskused -= ino->d.n;
    ino->d.n = 0;
    bput(&ino->d, data, n);
    diskused += n;
}

static void parseplan(char* text)
{
    char* save = NULL;
    for (char* line = strtok_r(text, "\n", &save); line; line = strtok_r(NULL, "\n", &save))
    {
	char* w[80];
	int   n = 0;
	char* s2 = NULL;
	for (char* t = strtok_r(line, " ", &s2); t && n < 80; t = strtok_r(NULL, " ", &s2))
	    w[n++] = t;
	if (!n)
	    continue;
#define IS(x, k) (!strcmp(w[0], x) && n >= k)
	if (IS("seed", 2))
	    seed = strtoull(w[1], 0, 10);
	else if (IS("time", 2))
	    now = simstart = strtoll(w[1], 0, 10);
	else if (IS("tick", 2))
	    tick = atoll(w[1]);
	else if (IS("cpu0", 2))
	    cpu0 = atoll(w[1]);
	else if (IS("tz", 2))
	{
	    setenv("TZ", w[1], 1);
	    tzset();
	}
	else if (IS("maxsteps", 2))
	    maxsteps = atoll(w[1]);
	else if (IS("cpums", 2))
	    cpums = atoi(w[1]);
	else if (IS("disk", 2))
	    diskcap = atoll(w[1]);
	else if (IS("shortr", 2))
	    shortr = atoi(w[1]);
	else if (IS("shortw", 2))
	    shortw = atoi(w[1]);
	else if (IS("bufsz", 2))
	    bufsz = atoi(w[1]);
	else if (IS("pid0", 2))
	    pid0 = atol(w[1]);
	else if (IS("pidd", 2))
	    pidd = atol(w[1]);
	else if (IS("reuse", 2))
	    reuse = atoi(w[1]);
	else if (IS("stick", 2))
	    stick = atoi(w[1]);
	else if (IS("trace", 2))
	    trace = atoi(w[1]);
	else if (IS("ret", 2))
	    retlog = atoi(w[1]);
	else if (IS("tjump", 3))
	{
	    if (ntjump < 16)
	    {
		tjump_step[ntjump] = atoll(w[1]);
		tjump_delta[ntjump++] = strtoll(w[2], 0, 10);
	    }
	}
	else if (IS("cjump", 3))
	{
	    if (ncjump < 16)
	    {
		cjump_step[ncjump] = atoll(w[1]);
		cjump_delta[ncjump++] = strtoll(w[2], 0, 10);
	    }
	}
	else if (IS("file", 4))
	{
	    size_t l;
	    char*  p = unhex(w[1], NULL);
	    char*  d = unhex(w[3], &l);
	    putfile(p, strtol(w[2], 0, 8), d, l, 0);
	}
	else if (IS("dir", 3))
	    putfile(unhex(w[1], NULL), strtol(w[2], 0, 8), "", 0, 1);
	else if (IS("setfile", 5))
	{
	    SetFile* s = &setf[nsetf++];
	    s->phase = atoi(w[1]);
	    s->path = unhex(w[2], NULL);
	    s->mode = strtol(w[3], 0, 8);
	    s->data = unhex(w[4], &s->n);
	}
	else if (IS("rmfile", 3))
	{
	    SetFile* s = &setf[nsetf++];
	    s->phase = atoi(w[1]);
	    s->path = unhex(w[2], NULL);
	    s->rm = 1;
	}
	else if (IS("node", 4))
	{
	    Node* nd = nodeof(w[1]);
	    nd->used = 1;
	    nd->id = nd - nodes;
	    nd->phase = atoi(w[2]);
	    snprintf(nd->so, sizeof nd->so, "%s", w[3]);
	    nd->argv[nd->argc++] = strdup("prog");
	    for (int i = 4; i < n && nd->argc < 60; i++)
		nd->argv[nd->argc++] = unhex(w[i], NULL);
	    nd->killstep = -1;
	    nd->memlimit = 1LL << 40;
	    nd->fdlimit = 1024;
	    nd->sout.cap = -1;
	    nd->serr.cap = -1;
	    nd->stacksz = 1 << 20;
	    if (nnodes <= nd->id)
		nnodes = nd->id + 1;
	}
	else if (IS("memlimit", 3))
	    nodeof(w[1])->memlimit = atoll(w[2]);
	else if (IS("fdlimit", 3))
	    nodeof(w[1])->fdlimit = atoi(w[2]);
	else if (IS("stack", 3))
	    nodeof(w[1])->stacksz = atoi(w[2]);
	else if (IS("in", 3))
	{
	    Node* nd = nodeof(w[1]);
	    if (!strcmp(w[2], "null"))
		nd->inkind = 0;
	    else if (!strcmp(w[2], "file"))
	    {
		nd->inkind = 1;
		char* p = unhex(w[3], NULL);
		snprintf(nd->inpath, sizeof nd->inpath, "%s", p);
	    }
	    else if (!strcmp(w[2], "stream"))
	    {
		nd->inkind = 2;
		nd->instream = xcalloc(sizeof(InStream));
		nd->instream->tty = atoi(w[3]);
		nd->instream->hold = n > 4 ? atoi(w[4]) : 0;
		nd->instream->ready = -1;
	    }
	    else if (!strcmp(w[2], "pipe"))
	    {
		nd->inkind = 3;
		nd->insrc = atoi(w[3]);
		nd->incap = atoi(w[4]);
	    }
	    else
		nd->inkind = 4;
	}
	else if (IS("ev", 5))
	{
	    InStream* s = nodeof(w[1])->instream;
	    if (!s)
		die("ev without stream");
	    s->ev = realloc(s->ev, (s->nev + 1) * sizeof *s->ev);
	    Ev* e = &s->ev[s->nev++];
	    memset(e, 0, sizeof *e);
	    e->await = atoll(w[2]);
	    e->delay = atoll(w[3]);
	    if (!strcmp(w[4], "eof"))
		e->kind = 1;
	    else if (!strcmp(w[4], "err"))
	    {
		e->kind = 2;
		e->err = atoi(w[5]);
	    }
	    else
		e->data = unhex(w[4], &e->n);
	}
	else if (IS("out", 3))
	{
	    Node* nd = nodeof(w[1]);
	    if (!strcmp(w[2], "sink"))
	    {
		nd->sout.cap = atoll(w[3]);
		nd->sout.tty = atoi(w[4]);
	    }
	    else if (!strcmp(w[2], "file"))
	    {
		nd->outkind = 1;
		char* p = unhex(w[3], NULL);
		snprintf(nd->outpath, sizeof nd->outpath, "%s", p);
	    }
	    else if (!strcmp(w[2], "closed"))
		nd->outkind = 3;
	    else if (!strcmp(w[2], "deadpipe"))
		nd->outkind = 4;
	}
	else if (IS("fault", 8))
	{
	    if (nfaults >= MAXFAULT)
		die("too many faults");
	    Fault* f = &faults[nfaults++];
	    f->node = !strcmp(w[1], "*") ? -1 : atoi(w[1]);
	    snprintf(f->op, sizeof f->op, "%s", w[2]);
	    if (!strcmp(w[3], "*"))
		strcpy(f->path, "*");
	    else
	    {
		char* p = unhex(w[3], NULL);
		snprintf(f->path, sizeof f->path, "%s", p);
	    }
	    f->nth = atoi(w[4]);
	    snprintf(f->kind, sizeof f->kind, "%s", w[5]);
	    f->arg = atoi(w[6]);
	    f->sticky = atoi(w[7]);
	}
	else if (IS("kill", 4))
	{
	    Node* nd = nodeof(w[1]);
	    nd->killstep = atoll(w[2]);
	    nd->killmid = atoi(w[3]);
	}
	else
	    die("bad plan line: %s", w[0]);
    }
}

/* ---------------------------------------------------------------- running */
static void entry(void)
{
    Node* n = cur;
    int (*m)(int, char**) = (int (*)(int, char**))dlsym(n->img->h, "main");
    if (!m)
	die("no main");
    int r = m(n->argc, n->argv);
    logev("mainret", "", r, 0);
    __wrap_exit(r);
}

static void startnode(Node* n)
{
    n->img = NULL;
    for (int i = 0; i < MAXIMG; i++)
	if (images[i].h && !strcmp(images[i].path, n->so))
	    n->img = &images[i];
    if (!n->img)
	die("image %s not loaded", n->so);
    for (int i = 0; i < n->img->nseg; i++)
    {
	n->save[i] = xmalloc(n->img->seg[i].n);
	memcpy(n->save[i], n->img->seg[i].init, n->img->seg[i].n);
    }
    size_t page = 4096;
    n->stack = mmap(NULL, n->stacksz + 2 * page, PROT_READ | PROT_WRITE | PROT_EXEC,
		    MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (n->stack == MAP_FAILED)
    {
	n->stack = mmap(NULL, n->stacksz + 2 * page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE,
			-1, 0);
	if (n->stack == MAP_FAILED)
	    die("mmap stack");
    }
    mprotect(n->stack, page, PROT_NONE);
    mprotect(n->stack + page + n->stacksz, page, PROT_NONE);
    n->stack += page;
    /* left-over contents of the stack: junk that depends on the seed */
    size_t junk = n->stacksz < (256 << 10) ? n->stacksz : (256 << 10);
    u64    j = seed ^ 0xABCDEF12345ULL ^ n->id;
    for (size_t i = n->stacksz - junk; i + 8 <= n->stacksz; i += 8)
    {
	u64 v = splitmix(&j);
	memcpy(n->stack + i, &v, 8);
    }
    n->arenasz = sizeof(void*) == 8 ? (size_t)192 << 20 : (size_t)40 << 20;
    n->arena = mmap(NULL, n->arenasz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (n->arena == MAP_FAILED)
	die("mmap arena");
    n->bump = 4096 + rnd(&rngh, 64) * 16;
    for (int i = 0; i < 64; i++)
	n->freehead[i] = -1;

    cur = n;
    /* descriptors 0, 1, 2 */
    Ofd* o;
    switch (n->inkind)
    {
    case 1:
    {
	Dent* d = lookup(n->inpath);
	if (!d)
	    die("stdin file missing");
	o = mkofd(K_FILE, "<stdin>");
	o->ino = d->ino;
	break;
    }
    case 2:
	o = mkofd(K_IN, "<stdin>");
	o->in = n->instream;
	break;
    case 3:
	o = mkofd(K_PIPER, "<stdin>");
	o->pipe = nodes[n->insrc].outpipe;
	break;
    case 4: o = NULL; break;
    default: o = mkofd(K_NULL, "<stdin>");
    }
    n->fd[0] = o;
    switch (n->outkind)
    {
    case 1:
    {
	Dent* d = lookup(n->outpath);
	o = mkofd(K_FILE, "<stdout>");
	o->ino = d ? d->ino : mkinode(n->outpath, 0, 0600);
	o->flags = O_WRONLY;
	break;
    }
    case 2:
	o = mkofd(K_PIPEW, "<stdout>");
	o->pipe = n->outpipe;
	break;
    case 3: o = NULL; break;
    case 4:
	o = mkofd(K_PIPEW, "<stdout>");
	o->pipe = xcalloc(sizeof(Pipe));
	o->pipe->cap = 65536;
	o->pipe->writers = 1;
	break;
    default:
	o = mkofd(K_SINK, "<stdout>");
	o->sink = &n->sout;
    }
    n->fd[1] = o;
    o = mkofd(K_SINK, "<stderr>");
    o->sink = &n->serr;
    n->fd[2] = o;
    n->nopen = n->maxopen = 3;
    int intty = n->inkind == 2 && n->instream->tty;
    n->in = mkfile(n, 0, "r", intty ? _IOLBF : _IOFBF, intty ? 1024 : bufsz ? bufsz : 4096)->fp;
    n->out = mkfile(n, 1, "w", n->sout.tty ? _IOLBF : _IOFBF, n->sout.tty ? 1024 : bufsz ? bufsz : 4096)->fp;
    n->err = mkfile(n, 2, "w", _IONBF, 0)->fp;
    cur = NULL;

    if (getcontext(&n->ctx) != 0)
	die("getcontext");
    n->ctx.uc_stack.ss_sp = n->stack;
    n->ctx.uc_stack.ss_size = n->stacksz;
    n->ctx.uc_link = &schedctx;
    makecontext(&n->ctx, entry, 0);
    n->state = S_READY;
    n->thash = 1469598103934665603ULL;
}

static int unblocked(Node* n)
{
    Node* sv = cur;
    int   r = 0;
    cur = n;
    if (n->waitkind == 3)
	r = now >= n->waituntil;
    else if (n->waitofd->kind == K_IN)
	r = instream_poll(n, n->waitofd->in);
    else if (n->waitofd->kind == K_PIPER)
	r = n->waitofd->pipe->q.n > n->waitofd->pipe->off || n->waitofd->pipe->writers == 0;
    else if (n->waitofd->kind == K_PIPEW)
	r = n->waitofd->pipe->q.n - n->waitofd->pipe->off < n->waitofd->pipe->cap || n->waitofd->pipe->readers == 0;
    cur = sv;
    return r;
}

static void runphase(int phase)
{
    curphase = phase;
    for (int i = 0; i < nsetf; i++)
	if (setf[i].phase == phase)
	{
	    if (setf[i].rm)
	    {
		Dent* d = lookup(setf[i].path);
		if (d)
		    rmdent(d);
	    }
	    else
		putfile(setf[i].path, setf[i].mode, setf[i].data, setf[i].n, 0);
	}
    for (int i = 0; i < nnodes; i++)
	if (nodes[i].used && nodes[i].phase == phase && nodes[i].inkind == 3)
	{
	    Node* src = &nodes[nodes[i].insrc];
	    src->outpipe = xcalloc(sizeof(Pipe));
	    src->outpipe->cap = nodes[i].incap;
	    src->outpipe->readers = src->outpipe->writers = 1;
	    src->outkind = 2;
	}
    for (int i = 0; i < nnodes; i++)
	if (nodes[i].used && nodes[i].phase == phase)
	    startnode(&nodes[i]);
    Node* last = NULL;
    for (;;)
    {
	Node* run[MAXNODES];
	int   nrun = 0, nblocked = 0;
	for (int i = 0; i < nnodes; i++)
	{
	    Node* n = &nodes[i];
	    if (!n->used || n->phase != phase)
		continue;
	    if (n->state == S_READY)
		run[nrun++] = n;
	    else if (n->state == S_BLOCKED)
	    {
		if (unblocked(n))
		    run[nrun++] = n;
		else
		    nblocked++;
	    }
	}
	if (!nrun)
	{
	    if (!nblocked)
		break;
	    /* jump to the next arrival */
	    i64 next = INT64_MAX;
	    for (int i = 0; i < nnodes; i++)
	    {
		Node* n = &nodes[i];
		if (!n->used || n->phase != phase || n->state != S_BLOCKED)
		    continue;
		i64 t = INT64_MAX;
		if (n->waitkind == 3)
		    t = n->waituntil;
		else if (n->waitofd->kind == K_IN && n->waitofd->in->ready >= 0)
		    t = n->waitofd->in->ready;
		if (t < next)
		    next = t;
	    }
	    if (next == INT64_MAX)
	    {
		/* nothing can ever happen again: whoever waits is stuck */
		for (int i = 0; i < nnodes; i++)
		    if (nodes[i].used && nodes[i].phase == phase && nodes[i].state == S_BLOCKED)
		    {
			cur = NULL;
			endnode(&nodes[i], "blocked", nodes[i].waitkind);
		    }
		continue;
	    }
	    if (next > now)
		now = next;
	    continue;
	}
	Node* pick = NULL;
	if (last && (int)rnd(&rngs, 100) < stick)
	    for (int i = 0; i < nrun; i++)
		if (run[i] == last)
		    pick = last;
	if (!pick)
	    pick = run[rnd(&rngs, nrun)];
	if (pick != last)
	{
	    switches++;
	    char t[32];
	    int  m = snprintf(t, sizeof t, "%d@%lld ", pick->id, (long long)pick->steps);
	    hashbytes(&schash, t, m);
	}
	last = pick;
	pick->state = S_READY;
	cur = pick;
	swapin(pick);
	stdin = pick->in;
	stdout = pick->out;
	FILE* realerr = stderr;
	stderr = pick->err;
	struct itimerval it = { { 0, 0 }, { cpums / 1000, cpums % 1000 * 1000 } };
	static i64 armed;
	if (!armed || gsteps - armed > 2000)
	{
	    setitimer(ITIMER_PROF, &it, NULL);
	    armed = gsteps + 1;
	}
	errno = pick->saved_errno;
	if (swapcontext(&schedctx, &pick->ctx) != 0)
	    die("swapcontext");
	pick->saved_errno = errno;
	stderr = realerr;
	if (cur && cur->state == S_DONE)
	    checkarena(cur);
	cur = NULL;
    }
}

static void resethost(void)
{
    rngs = seed * 2 + 1;
    rngh = seed ^ 0x5DEECE66DULL;
    splitmix(&rngs);
    splitmix(&rngh);
}

static void jstr(Buf* b, const char* s)
{
    bput(b, "\"", 1);
    for (; *s; s++)
    {
	unsigned char c = *s;
	if (c == '"' || c == '\\')
	    bprintf(b, "\\%c", c);
	else if (c < 32 || c > 126)
	    bprintf(b, "\\u%04x", c);
	else
	    bput(b, s, 1);
    }
    bput(b, "\"", 1);
}

static int dentcmp(const void* a, const void* b)
{
    return strcmp(((const Dent*)a)->path, ((const Dent*)b)->path);
}

static void dumpfiles(Buf* b)
{
    qsort(dents, ndents, sizeof *dents, dentcmp);
    bprintf(b, "{");
    int first = 1;
    for (size_t i = 0; i < ndents; i++)
    {
	if (dents[i].ino->type)
	    continue;
	if (!first)
	    bprintf(b, ",");
	first = 0;
	jstr(b, dents[i].path);
	bprintf(b, ":\"");
	bhex(b, dents[i].ino->d.p, dents[i].ino->d.n);
	bprintf(b, "\"");
    }
    bprintf(b, "}");
}

static void writeall(int fd, const char* p, size_t n)
{
    while (n)
    {
	ssize_t r = write(fd, p, n);
	if (r < 0)
	{
	    if (errno == EINTR)
		continue;
	    _exit(97);
	}
	p += r;
	n -= r;
    }
}

static void answer(Buf* b)
{
    char t[32];
    int  n = snprintf(t, sizeof t, "%zu\n", b->n);
    writeall(1, t, n);
    writeall(1, b->p, b->n);
}

static void child(char* text)
{
    alarm(120);
    parseplan(text);
    resethost();
    stack_t ss = { .ss_sp = xmalloc(65536), .ss_size = 65536 };
    sigaltstack(&ss, NULL);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = crash;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    int sigs[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP };
    for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; i++)
	sigaction(sigs[i], &sa, NULL);
    sa.sa_handler = cpualarm;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    sigaction(SIGPROF, &sa, NULL);

    int maxphase = 0;
    for (int i = 0; i < nnodes; i++)
	if (nodes[i].used && nodes[i].phase > maxphase)
	    maxphase = nodes[i].phase;
    Buf ph = { 0 };
    for (int p = 0; p <= maxphase; p++)
    {
	runphase(p);
	if (p)
	    bprintf(&ph, ",");
	dumpfiles(&ph);
    }
    struct itimerval z = { { 0, 0 }, { 0, 0 } };
    setitimer(ITIMER_PROF, &z, NULL);

    Buf b = { 0 };
    bprintf(&b, "{\"nodes\":[");
    int first = 1;
    for (int i = 0; i < nnodes; i++)
    {
	Node* n = &nodes[i];
	if (!n->used)
	    continue;
	bprintf(&b,
		"%s{\"id\":%d,\"end\":\"%s\",\"val\":%d,\"steps\":%lld,\"marks\":%lld,\"maxfd\":%d,\"allocs\":%d,\"live\":%d,"
		"\"livebytes\":%lld,\"maxlive\":%lld,\"visible\":%lld,\"memerr\":[",
		first ? "" : ",", n->id, n->endkind, n->endval, (long long)n->steps, (long long)n->marks, n->maxopen,
		n->nallocs, n->nlive, (long long)n->livebytes, (long long)n->maxlive, (long long)n->visible);
	first = 0;
	if (n->memerr.n)
	    bput(&b, n->memerr.p, n->memerr.n);
	bprintf(&b, "],\"stdout\":\"");
	bhex(&b, n->sout.d.p, n->sout.d.n);
	bprintf(&b, "\",\"stderr\":\"");
	bhex(&b, n->serr.d.p, n->serr.d.n);
	bprintf(&b, "\"}");
    }
    bprintf(&b, "],\"phases\":[");
    bput(&b, ph.p, ph.n);
    bprintf(&b, "],\"hash\":\"%016llx\",\"sched\":\"%016llx\",\"switches\":%lld,\"steps\":%lld,\"simns\":%lld,\"faults\":[",
	    (unsigned long long)evhash, (unsigned long long)schash, (long long)switches, (long long)gsteps,
	    (long long)(now - simstart));
    for (int i = 0; i < nfaults; i++)
	bprintf(&b, "%s%d", i ? "," : "", faults[i].fired);
    bprintf(&b, "],\"clocks\":[");
    if (clockbuf.n)
	bput(&b, clockbuf.p, clockbuf.n);
    bprintf(&b, "]");
    if (trace)
    {
	bprintf(&b, ",\"trace\":\"");
	bhex(&b, tracebuf.p, tracebuf.n);
	bprintf(&b, "\"");
    }
    bprintf(&b, "}");
    answer(&b);
    _exit(0);
}

static int readline(char* t, int cap)
{
    int n = 0;
    while (n < cap - 1)
    {
	char    c;
	ssize_t r = read(0, &c, 1);
	if (r <= 0)
	    return -1;
	if (c == '\n')
	    break;
	t[n++] = c;
    }
    t[n] = 0;
    return n;
}

int main(int argc, char** argv)
{
    (void)argc;
    int p = personality(0xffffffff);
    if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && !getenv("SIMHOST_NOASLR"))
    {
	setenv("SIMHOST_NOASLR", "1", 1);
	if (personality(p | ADDR_NO_RANDOMIZE) != -1)
	    execv("/proc/self/exe", argv);
    }
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    signal(SIGPIPE, SIG_DFL);
    tzset();
    char t[64];
    while (readline(t, sizeof t) > 0)
    {
	size_t n = strtoull(t, 0, 10);
	char*  text = xmalloc(n + 1);
	size_t got = 0;
	while (got < n)
	{
	    ssize_t r = read(0, text + got, n - got);
	    if (r <= 0)
		return 1;
	    got += r;
	}
	text[n] = 0;
	/* load the images named in the plan before forking, so that they stay loaded */
	int ok = 1;
	for (char* s = text; s; s = strchr(s, '\n'))
	{
	    if (*s == '\n')
		s++;
	    int  id, ph;
	    char so[512];
	    if (sscanf(s, "node %d %d %511s", &id, &ph, so) == 3 && !loadimage(so))
		ok = 0;
	}
	int st = 0;
	if (ok)
	{
	    pid_t c = fork();
	    if (c == 0)
	    {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		child(text);
	    }
	    if (c < 0)
		st = 96 << 8;
	    else
		while (waitpid(c, &st, 0) < 0 && errno == EINTR)
		    ;
	}
	else
	    st = 95 << 8;
	if (st != 0)
	{
	    Buf b = { 0 };
	    bprintf(&b, "{\"hosterror\":%d,\"hostsignal\":%d}", WIFEXITED(st) ? WEXITSTATUS(st) : 0,
		    WIFSIGNALED(st) ? WTERMSIG(st) : 0);
	    answer(&b);
	    free(b.p);
	}
	free(text);
    }
    return 0;
}
