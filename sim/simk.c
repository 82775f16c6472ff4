/*
 * simk: the simulation kernel.
 *
 * Linked into a sanitised rebuild of the pointless extension with -Wl,--wrap for every symbol below, so that
 * the real library code runs against a simulated disk, a simulated allocator and a simulated scheduler:
 *
 *   - an in-memory file system with volatile and durable state (process crash, power loss);
 *   - FILE* through fopencookie, so that real stdio buffering and its error handling run;
 *   - mmap as an exactly sized heap copy kept in step with the inode (sanitiser finds over-reads and use-after-unmap);
 *   - malloc/calloc/realloc/free/strdup with n-th call failure, garbage fill and live accounting;
 *   - the interpreter's own allocators with n-th call failure and live accounting;
 *   - PyEval_SaveThread/RestoreThread and every simulated system call as scheduling points of a baton scheduler.
 *
 * Nothing here draws on a clock, on the real file system or on OS scheduling. Every choice comes from the case.
 */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <semaphore.h>
#include <execinfo.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>

#include <pointless/pointless.h>
#include <pointless/pointless_recreate.h>
#include <pointless/pointless_eval.h>
#include <pointless/pointless_reader_helpers.h>

/* for diagnosis: where a fault was injected */
extern void __sanitizer_print_stack_trace(void) __attribute__((weak));
static int bt;

/* ------------------------------------------------------------------ kinds */

enum { K_MALLOC, K_PYALLOC, K_MKSTEMP, K_OPEN, K_FDOPEN, K_FOPEN, K_WRITE, K_READ, K_SEEK, K_FSYNC, K_FCHMOD, K_CLOSE,
       K_RENAME, K_UNLINK, K_FSTAT, K_MMAP, K_MUNMAP, K_TRUNC, K_LINK, K_SAVE, K_RESTORE, K_OP, K_USER, K_N };
static const char* kind_name[K_N] = { "malloc", "pyalloc", "mkstemp", "open", "fdopen", "fopen", "write", "read", "seek",
	"fsync", "fchmod", "close", "rename", "unlink", "fstat", "mmap", "munmap", "truncate", "link", "gil_release",
	"gil_acquire", "op", "user" };

/* ------------------------------------------------------------------ real functions */

void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void  __real_free(void*);
int   __real_open(const char*, int, ...);
int   __real_close(int);
ssize_t __real_write(int, const void*, size_t);
ssize_t __real_read(int, void*, size_t);
FILE* __real_fopen(const char*, const char*);
FILE* __real_fdopen(int, const char*);
int   __real_fileno(FILE*);
int   __real_fstat(int, struct stat*);
int   __real_stat(const char*, struct stat*);
void* __real_mmap(void*, size_t, int, int, int, off_t);
int   __real_munmap(void*, size_t);
int   __real_mkstemp(char*);
int   __real_rename(const char*, const char*);
int   __real_unlink(const char*);
int   __real_fsync(int);
int   __real_fchmod(int, mode_t);
PyThreadState* __real_PyEval_SaveThread(void);
void  __real_PyEval_RestoreThread(PyThreadState*);

/* ------------------------------------------------------------------ state */

#define MAX_ACTORS 16
#define MAX_PROCS 8
#define MAX_INODES 4096
#define MAX_NAMES 2048
#define MAX_FDS 1024
#define MAX_MAPS 1024
#define MAX_FAULTS 64
#define MAX_JOURNAL 16384
#define FD_BASE 1000000

enum { A_FREE, A_NEW, A_PARKED, A_RUNNING, A_DONE, A_KILLED };

typedef struct {
	int state, proc, op, armed, nogil, wants_gil, holds_vgil, threaded, crit;
	int park_kind;
	long steps;
	uint32_t counts[K_N];
	sem_t wake;
} actor_t;

typedef struct { int actor, op, kind, count; uint32_t nth; long param; long fired; int used, looked; } fault_t;
typedef struct { size_t end; } wmark_t;
typedef struct {
	int used, nlink, opens, maps, isdir;
	unsigned mode;
	uint8_t* data; size_t len, cap;
	uint8_t* dur; size_t dlen;       /* durable content, valid up to last sync */
	size_t marks[64]; int n_marks;   /* sizes the file had since the last sync */
	int dirty;
} inode_t;
typedef struct { int used; char path[256]; int ino; } name_t;
typedef struct { int op; char a[256], b[256]; int ino; } jrnl_t; /* 1 link a->ino, 2 unlink a, 3 rename a->b */
typedef struct { int used, ino, proc, flags; size_t pos; } fd_t;
typedef struct { int used, ino, proc, prot; size_t off, len; uint8_t* ptr; } map_t;
typedef struct { FILE* f; int fd; char* vbuf; } filerec_t;

static int S_on;
static uint64_t S_rng;
static actor_t actors[MAX_ACTORS]; static int n_actors;
static int vgil_owner[MAX_PROCS]; static int proc_dead[MAX_PROCS];
static sem_t main_wake;
static __thread actor_t* cur;
static fault_t faults[MAX_FAULTS]; static int n_faults;
static uint64_t fired[K_N], seen[K_N];
static inode_t* inodes[MAX_INODES]; static int n_inodes;
static name_t* names; static int n_names;
static name_t* dnames; static int n_dnames;  /* durable namespace before the journal */
static jrnl_t* journal; static int n_journal, dur_journal;
static fd_t fds[MAX_FDS];
static map_t maps[MAX_MAPS];
static filerec_t files[MAX_FDS];
static uint64_t fs_gen, fs_capacity, fs_used, n_power, n_crash;
static int knob_bufsize, knob_split, knob_fill, knob_shortmax, knob_user, short_n;
static long ino_base;
static uint64_t trace_h; static uint64_t ev_seq;
static char* tlog; static size_t tlog_len; static int tlog_on;
static char anomaly[512];
static int py_hook;
static long py_live; static uint64_t py_fail;
static int leak_trace;

static uint64_t rnd(void) { uint64_t z = (S_rng += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static uint64_t hmix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 29); }
static uint64_t hbytes(const void* p, size_t n) { uint64_t h = 1469598103934665603ull; size_t i; for (i = 0; i < n; i++) { h ^= ((const uint8_t*)p)[i]; h *= 1099511628211ull; } return h; }
static uint64_t hstr(const char* s) { return hbytes(s, strlen(s)); }

static void anomaly_set(const char* fmt, ...)
{
	if (anomaly[0]) return;
	va_list ap; va_start(ap, fmt); vsnprintf(anomaly, sizeof(anomaly), fmt, ap); va_end(ap);
}

#define TLOG_CAP (1 << 17)
static void tl(const char* fmt, ...)
{
	if (!tlog_on || tlog_len + 400 > TLOG_CAP) return;
	va_list ap; va_start(ap, fmt);
	int n = vsnprintf(tlog + tlog_len, 390, fmt, ap); va_end(ap);
	if (n > 389) n = 389;
	if (n > 0) tlog_len += n;
	tlog[tlog_len++] = '\n';
}

static int cur_id(void) { return cur ? (int)(cur - actors) : -1; }
static int cur_proc(void) { return cur ? cur->proc : 0; }

static void ev(int kind, uint64_t a, int64_t res)
{
	trace_h = hmix(trace_h, ((uint64_t)(cur_id() + 1) << 56) ^ ((uint64_t)kind << 48) ^ a);
	trace_h = hmix(trace_h, (uint64_t)res);
	ev_seq++;
}

/* ------------------------------------------------------------------ live C allocations */

typedef struct { void* p; size_t n; uint64_t seq; void* pc; } la_t;
static la_t* la; static size_t la_cap, la_n, la_tomb;
static uint64_t la_bytes, la_peak, la_seq, la_total;

static size_t la_slot(void* p) { return (size_t)((((uint64_t)p >> 4) * 0x9e3779b97f4a7c15ull) >> 20) & (la_cap - 1); }
static void la_grow(void)
{
	la_t* o = la; size_t oc = la_cap, i;
	la_cap = la_cap ? la_cap * 2 : 4096;
	if (o && la_n * 4 < oc) la_cap = oc;
	la = (la_t*)__real_calloc(la_cap, sizeof(la_t)); la_tomb = 0;
	for (i = 0; i < oc; i++) if (o[i].p && o[i].p != (void*)1) { size_t s = la_slot(o[i].p); while (la[s].p) s = (s + 1) & (la_cap - 1); la[s] = o[i]; }
	__real_free(o);
}
static void la_add(void* p, size_t n, void* pc)
{
	if ((la_n + la_tomb) * 2 >= la_cap) la_grow();
	size_t s = la_slot(p);
	while (la[s].p && la[s].p != (void*)1) s = (s + 1) & (la_cap - 1);
	if (la[s].p == (void*)1) la_tomb--;
	la[s].p = p; la[s].n = n; la[s].seq = ++la_seq; la[s].pc = pc; la_n++;
	la_bytes += n; la_total += n; if (la_bytes > la_peak) la_peak = la_bytes;
}
static int la_del(void* p, size_t* n)
{
	if (!la_cap) return 0;
	size_t s = la_slot(p);
	while (la[s].p) { if (la[s].p == p) { *n = la[s].n; la[s].p = (void*)1; la_n--; la_tomb++; la_bytes -= *n; return 1; } s = (s + 1) & (la_cap - 1); }
	return 0;
}

/* ------------------------------------------------------------------ faults */

/* the interpreter allocates a lot which is no concern of the library: is it on the stack above the operation's call? */
extern char __ehdr_start[] __attribute__((visibility("hidden")));
extern char etext[] __attribute__((visibility("hidden")));
static int in_so(void* pc) { return (char*)pc >= __ehdr_start && (char*)pc < etext; }
static int library_is_running(void* ra)
{
	void* pc[96]; int i, n, k = 0;
	if (in_so(ra)) return 1;
	n = backtrace(pc, 96);
	for (i = 0; i < n && !in_so(pc[i]); i++);
	for (; i < n && in_so(pc[i]); i++);            /* our own */
	for (; i < n; i++) k += in_so(pc[i]);
	return k >= 2;                                 /* s_call is one */
}

/* one event of this kind in the current op of the current actor; returns the fault that hits it, or NULL */
static uint32_t last_c;
static fault_t* event_at(int kind, void* ra)
{
	seen[kind]++;
	if (!cur) return 0;
	uint32_t c = last_c = cur->counts[kind]++;
	if (!n_faults || !cur->armed) return 0;
	int id = cur_id(), i;
	for (i = 0; i < n_faults; i++) {
		fault_t* f = &faults[i];
		if (f->kind != kind || f->actor != id || f->op != cur->op) continue;
		if (c < f->nth) continue;
		if (kind == K_PYALLOC) {
			/* the next allocations which the library makes, or the interpreter on its behalf */
			if ((f->count >= 0 && f->used >= f->count) || f->looked++ > 3000 || !library_is_running(ra)) continue;
			f->used++;
		} else if (f->count >= 0 && c >= f->nth + (uint32_t)f->count) continue;
		f->fired++; fired[kind]++;
		if (bt && __sanitizer_print_stack_trace) { fprintf(stderr, "fault %s #%u\n", kind_name[kind], c); __sanitizer_print_stack_trace(); }
		tl("  [%d] fault %s #%u op %d param %ld", id, kind_name[kind], c, cur->op, f->param);
		trace_h = hmix(trace_h, 0xfa17 + kind + c);
		return f;
	}
	return 0;
}

static fault_t* event(int kind) { return event_at(kind, 0); }

/* ------------------------------------------------------------------ scheduling */

static void real_park(actor_t* a)
{
	a->steps++;
	a->state = A_PARKED;
	sem_post(&main_wake);
	while (sem_wait(&a->wake) != 0);
	a->state = A_RUNNING;
}

/* a scheduling point; the calling thread may or may not hold the real GIL */
static void park(int kind, int wants_gil)
{
	actor_t* a = cur;
	if (!a || !a->threaded || a->crit) return;
	int e = errno;
	a->park_kind = kind; a->wants_gil = wants_gil;
	if (a->nogil) real_park(a);
	else {
		PyThreadState* ts = __real_PyEval_SaveThread();
		real_park(a);
		__real_PyEval_RestoreThread(ts);
	}
	a->wants_gil = 0;
	errno = e;
}

PyThreadState* __wrap_PyEval_SaveThread(void)
{
	PyThreadState* ts = __real_PyEval_SaveThread();
	if (S_on && cur && cur->threaded) {
		seen[K_SAVE]++; cur->counts[K_SAVE]++;
		cur->nogil = 1;
		if (vgil_owner[cur->proc] == cur_id()) vgil_owner[cur->proc] = -1;
		park(K_SAVE, 0);
	}
	return ts;
}

void __wrap_PyEval_RestoreThread(PyThreadState* ts)
{
	if (S_on && cur && cur->threaded) {
		seen[K_RESTORE]++; cur->counts[K_RESTORE]++;
		park(K_RESTORE, 1);
		vgil_owner[cur->proc] = cur_id();
		cur->nogil = 0;
	}
	__real_PyEval_RestoreThread(ts);
}

/* ------------------------------------------------------------------ allocation wraps */

static void fill(void* p, size_t n)
{
	size_t i; uint8_t* b = (uint8_t*)p;
	if (n > (1u << 22)) n = 1u << 22;
	if (knob_fill == 0) { memset(b, 0, n); return; }
	if (knob_fill == 1) { memset(b, 0xff, n); return; }
	uint64_t x = (uint64_t)knob_fill * 0x9e3779b97f4a7c15ull + la_seq * 0xbf58476d1ce4e5b9ull;
	for (i = 0; i < n; i++) { if ((i & 7) == 0) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; } b[i] = (uint8_t)(x >> ((i & 7) * 8)); }
}

#define HUGE_ALLOC ((size_t)1 << 30)

void* __wrap_malloc(size_t n)
{
	if (!S_on) return __real_malloc(n);
	if (event(K_MALLOC) || n > HUGE_ALLOC) { errno = ENOMEM; return 0; }
	void* p = __real_malloc(n);
	if (p) { la_add(p, n, __builtin_return_address(0)); fill(p, n); }
	return p;
}
void* __wrap_calloc(size_t a, size_t b)
{
	if (!S_on) return __real_calloc(a, b);
	if (event(K_MALLOC) || (a && b > HUGE_ALLOC / a)) { errno = ENOMEM; return 0; }
	void* p = __real_calloc(a, b);
	if (p) la_add(p, a * b, __builtin_return_address(0));
	return p;
}
void __wrap_free(void* p)
{
	size_t n;
	if (S_on && p && la_del(p, &n)) { if (n < (1u << 20)) memset(p, 0xdd, n); else memset(p, 0xdd, 1u << 20); }
	__real_free(p);
}
void* __wrap_realloc(void* p, size_t n)
{
	size_t o = 0; int had;
	if (!S_on) return __real_realloc(p, n);
	if (!p) return __wrap_malloc(n);
	if (event(K_MALLOC) || n > HUGE_ALLOC) { errno = ENOMEM; return 0; }
	if (n == 0) { had = la_del(p, &o); __real_free(p); return 0; }
	had = la_del(p, &o);
	if (!had) { void* q0 = __real_realloc(p, n); if (q0) la_add(q0, n, __builtin_return_address(0)); return q0; }
	/* always move */
	void* q = __real_malloc(n);
	if (!q) { la_add(p, o, 0); return 0; }
	la_add(q, n, __builtin_return_address(0));
	memcpy(q, p, o < n ? o : n);
	if (n > o) fill((uint8_t*)q + o, n - o);
	memset(p, 0xdd, o < (1u << 20) ? o : (1u << 20));
	__real_free(p);
	return q;
}
char* __wrap_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)__wrap_malloc(n); if (p) memcpy(p, s, n); return p; }
char* __wrap_strndup(const char* s, size_t m) { size_t n = strnlen(s, m); char* p = (char*)__wrap_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
void* __wrap_reallocarray(void* p, size_t a, size_t b) { if (a && b > HUGE_ALLOC / a) { errno = ENOMEM; return 0; } return __wrap_realloc(p, a * b); }
int __wrap_posix_memalign(void** r, size_t al, size_t n) { (void)al; void* p = __wrap_malloc(n); if (!p) return ENOMEM; *r = p; return 0; }
void* __wrap_aligned_alloc(size_t al, size_t n) { (void)al; return __wrap_malloc(n); }

/* interpreter allocators */
typedef struct { PyMemAllocatorEx orig; PyMemAllocatorDomain dom; int can_fail; } pyal_t;
static pyal_t pyal[3];
/* optional ledger of interpreter allocations, for leak attribution */
static int py_should_fail(pyal_t* a, void* ra) { if (!S_on || !cur || !a->can_fail || !cur->armed) return 0; if (event_at(K_PYALLOC, ra)) { py_fail++; return 1; } return 0; }
static void* py_malloc(void* c, size_t n) { pyal_t* a = c; if (py_should_fail(a, __builtin_return_address(0))) return 0; void* p = a->orig.malloc(a->orig.ctx, n); if (p) py_live++; return p; }
static void* py_calloc(void* c, size_t m, size_t n) { pyal_t* a = c; if (py_should_fail(a, __builtin_return_address(0))) return 0; void* p = a->orig.calloc(a->orig.ctx, m, n); if (p) py_live++; return p; }
static void* py_realloc(void* c, void* q, size_t n) { pyal_t* a = c; if (py_should_fail(a, __builtin_return_address(0))) return 0; void* p = a->orig.realloc(a->orig.ctx, q, n); if (p && !q) py_live++; return p; }
static void py_free(void* c, void* p) { pyal_t* a = c; if (p) py_live--; a->orig.free(a->orig.ctx, p); }

static void py_install(void)
{
	if (py_hook) return;
	py_hook = 1;
	PyMemAllocatorDomain d[3] = { PYMEM_DOMAIN_RAW, PYMEM_DOMAIN_MEM, PYMEM_DOMAIN_OBJ };
	int i;
	for (i = 0; i < 3; i++) {
		pyal[i].dom = d[i]; pyal[i].can_fail = i != 0;
		PyMem_GetAllocator(d[i], &pyal[i].orig);
		PyMemAllocatorEx n = { &pyal[i], py_malloc, py_calloc, py_realloc, py_free };
		PyMem_SetAllocator(d[i], &n);
	}
}

/* ------------------------------------------------------------------ file system */

static void norm(const char* p, char out[256])
{
	char tmp[512]; size_t i, n = 0;
	if (p[0] != '/') snprintf(tmp, sizeof(tmp), "/sim/%s", p); else snprintf(tmp, sizeof(tmp), "%s", p);
	for (i = 0; tmp[i] && n < 255; i++) {
		if (tmp[i] == '/' && n && out[n - 1] == '/') continue;
		if (tmp[i] == '.' && n && out[n - 1] == '/' && (tmp[i + 1] == '/' || tmp[i + 1] == 0)) { if (tmp[i + 1] == '/') i++; continue; }
		out[n++] = tmp[i];
	}
	if (n > 1 && out[n - 1] == '/') n--;
	out[n] = 0;
}
static name_t* find_name(const char* path) { int i; for (i = 0; i < n_names; i++) if (names[i].used && !strcmp(names[i].path, path)) return &names[i]; return 0; }
static inode_t* ino_at(int i) { return inodes[i]; }
static int new_inode(unsigned mode, int isdir)
{
	if (n_inodes >= MAX_INODES) { anomaly_set("harness: out of inodes"); return -1; }
	inode_t* in = (inode_t*)__real_calloc(1, sizeof(inode_t));
	in->used = 1; in->mode = mode; in->isdir = isdir;
	inodes[n_inodes] = in;
	return n_inodes++;
}
static void jadd(int op, const char* a, const char* b, int ino)
{
	if (n_journal >= MAX_JOURNAL) { anomaly_set("harness: journal full"); return; }
	jrnl_t* j = &journal[n_journal++];
	j->op = op; snprintf(j->a, 256, "%s", a); snprintf(j->b, 256, "%s", b ? b : ""); j->ino = ino;
}
static int link_name(const char* path, int ino)
{
	int i;
	for (i = 0; i < n_names; i++) if (!names[i].used) break;
	if (i == n_names) { if (n_names >= MAX_NAMES) { anomaly_set("harness: out of names"); return 0; } n_names++; }
	names[i].used = 1; snprintf(names[i].path, 256, "%s", path); names[i].ino = ino;
	ino_at(ino)->nlink++;
	fs_gen++;
	return 1;
}
static int parent_ok(const char* path)
{
	char d[256]; snprintf(d, sizeof(d), "%s", path);
	char* s = strrchr(d, '/');
	if (!s || s == d) return 1;
	*s = 0;
	name_t* n = find_name(d);
	return n && ino_at(n->ino)->isdir;
}
static int reserve(inode_t* in, size_t len)
{
	if (len > in->cap) {
		size_t c = in->cap ? in->cap : 256; while (c < len) c *= 2;
		uint8_t* d = (uint8_t*)__real_calloc(1, c);
		if (in->len) memcpy(d, in->data, in->len);
		__real_free(in->data); in->data = d; in->cap = c;
	}
	return 1;
}
static void sync_maps(int ino)
{
	int i; inode_t* in = ino_at(ino);
	if (!in->maps) return;
	for (i = 0; i < MAX_MAPS; i++) if (maps[i].used && maps[i].ino == ino) {
		map_t* m = &maps[i];
		if (in->len < m->off + m->len && in->len < ((m->off + m->len + 4095) & ~(size_t)4095) - 4095)
			anomaly_set("a mapped file was truncated below its mapping (a reader would be killed by SIGBUS)");
		size_t n = in->len > m->off ? in->len - m->off : 0; if (n > m->len) n = m->len;
		memcpy(m->ptr, in->data + m->off, n); memset(m->ptr + n, 0, m->len - n);
	}
}
static void mark(inode_t* in) { in->dirty = 1; if (in->n_marks < 64) in->marks[in->n_marks++] = in->len; else in->marks[rnd() % 64] = in->len; }
/* returns number of bytes written, or -errno */
static ssize_t ino_write(int ino, size_t pos, const void* b, size_t n)
{
	inode_t* in = ino_at(ino);
	if (fs_capacity && pos + n > in->len) {
		size_t grow = pos + n - in->len, room = fs_capacity > fs_used ? fs_capacity - fs_used : 0;
		if (grow > room) { if (n <= grow - room) { fired[K_WRITE]++; return -ENOSPC; } n -= grow - room; }
	}
	if (n == 0) return 0;
	reserve(in, pos + n);
	if (pos > in->len) memset(in->data + in->len, 0, pos - in->len);
	memcpy(in->data + pos, b, n);
	if (pos + n > in->len) { fs_used += pos + n - in->len; in->len = pos + n; }
	mark(in); fs_gen++;
	sync_maps(ino);
	return (ssize_t)n;
}
static void ino_trunc(int ino, size_t len)
{
	inode_t* in = ino_at(ino);
	if (len > in->len) { reserve(in, len); memset(in->data + in->len, 0, len - in->len); fs_used += len - in->len; } else fs_used -= in->len - len;
	in->len = len; mark(in); fs_gen++; sync_maps(ino);
}
static void ino_sync(int ino)
{
	inode_t* in = ino_at(ino);
	__real_free(in->dur); in->dur = (uint8_t*)__real_malloc(in->len + 1);
	if (in->len) memcpy(in->dur, in->data, in->len);
	in->dlen = in->len; in->dirty = 0; in->n_marks = 0;
}
static void ino_unref(int ino)
{
	inode_t* in = ino_at(ino);
	if (in->nlink == 0 && in->opens == 0 && in->maps == 0 && fs_used >= in->len && in->used == 1) { fs_used -= in->len; in->used = 2; }
}
static int new_fd(int ino, int flags)
{
	int i;
	for (i = 0; i < MAX_FDS; i++) if (!fds[i].used) {
		fds[i].used = 1; fds[i].ino = ino; fds[i].proc = cur_proc(); fds[i].flags = flags; fds[i].pos = 0; ino_at(ino)->opens++;
		return FD_BASE + i;
	}
	errno = EMFILE; return -1;
}
static fd_t* fd_at(int fd) { if (fd < FD_BASE || fd >= FD_BASE + MAX_FDS || !fds[fd - FD_BASE].used) return 0; return &fds[fd - FD_BASE]; }
static int fd_release(int fd) { fd_t* f = fd_at(fd); if (!f) { errno = EBADF; return -1; } f->used = 0; ino_at(f->ino)->opens--; ino_unref(f->ino); return 0; }

static int fail(fault_t* f, int dflt) { errno = f->param > 0 ? (int)(f->param & 0xffff) : dflt; return -1; }

static int do_open(const char* path0, int flags, unsigned mode)
{
	char path[256]; norm(path0, path);
	name_t* nm = find_name(path);
	if (strlen(path) >= 250) { errno = ENAMETOOLONG; return -1; }
	if (nm) {
		if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
		inode_t* in = ino_at(nm->ino);
		if (in->isdir && (flags & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; }
		if (!in->isdir && (flags & O_DIRECTORY)) { errno = ENOTDIR; return -1; }
		if ((flags & O_ACCMODE) != O_WRONLY && !(in->mode & 0400) && !in->isdir) { errno = EACCES; return -1; }
		if (knob_user && (flags & O_ACCMODE) != O_RDONLY && !(in->mode & 0200) && !in->isdir) { errno = EACCES; return -1; }
		if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY) ino_trunc(nm->ino, 0);
		return new_fd(nm->ino, flags);
	}
	if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
	if (!parent_ok(path)) { errno = ENOENT; return -1; }
	int ino = new_inode(mode & 0777, 0);
	if (ino < 0 || !link_name(path, ino)) { errno = ENOSPC; return -1; }
	jadd(1, path, 0, ino);
	return new_fd(ino, flags);
}
static int do_rename(const char* a0, const char* b0)
{
	char a[256], b[256]; norm(a0, a); norm(b0, b);
	name_t* na = find_name(a); name_t* nb = find_name(b);
	if (!na) { errno = ENOENT; return -1; }
	if (!parent_ok(b)) { errno = ENOENT; return -1; }
	if (strlen(b) >= 250) { errno = ENAMETOOLONG; return -1; }
	if (nb && ino_at(nb->ino)->isdir) { errno = EISDIR; return -1; }
	if (nb == na) return 0;
	int ino = na->ino;
	if (nb && nb->ino == ino) return 0;
	if (nb) { int o = nb->ino; nb->used = 0; ino_at(o)->nlink--; ino_unref(o); }
	na->used = 0; ino_at(ino)->nlink--;
	link_name(b, ino);
	jadd(3, a, b, ino);
	fs_gen++;
	return 0;
}
static int do_unlink(const char* a0)
{
	char a[256]; norm(a0, a);
	name_t* n = find_name(a);
	if (!n) { errno = ENOENT; return -1; }
	if (ino_at(n->ino)->isdir) { errno = EISDIR; return -1; }
	int ino = n->ino; n->used = 0; ino_at(ino)->nlink--; ino_unref(ino);
	jadd(2, a, 0, ino); fs_gen++;
	return 0;
}

/* ---- system-call wraps. Each is: scheduling point, fault decision, effect, trace. */

#define ENTER(kind) do { park(kind, 0); } while (0)

static int sim_open(const char* path, int flags, unsigned mode)
{
	ENTER(K_OPEN);
	fault_t* f = event(K_OPEN);
	int fd = f ? fail(f, EIO) : do_open(path, flags, mode);
	tl("[%d] open %s flags %x -> %d", cur_id(), path, flags, fd); ev(K_OPEN, hstr(path), fd);
	return fd;
}
int __wrap_open(const char* p, int fl, ...)
{
	unsigned m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, unsigned); va_end(ap); }
	if (!S_on) return __real_open(p, fl, m);
	return sim_open(p, fl, m);
}
int __wrap_open64(const char* p, int fl, ...)
{
	unsigned m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, unsigned); va_end(ap); }
	if (!S_on) return __real_open(p, fl, m);
	return sim_open(p, fl, m);
}
int __wrap_openat(int d, const char* p, int fl, ...)
{
	(void)d; unsigned m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, unsigned); va_end(ap); }
	if (!S_on) return __real_open(p, fl, m);
	return sim_open(p, fl, m);
}
int __wrap_creat(const char* p, mode_t m) { if (!S_on) return __real_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); return sim_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static int sim_mkstemps(char* t, int suf, int flags)
{
	static const char al[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
	ENTER(K_MKSTEMP);
	fault_t* f = event(K_MKSTEMP);
	size_t n = strlen(t); int fd = -1, i, k;
	if (f) fd = fail(f, EMFILE);
	else if ((int)n < 6 + suf || memcmp(t + n - suf - 6, "XXXXXX", 6)) { errno = EINVAL; }
	else for (k = 0; k < 100; k++) {
		char path[256];
		for (i = 0; i < 6; i++) t[n - suf - 6 + i] = al[rnd() % 62];
		norm(t, path);
		fd = do_open(t, flags | O_CREAT | O_EXCL | O_RDWR, 0600);
		if (fd >= 0 || errno != EEXIST) break;
	}
	tl("[%d] mkstemp %s -> %d", cur_id(), t, fd); ev(K_MKSTEMP, hstr(t), fd);
	return fd;
}
int __wrap_mkstemp(char* t) { if (!S_on) return __real_mkstemp(t); return sim_mkstemps(t, 0, 0); }
int __wrap_mkstemp64(char* t) { if (!S_on) return __real_mkstemp(t); return sim_mkstemps(t, 0, 0); }
int __wrap_mkostemp(char* t, int fl) { if (!S_on) return __real_mkstemp(t); return sim_mkstemps(t, 0, fl); }
int __wrap_mkstemps(char* t, int s) { if (!S_on) return -1; return sim_mkstemps(t, s, 0); }
char* __wrap_mktemp(char* t) { size_t n = strlen(t); int i; for (i = 0; i < 6 && n >= 6; i++) t[n - 6 + i] = 'a' + rnd() % 26; return t; }

static ssize_t sim_write(int fd, const void* b, size_t n, size_t pos, int use_pos)
{
	fd_t* f0 = fd_at(fd); fault_t* f; ssize_t r;
	if (!f0) { errno = EBADF; return -1; }
	ENTER(K_WRITE);
	f0 = fd_at(fd);
	if (!f0) { errno = EBADF; return -1; }
	if ((f0->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
	if (f0->flags & O_APPEND) f0->pos = ino_at(f0->ino)->len;
	size_t p = use_pos ? pos : f0->pos, m = n;
	f = event(K_WRITE);
	if (f) {
		size_t part = n * (size_t)((f->param >> 16) & 0xff) / 256;
		if (part == 0 || last_c != f->nth) { r = fail(f, EIO); goto out; }
		m = part; /* a short transfer; the error hits the next attempt */
		if (f->count == 1) f->count = 2;
	} else if (knob_shortmax && m > (size_t)knob_shortmax && ++short_n < 800) m = 1 + rnd() % knob_shortmax;
	if (knob_split && m > 1 && cur && cur->threaded) { /* let others see (and crashes hit) a half-done transfer */
		size_t h = m / 2;
		r = ino_write(f0->ino, p, b, h);
		if (r < 0) { errno = (int)-r; r = -1; goto out; }
		if (!use_pos) f0->pos += r;
		if ((size_t)r < h) goto out;
		ev(K_WRITE, hbytes(b, h) ^ p, r);
		park(K_WRITE, 0);
		ssize_t r2 = ino_write(f0->ino, p + h, (const uint8_t*)b + h, m - h);
		if (r2 > 0) { if (!use_pos) f0->pos += r2; r += r2; }
		goto out;
	}
	r = ino_write(f0->ino, p, b, m);
	if (r < 0) { errno = (int)-r; r = -1; } else if (!use_pos) f0->pos += r;
out:
	tl("[%d] write fd %d n %zu at %zu -> %zd", cur_id(), fd, n, p, r); ev(K_WRITE, hbytes(b, n) ^ p, r);
	return r;
}
ssize_t __wrap_write(int fd, const void* b, size_t n) { if (!S_on || fd < FD_BASE) return __real_write(fd, b, n); return sim_write(fd, b, n, 0, 0); }
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o) { return sim_write(fd, b, n, (size_t)o, 1); }
ssize_t __wrap_pwrite64(int fd, const void* b, size_t n, off_t o) { return sim_write(fd, b, n, (size_t)o, 1); }
ssize_t __wrap_writev(int fd, const struct iovec* v, int c) { ssize_t t = 0; int i; for (i = 0; i < c; i++) { ssize_t r = sim_write(fd, v[i].iov_base, v[i].iov_len, 0, 0); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }

static ssize_t sim_read(int fd, void* b, size_t n, size_t pos, int use_pos)
{
	fd_t* f0 = fd_at(fd);
	if (!f0) { errno = EBADF; return -1; }
	ENTER(K_READ);
	f0 = fd_at(fd); if (!f0) { errno = EBADF; return -1; }
	fault_t* f = event(K_READ); ssize_t r;
	inode_t* in = ino_at(f0->ino); size_t p = use_pos ? pos : f0->pos;
	if (f) r = fail(f, EIO);
	else if (in->isdir) { errno = EISDIR; r = -1; }
	else {
		size_t a = p < in->len ? in->len - p : 0; if (a > n) a = n;
		if (knob_shortmax && a > (size_t)knob_shortmax && ++short_n < 800) a = 1 + rnd() % knob_shortmax;
		if (a) memcpy(b, in->data + p, a);
		if (!use_pos) f0->pos += a;
		r = (ssize_t)a;
	}
	tl("[%d] read fd %d n %zu at %zu -> %zd", cur_id(), fd, n, p, r); ev(K_READ, n ^ p, r);
	return r;
}
ssize_t __wrap_read(int fd, void* b, size_t n) { if (!S_on || fd < FD_BASE) return __real_read(fd, b, n); return sim_read(fd, b, n, 0, 0); }
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o) { return sim_read(fd, b, n, (size_t)o, 1); }
ssize_t __wrap_pread64(int fd, void* b, size_t n, off_t o) { return sim_read(fd, b, n, (size_t)o, 1); }
static off_t sim_seek(int fd, off_t o, int w)
{
	fd_t* f0 = fd_at(fd);
	if (!f0) { errno = EBADF; return -1; }
	fault_t* f = event(K_SEEK);
	if (f) return fail(f, EIO);
	int64_t base = w == SEEK_SET ? 0 : w == SEEK_CUR ? (int64_t)f0->pos : (int64_t)ino_at(f0->ino)->len;
	if (base + o < 0) { errno = EINVAL; return -1; }
	f0->pos = (size_t)(base + o);
	return (off_t)f0->pos;
}
off_t __wrap_lseek(int fd, off_t o, int w) { return sim_seek(fd, o, w); }
off_t __wrap_lseek64(int fd, off_t o, int w) { return sim_seek(fd, o, w); }

static int sim_fsync(int fd, const char* nm)
{
	fd_t* f0 = fd_at(fd);
	ENTER(K_FSYNC);
	f0 = fd_at(fd);
	fault_t* f = event(K_FSYNC); int r = 0;
	if (!f0) { errno = EBADF; r = -1; }
	else if (f) r = fail(f, EIO);
	else if (ino_at(f0->ino)->isdir) dur_journal = n_journal;
	else ino_sync(f0->ino);
	tl("[%d] %s fd %d -> %d", cur_id(), nm, fd, r); ev(K_FSYNC, fd, r);
	return r;
}
int __wrap_fsync(int fd) { if (!S_on || fd < FD_BASE) return S_on ? (errno = EBADF, -1) : __real_fsync(fd); return sim_fsync(fd, "fsync"); }
int __wrap_fdatasync(int fd) { return sim_fsync(fd, "fdatasync"); }
int __wrap_syncfs(int fd) { (void)fd; int i; for (i = 0; i < n_inodes; i++) if (inodes[i]->dirty) ino_sync(i); dur_journal = n_journal; return 0; }
void __wrap_sync(void) { __wrap_syncfs(0); }
int __wrap_msync(void* a, size_t n, int fl) { (void)a; (void)n; (void)fl; return 0; }
int __wrap_sync_file_range(int fd, off_t o, off_t n, unsigned fl) { (void)fd; (void)o; (void)n; (void)fl; return 0; }

static int sim_chmod(int ino, unsigned m, int ok)
{
	ENTER(K_FCHMOD);
	fault_t* f = event(K_FCHMOD); int r = 0;
	if (!ok) { errno = EBADF; r = -1; }
	else if (f) r = fail(f, EPERM);
	else { ino_at(ino)->mode = m & 07777; fs_gen++; }
	tl("[%d] chmod inode %d mode %o -> %d", cur_id(), ino, m, r); ev(K_FCHMOD, m, r);
	return r;
}
int __wrap_fchmod(int fd, mode_t m) { if (!S_on) return __real_fchmod(fd, m); fd_t* f = fd_at(fd); return sim_chmod(f ? f->ino : 0, m, f != 0); }
int __wrap_chmod(const char* p0, mode_t m) { char p[256]; norm(p0, p); name_t* n = find_name(p); if (!n) { errno = ENOENT; return -1; } return sim_chmod(n->ino, m, 1); }

static int sim_close(int fd)
{
	ENTER(K_CLOSE);
	fault_t* f = event(K_CLOSE); int r;
	if (!fd_at(fd)) { errno = EBADF; r = -1; anomaly_set("close of a descriptor that is not open (%d)", fd); }
	else { r = fd_release(fd); if (f) r = fail(f, EIO); }
	tl("[%d] close fd %d -> %d", cur_id(), fd, r); ev(K_CLOSE, fd, r);
	return r;
}
int __wrap_close(int fd) { if (!S_on || (fd >= 0 && fd < FD_BASE)) return __real_close(fd); return sim_close(fd); }
int __wrap_dup(int fd) { fd_t* f = fd_at(fd); if (!f) { errno = EBADF; return -1; } int n = new_fd(f->ino, f->flags); if (n >= 0) fds[n - FD_BASE].pos = f->pos; return n; }

static int sim_rename(const char* a, const char* b)
{
	ENTER(K_RENAME);
	fault_t* f = event(K_RENAME);
	int r = f ? fail(f, EIO) : do_rename(a, b);
	tl("[%d] rename %s %s -> %d", cur_id(), a, b, r); ev(K_RENAME, hstr(a) * 31 + hstr(b), r);
	return r;
}
int __wrap_rename(const char* a, const char* b) { if (!S_on) return __real_rename(a, b); return sim_rename(a, b); }
int __wrap_renameat(int d, const char* a, int e, const char* b) { (void)d; (void)e; return sim_rename(a, b); }
int __wrap_renameat2(int d, const char* a, int e, const char* b, unsigned fl) { (void)d; (void)e; if (fl) { errno = EINVAL; return -1; } return sim_rename(a, b); }
static int sim_unlink(const char* a)
{
	ENTER(K_UNLINK);
	fault_t* f = event(K_UNLINK);
	int r = f ? fail(f, EIO) : do_unlink(a);
	tl("[%d] unlink %s -> %d", cur_id(), a, r); ev(K_UNLINK, hstr(a), r);
	return r;
}
int __wrap_unlink(const char* a) { if (!S_on) return __real_unlink(a); return sim_unlink(a); }
int __wrap_unlinkat(int d, const char* a, int fl) { (void)d; (void)fl; return sim_unlink(a); }
int __wrap_remove(const char* a) { return sim_unlink(a); }
static int sim_link(const char* a0, const char* b0)
{
	char a[256], b[256]; norm(a0, a); norm(b0, b);
	ENTER(K_LINK);
	fault_t* f = event(K_LINK); int r = 0;
	name_t* na = find_name(a);
	if (f) r = fail(f, EIO);
	else if (!na) { errno = ENOENT; r = -1; }
	else if (find_name(b)) { errno = EEXIST; r = -1; }
	else { int ino = na->ino; link_name(b, ino); jadd(1, b, 0, ino); }
	ev(K_LINK, hstr(a) * 31 + hstr(b), r);
	return r;
}
int __wrap_link(const char* a, const char* b) { return sim_link(a, b); }

static int sim_trunc(int ino, size_t n, int ok)
{
	ENTER(K_TRUNC);
	fault_t* f = event(K_TRUNC); int r = 0;
	if (!ok) { errno = EBADF; r = -1; } else if (f) r = fail(f, EIO); else ino_trunc(ino, n);
	tl("[%d] truncate inode %d to %zu -> %d", cur_id(), ino, n, r); ev(K_TRUNC, n, r);
	return r;
}
int __wrap_ftruncate(int fd, off_t n) { fd_t* f = fd_at(fd); return sim_trunc(f ? f->ino : 0, (size_t)n, f != 0); }
int __wrap_ftruncate64(int fd, off_t n) { return __wrap_ftruncate(fd, n); }
int __wrap_truncate(const char* p0, off_t n) { char p[256]; norm(p0, p); name_t* x = find_name(p); if (!x) { errno = ENOENT; return -1; } return sim_trunc(x->ino, (size_t)n, 1); }
int __wrap_posix_fallocate(int fd, off_t o, off_t n) { fd_t* f = fd_at(fd); if (!f) return EBADF; if ((size_t)(o + n) > ino_at(f->ino)->len) ino_trunc(f->ino, (size_t)(o + n)); return 0; }

static int sim_stat_ino(int ino, struct stat* s)
{
	inode_t* in = ino_at(ino);
	memset(s, 0, sizeof(*s));
	s->st_size = (off_t)in->len; s->st_mode = (in->isdir ? S_IFDIR : S_IFREG) | in->mode; s->st_ino = (ino_t)(ino_base + ino); s->st_nlink = in->nlink; s->st_blksize = 4096; s->st_blocks = (in->len + 511) / 512;
	s->st_uid = getuid(); s->st_gid = getgid(); s->st_dev = 77;
	return 0;
}
static int sim_stat_any(int ino, int err, struct stat* s)
{
	fault_t* f = event(K_FSTAT); int r;
	if (err) { errno = err; r = -1; } else if (f) r = fail(f, EIO); else r = sim_stat_ino(ino, s);
	tl("[%d] stat inode %d -> %d", cur_id(), ino, r); ev(K_FSTAT, ino, r);
	return r;
}
int __wrap_fstat(int fd, struct stat* s) { if (!S_on) return __real_fstat(fd, s); ENTER(K_FSTAT); fd_t* f = fd_at(fd); return sim_stat_any(f ? f->ino : 0, f ? 0 : EBADF, s); }
int __wrap_fstat64(int fd, struct stat* s) { return __wrap_fstat(fd, s); }
int __wrap_stat(const char* p0, struct stat* s) { if (!S_on) return __real_stat(p0, s); ENTER(K_FSTAT); char p[256]; norm(p0, p); name_t* n = find_name(p); return sim_stat_any(n ? n->ino : 0, n ? 0 : ENOENT, s); }
int __wrap_stat64(const char* p0, struct stat* s) { return __wrap_stat(p0, s); }
int __wrap_lstat(const char* p0, struct stat* s) { return __wrap_stat(p0, s); }
int __wrap_lstat64(const char* p0, struct stat* s) { return __wrap_stat(p0, s); }
int __wrap_access(const char* p0, int m)
{
	ENTER(K_FSTAT); char p[256]; norm(p0, p); name_t* n = find_name(p);
	if (!n) { errno = ENOENT; return -1; }
	/* 1: an ordinary user's processes, 0: the super-user's, who may write to read-only files */
	if (knob_user && (((m & W_OK) && !(ino_at(n->ino)->mode & 0200)) || ((m & R_OK) && !(ino_at(n->ino)->mode & 0400)))) { errno = EACCES; return -1; }
	return 0;
}

/* stdio over cookies */
static ssize_t ck_write(void* c, const char* b, size_t n)
{
	size_t t = 0; int fd = (int)(intptr_t)c;
	while (t < n) { ssize_t r = sim_write(fd, b + t, n - t, 0, 0); if (r < 0) break; if (r == 0) break; t += r; } /* as glibc's file write */
	return (ssize_t)t;
}
static ssize_t ck_read(void* c, char* b, size_t n) { return sim_read((int)(intptr_t)c, b, n, 0, 0); }
static int ck_seek(void* c, off64_t* o, int w) { off_t r = sim_seek((int)(intptr_t)c, (off_t)*o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void* c)
{
	int fd = (int)(intptr_t)c, i, r = sim_close(fd);
	for (i = 0; i < MAX_FDS; i++) if (files[i].f && files[i].fd == fd) { files[i].f = 0; break; }
	return r;
}
static FILE* attach(int fd, const char* mode)
{
	cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
	int i;
	for (i = 0; i < MAX_FDS; i++) if (!files[i].f) break;
	if (i == MAX_FDS) { errno = EMFILE; return 0; }
	FILE* f = fopencookie((void*)(intptr_t)fd, mode, io);
	if (!f) return 0;
	__real_free(files[i].vbuf); files[i].vbuf = 0;
	if (knob_bufsize > 0) { files[i].vbuf = (char*)__real_malloc((size_t)knob_bufsize); memset(files[i].vbuf, 0xa5, (size_t)knob_bufsize); setvbuf(f, files[i].vbuf, _IOFBF, (size_t)knob_bufsize); }
	else if (knob_bufsize < 0) setvbuf(f, 0, _IONBF, 0);
	files[i].f = f; files[i].fd = fd;
	return f;
}
FILE* __wrap_fopen(const char* p, const char* mode)
{
	if (!S_on) return __real_fopen(p, mode);
	ENTER(K_FOPEN);
	fault_t* f = event(K_FOPEN); FILE* r = 0;
	int fl = mode[0] == 'r' ? O_RDONLY : mode[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
	if (strchr(mode, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR;
	if (strchr(mode, 'x')) fl |= O_EXCL;
	if (f) fail(f, EMFILE);
	else { int fd = do_open(p, fl, 0666); if (fd >= 0) { r = attach(fd, mode); if (!r) fd_release(fd); } }
	tl("[%d] fopen %s %s -> %s", cur_id(), p, mode, r ? "ok" : "fail"); ev(K_FOPEN, hstr(p), r != 0);
	return r;
}
FILE* __wrap_fopen64(const char* p, const char* m) { return __wrap_fopen(p, m); }
FILE* __wrap_fdopen(int fd, const char* mode)
{
	if (!S_on || (fd >= 0 && fd < FD_BASE)) return __real_fdopen(fd, mode);
	ENTER(K_FDOPEN);
	fault_t* f = event(K_FDOPEN); FILE* r = 0;
	if (!fd_at(fd)) errno = EBADF; else if (f) fail(f, ENOMEM); else r = attach(fd, mode);
	tl("[%d] fdopen %d -> %s", cur_id(), fd, r ? "ok" : "fail"); ev(K_FDOPEN, fd, r != 0);
	return r;
}
int __wrap_fileno(FILE* f)
{
	int i;
	if (S_on) for (i = 0; i < MAX_FDS; i++) if (files[i].f == f && f) return files[i].fd;
	return __real_fileno(f);
}
int __wrap_fileno_unlocked(FILE* f) { return __wrap_fileno(f); }

void* __wrap_mmap(void* a, size_t n, int prot, int flags, int fd, off_t off)
{
	if (!S_on) return __real_mmap(a, n, prot, flags, fd, off);
	if (flags & MAP_ANONYMOUS) { void* p = __wrap_calloc(1, n); return p ? p : MAP_FAILED; }
	ENTER(K_MMAP);
	fault_t* f = event(K_MMAP); fd_t* f0 = fd_at(fd); int i; void* r = MAP_FAILED;
	if (!f0) errno = EBADF;
	else if (f) fail(f, ENOMEM);
	else if (n == 0 || (off & 4095)) errno = EINVAL;
	else if (ino_at(f0->ino)->isdir) errno = ENODEV;
	else {
		for (i = 0; i < MAX_MAPS; i++) if (!maps[i].used) break;
		if (i == MAX_MAPS || n > HUGE_ALLOC) errno = ENOMEM;
		else {
			inode_t* in = ino_at(f0->ino);
			size_t avail = in->len > (size_t)off ? in->len - off : 0, lim = n;
			/* bytes beyond the last page of the file would raise SIGBUS: map only what exists */
			size_t pg = (avail + 4095) & ~(size_t)4095;
			if (lim > pg) lim = pg ? pg : 1;
			maps[i].ptr = (uint8_t*)__real_malloc(lim); memset(maps[i].ptr, 0, lim);
			if (avail) memcpy(maps[i].ptr, in->data + off, avail < lim ? avail : lim);
			maps[i].used = 1; maps[i].ino = f0->ino; maps[i].proc = cur_proc(); maps[i].off = (size_t)off; maps[i].len = lim; maps[i].prot = prot;
			if (flags & MAP_PRIVATE) maps[i].prot |= 0x100;
			in->maps++;
			r = maps[i].ptr;
		}
	}
	tl("[%d] mmap fd %d n %zu -> %s", cur_id(), fd, n, r == MAP_FAILED ? "fail" : "ok"); ev(K_MMAP, n, r != MAP_FAILED);
	return r;
}
void* __wrap_mmap64(void* a, size_t n, int p, int f, int fd, off_t o) { return __wrap_mmap(a, n, p, f, fd, o); }
static int map_intact(map_t* m)
{
	inode_t* in = ino_at(m->ino);
	if (m->prot & (PROT_WRITE | 0x100)) return 1;
	size_t n = in->len > m->off ? in->len - m->off : 0; if (n > m->len) n = m->len;
	return memcmp(m->ptr, in->data + m->off, n) == 0;
}
int __wrap_munmap(void* p, size_t n)
{
	if (!S_on) return __real_munmap(p, n);
	ENTER(K_MUNMAP);
	seen[K_MUNMAP]++; if (cur) cur->counts[K_MUNMAP]++;
	int i, r = -1;
	for (i = 0; i < MAX_MAPS; i++) if (maps[i].used && maps[i].ptr == p) break;
	if (i == MAX_MAPS) { errno = EINVAL; if (p) anomaly_set("munmap of an address that is not mapped"); }
	else {
		if (((n + 4095) & ~(size_t)4095) != ((maps[i].len + 4095) & ~(size_t)4095)) anomaly_set("munmap with the wrong length");
		if (!map_intact(&maps[i])) anomaly_set("a read-only mapping was written to (would be SIGSEGV)");
		int ino = maps[i].ino;
		maps[i].used = 0; inodes[ino]->maps--; __real_free(maps[i].ptr); ino_unref(ino); r = 0;
	}
	tl("[%d] munmap n %zu -> %d", cur_id(), n, r); ev(K_MUNMAP, n, r);
	return r;
}
int __wrap_madvise(void* p, size_t n, int a) { (void)p; (void)n; (void)a; return 0; }

/* process crash: descriptors and mappings of the process vanish, stdio buffers are lost */
static void proc_crash(int proc)
{
	int i;
	for (i = 0; i < n_actors; i++) if (actors[i].proc == proc && actors[i].state != A_DONE) actors[i].state = A_KILLED;
	for (i = 0; i < MAX_FDS; i++) if (fds[i].used && fds[i].proc == proc) {
		int j; for (j = 0; j < MAX_FDS; j++) if (files[j].f && files[j].fd == FD_BASE + i) files[j].f = 0;
		fd_release(FD_BASE + i);
	}
	for (i = 0; i < MAX_MAPS; i++) if (maps[i].used && maps[i].proc == proc) { maps[i].used = 0; inodes[maps[i].ino]->maps--; ino_unref(maps[i].ino); }
	proc_dead[proc] = 1; vgil_owner[proc] = -1; n_crash++;
	tl("crash of process %d", proc);
	trace_h = hmix(trace_h, 0xdead + proc);
}

/* power loss: everything un-synced may be lost, torn or zeroed; a prefix of the directory operations survives */
static void power_loss(uint64_t seed, int bias)
{
	int i, j; uint64_t save = S_rng; S_rng = seed;
	for (i = 0; i < MAX_PROCS; i++) { int any = 0; for (j = 0; j < n_actors; j++) if (actors[j].proc == i && actors[j].state != A_DONE) any = 1; if (any) proc_crash(i); }
	for (i = 0; i < MAX_FDS; i++) if (fds[i].used) { for (j = 0; j < MAX_FDS; j++) if (files[j].f && files[j].fd == FD_BASE + i) files[j].f = 0; fd_release(FD_BASE + i); }
	for (i = 0; i < MAX_MAPS; i++) if (maps[i].used) { maps[i].used = 0; inodes[maps[i].ino]->maps--; }
	/* namespace */
	int keep = dur_journal + (n_journal > dur_journal ? (int)(rnd() % (uint64_t)(n_journal - dur_journal + 1)) : 0);
	if (bias == 1) keep = n_journal;
	if (bias == 2) keep = dur_journal;
	name_t* ns = (name_t*)__real_calloc(MAX_NAMES, sizeof(name_t)); int n = n_dnames;
	memcpy(ns, dnames, sizeof(name_t) * (size_t)n_dnames);
	for (i = 0; i < keep; i++) {
		jrnl_t* q = &journal[i]; int k, dst = -1;
		const char* tgt = q->op == 3 ? q->b : q->a;
		for (k = 0; k < n; k++) if (ns[k].used && (q->op == 3 || q->op == 2) && !strcmp(ns[k].path, q->a)) { ns[k].used = 0; }
		if (q->op == 2) continue;
		for (k = 0; k < n; k++) if (ns[k].used && !strcmp(ns[k].path, tgt)) { dst = k; break; }
		if (dst < 0) { for (k = 0; k < n; k++) if (!ns[k].used) { dst = k; break; } if (dst < 0) dst = n++; }
		ns[dst].used = 1; snprintf(ns[dst].path, 256, "%s", tgt); ns[dst].ino = q->ino;
	}
	memcpy(names, ns, sizeof(name_t) * MAX_NAMES); n_names = n; __real_free(ns);
	/* data */
	for (i = 0; i < n_inodes; i++) {
		inode_t* in = inodes[i]; in->opens = 0; in->maps = 0; in->nlink = 0;
		if (!in->dirty || in->isdir) continue;
		size_t nl, b; int c = (int)(rnd() % 4);
		if (c == 0) nl = in->dlen; else if (c == 1) nl = in->len; else nl = in->n_marks ? in->marks[rnd() % (uint64_t)in->n_marks] : in->len;
		uint8_t* d = (uint8_t*)__real_calloc(1, nl + 1);
		int style = (int)(rnd() % 3); size_t blk = style == 0 ? 512 : style == 1 ? 4096 : 64;
		int how = (int)(rnd() % 4); /* 0 all lost, 1 all kept, 2,3 mixed */
		for (b = 0; b < nl; b += blk) {
			size_t m = nl - b < blk ? nl - b : blk; int kept = how == 1 || (how >= 2 && (rnd() & 1)); size_t k;
			for (k = 0; k < m; k++) {
				size_t at = b + k; uint8_t v = 0;
				if (kept && at < in->len) v = in->data[at]; else if (at < in->dlen) v = in->dur[at];
				d[at] = v;
			}
		}
		__real_free(in->data); in->data = d; in->cap = nl + 1; in->len = nl;
		ino_sync(i);
	}
	for (i = 0; i < n_names; i++) if (names[i].used) inodes[names[i].ino]->nlink++;
	memcpy(dnames, names, sizeof(name_t) * MAX_NAMES); n_dnames = n_names; n_journal = dur_journal = 0;
	fs_used = 0; for (i = 0; i < n_inodes; i++) if (inodes[i]->nlink) fs_used += inodes[i]->len;
	fs_gen++; n_power++;
	S_rng = save;
	tl("power loss: kept %d directory operations", keep);
	trace_h = hmix(trace_h, 0x9000 + keep);
}

/* ------------------------------------------------------------------ Python interface */

static PyObject* s_reset(PyObject* self, PyObject* args, PyObject* kw)
{
	bt = getenv("SIM_BT") != 0;
	static char* kws[] = { "seed", "bufsize", "split", "fill", "shortmax", "capacity", "tlog", "user", NULL };
	unsigned long long seed = 1; unsigned long long cap = 0; int bs = 0, sp = 0, fl = 7, sm = 0, tg = 1, us = 0, i;
	if (!PyArg_ParseTupleAndKeywords(args, kw, "|KiiiiKii", kws, &seed, &bs, &sp, &fl, &sm, &cap, &tg, &us)) return 0;
	py_install();
	S_rng = seed; knob_bufsize = bs; knob_split = sp; knob_fill = fl; knob_shortmax = sm; knob_user = us; short_n = 0; fs_capacity = cap; tlog_on = tg;
	if (!names) {
		names = __real_calloc(MAX_NAMES, sizeof(name_t)); dnames = __real_calloc(MAX_NAMES, sizeof(name_t));
		journal = __real_calloc(MAX_JOURNAL, sizeof(jrnl_t)); tlog = __real_malloc(TLOG_CAP);
		sem_init(&main_wake, 0, 0);
	}
	for (i = 0; i < n_inodes; i++) { __real_free(inodes[i]->data); __real_free(inodes[i]->dur); __real_free(inodes[i]); }
	for (i = 0; i < MAX_MAPS; i++) maps[i].used = 0;
	n_inodes = 0; memset(names, 0, sizeof(name_t) * MAX_NAMES); memset(dnames, 0, sizeof(name_t) * MAX_NAMES);
	n_names = n_dnames = n_journal = dur_journal = 0; memset(fds, 0, sizeof(fds)); for (i = 0; i < MAX_FDS; i++) files[i].f = 0;
	n_faults = 0; memset(fired, 0, sizeof(fired)); memset(seen, 0, sizeof(seen)); n_power = n_crash = 0;
	n_actors = 0; memset(actors, 0, sizeof(actors)); cur = 0;
	for (i = 0; i < MAX_PROCS; i++) { vgil_owner[i] = -1; proc_dead[i] = 0; }
	trace_h = 0x1234; ev_seq = 0; tlog_len = 0; anomaly[0] = 0; fs_gen = 0; fs_used = 0; ino_base = 5000; la_peak = la_bytes; la_total = 0;
	int d = new_inode(0755, 1); link_name("/sim", d); d = new_inode(0755, 1); link_name("/sim/d", d); d = new_inode(0755, 1); link_name("/tmp", d);
	memcpy(dnames, names, sizeof(name_t) * MAX_NAMES); n_dnames = n_names;
	S_on = 1;
	Py_RETURN_NONE;
}
static PyObject* s_knobs(PyObject* self, PyObject* args, PyObject* kw)
{
	static char* kws[] = { "bufsize", "split", "fill", "shortmax", NULL };
	if (!PyArg_ParseTupleAndKeywords(args, kw, "|iiii", kws, &knob_bufsize, &knob_split, &knob_fill, &knob_shortmax)) return 0;
	Py_RETURN_NONE;
}
static PyObject* s_off(PyObject* self, PyObject* a) { S_on = 0; Py_RETURN_NONE; }

static PyObject* s_fs_write(PyObject* self, PyObject* args)
{
	const char* p0; Py_buffer b; char p[256]; int durable = 1;
	if (!PyArg_ParseTuple(args, "sy*|i", &p0, &b, &durable)) return 0;
	norm(p0, p);
	name_t* n = find_name(p); int ino;
	if (n) ino = n->ino; else { ino = new_inode(0644, 0); link_name(p, ino); jadd(1, p, 0, ino); }
	uint64_t c = fs_capacity; fs_capacity = 0; ino_trunc(ino, 0); ino_write(ino, 0, b.buf, (size_t)b.len); fs_capacity = c;
	if (durable) { ino_sync(ino); dur_journal = n_journal; }
	PyBuffer_Release(&b);
	return PyLong_FromLong(ino);
}
/* a fresh inode installed under the name at once (what another, correct program would do) */
static PyObject* s_fs_replace(PyObject* self, PyObject* args)
{
	const char* p0; Py_buffer b; char p[256]; int durable = 1;
	if (!PyArg_ParseTuple(args, "sy*|i", &p0, &b, &durable)) return 0;
	norm(p0, p);
	int ino = new_inode(0644, 0); uint64_t c = fs_capacity; fs_capacity = 0; ino_write(ino, 0, b.buf, (size_t)b.len); fs_capacity = c; ino_sync(ino);
	name_t* n = find_name(p);
	if (n) { int o = n->ino; n->used = 0; ino_at(o)->nlink--; ino_unref(o); }
	link_name(p, ino); jadd(1, p, 0, ino);
	if (durable) dur_journal = n_journal;
	PyBuffer_Release(&b);
	return PyLong_FromLong(ino);
}
static PyObject* s_fs_read(PyObject* self, PyObject* args)
{
	const char* p0; char p[256];
	if (!PyArg_ParseTuple(args, "s", &p0)) return 0;
	norm(p0, p);
	name_t* n = find_name(p);
	if (!n) Py_RETURN_NONE;
	inode_t* in = ino_at(n->ino);
	return PyBytes_FromStringAndSize((const char*)in->data, (Py_ssize_t)in->len);
}
static PyObject* s_fs_unlink(PyObject* self, PyObject* args) { const char* p; if (!PyArg_ParseTuple(args, "s", &p)) return 0; return PyBool_FromLong(do_unlink(p) == 0); }
static PyObject* s_fs_rename(PyObject* self, PyObject* args) { const char *p, *q; if (!PyArg_ParseTuple(args, "ss", &p, &q)) return 0; return PyBool_FromLong(do_rename(p, q) == 0); }
static PyObject* s_fs_mkdir(PyObject* self, PyObject* args) { const char* p0; char p[256]; if (!PyArg_ParseTuple(args, "s", &p0)) return 0; norm(p0, p); if (!find_name(p)) { int d = new_inode(0755, 1); link_name(p, d); jadd(1, p, 0, d); dur_journal = n_journal; } Py_RETURN_NONE; }
static PyObject* s_fs_list(PyObject* self, PyObject* a)
{
	PyObject* l = PyList_New(0); int i;
	for (i = 0; i < n_names; i++) if (names[i].used && !ino_at(names[i].ino)->isdir) {
		PyObject* t = Py_BuildValue("(siKi)", names[i].path, names[i].ino, (unsigned long long)ino_at(names[i].ino)->len, (int)ino_at(names[i].ino)->mode);
		PyList_Append(l, t); Py_DECREF(t);
	}
	PyList_Sort(l);
	return l;
}
static PyObject* s_fs_gen(PyObject* self, PyObject* a) { return PyLong_FromUnsignedLongLong(fs_gen); }
static PyObject* s_seq(PyObject* self, PyObject* a) { return PyLong_FromUnsignedLongLong(ev_seq); }
static PyObject* s_capacity(PyObject* self, PyObject* args) { unsigned long long c; if (!PyArg_ParseTuple(args, "K", &c)) return 0; fs_capacity = c ? fs_used + c : 0; Py_RETURN_NONE; }
static PyObject* s_power(PyObject* self, PyObject* args) { unsigned long long s; int bias = 0; if (!PyArg_ParseTuple(args, "K|i", &s, &bias)) return 0; power_loss(s, bias); Py_RETURN_NONE; }
static PyObject* s_crash(PyObject* self, PyObject* args) { int p; if (!PyArg_ParseTuple(args, "i", &p)) return 0; proc_crash(p); Py_RETURN_NONE; }

static PyObject* s_add_fault(PyObject* self, PyObject* args)
{
	int actor, op, count = 1; const char* kind; unsigned nth; long param = 0; int i;
	if (!PyArg_ParseTuple(args, "iisI|li", &actor, &op, &kind, &nth, &param, &count)) return 0;
	for (i = 0; i < K_N; i++) if (!strcmp(kind_name[i], kind)) break;
	if (i == K_N || n_faults >= MAX_FAULTS) { PyErr_SetString(PyExc_ValueError, "bad fault"); return 0; }
	fault_t f = { actor, op, i, count, nth, param, 0 };
	faults[n_faults++] = f;
	Py_RETURN_NONE;
}
static PyObject* s_clear_faults(PyObject* self, PyObject* a) { n_faults = 0; Py_RETURN_NONE; }
static PyObject* s_faults_fired(PyObject* self, PyObject* a) { PyObject* l = PyList_New(n_faults); int i; for (i = 0; i < n_faults; i++) PyList_SET_ITEM(l, i, PyLong_FromLong(faults[i].fired)); return l; }

/* actors */
static PyObject* s_actor_new(PyObject* self, PyObject* args)
{
	int proc, threaded = 1;
	if (!PyArg_ParseTuple(args, "i|i", &proc, &threaded)) return 0;
	if (n_actors >= MAX_ACTORS) { PyErr_SetString(PyExc_ValueError, "too many actors"); return 0; }
	actor_t* a = &actors[n_actors]; memset(a, 0, sizeof(*a));
	a->state = A_NEW; a->proc = proc; a->op = -1; a->threaded = threaded;
	sem_init(&a->wake, 0, 0);
	return PyLong_FromLong(n_actors++);
}
static PyObject* s_enter(PyObject* self, PyObject* args)
{
	int id; if (!PyArg_ParseTuple(args, "i", &id)) return 0;
	cur = &actors[id];
	if (cur->threaded) { cur->park_kind = K_OP; cur->wants_gil = 1; PyThreadState* ts = __real_PyEval_SaveThread(); real_park(cur); __real_PyEval_RestoreThread(ts); cur->wants_gil = 0; vgil_owner[cur->proc] = id; }
	else cur->state = A_RUNNING;
	Py_RETURN_NONE;
}
static PyObject* s_exit(PyObject* self, PyObject* a)
{
	if (cur) {
		actor_t* c = cur; c->state = A_DONE; if (vgil_owner[c->proc] == cur_id()) vgil_owner[c->proc] = -1;
		int th = c->threaded; cur = 0;
		if (th) sem_post(&main_wake);
	}
	Py_RETURN_NONE;
}
/* the main thread: wait until the thread just started has parked */
static PyObject* s_await(PyObject* self, PyObject* a) { Py_BEGIN_ALLOW_THREADS; while (sem_wait(&main_wake) != 0); Py_END_ALLOW_THREADS; Py_RETURN_NONE; }
static PyObject* s_resume(PyObject* self, PyObject* args)
{
	int id; if (!PyArg_ParseTuple(args, "i", &id)) return 0;
	actor_t* a = &actors[id];
	if (a->state != A_PARKED) { PyErr_SetString(PyExc_ValueError, "not parked"); return 0; }
	if (a->wants_gil) vgil_owner[a->proc] = id;
	PyThreadState* ts = __real_PyEval_SaveThread();
	sem_post(&a->wake);
	while (sem_wait(&main_wake) != 0);
	__real_PyEval_RestoreThread(ts);
	return PyLong_FromLong(a->state == A_DONE ? -1 : a->park_kind);
}
static PyObject* s_runnable(PyObject* self, PyObject* x)
{
	PyObject* l = PyList_New(0); int i;
	for (i = 0; i < n_actors; i++) {
		actor_t* a = &actors[i];
		if (a->state != A_PARKED) continue;
		if (a->wants_gil && vgil_owner[a->proc] != -1 && vgil_owner[a->proc] != i) continue;
		PyObject* o = PyLong_FromLong(i); PyList_Append(l, o); Py_DECREF(o);
	}
	return l;
}
static PyObject* s_state(PyObject* self, PyObject* args) { int i; if (!PyArg_ParseTuple(args, "i", &i)) return 0; actor_t* a = &actors[i]; return Py_BuildValue("(isil)", a->state, a->state == A_PARKED ? kind_name[a->park_kind] : "", a->op, a->steps); }
static PyObject* s_yield(PyObject* self, PyObject* args)
{
	/* a point where the interpreter may switch threads (or another process may run) */
	if (cur && cur->threaded && !cur->crit) {
		seen[K_USER]++; cur->counts[K_USER]++;
		vgil_owner[cur->proc] = -1;
		park(K_USER, 1);
		vgil_owner[cur->proc] = cur_id();
	}
	Py_RETURN_NONE;
}
static PyObject* s_set_crit(PyObject* self, PyObject* args) { int c; if (!PyArg_ParseTuple(args, "i", &c)) return 0; int o = 0; if (cur) { o = cur->crit; cur->crit = c; } return PyLong_FromLong(o); }
static PyObject* s_pause(PyObject* self, PyObject* a) { int o = cur ? cur->armed : 0; if (cur) cur->armed = 0; return PyLong_FromLong(o); }
static PyObject* s_unpause(PyObject* self, PyObject* args) { int o; if (!PyArg_ParseTuple(args, "i", &o)) return 0; if (cur) cur->armed = o; Py_RETURN_NONE; }

/* call(op, fn, args[, kwargs]) -> (0, result, counts) or (1, exception, counts): one operation of the case */
static PyObject* s_call(PyObject* self, PyObject* args)
{
	int op; PyObject *fn, *ar, *kw = 0; uint32_t saved[K_N]; int sop = -1, sarm = 0, i;
	if (!PyArg_ParseTuple(args, "iOO!|O", &op, &fn, &PyTuple_Type, &ar, &kw)) return 0;
	if (kw == Py_None) kw = 0;
	if (cur) {
		sarm = cur->armed; sop = cur->op; memcpy(saved, cur->counts, sizeof(saved));
		if (!sarm && cur->threaded && !cur->crit) { vgil_owner[cur->proc] = -1; park(K_OP, 1); vgil_owner[cur->proc] = cur_id(); }
		if (cur->crit == 2) cur->crit = 0;      /* the caller has had its scheduling point already */
		cur->op = op; memset(cur->counts, 0, sizeof(cur->counts)); cur->armed = 1;
	}
	tl("[%d] op %d", cur_id(), op);
	trace_h = hmix(trace_h, 0x0b00 + op);
	for (i = 0; i < n_faults; i++) if (faults[i].actor == cur_id() && faults[i].op == op) faults[i].used = faults[i].looked = 0;
	PyObject* r = PyObject_Call(fn, ar, kw);
	if (cur) cur->armed = 0;
	PyObject* exc = 0;
	long nf = 0;
	for (i = 0; i < n_faults; i++) if (faults[i].actor == cur_id() && faults[i].op == op) nf += faults[i].fired;
	/* the interpreter may lose the exception of a Python function when it can not allocate the traceback: no concern of the library */
	if (!r && nf && PyFunction_Check(fn) && !PyErr_Occurred()) PyErr_NoMemory();
	if (!r) { exc = PyErr_GetRaisedException(); if (!exc) { anomaly_set("an operation failed without setting an exception"); exc = Py_NewRef(Py_None); } else PyException_SetTraceback(exc, Py_None); }
	else if (PyErr_Occurred()) { PyErr_Clear(); anomaly_set("an operation returned a result with an exception set"); }
	PyObject* d = PyDict_New();
	if (cur) {
		for (i = 0; i < K_N; i++) if (cur->counts[i]) { PyObject* v = PyLong_FromLong(cur->counts[i]); PyDict_SetItemString(d, kind_name[i], v); Py_DECREF(v); }
		memcpy(cur->counts, saved, sizeof(saved)); cur->op = sop; cur->armed = sarm;
	}
	ev(K_OP, (uint64_t)op, r != 0);
	return Py_BuildValue("(iNNl)", r ? 0 : 1, r ? r : exc, d, nf);
}

static PyObject* s_live(PyObject* self, PyObject* a) { return Py_BuildValue("(nKl)", (Py_ssize_t)la_n, (unsigned long long)la_bytes, py_live); }
static PyObject* s_peak(PyObject* self, PyObject* a) { PyObject* r = Py_BuildValue("(KK)", (unsigned long long)la_peak, (unsigned long long)la_total); la_peak = la_bytes; la_total = 0; return r; }
static PyObject* s_live_list(PyObject* self, PyObject* args)
{
	unsigned long long since = 0; size_t i; PyObject* l = PyList_New(0);
	if (!PyArg_ParseTuple(args, "|K", &since)) return 0;
	for (i = 0; i < la_cap; i++) if (la[i].p && la[i].p != (void*)1 && la[i].seq > since) { PyObject* t = Py_BuildValue("(KnK)", (unsigned long long)la[i].seq, (Py_ssize_t)la[i].n, (unsigned long long)(uintptr_t)la[i].pc); PyList_Append(l, t); Py_DECREF(t); }
	return l;
}
static PyObject* s_laseq(PyObject* self, PyObject* a) { return PyLong_FromUnsignedLongLong(la_seq); }
static PyObject* s_open_handles(PyObject* self, PyObject* args)
{
	int i, proc = -1, a = 0, b = 0; if (!PyArg_ParseTuple(args, "|i", &proc)) return 0;
	for (i = 0; i < MAX_FDS; i++) if (fds[i].used && (proc < 0 || fds[i].proc == proc)) a++;
	for (i = 0; i < MAX_MAPS; i++) if (maps[i].used && (proc < 0 || maps[i].proc == proc)) b++;
	return Py_BuildValue("(ii)", a, b);
}
static PyObject* s_open_inos(PyObject* self, PyObject* args)
{
	int i; PyObject* l = PyList_New(0); PyObject* m = PyList_New(0);
	for (i = 0; i < MAX_FDS; i++) if (fds[i].used) { PyObject* o = PyLong_FromLong(fds[i].ino + ino_base); PyList_Append(l, o); Py_DECREF(o); }
	for (i = 0; i < MAX_MAPS; i++) if (maps[i].used) { PyObject* o = PyLong_FromLong(maps[i].ino + ino_base); PyList_Append(m, o); Py_DECREF(o); }
	PyList_Sort(l); PyList_Sort(m);
	return Py_BuildValue("(NN)", l, m);
}
static PyObject* s_maps_intact(PyObject* self, PyObject* a) { int i; for (i = 0; i < MAX_MAPS; i++) if (maps[i].used && !map_intact(&maps[i])) Py_RETURN_FALSE; Py_RETURN_TRUE; }
static PyObject* s_anomaly(PyObject* self, PyObject* a) { PyObject* r = PyUnicode_FromString(anomaly); anomaly[0] = 0; return r; }
static PyObject* s_trace(PyObject* self, PyObject* a) { return Py_BuildValue("(Kz#)", (unsigned long long)trace_h, tlog, (Py_ssize_t)tlog_len); }
static PyObject* s_note(PyObject* self, PyObject* args) { const char* s; Py_ssize_t n; if (!PyArg_ParseTuple(args, "s#", &s, &n)) return 0; trace_h = hmix(trace_h, hbytes(s, (size_t)n)); tl("  = %.300s", s); Py_RETURN_NONE; }
static PyObject* s_stats(PyObject* self, PyObject* a)
{
	PyObject* f = PyDict_New(); PyObject* s = PyDict_New(); int i;
	for (i = 0; i < K_N; i++) {
		if (fired[i]) { PyObject* v = PyLong_FromUnsignedLongLong(fired[i]); PyDict_SetItemString(f, kind_name[i], v); Py_DECREF(v); }
		if (seen[i]) { PyObject* v = PyLong_FromUnsignedLongLong(seen[i]); PyDict_SetItemString(s, kind_name[i], v); Py_DECREF(v); }
	}
	if (n_power) { PyObject* v = PyLong_FromUnsignedLongLong(n_power); PyDict_SetItemString(f, "power_loss", v); Py_DECREF(v); }
	if (n_crash) { PyObject* v = PyLong_FromUnsignedLongLong(n_crash); PyDict_SetItemString(f, "process_crash", v); Py_DECREF(v); }
	return Py_BuildValue("(NNK)", f, s, (unsigned long long)ev_seq);
}

/* ------------------------------------------------------------------ the C interface of the library, driven directly */

static PyObject* c_err(int ok, const char* error) { int a = cur ? cur->armed : 0; if (cur) cur->armed = 0; PyObject* r = Py_BuildValue("(iz)", ok, error); if (cur) cur->armed = a; return r; }

static PyObject* s_c_recreate(PyObject* self, PyObject* args)
{
	const char *a, *b, *error = 0; if (!PyArg_ParseTuple(args, "ss", &a, &b)) return 0;
	int ok = pointless_recreate_64(a, b, &error);
	return c_err(ok, ok ? 0 : (error ? error : ""));
}

/* c_build(program, dest_or_None): program is a list of tuples; handles are indices of earlier steps */
static PyObject* s_c_build(PyObject* self, PyObject* args)
{
	PyObject* prog; const char* dest; pointless_create_t c; const char* error = "create failure"; Py_ssize_t i; PyObject* ret = 0;
	int v32 = 0;
	if (!PyArg_ParseTuple(args, "O!z|i", &PyList_Type, &prog, &dest, &v32)) return 0;
	Py_ssize_t n = PyList_GET_SIZE(prog);
	int arm = cur ? cur->armed : 0;
	if (cur) cur->armed = 0;
	uint32_t* h = (uint32_t*)__real_calloc((size_t)n + 1, sizeof(uint32_t));
	void** tmp = (void**)__real_calloc((size_t)n + 1, sizeof(void*));
	int failed = 0;
	if (v32) pointless_create_begin_32(&c); else pointless_create_begin_64(&c);
	for (i = 0; i < n && !failed; i++) {
		PyObject* t = PyList_GET_ITEM(prog, i); const char* op = PyUnicode_AsUTF8(PyTuple_GET_ITEM(t, 0)); uint32_t r = 0;
		#define ARG(k) PyTuple_GET_ITEM(t, k)
		#define H(k) h[PyLong_AsLong(ARG(k))]
		#define RUN(x) do { if (cur) cur->armed = arm; r = (x); if (cur) cur->armed = 0; } while (0)
		Py_ssize_t na = PyTuple_GET_SIZE(t);
		if (!strcmp(op, "i32")) { int32_t v = (int32_t)PyLong_AsLong(ARG(1)); RUN(pointless_create_i32(&c, v)); }
		else if (!strcmp(op, "u32")) { uint32_t v = (uint32_t)PyLong_AsUnsignedLong(ARG(1)); RUN(pointless_create_u32(&c, v)); }
		else if (!strcmp(op, "float")) { float v = (float)PyFloat_AsDouble(ARG(1)); RUN(pointless_create_float(&c, v)); }
		else if (!strcmp(op, "null")) RUN(pointless_create_null(&c));
		else if (!strcmp(op, "bool")) { int v = PyObject_IsTrue(ARG(1)); if (v) RUN(pointless_create_boolean_true(&c)); else RUN(pointless_create_boolean_false(&c)); }
		else if (!strcmp(op, "str")) { uint8_t* s = (uint8_t*)PyBytes_AS_STRING(ARG(1)); RUN(pointless_create_string_ascii(&c, s)); }
		else if (!strcmp(op, "uasc")) { const char* e_ = 0; RUN(pointless_create_unicode_ascii(&c, PyBytes_AS_STRING(ARG(1)), &e_)); }
		else if (!strcmp(op, "bool_")) { int v = PyObject_IsTrue(ARG(1)); RUN(pointless_create_boolean(&c, v)); }
		else if (!strcmp(op, "ucs4") || !strcmp(op, "sucs4")) {
			PyObject* u = ARG(1); Py_ssize_t k, m = PyUnicode_GET_LENGTH(u); uint32_t* b = __real_malloc(sizeof(uint32_t) * (size_t)(m + 1));
			for (k = 0; k < m; k++) b[k] = PyUnicode_READ_CHAR(u, k); b[m] = 0; tmp[i] = b; if (*op == 's') RUN(pointless_create_string_ucs4(&c, b)); else RUN(pointless_create_unicode_ucs4(&c, b));
		}
		else if (!strcmp(op, "ucs2") || !strcmp(op, "sucs2")) {
			PyObject* u = ARG(1); Py_ssize_t k, m = PyUnicode_GET_LENGTH(u); uint16_t* b = __real_malloc(sizeof(uint16_t) * (size_t)(m + 1));
			for (k = 0; k < m; k++) b[k] = (uint16_t)PyUnicode_READ_CHAR(u, k); b[m] = 0; tmp[i] = b; if (*op == 's') RUN(pointless_create_string_ucs2(&c, b)); else RUN(pointless_create_unicode_ucs2(&c, b));
		}
		else if (!strcmp(op, "bits")) { uint32_t nb = (uint32_t)PyLong_AsLong(ARG(1)); void* b = PyBytes_AS_STRING(ARG(2)); int norm_ = PyObject_IsTrue(ARG(3)); if (norm_) RUN(pointless_create_bitvector(&c, b, nb)); else RUN(pointless_create_bitvector_no_normalize(&c, b, nb)); }
		else if (!strcmp(op, "vec")) RUN(pointless_create_vector_value(&c));
		else if (!strcmp(op, "set")) RUN(pointless_create_set(&c));
		else if (!strcmp(op, "map")) RUN(pointless_create_map(&c));
		else if (!strcmp(op, "push")) { RUN(pointless_create_vector_value_append(&c, H(1), H(2))); }
		else if (!strcmp(op, "vset")) { pointless_create_vector_value_set(&c, H(1), (uint32_t)PyLong_AsLong(ARG(2)), H(3)); }
		else if (!strcmp(op, "xfer") || !strcmp(op, "xferu")) { /* (op, vector, [handles or numbers]) */
			Py_ssize_t k, m = PyList_GET_SIZE(ARG(2)); uint32_t* b = (uint32_t*)pointless_malloc(sizeof(uint32_t) * (size_t)m);
			for (k = 0; k < m; k++) { unsigned long x = PyLong_AsUnsignedLong(PyList_GET_ITEM(ARG(2), k)); b[k] = op[4] ? (uint32_t)x : h[x]; }
			if (op[4]) RUN(pointless_create_vector_u32_transfer(&c, H(1), b, (uint32_t)m)); else RUN(pointless_create_vector_value_transfer(&c, H(1), b, (uint32_t)m));
			if (r == POINTLESS_CREATE_VALUE_FAIL) pointless_free(b);
		}
		else if (!strcmp(op, "vu32")) RUN(pointless_create_vector_u32(&c));
		else if (!strcmp(op, "add")) { RUN(pointless_create_set_add(&c, H(1), H(2))); }
		else if (!strcmp(op, "put")) { RUN(pointless_create_map_add(&c, H(1), H(2), H(3))); }
		else if (op[0] == 'v' && op[1] == '_') { /* ("v_i32", bytes, owner) */
			const char* ty = op + 2; uint8_t* b = (uint8_t*)PyBytes_AS_STRING(ARG(1)); Py_ssize_t nb = PyBytes_GET_SIZE(ARG(1)); int own = na > 2 && PyObject_IsTrue(ARG(2));
			#define PV(name, T) if (!strcmp(ty, #name)) { uint32_t m = (uint32_t)((size_t)nb / sizeof(T)), k; \
				T* cp = (T*)__real_malloc((size_t)nb + 8); memcpy(cp, b, (size_t)nb); tmp[i] = cp; \
				if (own) RUN(pointless_create_vector_##name##_owner(&c, cp, m)); \
				else { RUN(pointless_create_vector_##name(&c)); uint32_t vh = r; if (vh != POINTLESS_CREATE_VALUE_FAIL) for (k = 0; k < m; k++) { RUN(pointless_create_vector_##name##_append(&c, vh, cp[k])); if (r == POINTLESS_CREATE_VALUE_FAIL) break; } if (r != POINTLESS_CREATE_VALUE_FAIL) r = vh; } }
			PV(i8, int8_t) else PV(u8, uint8_t) else PV(i16, int16_t) else PV(u16, uint16_t) else PV(i32, int32_t) else PV(u32, uint32_t) else PV(i64, int64_t) else PV(u64, uint64_t) else PV(float, float)
		}
		else { PyErr_Format(PyExc_ValueError, "bad step %s", op); failed = 2; break; }
		if (r == POINTLESS_CREATE_VALUE_FAIL) failed = 1;
		h[i] = r;
	}
	if (failed) { pointless_create_end(&c); }
	else {
		pointless_create_set_root(&c, n ? h[0] : 0);
		error = 0;
		if (dest) {
			if (cur) cur->armed = arm;
			int ok = pointless_create_output_and_end_f(&c, dest, &error);
			if (cur) cur->armed = 0;
			ret = c_err(ok, ok ? 0 : (error ? error : ""));
		} else {
			void* buf = 0; size_t len = 0;
			if (cur) cur->armed = arm;
			int ok = pointless_create_output_and_end_b(&c, &buf, &len, &error);
			if (cur) cur->armed = 0;
			if (ok) { ret = Py_BuildValue("(iy#)", 1, (char*)buf, (Py_ssize_t)len); pointless_free(buf); }
			else ret = c_err(0, error ? error : "");
		}
	}
	for (i = 0; i < n; i++) __real_free(tmp[i]);
	__real_free(tmp); __real_free(h);
	if (cur) cur->armed = arm;
	if (failed == 2) return 0;
	if (!ret) ret = c_err(0, error);
	return ret;
}

/* c_walk(path_or_bytes, validate): open through the C interface and fold everything reachable */
typedef struct { pointless_t* p; uint64_t h; uint64_t budget; uint32_t depth; const char* err; } walk_t;
static void walk(walk_t* w, pointless_value_t* v, int depth)
{
	uint32_t i, n; pointless_value_t *k = 0, *vv = 0;
	if (w->budget == 0 || w->err) return;
	w->budget--;
	w->h = hmix(w->h, v->type);
	switch (v->type) {
		case POINTLESS_VECTOR_VALUE: case POINTLESS_VECTOR_VALUE_HASHABLE: {
			n = pointless_reader_vector_n_items(w->p, v); w->h = hmix(w->h, n);
			pointless_value_t* a = pointless_reader_vector_value(w->p, v);
			if (depth < 64) for (i = 0; i < n; i++) walk(w, &a[i], depth + 1);
			break; }
		case POINTLESS_VECTOR_I8: case POINTLESS_VECTOR_U8: case POINTLESS_VECTOR_I16: case POINTLESS_VECTOR_U16: case POINTLESS_VECTOR_I32:
		case POINTLESS_VECTOR_U32: case POINTLESS_VECTOR_I64: case POINTLESS_VECTOR_U64: case POINTLESS_VECTOR_FLOAT:
			n = pointless_reader_vector_n_items(w->p, v); w->h = hmix(w->h, n);
			for (i = 0; i < n; i++) { pointless_complete_value_t cv = pointless_reader_vector_value_case(w->p, v, i); w->h = hmix(w->h, cv.complete_data.data_u64); }
			break;
		case POINTLESS_UNICODE_: w->h = hmix(w->h, hbytes(pointless_reader_unicode_value_ucs4(w->p, v), 4 * (size_t)pointless_reader_unicode_len(w->p, v))); break;
		case POINTLESS_STRING_: w->h = hmix(w->h, hbytes(pointless_reader_string_value_ascii(w->p, v), pointless_reader_string_len(w->p, v))); break;
		case POINTLESS_BITVECTOR: case POINTLESS_BITVECTOR_0: case POINTLESS_BITVECTOR_1: case POINTLESS_BITVECTOR_01: case POINTLESS_BITVECTOR_10: case POINTLESS_BITVECTOR_PACKED:
			n = pointless_reader_bitvector_n_bits(w->p, v); w->h = hmix(w->h, n); if (n > 200000) n = 200000;
			for (i = 0; i < n; i++) w->h = hmix(w->h, pointless_reader_bitvector_is_set(w->p, v, i) != 0);
			break;
		case POINTLESS_SET_VALUE:
			i = 0; n = 0; if (depth >= 64) break;
			while (w->budget && pointless_reader_set_iter(w->p, v, &k, &i)) {
				pointless_value_t* kk = 0; const char* e = 0;
				n++; walk(w, k, depth + 1);
				pointless_reader_set_lookup(w->p, v, k, &kk, &e);
			}
			w->h = hmix(w->h, n); break;
		case POINTLESS_MAP_VALUE_VALUE:
			i = 0; n = 0; if (depth >= 64) break;
			while (w->budget && pointless_reader_map_iter(w->p, v, &k, &vv, &i)) {
				pointless_value_t *kk = 0, *xx = 0; const char* e = 0;
				n++; walk(w, k, depth + 1); walk(w, vv, depth + 1);
				pointless_reader_map_lookup(w->p, v, k, &kk, &xx, &e);
			}
			w->h = hmix(w->h, n); break;
		case POINTLESS_I32: case POINTLESS_U32: case POINTLESS_FLOAT: case POINTLESS_BOOLEAN: w->h = hmix(w->h, v->data.data_u32); break;
		default: break;
	}
}
static PyObject* s_c_walk(PyObject* self, PyObject* args)
{
	PyObject* src; const char* error = 0; pointless_t p; int ok;
	if (!PyArg_ParseTuple(args, "O", &src)) return 0;
	if (PyUnicode_Check(src)) ok = pointless_open_f(&p, PyUnicode_AsUTF8(src), &error);
	else ok = pointless_open_b(&p, PyBytes_AS_STRING(src), (size_t)PyBytes_GET_SIZE(src), &error);
	if (!ok) return c_err(0, error ? error : "");
	walk_t w = { &p, 1, 20000, 0, 0 };
	walk(&w, pointless_root(&p), 0);
	pointless_close(&p);
	int arm = cur ? cur->armed : 0; if (cur) cur->armed = 0;
	PyObject* r = Py_BuildValue("(iKi)", 1, (unsigned long long)w.h, w.budget > 0);
	if (cur) cur->armed = arm;
	return r;
}

/* c_dump(path_or_bytes, maxd, probes) -> (1, tree, first contradiction or None, [(keys, found flags)], [(a, b, same keys)]): everything the C
 * reader and its helpers deliver, in the canonical form the Python side uses; every access path is compared with plain traversal on the way */
typedef struct { pointless_t* p; long budget; int maxd; char err[300]; char path[400]; int pl; int evals; PyObject* probes; PyObject* cont; pointless_value_t conts[8]; int n_conts; } dump_t;
#define DERR(...) do { if (!d->err[0]) snprintf(d->err, sizeof d->err, __VA_ARGS__); } while (0)
#define SAMEV(a, b) ((a)->type == (b)->type && (a)->data.data_u32 == (b)->data.data_u32)
static PyObject* d_str(pointless_t* p, pointless_value_t* v)
{
	PyObject* r = v->type == POINTLESS_STRING_ ? PyUnicode_DecodeLatin1((char*)pointless_reader_string_value_ascii(p, v), pointless_reader_string_len(p, v), 0)
		: PyUnicode_FromKindAndData(PyUnicode_4BYTE_KIND, pointless_reader_unicode_value_ucs4(p, v), pointless_reader_unicode_len(p, v));
	if (!r) { PyErr_Clear(); r = PyUnicode_FromString("?"); }
	return r;
}
static void d_strkey(dump_t* d, pointless_value_t* m, pointless_value_t* k, pointless_value_t* v)
{
	pointless_t* p = d->p; pointless_value_t o; uint32_t u, n, i; int64_t s64; int isint = v->type == POINTLESS_I32 || v->type == POINTLESS_U32;
	uint32_t kl = k->type == POINTLESS_STRING_ ? pointless_reader_string_len(p, k) : pointless_reader_unicode_len(p, k);
	int64_t iv = v->type == POINTLESS_I32 ? (int64_t)v->data.data_i32 : (int64_t)v->data.data_u32;
	uint32_t* wide = (uint32_t*)__real_malloc(4 * ((size_t)kl + 2)); uint8_t* s8 = (uint8_t*)__real_malloc((size_t)kl + 8); int narrow = 1;
	for (i = 0; i < kl; i++) { wide[i] = k->type == POINTLESS_STRING_ ? pointless_reader_string_value_ascii(p, k)[i] : pointless_reader_unicode_value_ucs4(p, k)[i]; if (wide[i] > 255) narrow = 0; s8[i] = (uint8_t)wide[i]; }
	wide[kl] = 0; s8[kl] = 0;
	memset(&o, 0, sizeof o);
	if (!pointless_get_mapping_unicode_to_value(p, m, wide, &o) || !SAMEV(&o, v)) DERR("a string key is not found by its characters (pointless_get_mapping_unicode_to_value)");
	int w = pointless_get_mapping_unicode_to_u32(p, m, wide, &u);
	if (w != (isint && iv >= 0) || w && u != (uint32_t)iv) DERR("pointless_get_mapping_unicode_to_u32 of type %u gives %d", v->type, w);
	if (narrow) {
		char* c = (char*)s8;
		memset(&o, 0, sizeof o);
		if (!pointless_get_mapping_string_to_value(p, m, c, &o) || !SAMEV(&o, v)) DERR("a string key is not found by pointless_get_mapping_string_to_value");
		w = pointless_get_mapping_string_to_u32(p, m, c, &u); if (w != (isint && iv >= 0) || w && u != (uint32_t)iv) DERR("pointless_get_mapping_string_to_u32 of type %u gives %d", v->type, w);
		w = pointless_get_mapping_string_to_i64(p, m, c, &s64); if (w != isint || w && s64 != iv) DERR("pointless_get_mapping_string_to_i64 of type %u gives %d", v->type, w);
		w = pointless_get_mapping_string_to_set(p, m, c, &o); if (w != (v->type == POINTLESS_SET_VALUE) || w && !SAMEV(&o, v)) DERR("pointless_get_mapping_string_to_set of type %u gives %d", v->type, w);
		w = pointless_get_mapping_string_to_map(p, m, c, &o); if (w != (v->type == POINTLESS_MAP_VALUE_VALUE) || w && !SAMEV(&o, v)) DERR("pointless_get_mapping_string_to_map of type %u gives %d", v->type, w);
		#define DV(name, T, TYPE) { T* x = 0; n = 0; w = pointless_get_mapping_string_to_vector_##name(p, m, c, &x, &n); \
			if (w != (v->type == TYPE || v->type == POINTLESS_VECTOR_EMPTY)) DERR("pointless_get_mapping_string_to_vector_" #name " of type %u gives %d", v->type, w); \
			if (w && (n != pointless_reader_vector_n_items(p, v) || v->type == TYPE && x != pointless_reader_vector_##name(p, v))) DERR("pointless_get_mapping_string_to_vector_" #name " gives another vector"); }
		DV(i8, int8_t, POINTLESS_VECTOR_I8) DV(u8, uint8_t, POINTLESS_VECTOR_U8) DV(i16, int16_t, POINTLESS_VECTOR_I16) DV(u16, uint16_t, POINTLESS_VECTOR_U16)
		DV(i32, int32_t, POINTLESS_VECTOR_I32) DV(u32, uint32_t, POINTLESS_VECTOR_U32) DV(i64, int64_t, POINTLESS_VECTOR_I64) DV(u64, uint64_t, POINTLESS_VECTOR_U64) DV(float, float, POINTLESS_VECTOR_FLOAT)
		{ pointless_value_t* x = 0; n = 0; w = pointless_get_mapping_string_to_vector_value(p, m, c, &x, &n); int isv = v->type == POINTLESS_VECTOR_VALUE || v->type == POINTLESS_VECTOR_VALUE_HASHABLE;
			if (w != (isv || v->type == POINTLESS_VECTOR_EMPTY)) DERR("pointless_get_mapping_string_to_vector_value of type %u gives %d", v->type, w);
			if (w && (n != pointless_reader_vector_n_items(p, v) || isv && x != pointless_reader_vector_value(p, v))) DERR("pointless_get_mapping_string_to_vector_value gives another vector"); }
		{ int isv = v->type == POINTLESS_VECTOR_EMPTY || v->type == POINTLESS_VECTOR_FLOAT || pointless_is_vector_type(v->type) && v->type != POINTLESS_VECTOR_VALUE && v->type != POINTLESS_VECTOR_VALUE_HASHABLE;
			n = 0; w = pointless_get_mapping_string_to_vector(p, m, c, &o, &n);
			if (w != isv || w && (!SAMEV(&o, v) || n != pointless_reader_vector_n_items(p, v))) DERR("pointless_get_mapping_string_to_vector of type %u gives %d", v->type, w); }
		/* a counted key: what follows it does not matter */
		memcpy(s8 + kl, "@#", 3);
		memset(&o, 0, sizeof o);
		if (!pointless_get_mapping_string_n_to_value(p, m, c, kl, &o) || !SAMEV(&o, v)) DERR("a string key is not found by pointless_get_mapping_string_n_to_value");
	}
	__real_free(wide); __real_free(s8);
}
/* path expressions: the value at the end of d->path must be *v, in every way it can be asked for */
static void d_eval(dump_t* d, pointless_value_t* v)
{
	pointless_t* p = d->p; pointless_value_t* root = pointless_root(p); pointless_value_t o; uint32_t u, n; const char* e = d->path; int w;
	if (d->pl < 0 || d->evals >= 400) return;
	d->evals++;
	memset(&o, 0, sizeof o);
	if (!pointless_eval_get(p, root, &o, e) || !SAMEV(&o, v)) { DERR("the path %.200s does not lead to the value (type %u)", e, v->type); return; }
	memset(&o, 0, sizeof o);
	w = pointless_eval_get_as_map(p, root, &o, e); if (w != (v->type == POINTLESS_MAP_VALUE_VALUE) || w && !SAMEV(&o, v)) DERR("pointless_eval_get_as_map of type %u gives %d", v->type, w);
	w = pointless_eval_get_as_u32(p, root, &u, e); if (w != (v->type == POINTLESS_U32) || w && u != v->data.data_u32) DERR("pointless_eval_get_as_u32 of type %u gives %d", v->type, w);
	w = pointless_eval_get_as_boolean(p, root, &u, e); if (w != (v->type == POINTLESS_BOOLEAN) || w && !u != !v->data.data_u32) DERR("pointless_eval_get_as_boolean of type %u gives %d", v->type, w);
	{ uint8_t* s = 0; w = pointless_eval_get_as_string(p, root, &s, e); if (w != (v->type == POINTLESS_STRING_) || w && s != pointless_reader_string_value_ascii(p, v)) DERR("pointless_eval_get_as_string of type %u gives %d", v->type, w); }
	n = 0; w = pointless_eval_get_as_bitvector(p, root, &o, &n, e);
	if (w != !!pointless_is_bitvector_type(v->type) || w && (!SAMEV(&o, v) || n != pointless_reader_bitvector_n_bits(p, v))) DERR("pointless_eval_get_as_bitvector of type %u gives %d", v->type, w);
	#define EV(name, T, TYPE, get) { T* x = 0; n = 77; w = pointless_eval_get_as_vector_##name(p, root, &x, &n, e); int is = v->type == TYPE; \
		if (w != (is || v->type == POINTLESS_VECTOR_EMPTY)) DERR("pointless_eval_get_as_vector_" #name " of type %u gives %d", v->type, w); \
		if (w && (n != pointless_reader_vector_n_items(p, v) || is && x != pointless_reader_vector_##get(p, v))) DERR("pointless_eval_get_as_vector_" #name " gives another vector"); }
	EV(u8, uint8_t, POINTLESS_VECTOR_U8, u8) EV(u16, uint16_t, POINTLESS_VECTOR_U16, u16) EV(u32, uint32_t, POINTLESS_VECTOR_U32, u32) EV(u64, uint64_t, POINTLESS_VECTOR_U64, u64) EV(f, float, POINTLESS_VECTOR_FLOAT, float)
	{ pointless_value_t* x = 0; n = 77; w = pointless_eval_get_as_vector_value(p, root, &x, &n, e); int is = v->type == POINTLESS_VECTOR_VALUE || v->type == POINTLESS_VECTOR_VALUE_HASHABLE;
		if (w != (is || v->type == POINTLESS_VECTOR_EMPTY)) DERR("pointless_eval_get_as_vector_value of type %u gives %d", v->type, w);
		if (w && (n != pointless_reader_vector_n_items(p, v) || is && x != pointless_reader_vector_value(p, v))) DERR("pointless_eval_get_as_vector_value gives another vector"); }
}
/* one step from v with a placeholder */
static void d_step(dump_t* d, pointless_value_t* v, pointless_value_t* want, const char* s, int64_t i)
{
	pointless_t* p = d->p; pointless_value_t o; int w;
	if (d->evals >= 400) return;
	d->evals++;
	#define STEP(when, ...) if (when) { memset(&o, 0, sizeof o); w = pointless_eval_get(p, v, &o, __VA_ARGS__); if (w != !!want || w && !SAMEV(&o, want)) DERR("one step by %s gives %d (type %u)", #__VA_ARGS__, w, want ? want->type : 0); }
	if (s) { STEP(1, "[%s]", s) STEP(1, " [%s ] ", s) }
	else {
		char b[64];
		STEP(i >= 0 && i <= (int64_t)UINT32_MAX, "[%u32]", (uint32_t)i) STEP(i >= 0, "[%u64]", (uint64_t)i) STEP(i >= INT32_MIN && i <= INT32_MAX, "[%i32]", (int32_t)i) STEP(1, "[%i64]", i)
		snprintf(b, sizeof b, "[%lld]", (long long)i); STEP(1, b)
		if (i >= 0) { snprintf(b, sizeof b, "\t[+%lld ]\n", (long long)i); STEP(1, b) }
		snprintf(b, sizeof b, "[%lld", (long long)i); memset(&o, 0, sizeof o); if (pointless_eval_get(p, v, &o, b)) DERR("a path that is no path leads somewhere");
		snprintf(b, sizeof b, "[%lld]x", (long long)i); if (pointless_eval_get(p, v, &o, b)) DERR("a path that is no path leads somewhere");
	}
}
#define PATH(...) int pl_ = d->pl; if (d->pl >= 0) { int q_ = snprintf(d->path + d->pl, sizeof d->path - (size_t)d->pl, __VA_ARGS__); d->pl = q_ < 0 || d->pl + q_ >= (int)sizeof d->path ? -1 : d->pl + q_; }
#define UNPATH() do { d->pl = pl_; if (pl_ >= 0) d->path[pl_] = 0; } while (0)
static PyObject* d_float(const float* f)
{
	char h[16]; const unsigned char* b = (const unsigned char*)f;
	if (*f != *f) strcpy(h, "nan"); else snprintf(h, sizeof h, "%02x%02x%02x%02x", b[0], b[1], b[2], b[3]);
	return Py_BuildValue("(ss)", "f", h);
}
static PyObject* d_probe(dump_t* d, pointless_value_t* m)
{
	Py_ssize_t i, n = PyList_GET_SIZE(d->probes); PyObject* r = PyList_New(0);
	for (i = 0; i < n; i++) {
		PyObject* q = PyList_GET_ITEM(d->probes, i); int f = 0, g; pointless_value_t o;
		if (PyLong_Check(q)) {
			int64_t x = PyLong_AsLongLong(q);
			f = m->type == POINTLESS_SET_VALUE ? pointless_is_int_in_set(d->p, m, x) : pointless_is_int_in_map(d->p, m, x);
			if (m->type != POINTLESS_SET_VALUE) { g = pointless_get_mapping_int_to_value(d->p, m, x, &o); if (!!g != !!f) DERR("pointless_get_mapping_int_to_value and pointless_is_int_in_map disagree"); }
		} else {
			Py_ssize_t k, l = PyUnicode_GET_LENGTH(q); uint32_t* b = (uint32_t*)__real_malloc(4 * (size_t)(l + 1));
			for (k = 0; k < l; k++) b[k] = PyUnicode_READ_CHAR(q, k); b[l] = 0;
			if (m->type == POINTLESS_SET_VALUE) f = 2; else f = pointless_get_mapping_unicode_to_value(d->p, m, b, &o);
			if (m->type != POINTLESS_SET_VALUE && PyUnicode_KIND(q) == PyUnicode_1BYTE_KIND) {
				char* c = (char*)__real_malloc((size_t)l + 8); for (k = 0; k < l; k++) c[k] = (char)b[k]; c[l] = 0;
				if (!!pointless_get_mapping_string_to_value(d->p, m, c, &o) != !!f) DERR("looking up a string by its bytes and by its characters differs");
				memcpy(c + l, "@#", 3);
				if (!!pointless_get_mapping_string_n_to_value(d->p, m, c, (size_t)l, &o) != !!f) DERR("looking up a counted string differs");
				__real_free(c);
			}
			__real_free(b);
		}
		PyObject* fo = PyLong_FromLong(f == 2 ? 2 : !!f); PyList_Append(r, fo); Py_DECREF(fo);
	}
	return r;
}
static PyObject* dump(dump_t* d, pointless_value_t* v, int depth)
{
	uint32_t i, n; pointless_value_t *k = 0, *vv = 0; pointless_t* p = d->p;
	if (d->budget <= 0) return Py_BuildValue("(s)", "budget");
	d->budget--;
	d_eval(d, v);
	switch (v->type) {
		case POINTLESS_VECTOR_EMPTY:
			if (pointless_reader_vector_n_items(p, v)) DERR("an empty vector has items");
			return Py_BuildValue("(s)", depth >= d->maxd ? "cut" : "V");
		case POINTLESS_VECTOR_VALUE: case POINTLESS_VECTOR_VALUE_HASHABLE: {
			if (depth >= d->maxd) return Py_BuildValue("(s)", "cut");
			n = pointless_reader_vector_n_items(p, v); pointless_value_t* a = pointless_reader_vector_value(p, v);
			if (n > d->budget) n = (uint32_t)d->budget;
			PyObject* t = PyTuple_New((Py_ssize_t)n + 1); PyTuple_SET_ITEM(t, 0, PyUnicode_FromString("V"));
			for (i = 0; i < n; i++) {
				pointless_complete_value_t cv = pointless_reader_vector_value_case(p, v, i); pointless_value_t sv = pointless_value_from_complete(&cv);
				if (!SAMEV(&sv, &a[i])) DERR("item %u of a vector differs by access path", i);
				if (i < 2 || i == n - 1) d_step(d, v, &a[i], 0, i);
				PATH("[%u]", i);
				PyTuple_SET_ITEM(t, (Py_ssize_t)i + 1, dump(d, &a[i], depth + 1));
				UNPATH();
			}
			d_step(d, v, 0, 0, n); d_step(d, v, 0, 0, -1); d_step(d, v, 0, "0", 0);
			return t; }
		case POINTLESS_VECTOR_I8: case POINTLESS_VECTOR_U8: case POINTLESS_VECTOR_I16: case POINTLESS_VECTOR_U16: case POINTLESS_VECTOR_I32:
		case POINTLESS_VECTOR_U32: case POINTLESS_VECTOR_I64: case POINTLESS_VECTOR_U64: {
			n = pointless_reader_vector_n_items(p, v);
			if (n > d->budget) n = (uint32_t)d->budget;
			PyObject* t = PyTuple_New((Py_ssize_t)n + 1); PyTuple_SET_ITEM(t, 0, PyUnicode_FromString("V"));
			for (i = 0; i < n; i++) {
				pointless_complete_value_t cv = pointless_reader_vector_value_case(p, v, i); PyObject* x;
				if (cv.type == POINTLESS_U64 || cv.type == POINTLESS_U32) x = PyLong_FromUnsignedLongLong(pointless_complete_value_get_as_u64(cv.type, &cv.complete_data));
				else x = PyLong_FromLongLong(pointless_complete_value_get_as_i64(cv.type, &cv.complete_data));
				if (i < 2 || i == n - 1) {
					/* a path leads to a value of at most 32 bits, or nowhere */
					pointless_value_t sv; memset(&sv, 0, sizeof sv);
					if (cv.type == POINTLESS_U64 || cv.type == POINTLESS_I64) {
						int neg = cv.type == POINTLESS_I64 && (int64_t)cv.complete_data.data_i64 < 0; uint64_t q = cv.complete_data.data_u64;
						if (neg ? (int64_t)q >= INT32_MIN : q <= UINT32_MAX) { sv.type = neg ? POINTLESS_I32 : POINTLESS_U32; sv.data.data_u32 = (uint32_t)q; d_step(d, v, &sv, 0, i); }
						else d_step(d, v, 0, 0, i);
					} else { sv = pointless_value_from_complete(&cv); d_step(d, v, &sv, 0, i); }
				}
				PyTuple_SET_ITEM(t, (Py_ssize_t)i + 1, Py_BuildValue("(sN)", "i", x));
			}
			d_step(d, v, 0, 0, n);
			return t; }
		case POINTLESS_VECTOR_FLOAT: {
			n = pointless_reader_vector_n_items(p, v); float* a = pointless_reader_vector_float(p, v);
			if (n > d->budget) n = (uint32_t)d->budget;
			PyObject* t = PyTuple_New((Py_ssize_t)n + 1); PyTuple_SET_ITEM(t, 0, PyUnicode_FromString("V"));
			for (i = 0; i < n; i++) {
				pointless_complete_value_t cv = pointless_reader_vector_value_case(p, v, i); float f = pointless_complete_value_get_float(cv.type, &cv.complete_data);
				if (memcmp(&f, &a[i], 4)) DERR("item %u of a float vector differs by access path", i);
				if (i < 2) { pointless_value_t sv = pointless_value_from_complete(&cv); d_step(d, v, &sv, 0, i); }
				PyTuple_SET_ITEM(t, (Py_ssize_t)i + 1, d_float(&a[i]));
			}
			return t; }
		case POINTLESS_UNICODE_: case POINTLESS_STRING_: return Py_BuildValue("(sN)", "s", d_str(p, v));
		case POINTLESS_BITVECTOR: case POINTLESS_BITVECTOR_0: case POINTLESS_BITVECTOR_1: case POINTLESS_BITVECTOR_01: case POINTLESS_BITVECTOR_10: case POINTLESS_BITVECTOR_PACKED: {
			n = pointless_reader_bitvector_n_bits(p, v); if (n > 200000) n = 200000;
			char* b = (char*)__real_malloc((size_t)n + 1);
			for (i = 0; i < n; i++) b[i] = pointless_reader_bitvector_is_set(p, v, i) ? '1' : '0';
			for (i = 0; i < n; i += 1 + n / 3) { pointless_value_t sv; memset(&sv, 0, sizeof sv); sv.type = POINTLESS_BOOLEAN; sv.data.data_u32 = b[i] == '1'; d_step(d, v, &sv, 0, i); }
			if (n < 200000) d_step(d, v, 0, 0, n);
			PyObject* r = Py_BuildValue("(ss#)", "B", b, (Py_ssize_t)n); __real_free(b);
			return r; }
		case POINTLESS_SET_VALUE: case POINTLESS_MAP_VALUE_VALUE: {
			int isset = v->type == POINTLESS_SET_VALUE; uint32_t got = 0;
			if (depth >= d->maxd) return Py_BuildValue("(s)", "cut");
			PyObject *l = PyList_New(0), *keys = PyList_New(0); PyObject* probed = d_probe(d, v);
			if (d->n_conts < 8) { int q; for (q = 0; q < d->n_conts && !SAMEV(&d->conts[q], v); q++) ; if (q == d->n_conts) d->conts[d->n_conts++] = *v; }
			i = 0;
			while (d->budget > 0 && (isset ? pointless_reader_set_iter(p, v, &k, &i) : pointless_reader_map_iter(p, v, &k, &vv, &i))) {
				pointless_value_t *kk = 0, *xx = 0; const char* e = 0;
				got++;
				if (isset) pointless_reader_set_lookup(p, v, k, &kk, &e); else pointless_reader_map_lookup(p, v, k, &kk, &xx, &e);
				if (e || kk != k || !isset && xx != vv) DERR("a key (type %u) is not found where it is stored (%s)", k->type, e ? e : "");
				if (!(isset ? pointless_is_in_set_acyclic(p, v, k) : pointless_is_in_map_acyclic(p, v, k))) DERR("a key (type %u) is not found by the acyclic lookup", k->type);
				if (k->type == POINTLESS_I32 || k->type == POINTLESS_U32) {
					int64_t x = k->type == POINTLESS_I32 ? (int64_t)k->data.data_i32 : (int64_t)k->data.data_u32; pointless_value_t o; memset(&o, 0, sizeof o);
					if (isset ? !pointless_is_int_in_set(p, v, x) : !pointless_is_int_in_map(p, v, x)) DERR("integer key %lld is not found", (long long)x);
					if (!isset && (!pointless_get_mapping_int_to_value(p, v, x, &o) || !SAMEV(&o, vv))) DERR("pointless_get_mapping_int_to_value(%lld) fails", (long long)x);
				}
				if (!isset && (k->type == POINTLESS_STRING_ || k->type == POINTLESS_UNICODE_)) d_strkey(d, v, k, vv);
				int plk = d->pl; d->pl = -1; PyObject* ko = dump(d, k, 0); d->pl = plk;
				PyList_Append(keys, ko);
				if (isset) PyList_Append(l, ko);
				else {
					char kb[120] = ""; int64_t ki;
					if (k->type == POINTLESS_I32 || k->type == POINTLESS_U32) {
						ki = k->type == POINTLESS_I32 ? (int64_t)k->data.data_i32 : (int64_t)k->data.data_u32;
						snprintf(kb, sizeof kb, ki & 1 || ki < 0 ? "[%lld]" : "[+%lld]", (long long)ki); d_step(d, v, vv, 0, ki);
					} else if ((k->type == POINTLESS_STRING_ || k->type == POINTLESS_UNICODE_)) {
						char ks[100]; uint32_t q, m = k->type == POINTLESS_STRING_ ? pointless_reader_string_len(p, k) : pointless_reader_unicode_len(p, k), ok = m < 90, quote = 0;
						for (q = 0; q < m && ok; q++) { uint32_t ch = k->type == POINTLESS_STRING_ ? pointless_reader_string_value_ascii(p, k)[q] : pointless_reader_unicode_value_ucs4(p, k)[q]; if (ch > 255 || !ch) ok = 0; if (ch == '\'') quote = 1; ks[q] = (char)ch; }
						if (ok) { ks[m] = 0; d_step(d, v, vv, ks, 0); if (!quote) snprintf(kb, sizeof kb, "['%s']", ks); }
					}
					if (!kb[0]) d->pl = -1;
					PATH("%s", kb);
					PyObject* pr = Py_BuildValue("(ON)", ko, dump(d, vv, depth + 1)); PyList_Append(l, pr); Py_DECREF(pr);
					UNPATH(); d->pl = plk; if (plk >= 0) d->path[plk] = 0;
				}
				Py_DECREF(ko);
			}
			if (d->budget > 0 && got != (isset ? pointless_reader_set_n_items(p, v) : pointless_reader_map_n_items(p, v))) DERR("a set or map delivers %u keys", got);
			PyObject* e = Py_BuildValue("(IINN)", v->type, v->data.data_u32, keys, probed); PyList_Append(d->cont, e); Py_DECREF(e);
			PyObject* fs = PyFrozenSet_New(l); Py_DECREF(l);
			if (!fs) { PyErr_Clear(); fs = PyFrozenSet_New(0); DERR("unhashable"); }
			if (PySet_GET_SIZE(fs) != (Py_ssize_t)got) DERR("a set or map delivers a key twice");
			return Py_BuildValue("(sN)", isset ? "S" : "M", fs); }
		case POINTLESS_I32: return Py_BuildValue("(si)", "i", (int)v->data.data_i32);
		case POINTLESS_U32: return Py_BuildValue("(sI)", "i", (unsigned)v->data.data_u32);
		case POINTLESS_FLOAT: { float f = pointless_value_get_float(v->type, &v->data); return d_float(&f); }
		case POINTLESS_BOOLEAN: return Py_BuildValue("(sO)", "b", pointless_value_get_bool(v->type, &v->data) ? Py_True : Py_False);
		case POINTLESS_NULL: return Py_BuildValue("(s)", "n");
		default: break;
	}
	return Py_BuildValue("(sI)", "?", v->type);
}
static PyObject* s_c_dump(PyObject* self, PyObject* args)
{
	PyObject *src, *probes; int maxd; const char* error = 0; pointless_t p; int ok, i, j;
	if (!PyArg_ParseTuple(args, "OiO!", &src, &maxd, &PyList_Type, &probes)) return 0;
	if (PyUnicode_Check(src)) ok = pointless_open_f(&p, PyUnicode_AsUTF8(src), &error);
	else ok = pointless_open_b(&p, PyBytes_AS_STRING(src), (size_t)PyBytes_GET_SIZE(src), &error);
	if (!ok) return c_err(0, error ? error : "");
	int arm = cur ? cur->armed : 0; if (cur) cur->armed = 0;
	dump_t dd; memset(&dd, 0, sizeof dd); dd.p = &p; dd.budget = 6000; dd.maxd = maxd; dd.probes = probes; dd.cont = PyList_New(0);
	dump_t* d = &dd;
	PyObject* tree = dump(d, pointless_root(&p), 0);
	PyObject* same = PyList_New(0);
	for (i = 0; i < d->n_conts; i++) for (j = 0; j < d->n_conts; j++) {
		pointless_value_t *a = &d->conts[i], *b = &d->conts[j]; int r;
		if (b->type != POINTLESS_MAP_VALUE_VALUE) continue;
		r = a->type == POINTLESS_SET_VALUE ? pointless_has_same_keys_set_map(&p, a, b) : pointless_has_same_keys_map_map(&p, a, b);
		PyObject* t = Py_BuildValue("(IIIIi)", a->type, a->data.data_u32, b->type, b->data.data_u32, !!r); PyList_Append(same, t); Py_DECREF(t);
	}
	pointless_close(&p);
	PyObject* r = Py_BuildValue("(iNzNNi)", 1, tree, d->err[0] ? d->err : 0, d->cont, same, d->budget > 0);
	if (cur) cur->armed = arm;
	return r;
}

/* c_eval(path, expr) -> (found, type) through the C path expressions (no placeholders) */
static PyObject* s_c_eval(PyObject* self, PyObject* args)
{
	const char *path, *e, *error = 0; pointless_t p; pointless_value_t v;
	if (!PyArg_ParseTuple(args, "ss", &path, &e)) return 0;
	if (!pointless_open_f(&p, path, &error)) return c_err(0, error);
	int ok = pointless_eval_get(&p, pointless_root(&p), &v, e);
	uint32_t ty = ok ? v.type : 0, d = ok ? v.data.data_u32 : 0;
	pointless_close(&p);
	return Py_BuildValue("(iII)", ok, ty, d);
}

static PyMethodDef methods[] = {
	{ "reset", (PyCFunction)s_reset, METH_VARARGS | METH_KEYWORDS, 0 }, { "off", s_off, METH_NOARGS, 0 }, { "knobs", (PyCFunction)s_knobs, METH_VARARGS | METH_KEYWORDS, 0 },
	{ "fs_write", s_fs_write, METH_VARARGS, 0 }, { "fs_replace", s_fs_replace, METH_VARARGS, 0 }, { "fs_read", s_fs_read, METH_VARARGS, 0 },
	{ "fs_unlink", s_fs_unlink, METH_VARARGS, 0 }, { "fs_rename", s_fs_rename, METH_VARARGS, 0 }, { "fs_mkdir", s_fs_mkdir, METH_VARARGS, 0 },
	{ "fs_list", s_fs_list, METH_NOARGS, 0 }, { "fs_gen", s_fs_gen, METH_NOARGS, 0 }, { "seq", s_seq, METH_NOARGS, 0 },
	{ "capacity", s_capacity, METH_VARARGS, 0 }, { "power_loss", s_power, METH_VARARGS, 0 }, { "crash", s_crash, METH_VARARGS, 0 },
	{ "add_fault", s_add_fault, METH_VARARGS, 0 }, { "clear_faults", s_clear_faults, METH_NOARGS, 0 }, { "faults_fired", s_faults_fired, METH_NOARGS, 0 },
	{ "actor_new", s_actor_new, METH_VARARGS, 0 }, { "enter", s_enter, METH_VARARGS, 0 }, { "exit_", s_exit, METH_NOARGS, 0 }, { "await_", s_await, METH_NOARGS, 0 },
	{ "resume", s_resume, METH_VARARGS, 0 }, { "runnable", s_runnable, METH_NOARGS, 0 }, { "state", s_state, METH_VARARGS, 0 }, { "yield_", s_yield, METH_NOARGS, 0 },
	{ "crit", s_set_crit, METH_VARARGS, 0 }, { "pause", s_pause, METH_NOARGS, 0 }, { "unpause", s_unpause, METH_VARARGS, 0 }, { "call", s_call, METH_VARARGS, 0 },
	{ "live", s_live, METH_NOARGS, 0 }, { "peak", s_peak, METH_NOARGS, 0 }, { "live_list", s_live_list, METH_VARARGS, 0 }, { "laseq", s_laseq, METH_NOARGS, 0 },
	{ "open_handles", s_open_handles, METH_VARARGS, 0 }, { "open_inos", s_open_inos, METH_VARARGS, 0 }, { "maps_intact", s_maps_intact, METH_NOARGS, 0 },
	{ "anomaly", s_anomaly, METH_NOARGS, 0 }, { "trace", s_trace, METH_NOARGS, 0 }, { "note", s_note, METH_VARARGS, 0 }, { "stats", s_stats, METH_NOARGS, 0 },
	{ "c_recreate", s_c_recreate, METH_VARARGS, 0 }, { "c_build", s_c_build, METH_VARARGS, 0 }, { "c_walk", s_c_walk, METH_VARARGS, 0 }, { "c_dump", s_c_dump, METH_VARARGS, 0 }, { "c_eval", s_c_eval, METH_VARARGS, 0 },
	{ 0 }
};
static struct PyModuleDef def = { PyModuleDef_HEAD_INIT, "simk", 0, -1, methods };
PyMODINIT_FUNC PyInit_simk(void) { void* pc[2]; backtrace(pc, 2); py_install(); return PyModule_Create(&def); }
