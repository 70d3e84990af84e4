// A simulated operating system for one process.
//
// LD_PRELOADed into the real compiler binary. Input files, pipes, the formatter process, waiting,
// random numbers, clocks and the scheduling of threads are simulated; every choice comes from one
// seeded generator or from a recorded tape and is logged, so a run repeats exactly.
//
// fd SIM_IN_FD holds the scenario (struct in_hdr, tape, files), fd SIM_OUT_FD receives the result
// (struct out_hdr, choice log, trace, stdout, what the formatter was given).
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <linux/futex.h>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

// ---------------------------------------------------------------- scenario and result

enum { K_OPEN, K_READ, K_PIPE, K_SPAWN, K_THREAD, K_PWRITE, K_PREAD, K_STDOUT, K_WAIT, K_MALLOC, NKINDS };

struct in_hdr {
    u64 magic, mode /* 0 = seed, 1 = tape */, seed, tape_len, nfiles;
    u64 p_short;      // per 1024: a read or write is short
    u64 p_eintr;      // per 1024: a call is interrupted
    u64 p_switch;     // per 1024: another actor is scheduled at a scheduling point
    u64 benign_max;   // short/interrupted calls per run
    u64 pipe_cap;     // capacity of a pipe
    u64 event_cap;    // scheduling points without an octet moved before the run counts as a livelock
    u64 hash_mode;    // 0: seeded hash keys, else fixed keys from hash_mode
    u64 fmt_mode, fmt_at; // behaviour of the formatter, and where it applies
    u64 fmt_chunk;    // how much the formatter reads or writes at a time
    u64 naim;
    struct { u64 kind, nth, err; } aim[4];
};
struct out_hdr {
    u64 magic, verdict /* 0 none, 200 deadlock, 201 event cap, 210 unjudged */;
    u64 events, nchoices, ntrace, stdout_len, fmt_in_len, fmt_out_len, fmt_spawned, fmt_dead, fmt_status;
    u64 sched_hash, sim_ns, threads, switches;
    u64 hits[16];     // occurrences of each kind of call
    u64 injected[16]; // hard faults injected, by kind
    u64 n_short, n_eintr, fmt_fault, closed_early, stdout_calls, wr_len;
    u64 stderr_len;   // total
    u64 hwm_kb;       // memory the process needed at most
};
#define MAXCH (1u << 18)
#define MAXTR (1u << 15)
#define MAXOUT (24u << 20)
#define MAXFMT (24u << 20)
#define MAXERR (1u << 16)
#define OFF_CH 4096
#define OFF_TR (OFF_CH + MAXCH * 4)
#define OFF_OUT (OFF_TR + MAXTR * 8)
#define OFF_FMT (OFF_OUT + MAXOUT)
#define OFF_ERR (OFF_FMT + MAXFMT)
#define OUT_SIZE (OFF_ERR + MAXERR)

static struct in_hdr *in;
static struct out_hdr *out;
static u32 *tape, *chlog;
static u64 tape_pos;
static u8 *o_stdout, *o_fmt, *o_err;
static struct { u32 what, arg; } *trace;
static struct { char *name; u8 *data; u64 len; } files[64];
static int active;

// ---------------------------------------------------------------- raw system calls

static long raw(long n, long a, long b, long c, long d, long e, long f) {
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    long r;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static long ret(long r) {
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
static void quit(u64 v) {
    out->verdict = v;
    raw(SYS_exit_group, (long)v, 0, 0, 0, 0, 0);
    for (;;) {}
}

// ---------------------------------------------------------------- choices

static u64 s0, s1;
static u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
static u64 rnd(void) {
    u64 a = s0, b = s1, r = a + b;
    b ^= a;
    s0 = rotl(a, 24) ^ b ^ (b << 16);
    s1 = rotl(b, 37);
    return r;
}
static void seed_rng(u64 z) {
    for (int i = 0; i < 2; i++) {
        z += 0x9E3779B97F4A7C15ull;
        u64 x = z;
        x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
        x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
        x ^= x >> 31;
        if (i) s1 = x | 1; else s0 = x;
    }
}
// A value in 0..n; 0 is the benign one.
static u64 choose(u64 n) {
    if (n <= 1) return 0;
    u64 v;
    if (in->mode == 0) {
        v = out->nchoices < MAXCH ? rnd() % n : 0;
    } else {
        v = tape_pos < in->tape_len ? tape[tape_pos] : 0;
        tape_pos++;
        if (v >= n) v = n - 1;
    }
    if (out->nchoices < MAXCH) chlog[out->nchoices++] = (u32)v;
    return v;
}
static int chance(u64 per1024) { return per1024 && choose(1024) >= 1024 - per1024; }
static void note(u32 what, u32 arg) {
    out->sched_hash = (out->sched_hash ^ what) * 0x100000001b3ull;
    if (out->ntrace < MAXTR) {
        trace[out->ntrace].what = what;
        trace[out->ntrace].arg = arg;
        out->ntrace++;
    }
}
// events in the trace
enum { T_SWITCH = 1, T_OPEN, T_READ, T_PREAD, T_PWRITE, T_STDOUT, T_PIPE, T_SPAWN, T_THREAD, T_JOIN, T_EXITTH, T_WAIT,
       T_SHORT, T_EINTR, T_FAULT, T_FMT_READ, T_FMT_WRITE, T_FMT_CLOSE_IN, T_FMT_CLOSE_OUT, T_FMT_EXIT, T_CLOCK,
       T_EPIPE, T_FUTEX, T_CLOSE, T_KILL };

// Hard faults: the nth call of a kind fails with an errno.
static int hard(int kind) {
    u64 n = ++out->hits[kind];
    for (u64 i = 0; i < in->naim && i < 4; i++)
        if (in->aim[i].kind == (u64)kind && in->aim[i].nth == n) {
            out->injected[kind]++;
            note(T_FAULT, (u32)(kind << 16 | in->aim[i].err));
            return (int)in->aim[i].err;
        }
    return 0;
}
static u64 benign_used;
static int eintr(void) {
    if (!in->p_eintr || benign_used >= in->benign_max || !chance(in->p_eintr)) return 0;
    benign_used++;
    out->n_eintr++;
    note(T_EINTR, 0);
    return 1;
}
static u64 shorten(u64 n) {
    if (n <= 1 || !in->p_short || benign_used >= in->benign_max || !chance(in->p_short)) return n;
    benign_used++;
    out->n_short++;
    u64 m;
    switch (choose(4)) {
    case 0: m = n - 1; break;
    case 1: m = 1; break;
    case 2: m = 1 + choose(n < 64 ? n : 64); break;
    default: m = 1 + choose(n); break;
    }
    if (m > n) m = n;
    note(T_SHORT, (u32)m);
    return m;
}

// ---------------------------------------------------------------- objects

struct pipe {
    int used, readers, writers;
    u8 *buf;
    u64 head, len, cap, ring; // what fits, and the size of the buffer
    int nonblock_r, nonblock_w;
};
#define NPIPE 32
static struct pipe pipes[NPIPE];
enum { F_NONE, F_FILE, F_PR, F_PW, F_PIDFD };
#define NFD 512
static struct { int type; struct pipe *p; } fds[NFD];

struct thread {
    int used, done, go, waiting;
    pthread_t real;
    // why it is blocked
    int why; // 0 = runnable
    struct pipe *p;
    void *addr;
    u64 deadline; // 0 = none
    int timed_out;
    int peer;
    struct pollfd *pf;
    int npf;
    void *(*start)(void *);
    void *arg;
    void *result;
    int detached;
};
enum { W_NONE, W_PREAD, W_PWRITE, W_JOIN, W_WAIT, W_FUTEX, W_SLEEP, W_POLL };
#define NTH 32
static struct thread th[NTH];
static int nth_;
static __thread int self __attribute__((tls_model("initial-exec")));
static int current;

// ---------------------------------------------------------------- the formatter

enum { M_BUFFERED, M_STREAM, M_LINGER, M_CRASH_READ, M_CRASH_WRITE, M_REJECT, M_EXITCODE, M_EARLY, M_BADTEXT, M_TRUNC_FAIL, M_SILENT_FAIL };
#define PRE "// formatted: begin\n"
#define POST "// formatted: end\n"
static struct {
    int spawned, dead, status, reaped;
    struct pipe *sin, *sout;
    int phase; // 0 reading, 1 writing, 2 closing, 3 exiting
    u64 inlen, outpos;
    int early_done;
    u8 *outbuf;
    u64 outlen;
    int linger, inherit;
} fm;
#define FMT_PID 77001

// A livelock is many scheduling points during which not one octet moves.
static u64 progress_at;
// As on Linux, a pipe takes no single octets: it is writable again once a part of it is free.
static int pipe_room(struct pipe *p) { return p->cap - p->len >= (p->cap + 7) / 8; }
#define LONG (400u << 10)
#define ROOMY 4096
static u64 moved;
static u64 pipe_take(struct pipe *p, u8 *dst, u64 n) {
    if (n > p->len) n = p->len;
    for (u64 i = 0; i < n; i++) dst[i] = p->buf[(p->head + i) % p->ring];
    p->head = (p->head + n) % p->ring;
    p->len -= n;
    if (n) progress_at = out->events;
    return n;
}
static u64 pipe_put(struct pipe *p, const u8 *src, u64 n) {
    if (n > p->cap - p->len) n = p->cap - p->len;
    for (u64 i = 0; i < n; i++) p->buf[(p->head + p->len + i) % p->ring] = src[i];
    p->len += n;
    if (n) progress_at = out->events;
    // A long output is not moved by single octets: pipes and the pieces of the formatter grow.
    moved += n;
    if (moved > LONG && p->cap < ROOMY) p->cap = ROOMY;
    return n;
}
static void fm_close_in(void) {
    if (fm.sin) {
        fm.sin->readers--;
        fm.sin = 0;
        note(T_FMT_CLOSE_IN, (u32)fm.inlen);
    }
}
static void fm_close_out(void) {
    if (fm.sout) {
        fm.sout->writers--;
        fm.sout = 0;
        note(T_FMT_CLOSE_OUT, (u32)fm.outpos);
    }
}
static void fm_exit(int status) {
    fm_close_in();
    fm_close_out();
    fm.dead = 1;
    fm.status = status;
    out->fmt_dead = 1;
    out->fmt_status = (u64)status;
    note(T_FMT_EXIT, (u32)status);
}
static int writer_stuck(struct pipe *p) {
    for (int i = 0; i < nth_; i++)
        if (th[i].used && !th[i].done && th[i].why == W_PWRITE && th[i].p == p && !pipe_room(p)) return 1;
    return 0;
}
// A formatter that writes what it has before it reads on.
static int fm_owes(void) { return in->fmt_mode == M_STREAM && fm.phase == 0 && fm.outpos < strlen(PRE) + fm.inlen; }
static int fm_can(void) {
    if (!fm.spawned || fm.dead) return 0;
    if (fm.phase == 0) {
        if (fm_owes()) return !fm.sout || fm.inherit || fm.sout->readers == 0 || pipe_room(fm.sout);
        if (in->fmt_mode == M_SILENT_FAIL) return 1;
        if (in->fmt_mode == M_EARLY && !fm.early_done && fm.inlen >= in->fmt_at) {
            // Only while the writer has more to write: it is sure to notice.
            if (writer_stuck(fm.sin)) return 1;
        }
        if (in->fmt_mode == M_CRASH_READ && fm.inlen >= in->fmt_at) return 1;
        if (in->fmt_mode == M_REJECT && fm.inlen >= in->fmt_at) return 1;
        if (!fm.sin) return 1;
        return fm.sin->len > 0 || fm.sin->writers == 0;
    }
    if (fm.phase == 1) return !fm.sout || fm.inherit || fm.sout->readers == 0 || pipe_room(fm.sout);
    return 1;
}
static void fm_prepare(void) {
    u64 pre = strlen(PRE), post = strlen(POST);
    fm.outbuf = mmap(0, fm.inlen + pre + post + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    memcpy(fm.outbuf, PRE, pre);
    memcpy(fm.outbuf + pre, o_fmt, fm.inlen);
    memcpy(fm.outbuf + pre + fm.inlen, POST, post);
    fm.outlen = pre + fm.inlen + post;
    if (in->fmt_mode == M_BADTEXT) {
        u64 at = in->fmt_at % fm.outlen;
        fm.outbuf[at] = 0xff;
        out->fmt_fault++;
    }
}
static void fm_step(void) {
    u64 chunk = in->fmt_chunk ? in->fmt_chunk : 65536;
    if (moved > LONG && chunk < ROOMY) chunk = ROOMY;
    if (fm_owes()) {
        u64 pre = strlen(PRE);
        const u8 *from = fm.outpos < pre ? (const u8 *)PRE + fm.outpos : o_fmt + (fm.outpos - pre);
        u64 n = fm.outpos < pre ? pre - fm.outpos : pre + fm.inlen - fm.outpos;
        if (n > chunk) n = chunk;
        if (fm.inherit) {
            if (out->stdout_len + n > MAXOUT) quit(210);
            memcpy(o_stdout + out->stdout_len, from, n);
            out->stdout_len += n, progress_at = out->events;
        } else {
            if (!fm.sout || fm.sout->readers == 0) { fm_exit(fm.sout ? 13 : 0); return; }
            u64 room = fm.sout->cap - fm.sout->len;
            if (n > room) n = room;
            n = shorten(n);
            n = pipe_put(fm.sout, from, n);
        }
        fm.outpos += n;
        out->fmt_out_len = fm.outpos;
        note(T_FMT_WRITE, (u32)n);
        return;
    }
    if (fm.phase == 0) {
        if (in->fmt_mode == M_SILENT_FAIL) { out->fmt_fault++; fm_exit(1 << 8); return; }
        if (in->fmt_mode == M_CRASH_READ && fm.inlen >= in->fmt_at) { out->fmt_fault++; fm_exit((in->fmt_at & 1) ? 9 : 11); return; }
        if (in->fmt_mode == M_REJECT && fm.inlen >= in->fmt_at) { out->fmt_fault++; fm_exit(1 << 8); return; }
        if (in->fmt_mode == M_EARLY && !fm.early_done && fm.inlen >= in->fmt_at && writer_stuck(fm.sin)) {
            fm.early_done = 1;
            out->fmt_fault++;
            out->closed_early = 1;
            fm_close_in();
            fm_prepare();
            fm.phase = 1;
            return;
        }
        if (fm.sin && fm.sin->len > 0) {
            u64 n = fm.sin->len < chunk ? fm.sin->len : chunk;
            n = shorten(n);
            if (fm.inlen + n > MAXFMT) quit(210);
            n = pipe_take(fm.sin, o_fmt + fm.inlen, n);
            fm.inlen += n;
            out->fmt_in_len = fm.inlen;
            note(T_FMT_READ, (u32)n);
            return;
        }
        // end of input
        fm_prepare();
        if (in->fmt_mode == M_LINGER) fm_close_in();
        fm.phase = 1;
        return;
    }
    if (fm.phase == 1) {
        u64 stop = fm.outlen;
        int fails = in->fmt_mode == M_CRASH_WRITE || in->fmt_mode == M_TRUNC_FAIL;
        if (fails) stop = fm.outlen ? in->fmt_at % fm.outlen : 0;
        if (fm.outpos >= stop) {
            if (in->fmt_mode == M_CRASH_WRITE) { out->fmt_fault++; fm_exit(9); return; }
            if (in->fmt_mode == M_TRUNC_FAIL) { out->fmt_fault++; fm_exit(1 << 8); return; }
            fm.phase = 2;
            return;
        }
        if (fm.inherit) {
            u64 n = stop - fm.outpos;
            if (n > chunk) n = chunk;
            if (out->stdout_len + n > MAXOUT) quit(210);
            memcpy(o_stdout + out->stdout_len, fm.outbuf + fm.outpos, n);
            out->stdout_len += n, progress_at = out->events;
            fm.outpos += n;
            out->fmt_out_len = fm.outpos;
            note(T_FMT_WRITE, (u32)n);
            return;
        }
        if (!fm.sout || fm.sout->readers == 0) { fm_exit(fm.sout ? 13 : 0); return; }
        u64 n = stop - fm.outpos;
        if (n > chunk) n = chunk;
        u64 room = fm.sout->cap - fm.sout->len;
        if (n > room) n = room;
        n = shorten(n);
        n = pipe_put(fm.sout, fm.outbuf + fm.outpos, n);
        fm.outpos += n;
        out->fmt_out_len = fm.outpos;
        note(T_FMT_WRITE, (u32)n);
        return;
    }
    if (fm.phase == 2) {
        if (in->fmt_mode == M_LINGER && fm.linger < 6) {
            if (fm.linger == 0) fm_close_out();
            fm.linger++;
            return;
        }
        fm.phase = 3;
    }
    if (in->fmt_mode == M_EXITCODE) { out->fmt_fault++; fm_exit((int)(1 + in->fmt_at % 255) << 8); return; }
    fm_exit(0);
}

// ---------------------------------------------------------------- scheduling

static u64 clock_ns = 1000000000ull;

static int poll_ready(struct pollfd *pf, int n) {
    int r = 0;
    for (int i = 0; i < n; i++) {
        int fd = pf[i].fd;
        pf[i].revents = 0;
        if (fd < 0) continue;
        if (fd >= NFD || fds[fd].type == F_NONE || fds[fd].type == F_FILE) {
            pf[i].revents = pf[i].events & (POLLIN | POLLOUT);
        } else if (fds[fd].type == F_PR) {
            struct pipe *p = fds[fd].p;
            if (p->len > 0) pf[i].revents |= pf[i].events & POLLIN;
            if (p->writers == 0) pf[i].revents |= POLLHUP;
        } else if (fds[fd].type == F_PW) {
            struct pipe *p = fds[fd].p;
            if (pipe_room(p)) pf[i].revents |= pf[i].events & POLLOUT;
            if (p->readers == 0) pf[i].revents |= POLLERR;
        } else if (fds[fd].type == F_PIDFD) {
            if (fm.dead) pf[i].revents |= pf[i].events & POLLIN;
        }
        if (pf[i].revents) r++;
    }
    return r;
}
static int runnable(struct thread *t) {
    if (!t->used || t->done) return 0;
    switch (t->why) {
    case W_NONE: return 1;
    case W_PREAD: return t->p->len > 0 || t->p->writers == 0;
    case W_PWRITE: return pipe_room(t->p) || t->p->readers == 0;
    case W_JOIN: return th[t->peer].done;
    case W_WAIT: return fm.dead;
    case W_FUTEX: return t->addr == 0 || t->timed_out;
    case W_SLEEP: return t->timed_out;
    case W_POLL: return t->timed_out || poll_ready(t->pf, t->npf) > 0;
    }
    return 0;
}
static void wait_go(int me) {
    while (!__atomic_load_n(&th[me].go, __ATOMIC_ACQUIRE)) raw(SYS_futex, (long)&th[me].go, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    __atomic_store_n(&th[me].go, 0, __ATOMIC_RELEASE);
}
static void hand(int to) {
    current = to;
    __atomic_store_n(&th[to].go, 1, __ATOMIC_RELEASE);
    raw(SYS_futex, (long)&th[to].go, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
static int alone(void) { return nth_ == 1 && (!fm.spawned || fm.dead); }

// Gives the processor away. Returns when this thread runs again (its block condition holds).
// A thread that ends calls it with done set and never returns from it.
#define STARVE 500
static int give;      // the running thread has asked to go on later
static int fm_turn;
static u64 stayed;    // scheduling points in a row at which it went on
static void sched(void) {
    int me = self;
    if (alone() && th[me].why == W_NONE) return;
    for (;;) {
        if (++out->events > progress_at + in->event_cap) quit(201);
        int cand[NTH + 1], n = 0;
        // A thread that only spins does not starve the others.
        if (++stayed > STARVE) give = 1;
        if (give) {
            // in turns, and the formatter after the last thread
            for (int i = me + 1; i < nth_; i++)
                if (runnable(&th[i])) cand[n++] = i;
            if (fm_can() && fm_turn) cand[n++] = NTH;
            for (int i = 0; i < me; i++)
                if (runnable(&th[i])) cand[n++] = i;
            if (fm_can() && !fm_turn) cand[n++] = NTH;
            fm_turn = !fm_turn;
            if (runnable(&th[me]) && n == 0) cand[n++] = me;
        } else {
            if (runnable(&th[me])) cand[n++] = me; // staying is the benign choice
            for (int i = 0; i < nth_; i++)
                if (i != me && runnable(&th[i])) cand[n++] = i;
            if (fm_can()) cand[n++] = NTH;
        }
        if (n == 0) {
            // nothing can run: time passes
            u64 best = 0;
            for (int i = 0; i < nth_; i++)
                if (th[i].used && !th[i].done && th[i].deadline && (!best || th[i].deadline < best)) best = th[i].deadline;
            if (!best) quit(200);
            if (best > clock_ns) clock_ns = best;
            out->sim_ns = clock_ns;
            note(T_CLOCK, 0);
            for (int i = 0; i < nth_; i++)
                if (th[i].used && !th[i].done && th[i].deadline && th[i].deadline <= clock_ns) th[i].timed_out = 1;
            continue;
        }
        int c = cand[0];
        if (n > 1) {
            if (cand[0] == me && in->p_switch < 1024) {
                if (chance(in->p_switch)) c = cand[1 + choose((u64)n - 1)];
            } else {
                c = cand[choose((u64)n)];
            }
        }
        if (give && n > 0 && c != me) give = 0;
        if (c != me) stayed = 0;
        if (c == NTH) {
            fm_step();
            continue;
        }
        give = 0;
        if (c == me) return;
        out->switches++;
        note(T_SWITCH, (u32)c);
        int ended = th[me].done;
        hand(c);
        if (ended) return;
        wait_go(me);
        if (runnable(&th[me])) return;
    }
}
static void block(int why) {
    th[self].why = why;
    th[self].timed_out = 0;
    sched();
    th[self].why = W_NONE;
    th[self].deadline = 0;
}

// ---------------------------------------------------------------- start

static void *real_pthread_create, *real_pthread_join, *real_pthread_detach, *real_fa_dup2, *real_fa_init, *real_fa_destroy;

__attribute__((constructor)) static void start(void) {
    const char *a = getenv("SIM_IN_FD"), *b = getenv("SIM_OUT_FD");
    real_pthread_create = dlsym(RTLD_NEXT, "pthread_create");
    real_pthread_join = dlsym(RTLD_NEXT, "pthread_join");
    real_pthread_detach = dlsym(RTLD_NEXT, "pthread_detach");
    real_fa_dup2 = dlsym(RTLD_NEXT, "posix_spawn_file_actions_adddup2");
    real_fa_init = dlsym(RTLD_NEXT, "posix_spawn_file_actions_init");
    real_fa_destroy = dlsym(RTLD_NEXT, "posix_spawn_file_actions_destroy");
    if (!a || !b) return;
    int ifd = atoi(a), ofd = atoi(b);
    struct stat st;
    if (fstat(ifd, &st)) _exit(211);
    u8 *base = mmap(0, (size_t)st.st_size, PROT_READ, MAP_PRIVATE, ifd, 0);
    u8 *ob = mmap(0, OUT_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED, ofd, 0);
    if (base == MAP_FAILED || ob == MAP_FAILED) _exit(211);
    close(ifd);
    close(ofd);
    in = (struct in_hdr *)base;
    out = (struct out_hdr *)ob;
    chlog = (u32 *)(ob + OFF_CH);
    trace = (void *)(ob + OFF_TR);
    o_stdout = ob + OFF_OUT;
    o_fmt = ob + OFF_FMT;
    o_err = ob + OFF_ERR;
    u8 *p = base + sizeof(struct in_hdr);
    tape = (u32 *)p;
    p += (in->tape_len * 4 + 7) & ~7ull;
    for (u64 i = 0; i < in->nfiles && i < 64; i++) {
        u64 nl = *(u64 *)p, dl = *(u64 *)(p + 8);
        p += 16;
        files[i].name = (char *)p; // NUL-terminated
        p += (nl + 8) & ~7ull;
        files[i].data = p;
        files[i].len = dl;
        p += (dl + 7) & ~7ull;
    }
    seed_rng(in->seed);
    th[0].used = 1;
    th[0].real = pthread_self();
    nth_ = 1;
    out->magic = 0x51a1;
    out->sched_hash = 0xcbf29ce484222325ull;
    unsetenv("LD_PRELOAD");
    active = 1;
    if (!in->hash_mode) {
        // addresses are not the same in every run either
        u64 k = choose(64);
        if (k) sbrk((long)(k * 4096 + (k % 7) * 16));
        k = choose(64);
        if (k) mmap(0, k * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    }
}

__attribute__((destructor)) static void finish(void) {
    if (!active) return;
    static char b[8192];
    long fd = raw(SYS_openat, AT_FDCWD, (long)"/proc/self/status", O_RDONLY, 0, 0, 0);
    if (fd < 0) return;
    long n = raw(SYS_read, fd, (long)b, sizeof b - 1, 0, 0, 0);
    raw(SYS_close, fd, 0, 0, 0, 0, 0);
    if (n <= 0) return;
    b[n] = 0;
    char *p = strstr(b, "VmHWM:");
    if (p) out->hwm_kb = strtoull(p + 6, 0, 10);
}

// ---------------------------------------------------------------- files

static int find_file(const char *path) {
    if (!active || !path) return -1;
    for (u64 i = 0; i < in->nfiles; i++)
        if (!strcmp(files[i].name, path)) return (int)i;
    return -1;
}
static int newfd(void) { return (int)raw(SYS_memfd_create, (long)"sim", 1 /* CLOEXEC */, 0, 0, 0, 0); }

static int do_open(const char *path, int flags, int mode) {
    int k = find_file(path);
    if (k < 0) return (int)ret(raw(SYS_openat, AT_FDCWD, (long)path, flags, mode, 0, 0));
    int e = hard(K_OPEN);
    if (e) { errno = e; return -1; }
    if (eintr()) { errno = EINTR; return -1; }
    int fd = newfd();
    if (fd < 0 || fd >= NFD) quit(210);
    for (u64 done = 0; done < files[k].len;) {
        long r = raw(SYS_write, fd, (long)(files[k].data + done), (long)(files[k].len - done), 0, 0, 0);
        if (r <= 0) quit(210);
        done += (u64)r;
    }
    raw(SYS_lseek, fd, 0, SEEK_SET, 0, 0, 0);
    fds[fd].type = F_FILE;
    note(T_OPEN, (u32)k);
    return fd;
}
int open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return do_open(p, fl, m); }
int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return do_open(p, fl, m); }
int openat(int d, const char *p, int fl, ...) {
    va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a);
    if (find_file(p) >= 0) return do_open(p, fl, m);
    return (int)ret(raw(SYS_openat, d, (long)p, fl, m, 0, 0));
}
int openat64(int d, const char *p, int fl, ...) {
    va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a);
    if (find_file(p) >= 0) return do_open(p, fl, m);
    return (int)ret(raw(SYS_openat, d, (long)p, fl, m, 0, 0));
}
int statx(int d, const char *restrict p, int fl, unsigned mask, struct statx *restrict sx) {
    const char *volatile q = p; // declared nonnull, yet std calls it with a null pointer
    int k = q && *q ? find_file(q) : -1;
    if (k >= 0) {
        memset(sx, 0, sizeof *sx);
        sx->stx_mask = STATX_BASIC_STATS;
        sx->stx_mode = S_IFREG | 0644;
        sx->stx_size = files[k].len;
        sx->stx_nlink = 1;
        sx->stx_blksize = 4096;
        return 0;
    }
    return (int)ret(raw(SYS_statx, d, (long)p, fl, mask, (long)sx, 0));
}
int access(const char *p, int m) {
    if (find_file(p) >= 0) return 0;
    return (int)ret(raw(SYS_access, (long)p, m, 0, 0, 0, 0));
}

static ssize_t sim_read(int fd, void *buf, size_t n) {
    if (fds[fd].type == F_FILE) {
        sched();
        int e = hard(K_READ);
        if (e) { errno = e; return -1; }
        if (eintr()) { errno = EINTR; return -1; }
        // what is left in the file bounds how short a read can be
        long pos = raw(SYS_lseek, fd, 0, SEEK_CUR, 0, 0, 0), end = raw(SYS_lseek, fd, 0, SEEK_END, 0, 0, 0);
        raw(SYS_lseek, fd, pos, SEEK_SET, 0, 0, 0);
        u64 left = (u64)(end > pos ? end - pos : 0);
        if (n > left) n = left;
        n = shorten(n);
        note(T_READ, (u32)n);
        return ret(raw(SYS_read, fd, (long)buf, (long)n, 0, 0, 0));
    }
    if (fds[fd].type == F_PR) {
        struct pipe *p = fds[fd].p;
        sched();
        int e = hard(K_PREAD);
        if (e) { errno = e; return -1; }
        if (eintr()) { errno = EINTR; return -1; }
        if (n == 0) return 0;
        if (p->len == 0 && p->writers > 0) {
            if (p->nonblock_r) { errno = EAGAIN; return -1; }
            th[self].p = p;
            block(W_PREAD);
        }
        u64 m = p->len < n ? p->len : n;
        m = shorten(m);
        m = pipe_take(p, buf, m);
        note(T_PREAD, (u32)m);
        return (ssize_t)m;
    }
    errno = EBADF;
    return -1;
}
static int simfd(int fd) { return active && fd >= 0 && fd < NFD && fds[fd].type != F_NONE; }

ssize_t read(int fd, void *buf, size_t n) {
    if (!simfd(fd)) return ret(raw(SYS_read, fd, (long)buf, (long)n, 0, 0, 0));
    return sim_read(fd, buf, n);
}
ssize_t readv(int fd, const struct iovec *v, int c) {
    if (!simfd(fd)) return ret(raw(SYS_readv, fd, (long)v, c, 0, 0, 0));
    for (int i = 0; i < c; i++)
        if (v[i].iov_len) return sim_read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}

static ssize_t sim_pipe_write(int fd, const void *buf, size_t n) {
    struct pipe *p = fds[fd].p;
    sched();
    int e = hard(K_PWRITE);
    if (e) { errno = e; return -1; }
    if (eintr()) { errno = EINTR; return -1; }
    u64 want = shorten(n), done = 0;
    while (done < want) {
        if (p->readers == 0) {
            if (done) break;
            note(T_EPIPE, 0);
            errno = EPIPE;
            return -1;
        }
        if (!pipe_room(p)) {
            if (p->nonblock_w) {
                if (done) break;
                errno = EAGAIN;
                return -1;
            }
            th[self].p = p;
            block(W_PWRITE);
            continue;
        }
        u64 m = pipe_put(p, (const u8 *)buf + done, want - done);
        done += m;
        note(T_PWRITE, (u32)m);
    }
    return (ssize_t)done;
}
static ssize_t sim_write(int fd, const void *buf, size_t n) {
    if (fd == 2) {
        u64 l = n;
        for (u64 i = 0; i < l; i++) o_err[(out->stderr_len + i) % MAXERR] = ((const u8 *)buf)[i];
        out->stderr_len += l;
        return (ssize_t)n;
    }
    if (fd == 1) {
        sched();
        out->stdout_calls++;
        int e = hard(K_STDOUT);
        if (e) { errno = e; return -1; }
        if (eintr()) { errno = EINTR; return -1; }
        n = shorten(n);
        if (out->stdout_len + n > MAXOUT) quit(210);
        memcpy(o_stdout + out->stdout_len, buf, n);
        out->stdout_len += n, progress_at = out->events;
        note(T_STDOUT, (u32)n);
        return (ssize_t)n;
    }
    if (fds[fd].type == F_PW) return sim_pipe_write(fd, buf, n);
    errno = EBADF;
    return -1;
}
ssize_t write(int fd, const void *buf, size_t n) {
    if (active && (fd == 1 || fd == 2 || simfd(fd))) return sim_write(fd, buf, n);
    return ret(raw(SYS_write, fd, (long)buf, (long)n, 0, 0, 0));
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (active && (fd == 1 || fd == 2 || simfd(fd))) {
        ssize_t t = 0;
        for (int i = 0; i < c; i++) {
            if (!v[i].iov_len) continue;
            ssize_t r = sim_write(fd, v[i].iov_base, v[i].iov_len);
            if (r < 0) return t ? t : r;
            t += r;
            if ((size_t)r < v[i].iov_len) break;
        }
        return t;
    }
    return ret(raw(SYS_writev, fd, (long)v, c, 0, 0, 0));
}

// ---------------------------------------------------------------- pipes

int pipe2(int f[2], int flags) {
    if (!active) return (int)ret(raw(SYS_pipe2, (long)f, flags, 0, 0, 0, 0));
    sched();
    int e = hard(K_PIPE);
    if (e) { errno = e; return -1; }
    int k = 0;
    while (k < NPIPE && pipes[k].used) k++;
    int a = newfd(), b = newfd();
    if (k == NPIPE || a < 0 || b < 0 || a >= NFD || b >= NFD) quit(210);
    struct pipe *p = &pipes[k];
    p->used = 1;
    p->cap = in->pipe_cap ? in->pipe_cap : 65536;
    p->ring = p->cap > ROOMY ? p->cap : ROOMY;
    p->buf = mmap(0, p->ring, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    p->readers = p->writers = 1;
    p->nonblock_r = p->nonblock_w = (flags & O_NONBLOCK) != 0;
    fds[a].type = F_PR; fds[a].p = p;
    fds[b].type = F_PW; fds[b].p = p;
    f[0] = a;
    f[1] = b;
    note(T_PIPE, (u32)k);
    return 0;
}
int pipe(int f[2]) { return pipe2(f, 0); }

int close(int fd) {
    if (simfd(fd)) {
        struct pipe *p = fds[fd].p;
        if (fds[fd].type == F_PR) p->readers--;
        if (fds[fd].type == F_PW) p->writers--;
        if (fds[fd].type != F_FILE) note(T_CLOSE, (u32)fds[fd].type);
        fds[fd].type = F_NONE;
        fds[fd].p = 0;
        int r = (int)ret(raw(SYS_close, fd, 0, 0, 0, 0, 0));
        sched();
        return r;
    }
    return (int)ret(raw(SYS_close, fd, 0, 0, 0, 0, 0));
}
static int do_dup(int fd, int r) {
    if (r >= 0 && simfd(fd)) {
        if (r >= NFD) quit(210);
        fds[r] = fds[fd];
        if (fds[r].type == F_PR) fds[r].p->readers++;
        if (fds[r].type == F_PW) fds[r].p->writers++;
    }
    return r;
}
int dup(int fd) { return do_dup(fd, (int)ret(raw(SYS_dup, fd, 0, 0, 0, 0, 0))); }
int dup2(int fd, int to) {
    if (simfd(to) || (active && to <= 2)) quit(210);
    return do_dup(fd, (int)ret(raw(SYS_dup3, fd, to, 0, 0, 0, 0)));
}
static int do_fcntl(int fd, int cmd, long arg) {
    if (simfd(fd) && fds[fd].p) {
        struct pipe *p = fds[fd].p;
        int *nb = fds[fd].type == F_PR ? &p->nonblock_r : &p->nonblock_w;
        if (cmd == F_GETFL) return (fds[fd].type == F_PR ? O_RDONLY : O_WRONLY) | (*nb ? O_NONBLOCK : 0);
        if (cmd == F_SETFL) { *nb = (arg & O_NONBLOCK) != 0; return 0; }
        if (cmd == F_SETPIPE_SZ || cmd == F_GETPIPE_SZ) return (int)p->cap;
    }
    long r = ret(raw(SYS_fcntl, fd, cmd, arg, 0, 0, 0));
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) return do_dup(fd, (int)r);
    return (int)r;
}
int fcntl(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long x = va_arg(a, long); va_end(a); return do_fcntl(fd, cmd, x); }
int fcntl64(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long x = va_arg(a, long); va_end(a); return do_fcntl(fd, cmd, x); }
int ioctl(int fd, unsigned long req, ...) {
    va_list a; va_start(a, req); long x = va_arg(a, long); va_end(a);
    if (simfd(fd) && fds[fd].p && req == 0x5421 /* FIONBIO */) {
        if (fds[fd].type == F_PR) fds[fd].p->nonblock_r = *(int *)x; else fds[fd].p->nonblock_w = *(int *)x;
        return 0;
    }
    return (int)ret(raw(SYS_ioctl, fd, (long)req, x, 0, 0, 0));
}
static int sim_poll(struct pollfd *pf, nfds_t n, long ms) {
    sched();
    if (eintr()) { errno = EINTR; return -1; }
    int r = poll_ready(pf, (int)n);
    if (r || ms == 0) return r;
    th[self].pf = pf;
    th[self].npf = (int)n;
    if (ms > 0) th[self].deadline = clock_ns + (u64)ms * 1000000ull;
    block(W_POLL);
    return poll_ready(pf, (int)n);
}
int poll(struct pollfd *pf, nfds_t n, int ms) {
    int any = 0;
    for (nfds_t i = 0; i < n; i++) any |= simfd(pf[i].fd);
    if (!any) return (int)ret(raw(SYS_poll, (long)pf, (long)n, ms, 0, 0, 0));
    return sim_poll(pf, n, ms);
}
int ppoll(struct pollfd *pf, nfds_t n, const struct timespec *ts, const sigset_t *s) {
    int any = 0;
    for (nfds_t i = 0; i < n; i++) any |= simfd(pf[i].fd);
    if (!any) return (int)ret(raw(SYS_ppoll, (long)pf, (long)n, (long)ts, (long)s, 8, 0));
    return sim_poll(pf, n, ts ? ts->tv_sec * 1000 + ts->tv_nsec / 1000000 : -1);
}

// ---------------------------------------------------------------- the child process

static struct { const void *fa; int from[8], to[8], n; } acts[8];

int posix_spawn_file_actions_init(posix_spawn_file_actions_t *fa) {
    for (int i = 0; i < 8; i++)
        if (acts[i].fa == fa || !acts[i].fa) { acts[i].fa = fa; acts[i].n = 0; break; }
    return ((int (*)(posix_spawn_file_actions_t *))real_fa_init)(fa);
}
int posix_spawn_file_actions_adddup2(posix_spawn_file_actions_t *fa, int a, int b) {
    for (int i = 0; i < 8; i++)
        if (acts[i].fa == fa && acts[i].n < 8) { acts[i].from[acts[i].n] = a; acts[i].to[acts[i].n++] = b; }
    return ((int (*)(posix_spawn_file_actions_t *, int, int))real_fa_dup2)(fa, a, b);
}
int posix_spawn_file_actions_destroy(posix_spawn_file_actions_t *fa) {
    for (int i = 0; i < 8; i++)
        if (acts[i].fa == fa) acts[i].fa = 0;
    return ((int (*)(posix_spawn_file_actions_t *))real_fa_destroy)(fa);
}
static int do_spawn(const posix_spawn_file_actions_t *fa) {
    sched();
    int e = hard(K_SPAWN);
    if (e) return e;
    if (fm.spawned) quit(210); // one formatter per run is what this world models
    struct pipe *pin = 0, *pout = 0;
    for (int i = 0; i < 8; i++)
        if (fa && acts[i].fa == fa)
            for (int k = 0; k < acts[i].n; k++) {
                int f = acts[i].from[k];
                if (!simfd(f)) continue;
                if (acts[i].to[k] == 0 && fds[f].type == F_PR) pin = fds[f].p;
                if (acts[i].to[k] == 1 && fds[f].type == F_PW) pout = fds[f].p;
            }
    fm.spawned = 1;
    out->fmt_spawned = 1;
    fm.sin = pin;
    fm.inherit = !pout;
    fm.sout = pout;
    if (pin) pin->readers++;
    if (pout) pout->writers++;
    note(T_SPAWN, 0);
    return 0;
}
int posix_spawnp(pid_t *restrict pid, const char *restrict f, const posix_spawn_file_actions_t *restrict fa, const posix_spawnattr_t *restrict at, char *const av[restrict], char *const ev[restrict]) {
    (void)f; (void)at; (void)av; (void)ev;
    if (!active) return ENOSYS;
    int e = do_spawn(fa);
    if (!e) *pid = FMT_PID;
    return e;
}
int posix_spawn(pid_t *restrict pid, const char *restrict f, const posix_spawn_file_actions_t *restrict fa, const posix_spawnattr_t *restrict at, char *const av[restrict], char *const ev[restrict]) {
    return posix_spawnp(pid, f, fa, at, av, ev);
}
int pidfd_spawnp(int *restrict pidfd, const char *restrict f, const posix_spawn_file_actions_t *restrict fa, const posix_spawnattr_t *restrict at, char *const av[restrict], char *const ev[restrict]) {
    (void)f; (void)at; (void)av; (void)ev;
    if (!active) return ENOSYS;
    int e = do_spawn(fa);
    if (e) return e;
    int fd = newfd();
    fds[fd].type = F_PIDFD;
    *pidfd = fd;
    return 0;
}
pid_t pidfd_getpid(int fd) { (void)fd; return FMT_PID; }
pid_t fork(void) { if (active) quit(210); return (pid_t)ret(raw(SYS_fork, 0, 0, 0, 0, 0, 0)); }
pid_t vfork(void) { if (active) quit(210); errno = ENOSYS; return -1; }
int execvp(const char *f, char *const av[]) { (void)f; (void)av; if (active) quit(210); errno = ENOSYS; return -1; }

static long do_wait(int nohang) {
    sched();
    if (!fm.spawned || fm.reaped) { errno = ECHILD; return -1; }
    int e = hard(K_WAIT);
    if (e) { errno = e; return -1; }
    if (nohang && !fm.dead) return 0;
    if (eintr()) { errno = EINTR; return -1; }
    if (!fm.dead) block(W_WAIT);
    note(T_WAIT, (u32)fm.status);
    return FMT_PID;
}
pid_t waitpid(pid_t p, int *st, int opt) {
    if (!active) return (pid_t)ret(raw(SYS_wait4, p, (long)st, opt, 0, 0, 0));
    long r = do_wait(opt & WNOHANG);
    if (r > 0) { fm.reaped = 1; if (st) *st = fm.status; }
    return (pid_t)r;
}
pid_t wait4(pid_t p, int *st, int opt, struct rusage *ru) { (void)ru; return waitpid(p, st, opt); }
int waitid(idtype_t ty, id_t id, siginfo_t *si, int opt) {
    if (!active) return (int)ret(raw(SYS_waitid, ty, id, (long)si, opt, 0, 0));
    if (si) memset(si, 0, sizeof *si);
    long r = do_wait(opt & WNOHANG);
    if (r <= 0) return (int)r;
    if (!(opt & WNOWAIT)) fm.reaped = 1;
    if (si) {
        si->si_signo = SIGCHLD;
        si->si_pid = FMT_PID;
        if (fm.status & 0x7f) { si->si_code = CLD_KILLED; si->si_status = fm.status & 0x7f; }
        else { si->si_code = CLD_EXITED; si->si_status = fm.status >> 8; }
    }
    return 0;
}
int kill(pid_t p, int sig) {
    if (!active || p != FMT_PID) return (int)ret(raw(SYS_kill, p, sig, 0, 0, 0, 0));
    if (fm.reaped) { errno = ESRCH; return -1; }
    note(T_KILL, (u32)sig);
    if (sig && !fm.dead) fm_exit(sig);
    return 0;
}

// ---------------------------------------------------------------- threads

static void *trampoline(void *a) {
    int me = (int)(intptr_t)a;
    self = me;
    wait_go(me);
    void *r = th[me].start(th[me].arg);
    th[me].done = 1;
    note(T_EXITTH, (u32)me);
    sched(); // hands the processor over and returns
    return r;
}
int pthread_create(pthread_t *restrict t, const pthread_attr_t *restrict at, void *(*f)(void *), void *restrict arg) {
    int (*r)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *) = real_pthread_create;
    if (!active) return r(t, at, f, arg);
    sched();
    int e = hard(K_THREAD);
    if (e) return e;
    if (nth_ == NTH) quit(210);
    int me = nth_;
    th[me].used = 1;
    th[me].start = f;
    th[me].arg = arg;
    e = r(t, at, trampoline, (void *)(intptr_t)me);
    if (e) quit(210);
    th[me].real = *t;
    nth_++;
    out->threads++;
    note(T_THREAD, (u32)me);
    sched();
    return 0;
}
int pthread_join(pthread_t t, void **res) {
    int (*r)(pthread_t, void **) = real_pthread_join;
    if (!active) return r(t, res);
    sched();
    for (int i = 0; i < nth_; i++)
        if (th[i].used == 1 && i != self && pthread_equal(th[i].real, t)) {
            th[self].peer = i;
            if (!th[i].done) block(W_JOIN);
            note(T_JOIN, (u32)i);
            th[i].used = 2;
            return r(t, res);
        }
    return r(t, res);
}
int sched_yield(void) { if (active) { give = 1; sched(); give = 0; } return 0; }

static long sim_futex(u32 *addr, int op, u32 val, const struct timespec *ts, u32 *addr2, u32 val3) {
    int cmd = op & FUTEX_CMD_MASK;
    (void)addr2; (void)val3;
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
        sched();
        if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
        th[self].addr = addr;
        if (ts) {
            u64 t = (u64)ts->tv_sec * 1000000000ull + (u64)ts->tv_nsec;
            th[self].deadline = cmd == FUTEX_WAIT ? clock_ns + t : (t > clock_ns ? t : clock_ns + 1);
        }
        note(T_FUTEX, 0);
        block(W_FUTEX);
        int to = th[self].timed_out && th[self].addr;
        th[self].addr = 0;
        if (to) { errno = ETIMEDOUT; return -1; }
        return 0;
    }
    if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
        long n = 0;
        for (int i = 0; i < nth_ && n < (long)val; i++)
            if (th[i].used && !th[i].done && th[i].why == W_FUTEX && th[i].addr == addr) {
                th[i].addr = 0;
                n++;
            }
        sched();
        return n;
    }
    quit(210);
    return -1;
}

// ---------------------------------------------------------------- time and randomness

// The date, the process id and the number of processors are drawn when the run asks for them.
static u64 date_s;
static int pid_, cpus_;
int clock_gettime(clockid_t c, struct timespec *ts) {
    if (!active) return (int)ret(raw(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0));
    clock_ns += 1000;
    if (c == CLOCK_REALTIME && !date_s) date_s = 1700000000ull + (in->hash_mode ? 0 : choose(100000000));
    u64 t = clock_ns + (c == CLOCK_REALTIME ? date_s * 1000000000ull : 0);
    ts->tv_sec = (time_t)(t / 1000000000ull);
    ts->tv_nsec = (long)(t % 1000000000ull);
    return 0;
}
static int sim_sleep(u64 until) {
    th[self].deadline = until > clock_ns ? until : clock_ns + 1;
    block(W_SLEEP);
    return 0;
}
int nanosleep(const struct timespec *ts, struct timespec *rem) {
    if (!active) return (int)ret(raw(SYS_nanosleep, (long)ts, (long)rem, 0, 0, 0, 0));
    return sim_sleep(clock_ns + (u64)ts->tv_sec * 1000000000ull + (u64)ts->tv_nsec);
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *ts, struct timespec *rem) {
    if (!active) return (int)-raw(SYS_clock_nanosleep, c, fl, (long)ts, (long)rem, 0, 0);
    u64 t = (u64)ts->tv_sec * 1000000000ull + (u64)ts->tv_nsec;
    return sim_sleep((fl & TIMER_ABSTIME) ? t : clock_ns + t);
}
pid_t getpid(void) {
    if (!active) return (pid_t)raw(SYS_getpid, 0, 0, 0, 0, 0, 0);
    if (!pid_) pid_ = 1000 + (in->hash_mode ? 0 : (int)choose(30000));
    return pid_;
}
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *set) {
    if (!active) return (int)ret(raw(SYS_sched_getaffinity, p, (long)n, (long)set, 0, 0, 0));
    if (!cpus_) cpus_ = 1 + (in->hash_mode ? 0 : (int)choose(16));
    memset(set, 0, n);
    for (int i = 0; i < cpus_; i++) CPU_SET_S(i, n, set);
    return 0;
}
static u64 hstate;
ssize_t getrandom(void *b, size_t n, unsigned fl) {
    if (!active) return ret(raw(SYS_getrandom, (long)b, (long)n, fl, 0, 0, 0));
    u32 w = 0;
    for (size_t i = 0; i < n; i++) {
        if (in->hash_mode) {
            if (!hstate) hstate = in->hash_mode;
            hstate = hstate * 6364136223846793005ull + 1442695040888963407ull;
            ((u8 *)b)[i] = (u8)(hstate >> 56);
        } else {
            if (i % 4 == 0) w = (u32)choose(1ull << 32);
            ((u8 *)b)[i] = (u8)(w >> (8 * (i % 4)));
        }
    }
    return (ssize_t)n;
}
int getentropy(void *b, size_t n) { getrandom(b, n, 0); return 0; }

long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (active) {
        if (n == SYS_futex) return sim_futex((u32 *)a, (int)b, (u32)c, (const struct timespec *)d, (u32 *)e, (u32)f);
        if (n == SYS_getrandom) return getrandom((void *)a, (size_t)b, (unsigned)c);
        if (n == SYS_pipe2) return pipe2((int *)a, (int)b);
        if (n == SYS_copy_file_range || n == SYS_splice || n == SYS_pidfd_open || n == SYS_clone3 || n == SYS_statx) { errno = ENOSYS; return -1; }
    }
    return ret(raw(n, a, b, c, d, e, f));
}
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) { (void)a; (void)b; (void)c; (void)d; (void)e; (void)f; errno = ENOSYS; return -1; }
ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) { (void)a; (void)b; (void)c; (void)d; (void)e; (void)f; errno = EINVAL; return -1; }
ssize_t sendfile64(int a, int b, off64_t *c, size_t d) { (void)a; (void)b; (void)c; (void)d; errno = EINVAL; return -1; }

// ---------------------------------------------------------------- memory

extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
static int no_memory(void) { return active && hard(K_MALLOC); }
void *malloc(size_t n) { if (no_memory()) { errno = ENOMEM; return 0; } return __libc_malloc(n); }
void *calloc(size_t a, size_t b) { if (no_memory()) { errno = ENOMEM; return 0; } return __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { if (no_memory()) { errno = ENOMEM; return 0; } return __libc_realloc(p, n); }
int posix_memalign(void **p, size_t a, size_t n) { if (no_memory()) return ENOMEM; *p = __libc_memalign(a, n); return *p ? 0 : ENOMEM; }
