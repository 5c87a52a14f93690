/* The environment of the code under test, under the model checker's control.
 *
 * Every function here takes the place of the C library's function of the same
 * name for everything linked into the checker (Rust's standard library
 * included).  Three things can be switched on, each independently:
 *
 *  - a scheduler: threads created while it is on run one at a time, and every
 *    lock, wait, wake, sleep, join, thread creation, poll and blocking socket
 *    call is a point at which the explorer decides who runs next;
 *  - a virtual clock: sleeping takes no time and moves the clock;
 *  - a private network: internet sockets become abstract unix sockets of this
 *    process, so that nothing leaves it and delivery is immediate;
 *  - fault hooks: calls on sockets and files are offered to the explorer,
 *    which may answer them itself.
 *
 * With all of them off every function goes straight to the C library.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <time.h>
#include <unistd.h>

static void *resolve(void **p, const char *name) {
  if (!*p) {
    void *f = NULL;
    if (strncmp(name, "pthread_cond_", 13) == 0) f = dlvsym(RTLD_NEXT, name, "GLIBC_2.3.2");
    if (!f) f = dlsym(RTLD_NEXT, name);
    *p = f;
  }
  return *p;
}
#define REAL(name) ((__typeof__(real_##name))resolve((void **)&real_##name, #name))
#define DECL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__)

DECL(int, pthread_create, pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
DECL(int, pthread_join, pthread_t, void **);
DECL(int, pthread_detach, pthread_t);
DECL(int, pthread_mutex_lock, pthread_mutex_t *);
DECL(int, pthread_mutex_trylock, pthread_mutex_t *);
DECL(int, pthread_mutex_unlock, pthread_mutex_t *);
DECL(int, pthread_cond_wait, pthread_cond_t *, pthread_mutex_t *);
DECL(int, pthread_cond_timedwait, pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
DECL(int, pthread_cond_signal, pthread_cond_t *);
DECL(int, pthread_cond_broadcast, pthread_cond_t *);
DECL(int, pthread_rwlock_rdlock, pthread_rwlock_t *);
DECL(int, pthread_rwlock_wrlock, pthread_rwlock_t *);
DECL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t *);
DECL(int, pthread_rwlock_trywrlock, pthread_rwlock_t *);
DECL(int, pthread_rwlock_unlock, pthread_rwlock_t *);
DECL(int, nanosleep, const struct timespec *, struct timespec *);
DECL(int, sched_yield, void);
DECL(int, clock_gettime, clockid_t, struct timespec *);
DECL(int, gettimeofday, struct timeval *, void *);
DECL(int, epoll_wait, int, struct epoll_event *, int, int);
DECL(int, socket, int, int, int);
DECL(int, bind, int, const struct sockaddr *, socklen_t);
DECL(int, connect, int, const struct sockaddr *, socklen_t);
DECL(int, accept4, int, struct sockaddr *, socklen_t *, int);
DECL(int, getsockname, int, struct sockaddr *, socklen_t *);
DECL(int, getpeername, int, struct sockaddr *, socklen_t *);
DECL(int, setsockopt, int, int, int, const void *, socklen_t);
DECL(int, getsockopt, int, int, int, void *, socklen_t *);
DECL(ssize_t, recv, int, void *, size_t, int);
DECL(ssize_t, recvfrom, int, void *, size_t, int, struct sockaddr *, socklen_t *);
DECL(ssize_t, send, int, const void *, size_t, int);
DECL(ssize_t, sendto, int, const void *, size_t, int, const struct sockaddr *, socklen_t);
DECL(ssize_t, read, int, void *, size_t);
DECL(ssize_t, write, int, const void *, size_t);
DECL(ssize_t, writev, int, const struct iovec *, int);
DECL(ssize_t, readv, int, const struct iovec *, int);
DECL(int, open64, const char *, int, ...);
DECL(int, fcntl, int, int, ...);
DECL(void, exit, int);
DECL(int, sigwait, const sigset_t *, int *);
DECL(int, pthread_sigmask, int, const sigset_t *, sigset_t *);

static int g_argc;
static char **g_argv;
/* Replace an argument of the process; -1 if there is none at that place. */
int mc_arg(int i, char *s) {
  if (i >= g_argc) return -1;
  g_argv[i] = s;
  return 0;
}
int mc_argc(void) { return g_argc; }

__attribute__((constructor)) static void init(int argc, char **argv) {
  g_argc = argc;
  g_argv = argv;
  (void)REAL(pthread_create);
  (void)REAL(pthread_join);
  (void)REAL(pthread_detach);
  (void)REAL(pthread_mutex_lock);
  (void)REAL(pthread_mutex_trylock);
  (void)REAL(pthread_mutex_unlock);
  (void)REAL(pthread_cond_wait);
  (void)REAL(pthread_cond_timedwait);
  (void)REAL(pthread_cond_signal);
  (void)REAL(pthread_cond_broadcast);
  (void)REAL(pthread_rwlock_rdlock);
  (void)REAL(pthread_rwlock_wrlock);
  (void)REAL(pthread_rwlock_tryrdlock);
  (void)REAL(pthread_rwlock_trywrlock);
  (void)REAL(pthread_rwlock_unlock);
  (void)REAL(nanosleep);
  (void)REAL(sched_yield);
  (void)REAL(clock_gettime);
  (void)REAL(gettimeofday);
  (void)REAL(epoll_wait);
  (void)REAL(socket);
  (void)REAL(bind);
  (void)REAL(connect);
  (void)REAL(accept4);
  (void)REAL(getsockname);
  (void)REAL(getpeername);
  (void)REAL(setsockopt);
  (void)REAL(getsockopt);
  (void)REAL(recv);
  (void)REAL(recvfrom);
  (void)REAL(send);
  (void)REAL(sendto);
  (void)REAL(read);
  (void)REAL(write);
  (void)REAL(writev);
  (void)REAL(readv);
  (void)REAL(open64);
  (void)REAL(fcntl);
  (void)REAL(exit);
  (void)REAL(sigwait);
  (void)REAL(pthread_sigmask);
}

/* ---- provided by the Rust side ------------------------------------------ */
extern uint32_t mc_choose(uint32_t n);
extern void mc_sched_state(uint64_t h);
/* 0: go ahead (possibly with *n bytes at most), 1: return *ret / errno */
extern int mc_io(int op, int fd, const void *buf, size_t len, size_t *n, ssize_t *ret, int *err);
enum { OP_RECV = 0, OP_SEND = 1, OP_CONNECT = 2, OP_READ = 3, OP_OPEN = 4, OP_ACCEPT = 5, OP_WRITE = 6, OP_AFTER_RECV = 7, OP_AFTER_READ = 8, OP_WAIT = 9, OP_BLOCK = 10 };

/* ---- switches ------------------------------------------------------------ */
static volatile int sched_on;   /* 0 off, 1 on, 2 frozen */
volatile int mc_vclock_on;
volatile int mc_vnet_on;
/* abandoned executions keep their addresses to themselves */
volatile int mc_vnet_epoch;
volatile int mc_hook_on;
/* is the hook told of a thread about to block? */
volatile int mc_block_on;
static volatile uint64_t vnow;  /* ns since the virtual start */
static uint64_t vbase = 1600000000ull * 1000000000ull;

uint64_t mc_vnow(void) { return vnow; }
void mc_vset(uint64_t n) { vnow = n; }
void mc_vbase(uint64_t secs) { vbase = secs * 1000000000ull; }
void mc_vadvance(uint64_t n) { vnow += n; }

/* ---- scheduler ----------------------------------------------------------- */
enum st { RUN, MUTEX, COND, JOIN, SLEEP, EPOLL, RWR, RWW, FDIO, NEW, DONE };
static const char *stname[] = {"running", "mutex", "condvar", "join", "sleep", "poll",
                               "rwlock-r", "rwlock-w", "socket", "new", "done"};
#define MAXT 2048
struct thr {
  int id, st;
  void *obj;
  int fd;
  short events;
  int timed, signalled;
  uint64_t deadline, order, steps, random;
  sem_t go;
  pthread_t real;
  int have_real, joined;
  void *(*fn)(void *);
  void *arg;
};
static struct thr *T[MAXT];
static int nT;
static __thread struct thr *self;
static sem_t main_sem;
static int outcome; /* 1 all done, 2 nothing can run, 3 too many steps, 4 too many threads */
static uint64_t nsteps, maxsteps, order_seq;
static int devs_left, devs0, timers_early;

static int managed(void) { return sched_on && self; }
static void park_forever(void) { for (;;) pause(); }

struct mtx { void *a; int owner; int count; int readers; };
#define MT 16384
static struct mtx M[MT];
static struct mtx *mtx(void *a) {
  uint64_t h = ((uint64_t)a >> 3) * 0x9E3779B97F4A7C15ull;
  unsigned i = (h >> 40) % MT;
  while (M[i].a && M[i].a != a) i = (i + 1) % MT;
  M[i].a = a;
  return &M[i];
}

static int enabled(struct thr *t) {
  switch (t->st) {
    case RUN: case NEW: return 1;
    case MUTEX: return mtx(t->obj)->owner == 0;
    case RWR: return mtx(t->obj)->owner == 0;
    case RWW: return mtx(t->obj)->owner == 0 && mtx(t->obj)->readers == 0;
    case COND: if (t->signalled) return 1; break;
    case JOIN: return ((struct thr *)t->obj)->st == DONE;
    case EPOLL: case FDIO: {
      struct pollfd p = {t->fd, t->events, 0};
      if (syscall(SYS_poll, &p, 1, 0) > 0) return 1;
      break;
    }
    case SLEEP: break;
    case DONE: return 0;
  }
  return t->timed && t->deadline <= vnow;
}

static void finish(int why) {
  outcome = why;
  sched_on = 2;
  sem_post(&main_sem);
}

/* Decide who runs next; NULL when the run is over. */
static struct thr *pick(struct thr *me) {
  struct thr *e[MAXT];
  int n = 0, i, done = 0;
  if (++nsteps > maxsteps) { finish(3); return NULL; }
  uint64_t h = 1469598103934665603ull;
  for (i = 0; i < nT; i++) {
    h = (h ^ T[i]->steps) * 1099511628211ull;
    h = (h ^ (uint64_t)T[i]->st) * 1099511628211ull;
  }
  mc_sched_state(h);
  /* the default comes first: go on, else the next thread round robin */
  if (me && enabled(me)) e[n++] = me;
  int start = me ? me->id : 0;
  for (i = 1; i <= nT; i++) {
    struct thr *t = T[(start + i) % nT];
    if (t->st == DONE) { done++; continue; }
    if (t != me && enabled(t)) e[n++] = t;
  }
  /* the sleeper that is due first */
  struct thr *s = NULL;
  for (i = 0; i < nT; i++) {
    struct thr *t = T[i];
    if (t->st == DONE || t->st == RUN || t->st == NEW || !t->timed || t->deadline <= vnow) continue;
    if (t->st == COND && t->signalled) continue;
    if (!s || t->deadline < s->deadline || (t->deadline == s->deadline && t->order < s->order)) s = t;
  }
  if (n == 0) {
    if (s) {
      /* everyone waits: time passes */
      struct thr *c[MAXT];
      int m = 0;
      for (i = 0; i < nT; i++) {
        struct thr *t = T[i];
        if (t->st != DONE && t->timed && t->deadline == s->deadline && t != s && !(t->st == COND && t->signalled)) c[m++] = t;
      }
      vnow = s->deadline;
      if (m > 0 && devs_left > 0) {
        unsigned k = mc_choose(m + 1);
        if (sched_on == 2) return NULL;
        if (k > 0) { devs_left--; return c[k - 1]; }
      }
      return s;
    }
    int all = 1;
    for (i = 0; i < nT; i++) if (T[i]->st != DONE) all = 0;
    finish(all ? 1 : 2);
    return NULL;
  }
  if (devs_left <= 0) return e[0];
  int extra = (timers_early && s) ? 1 : 0;
  if (n + extra == 1) return e[0];
  unsigned k = mc_choose(n + extra);
  if (sched_on == 2) return NULL;
  if (k > 0) devs_left--;
  if ((int)k == n) { vnow = s->deadline; return s; }
  return e[k];
}

/* Give the token to whoever is next; come back when it is ours again. */
static void reschedule(void) {
  struct thr *me = self, *t = pick(me);
  me->steps++;
  if (!t) { park_forever(); }
  if (t != me) {
    sem_post(&t->go);
    while (sem_wait(&me->go) != 0) {}
  }
  me->st = RUN;
  me->timed = 0;
}

static void point(void) {
  if (sched_on == 2) park_forever();
  self->st = RUN;
  self->timed = 0;
  reschedule();
}

static void block(int st, void *obj) {
  if (sched_on == 2) park_forever();
  if (mc_hook_on && mc_block_on) {
    size_t n = 0;
    ssize_t ret;
    int err, e = errno;
    mc_io(OP_BLOCK, -1, NULL, 0, &n, &ret, &err);
    errno = e;
  }
  self->st = st;
  self->obj = obj;
  self->order = order_seq++;
  reschedule();
}

static void *tramp(void *p) {
  struct thr *t = p;
  self = t;
  while (sem_wait(&t->go) != 0) {}
  t->st = RUN;
  void *r = t->fn(t->arg);
  self = NULL;
  t->st = DONE;
  if (sched_on == 1) {
    struct thr *n = pick(t);
    if (n) sem_post(&n->go);
  }
  return r;
}

void mc_sched_begin(uint64_t max_steps, int devs, int early) {
  nT = 0;
  memset(M, 0, sizeof M);
  maxsteps = max_steps;
  nsteps = 0;
  order_seq = 0;
  devs_left = devs0 = devs;
  timers_early = early;
  outcome = 0;
  sem_init(&main_sem, 0, 0);
  vnow = 0;
  sched_on = 1;
}

/* Run the threads created since mc_sched_begin until they are done. */
int mc_sched_go(void) {
  struct thr *t = pick(NULL);
  if (t) sem_post(&t->go);
  while (sem_wait(&main_sem) != 0) {}
  sched_on = 0;
  return outcome;
}
uint64_t mc_sched_steps(void) { return nsteps; }
void mc_sched_abort(void) { if (sched_on == 1) finish(5); park_forever(); }
/* stop at the next point (from inside a decision) */
void mc_sched_stop(void) { if (sched_on == 1) finish(5); }
void mc_sched_devs(int n) { devs0 += n - devs_left; devs_left = n; }
int mc_sched_devs_used(void) { return devs0 - devs_left; }
/* describe the threads that are not done */
int mc_sched_left(char *out, int n) {
  int k = 0, left = 0;
  out[0] = 0;
  for (int i = 0; i < nT; i++)
    if (T[i]->st != DONE) {
      left++;
      if (k < n - 40) k += snprintf(out + k, n - k, "%s#%d:%s", left > 1 ? " " : "", i, stname[T[i]->st]);
    }
  return left;
}
int mc_sched_thread_state(int i) { return i < nT ? T[i]->st : -1; }
int mc_sched_nthreads(void) { return nT; }
int mc_sched_self(void) { return self ? self->id : -1; }
void mc_sched_point(void) { if (managed()) point(); }
/* Let every other thread run until all of them wait. */
void mc_sched_sleep(uint64_t ns) {
  if (!managed()) return;
  self->timed = 1;
  self->deadline = vnow + ns;
  block(SLEEP, NULL);
}

int pthread_create(pthread_t *th, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  if (sched_on != 1 || (nT > 0 && !self && outcome != 0))
    return REAL(pthread_create)(th, at, fn, arg);
  if (nT == MAXT) { finish(4); if (self) park_forever(); return EAGAIN; }
  struct thr *t = calloc(1, sizeof *t);
  t->id = nT;
  t->st = NEW;
  t->fn = fn;
  t->arg = arg;
  sem_init(&t->go, 0, 0);
  T[nT++] = t;
  int r = REAL(pthread_create)(&t->real, at, tramp, t);
  if (r) { nT--; free(t); return r; }
  *th = t->real;
  t->have_real = 1;
  if (self) point();
  return 0;
}

static void released(pthread_t th) {
  for (int i = nT - 1; i >= 0; i--)
    if (T[i]->have_real && !T[i]->joined && pthread_equal(T[i]->real, th)) { T[i]->joined = 1; return; }
}

int pthread_join(pthread_t th, void **ret) {
  if (managed()) {
    for (int i = nT - 1; i >= 0; i--)
      if (T[i]->have_real && pthread_equal(T[i]->real, th)) {
        point();
        if (T[i]->st != DONE) block(JOIN, T[i]);
        break;
      }
  }
  int r = REAL(pthread_join)(th, ret);
  if (managed() && r == 0) released(th);
  return r;
}

int pthread_detach(pthread_t th) {
  if (managed()) released(th);
  return REAL(pthread_detach)(th);
}
/* threads that run, or that nobody has joined or detached */
int mc_sched_held(void) {
  int n = 0;
  for (int i = 0; i < nT; i++) n += !(T[i]->joined && T[i]->st == DONE);
  return n;
}

static int recursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

static void take(pthread_mutex_t *m) {
  struct mtx *x = mtx(m);
  while (x->owner) { block(MUTEX, m); x = mtx(m); }
  x->owner = self->id + 1;
  x->count = 1;
}

int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!managed()) return REAL(pthread_mutex_lock)(m);
  struct mtx *x = mtx(m);
  if (x->owner == self->id + 1 && recursive(m)) { x->count++; return 0; }
  point();
  take(m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!managed()) return REAL(pthread_mutex_trylock)(m);
  point();
  struct mtx *x = mtx(m);
  if (x->owner == self->id + 1 && recursive(m)) { x->count++; return 0; }
  if (x->owner) return EBUSY;
  x->owner = self->id + 1;
  x->count = 1;
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!managed()) return REAL(pthread_mutex_unlock)(m);
  if (sched_on == 2) park_forever();
  struct mtx *x = mtx(m);
  if (--x->count <= 0) { x->owner = 0; x->count = 0; }
  return 0;
}
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, int timed, uint64_t deadline) {
  struct mtx *x = mtx(m);
  x->owner = 0;
  x->count = 0;
  self->signalled = 0;
  self->timed = timed;
  self->deadline = deadline;
  block(COND, c);
  int timedout = !self->signalled;
  self->signalled = 0;
  take(m);
  return timedout ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (!managed()) return REAL(pthread_cond_wait)(c, m);
  return cond_wait(c, m, 0, 0);
}
static uint64_t ts_ns(const struct timespec *t) { return (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec; }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
  if (!managed()) return REAL(pthread_cond_timedwait)(c, m, ts);
  uint64_t d = ts_ns(ts);
  return cond_wait(c, m, 1, d > vbase ? d - vbase : 0);
}
static void wake(pthread_cond_t *c, int all) {
  for (;;) {
    struct thr *b = NULL;
    for (int i = 0; i < nT; i++)
      if (T[i]->st == COND && T[i]->obj == c && !T[i]->signalled && (!b || T[i]->order < b->order)) b = T[i];
    if (!b) return;
    b->signalled = 1;
    if (!all) return;
  }
}
int pthread_cond_signal(pthread_cond_t *c) {
  if (!managed()) return REAL(pthread_cond_signal)(c);
  point();
  wake(c, 0);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
  if (!managed()) return REAL(pthread_cond_broadcast)(c);
  point();
  wake(c, 1);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) {
  if (!managed()) return REAL(pthread_rwlock_rdlock)(l);
  point();
  while (mtx(l)->owner) block(RWR, l);
  mtx(l)->readers++;
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) {
  if (!managed()) return REAL(pthread_rwlock_tryrdlock)(l);
  point();
  if (mtx(l)->owner) return EBUSY;
  mtx(l)->readers++;
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *l) {
  if (!managed()) return REAL(pthread_rwlock_wrlock)(l);
  point();
  while (mtx(l)->owner || mtx(l)->readers) block(RWW, l);
  mtx(l)->owner = self->id + 1;
  return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) {
  if (!managed()) return REAL(pthread_rwlock_trywrlock)(l);
  point();
  if (mtx(l)->owner || mtx(l)->readers) return EBUSY;
  mtx(l)->owner = self->id + 1;
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
  if (!managed()) return REAL(pthread_rwlock_unlock)(l);
  if (sched_on == 2) park_forever();
  struct mtx *x = mtx(l);
  if (x->owner == self->id + 1) x->owner = 0;
  else if (x->readers > 0) x->readers--;
  return 0;
}

/* ---- time ----------------------------------------------------------------- */
int nanosleep(const struct timespec *d, struct timespec *rem) {
  if (managed()) {
    self->timed = 1;
    self->deadline = vnow + ts_ns(d);
    block(SLEEP, NULL);
    return 0;
  }
  if (mc_vclock_on && sched_on != 1) {
    vnow += ts_ns(d);
    return 0;
  }
  return REAL(nanosleep)(d, rem);
}
int sched_yield(void) {
  if (managed()) {
    self->timed = 1;
    self->deadline = vnow + 1000;
    block(SLEEP, NULL);
    return 0;
  }
  return REAL(sched_yield)();
}
int clock_gettime(clockid_t c, struct timespec *ts) {
  if ((mc_vclock_on || managed()) && (c == CLOCK_REALTIME || c == CLOCK_MONOTONIC || c == CLOCK_REALTIME_COARSE || c == CLOCK_MONOTONIC_COARSE)) {
    uint64_t n = vbase + vnow;
    ts->tv_sec = n / 1000000000ull;
    ts->tv_nsec = n % 1000000000ull;
    return 0;
  }
  return REAL(clock_gettime)(c, ts);
}
int gettimeofday(struct timeval *tv, void *tz) {
  if (mc_vclock_on || managed()) {
    uint64_t n = vbase + vnow;
    tv->tv_sec = n / 1000000000ull;
    tv->tv_usec = n % 1000000000ull / 1000;
    return 0;
  }
  return REAL(gettimeofday)(tv, tz);
}

/* ---- randomness: hash maps get the same seed in every execution --------------- */
#define CALL6 \
  va_list ap; va_start(ap, nr); \
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); \
  va_end(ap)
volatile int mc_real_random;
/* straight to the kernel: no hook, no scheduling point */
long mc_raw_syscall(long nr, ...) {
  CALL6;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  long r;
  __asm__ volatile("syscall" : "=a"(r) : "a"(nr), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}
long syscall(long nr, ...) {
  CALL6;
  if (nr == SYS_getrandom && !mc_real_random) {
    memset((void *)a, 0x5a, (size_t)b);
    if (managed()) {
      /* each thread its own, or identifiers would collide */
      uint64_t x = 0x9E3779B97F4A7C15ull * (uint64_t)(self->id + 1) + 0xD1B54A32D192ED03ull * ++self->random;
      for (long i = 0; i < b; i++) {
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        ((unsigned char *)a)[i] = (unsigned char)(x >> 32);
      }
    }
    return b;
  }
  if (nr == SYS_accept4) return accept4((int)a, (struct sockaddr *)b, (socklen_t *)c, (int)d);
  return mc_raw_syscall(nr, a, b, c, d, e, f);
}

/* ---- polling and blocking calls -------------------------------------------- */
int epoll_wait(int ep, struct epoll_event *ev, int max, int timeout) {
  if (!managed()) return REAL(epoll_wait)(ep, ev, max, timeout);
  if (mc_hook_on) {
    size_t n = (size_t)(timeout < 0 ? -1 : timeout);
    ssize_t ret;
    int err;
    mc_io(OP_WAIT, ep, NULL, n, &n, &ret, &err);
  }
  point();
  int r = REAL(epoll_wait)(ep, ev, max, 0);
  if (r != 0 || timeout == 0) return r;
  self->fd = ep;
  self->events = POLLIN;
  self->timed = timeout > 0;
  self->deadline = vnow + (uint64_t)(timeout > 0 ? timeout : 0) * 1000000ull;
  block(EPOLL, NULL);
  return REAL(epoll_wait)(ep, ev, max, 0);
}

/* a socket call by a scheduled thread that would block: let others run */
static void wait_fd(int fd, short events) {
  if (!managed()) return;
  int fl = fcntl(fd, F_GETFL);
  if (fl < 0 || (fl & O_NONBLOCK)) return;
  struct pollfd p = {fd, events, 0};
  if (syscall(SYS_poll, &p, 1, 0) > 0) return;
  struct timeval tv = {0, 0};
  socklen_t l = sizeof tv;
  REAL(getsockopt)(fd, SOL_SOCKET, events == POLLIN ? SO_RCVTIMEO : SO_SNDTIMEO, &tv, &l);
  self->fd = fd;
  self->events = events;
  self->timed = tv.tv_sec || tv.tv_usec;
  self->deadline = vnow + (uint64_t)tv.tv_sec * 1000000000ull + (uint64_t)tv.tv_usec * 1000ull;
  block(FDIO, NULL);
}
static int is_socket(int fd) {
  struct stat st;
  return fstat(fd, &st) == 0 && S_ISSOCK(st.st_mode);
}

static int hooked(int op, int fd, const void *b, size_t *n, ssize_t *ret) {
  int err = 0;
  if (!mc_hook_on) return 0;
  size_t len = *n;
  if (mc_io(op, fd, b, len, n, ret, &err)) {
    if (*ret < 0) errno = err;
    return 1;
  }
  return 0;
}
static void after(int op, int fd, ssize_t r) {
  if (!mc_hook_on) return;
  int e = errno, err;
  size_t n = 0;
  ssize_t ret = r < 0 ? -e : r;
  mc_io(op, fd, NULL, 0, &n, &ret, &err);
  errno = e;
}

ssize_t recv(int fd, void *b, size_t n, int fl) {
  ssize_t r;
  if (hooked(OP_RECV, fd, b, &n, &r)) return r;
  wait_fd(fd, POLLIN);
  r = REAL(recv)(fd, b, n, managed() ? fl | MSG_DONTWAIT : fl);
  after(OP_AFTER_RECV, fd, r);
  return r;
}
static void fake_in(struct sockaddr *a, socklen_t *l, int port);
ssize_t recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *l) {
  ssize_t r;
  if (hooked(OP_RECV, fd, b, &n, &r)) { if (r >= 0 && a && l) fake_in(a, l, 9); return r; }
  wait_fd(fd, POLLIN);
  if (managed()) fl |= MSG_DONTWAIT;
  if (mc_vnet_on && a && l) {
    r = REAL(recvfrom)(fd, b, n, fl, NULL, NULL);
    if (r >= 0) fake_in(a, l, 9);
  } else
    r = REAL(recvfrom)(fd, b, n, fl, a, l);
  after(OP_AFTER_RECV, fd, r);
  return r;
}
ssize_t send(int fd, const void *b, size_t n, int fl) {
  ssize_t r;
  if (hooked(OP_SEND, fd, b, &n, &r)) return r;
  wait_fd(fd, POLLOUT);
  return REAL(send)(fd, b, n, fl);
}
ssize_t read(int fd, void *b, size_t n) {
  ssize_t r;
  if (mc_hook_on || managed()) {
    if (is_socket(fd)) return recv(fd, b, n, 0);
    if (hooked(OP_READ, fd, b, &n, &r)) return r;
    r = REAL(read)(fd, b, n);
    after(OP_AFTER_READ, fd, r);
    return r;
  }
  return REAL(read)(fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) {
  ssize_t r;
  if (mc_hook_on || managed()) {
    if (is_socket(fd)) return send(fd, b, n, MSG_NOSIGNAL);
    if (hooked(OP_WRITE, fd, b, &n, &r)) return r;
  }
  return REAL(write)(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if ((mc_hook_on || managed()) && c > 0 && is_socket(fd)) {
    int i = 0;
    while (i + 1 < c && v[i].iov_len == 0) i++;
    return send(fd, v[i].iov_base, v[i].iov_len, MSG_NOSIGNAL);
  }
  return REAL(writev)(fd, v, c);
}
ssize_t readv(int fd, const struct iovec *v, int c) {
  if ((mc_hook_on || managed()) && c > 0 && is_socket(fd)) {
    int i = 0;
    while (i + 1 < c && v[i].iov_len == 0) i++;
    return recv(fd, v[i].iov_base, v[i].iov_len, 0);
  }
  return REAL(readv)(fd, v, c);
}
int open64(const char *p, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  int mode = va_arg(ap, int);
  va_end(ap);
  ssize_t r;
  size_t n = strlen(p);
  if (hooked(OP_OPEN, -1, p, &n, &r)) return (int)r;
  return REAL(open64)(p, fl, mode);
}

/* ---- private network -------------------------------------------------------- */
#define MAXFD 65536
static unsigned short fd_port[MAXFD]; /* port an inet socket was bound to */
static unsigned char fd_inet[MAXFD];
static int next_port = 40000;

static void fake_in(struct sockaddr *a, socklen_t *l, int port) {
  struct sockaddr_in s;
  memset(&s, 0, sizeof s);
  s.sin_family = AF_INET;
  s.sin_port = htons(port);
  s.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  memcpy(a, &s, *l < sizeof s ? *l : sizeof s);
  *l = sizeof s;
}
static socklen_t un_name(struct sockaddr_un *u, int port, int type) {
  memset(u, 0, sizeof *u);
  u->sun_family = AF_UNIX;
  int k = snprintf(u->sun_path + 1, sizeof u->sun_path - 1, "cernan-mc-%d-%d-%d-%d", getpid(), mc_vnet_epoch, port, type);
  return offsetof(struct sockaddr_un, sun_path) + 1 + k;
}
static int port_of(const struct sockaddr *a) {
  if (a->sa_family == AF_INET) return ntohs(((struct sockaddr_in *)a)->sin_port);
  if (a->sa_family == AF_INET6) return ntohs(((struct sockaddr_in6 *)a)->sin6_port);
  return -1;
}
static int is_inet(const struct sockaddr *a) { return a->sa_family == AF_INET || a->sa_family == AF_INET6; }
static int sock_type(int fd) {
  int t = 0;
  socklen_t l = sizeof t;
  REAL(getsockopt)(fd, SOL_SOCKET, SO_TYPE, &t, &l);
  return t;
}
static int vfd(int fd) { return mc_vnet_on && fd >= 0 && fd < MAXFD && fd_inet[fd]; }

int socket(int d, int t, int p) {
  if (!mc_vnet_on || (d != AF_INET && d != AF_INET6)) return REAL(socket)(d, t, p);
  int fd = REAL(socket)(AF_UNIX, t, 0);
  if (fd >= 0 && fd < MAXFD) { fd_inet[fd] = 1; fd_port[fd] = 0; }
  return fd;
}
int bind(int fd, const struct sockaddr *a, socklen_t l) {
  if (!vfd(fd) || !is_inet(a)) return REAL(bind)(fd, a, l);
  int port = port_of(a);
  if (port == 0) port = next_port++;
  struct sockaddr_un u;
  socklen_t n = un_name(&u, port, sock_type(fd));
  int r = REAL(bind)(fd, (struct sockaddr *)&u, n);
  if (r == 0) fd_port[fd] = port;
  return r;
}
int connect(int fd, const struct sockaddr *a, socklen_t l) {
  ssize_t r;
  size_t z = is_inet(a) ? (size_t)port_of(a) : 0;
  if (hooked(OP_CONNECT, fd, NULL, &z, &r)) return (int)r;
  if (!vfd(fd) || !is_inet(a)) return REAL(connect)(fd, a, l);
  struct sockaddr_un u;
  socklen_t n = un_name(&u, port_of(a), sock_type(fd));
  return REAL(connect)(fd, (struct sockaddr *)&u, n);
}
int accept4(int fd, struct sockaddr *a, socklen_t *l, int fl) {
  ssize_t r;
  size_t z = 0;
  if (hooked(OP_ACCEPT, fd, NULL, &z, &r)) return (int)r;
  wait_fd(fd, POLLIN);
  if (!vfd(fd)) return REAL(accept4)(fd, a, l, fl);
  int c = REAL(accept4)(fd, NULL, NULL, fl);
  if (c >= 0 && c < MAXFD) {
    fd_inet[c] = 1;
    fd_port[c] = fd_port[fd];
    if (a && l) fake_in(a, l, 50000 + c % 10000);
  }
  return c;
}
int accept(int fd, struct sockaddr *a, socklen_t *l) { return accept4(fd, a, l, 0); }
/* a duplicate of a private-network socket is one too */
int fcntl(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  int r = REAL(fcntl)(fd, cmd, arg);
  if ((cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && r >= 0 && r < MAXFD && vfd(fd)) {
    fd_inet[r] = 1;
    fd_port[r] = fd_port[fd];
  }
  return r;
}
int getsockname(int fd, struct sockaddr *a, socklen_t *l) {
  if (!vfd(fd)) return REAL(getsockname)(fd, a, l);
  fake_in(a, l, fd_port[fd]);
  return 0;
}
int getpeername(int fd, struct sockaddr *a, socklen_t *l) {
  if (!vfd(fd)) return REAL(getpeername)(fd, a, l);
  struct sockaddr_un u;
  socklen_t n = sizeof u;
  int r = REAL(getpeername)(fd, (struct sockaddr *)&u, &n);
  if (r == 0) fake_in(a, l, 50000 + fd % 10000);
  return r;
}
int setsockopt(int fd, int lv, int o, const void *v, socklen_t n) {
  int r = REAL(setsockopt)(fd, lv, o, v, n);
  if (r < 0 && vfd(fd)) return 0;
  return r;
}
int getsockopt(int fd, int lv, int o, void *v, socklen_t *n) {
  int r = REAL(getsockopt)(fd, lv, o, v, n);
  if (r < 0 && vfd(fd) && v && n) { memset(v, 0, *n); return 0; }
  return r;
}
ssize_t sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t l) {
  ssize_t r;
  if (hooked(OP_SEND, fd, b, &n, &r)) return r;
  if (vfd(fd) && a && is_inet(a)) {
    struct sockaddr_un u;
    socklen_t k = un_name(&u, port_of(a), sock_type(fd));
    return REAL(sendto)(fd, b, n, fl, (struct sockaddr *)&u, k);
  }
  return REAL(sendto)(fd, b, n, fl, a, l);
}

/* ---- single stepping --------------------------------------------------------- */
/* Run f(arg) one machine instruction at a time; after instruction number `at`
 * (counting from 1) call g(arg2) once.  Returns the number of instructions. */
#include <signal.h>
static volatile uint64_t ss_n, ss_at, ss_at2;
static void (*ss_g)(int);
static void on_trap(int s, siginfo_t *i, void *c) {
  (void)s; (void)i; (void)c;
  ss_n++;
  if (ss_n == ss_at) ss_g(0);
  if (ss_n == ss_at2) ss_g(1);
}
uint64_t mc_single_step(void (*f)(void *), void *arg, uint64_t at, uint64_t at2, void (*g)(int)) {
  struct sigaction sa, old;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_trap;
  sa.sa_flags = SA_SIGINFO;
  sigaction(SIGTRAP, &sa, &old);
  ss_n = 0; ss_at = at; ss_at2 = at2; ss_g = g;
  __asm__ volatile("pushfq; orq $0x100, (%%rsp); popfq" ::: "memory", "cc");
  f(arg);
  __asm__ volatile("pushfq; andq $~0x100, (%%rsp); popfq" ::: "memory", "cc");
  sigaction(SIGTRAP, &old, NULL);
  return ss_n;
}

/* ---- watching words of memory --------------------------------------------------- */
/* While it is on, g(i, k) is called right before the k-th access (from 1) of
 * word i, in the thread that makes it. */
#include <sys/mman.h>
static union {
  struct {
    uintptr_t page[64], addr[256];
    uint32_t seen[256];
    int npages, naddr;
    void (*g)(int, int);
    struct sigaction segv, trap;
  } w;
  char pad[8192];
} W __attribute__((aligned(4096)));

static void watch_protect(int prot) {
  for (int i = 0; i < W.w.npages; i++) mc_raw_syscall(SYS_mprotect, W.w.page[i], 4096l, (long)prot, 0l, 0l, 0l);
}
static void on_segv(int s, siginfo_t *si, void *c) {
  (void)s;
  ucontext_t *u = c;
  uintptr_t a = (uintptr_t)si->si_addr;
  int mine = 0;
  for (int i = 0; i < W.w.npages; i++) mine |= W.w.page[i] == (a & ~4095ul);
  watch_protect(PROT_READ | PROT_WRITE);
  if (!mine) { sigaction(SIGSEGV, &W.w.segv, NULL); return; }
  for (int i = 0; i < W.w.naddr; i++)
    if (a >= W.w.addr[i] && a < W.w.addr[i] + 8) W.w.g(i, (int)++W.w.seen[i]);
  u->uc_mcontext.gregs[REG_EFL] |= 0x100;
}
static void on_stepped(int s, siginfo_t *si, void *c) {
  (void)s; (void)si;
  ucontext_t *u = c;
  u->uc_mcontext.gregs[REG_EFL] &= ~0x100l;
  watch_protect(PROT_NONE);
}
void mc_watch(const uintptr_t *addr, int n, void (*g)(int, int)) {
  memset(&W, 0, sizeof W);
  W.w.g = g;
  for (int i = 0; i < n && i < 256; i++) {
    uintptr_t p = addr[i] & ~4095ul;
    int k = 0;
    while (k < W.w.npages && W.w.page[k] != p) k++;
    if (k == W.w.npages) { if (k == 64) continue; W.w.page[W.w.npages++] = p; }
    W.w.addr[W.w.naddr++] = addr[i];
  }
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_flags = SA_SIGINFO;
  sa.sa_sigaction = on_segv;
  sigaction(SIGSEGV, &sa, &W.w.segv);
  sa.sa_sigaction = on_stepped;
  sigaction(SIGTRAP, &sa, &W.w.trap);
  watch_protect(PROT_NONE);
}
void mc_unwatch(void) {
  watch_protect(PROT_READ | PROT_WRITE);
  sigaction(SIGSEGV, &W.w.segv, NULL);
  sigaction(SIGTRAP, &W.w.trap, NULL);
}


/* ---- the process: its end, and signals sent to it ------------------------------ */
static int exit_code = -1;
int mc_exit_code(void) { return exit_code; }
void exit(int code) {
  if (managed()) {
    exit_code = code;
    mc_sched_abort();
  }
  REAL(exit)(code);
  __builtin_unreachable();
}
static int sig_pipe[2] = {-1, -1};
static int sig_open(void) {
  if (sig_pipe[0] < 0) return pipe2(sig_pipe, O_NONBLOCK | O_CLOEXEC);
  return 0;
}
/* The first thread takes every signal it does not block, and the process ends
 * by it; one it blocks waits for somebody who asks for it. */
static sigset_t blocked, pending;
static void sig_settle(void) {
  for (int i = 1; i < 32; i++)
    if (sigismember(&pending, i) && !sigismember(&blocked, i)) {
      exit_code = 128 + i;
      mc_sched_abort();
    }
}
/* Send a signal to the process under test. */
void mc_signal(int sig) {
  unsigned char c = sig;
  sigaddset(&pending, sig);
  sig_settle();
  if (sig_open() == 0) syscall(SYS_write, sig_pipe[1], &c, 1);
}
int mc_blocked(int sig) { return sigismember(&blocked, sig); }
int pthread_sigmask(int how, const sigset_t *set, sigset_t *old) {
  int r = REAL(pthread_sigmask)(how, set, old);
  if (managed() && self->id == 0 && set) {
    sigset_t now;
    if (REAL(pthread_sigmask)(SIG_BLOCK, NULL, &now) == 0) {
      blocked = now;
      sig_settle();
    }
  }
  return r;
}
int sigwait(const sigset_t *set, int *sig) {
  if (!managed()) return REAL(sigwait)(set, sig);
  unsigned char c;
  sig_open();
  for (;;) {
    if (syscall(SYS_read, sig_pipe[0], &c, 1) == 1) break;
    self->fd = sig_pipe[0];
    self->events = POLLIN;
    block(FDIO, NULL);
  }
  *sig = c;
  sigdelset(&pending, c);
  return 0;
}

/* ---- librdkafka ------------------------------------------------------------
 * Its client is replaced (linker option --wrap) by one the harness plays; this
 * is the one function with variable arguments. */
struct mc_record {
  const char *topic;
  const void *value, *key;
  size_t value_len, key_len;
  void *opaque, *headers;
  int64_t timestamp;
  int32_t partition;
  int flags;
};
extern int mc_kafka_produce(void *rk, const struct mc_record *r);

int __wrap_rd_kafka_producev(void *rk, ...) {
  struct mc_record r;
  memset(&r, 0, sizeof r);
  r.partition = -1;
  va_list ap;
  va_start(ap, rk);
  int t;
  while ((t = va_arg(ap, int)) != 0) switch (t) {
      case 1: r.topic = va_arg(ap, const char *); break;
      case 3: r.partition = va_arg(ap, int32_t); break;
      case 4: r.value = va_arg(ap, const void *); r.value_len = va_arg(ap, size_t); break;
      case 5: r.key = va_arg(ap, const void *); r.key_len = va_arg(ap, size_t); break;
      case 6: r.opaque = va_arg(ap, void *); break;
      case 7: r.flags = va_arg(ap, int); break;
      case 8: r.timestamp = va_arg(ap, int64_t); break;
      case 10: r.headers = va_arg(ap, void *); break;
      default: va_end(ap); return -186; /* invalid argument */
    }
  va_end(ap);
  return mc_kafka_produce(rk, &r);
}
