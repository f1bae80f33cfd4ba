#include "sched.hpp"
#include <atomic>
#include <cerrno>
#include <cstdlib>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>
#include <cstdarg>
#include <sys/sysinfo.h>
#include <time.h>

namespace mc
{
[[noreturn]] void die (const std::string &key, const std::string &msg);
}

extern "C" void *__libc_malloc (size_t);
extern "C" void __libc_free (void *);
extern "C" void *__libc_calloc (size_t, size_t);
extern "C" void *__libc_realloc (void *, size_t);
extern "C" void *__libc_memalign (size_t, size_t);

namespace sched
{
unsigned processors = 4;
long fail_creation = 0;
}

namespace
{

typedef std::vector<unsigned> VC;

enum State
{
  READY,
  BLOCKED,
  DONE
};

struct Thread
{
  int id;
  State state = READY;
  const void *on = nullptr; // what it is blocked on
  bool timed = false, timed_out = false, yielded = false;
  VC vc;
  sem_t baton;
  pthread_t real;
  void *(*fn) (void *) = nullptr;
  void *arg = nullptr;
  void *ret = nullptr;
  bool detached = false, joined = false;
  long futex_woken = 0;
  std::vector<std::pair<void (*) (void *), void *> > dtors;
};

struct Access
{
  unsigned char mask;
  unsigned char kind; // 0 read, 1 write; +2 atomic
  unsigned short tid;
  unsigned clk;
};

struct Granule
{
  unsigned exec = 0;
  unsigned short n = 0, cap = 0;
  Access *a = nullptr;
};

struct Page
{
  Granule g[512];
};

struct Mutex
{
  int owner = -1;
  int depth = 0;
  VC vc;
};

bool on = false;
int in_runtime = 0;
mc::Ctx *ctx;
sched::Policy policy;
long win_from, win_to, n_points, n_threads, n_accesses, n_creations;
int bound_left;
uint64_t th;
std::vector<Thread *> *threads_p;
thread_local Thread *me = nullptr;
std::unordered_map<uintptr_t, Page *> *pages_p;
std::unordered_map<const void *, Mutex> *mutexes_p;
std::unordered_map<const void *, VC> *syncs_p;
unsigned exec_no = 0;
uintptr_t last_page = 1;
Page *last_pp = nullptr;
std::string race_msg;
long same_thread = 0;

#define threads (*threads_p)
#define pages (*pages_p)
#define mutexes (*mutexes_p)
#define syncs (*syncs_p)

void
init ()
{
  if (!threads_p)
    {
      threads_p = new std::vector<Thread *>;
      pages_p = new std::unordered_map<uintptr_t, Page *>;
      mutexes_p = new std::unordered_map<const void *, Mutex>;
      syncs_p = new std::unordered_map<const void *, VC>;
    }
}

struct In
{
  In () { ++in_runtime; }
  ~In () { --in_runtime; }
};

inline bool
managed ()
{
  return on && me && !in_runtime;
}

void
join_vc (VC &a, const VC &b)
{
  if (a.size () < b.size ())
    a.resize (b.size ());
  for (size_t i = 0; i < b.size (); ++i)
    if (a[i] < b[i])
      a[i] = b[i];
}

void
tick (Thread *t)
{
  if (int (t->vc.size ()) <= t->id)
    t->vc.resize (t->id + 1);
  ++t->vc[t->id];
}

void
acquire (const void *o)
{
  auto it = syncs.find (o);
  if (it != syncs.end ())
    join_vc (me->vc, it->second);
}

void
release (const void *o)
{
  join_vc (syncs[o], me->vc);
  tick (me);
}

inline Granule &
granule (uintptr_t a)
{
  uintptr_t p = a >> 12;
  if (p != last_page)
    {
      Page *&q = pages[p];
      if (!q)
        q = static_cast<Page *> (__libc_calloc (1, sizeof (Page)));
      last_page = p;
      last_pp = q;
    }
  return last_pp->g[(a >> 3) & 511];
}

void
clear_range (uintptr_t a, size_t n)
{
  if (n == 0)
    return;
  for (uintptr_t g = a & ~uintptr_t (7); g < a + n; g += 8)
    {
      uintptr_t p = g >> 12;
      if (p != last_page)
        {
          auto it = pages.find (p);
          if (it == pages.end ())
            {
              g = ((p + 1) << 12) - 8;
              continue;
            }
          last_page = p;
          last_pp = it->second;
        }
      last_pp->g[(g >> 3) & 511].n = 0;
    }
}

std::string
where (const void *pc)
{
  Dl_info i;
  if (dladdr (pc, &i) && i.dli_sname)
    return i.dli_sname;
  return "?";
}

void
access1 (uintptr_t addr, unsigned mask, unsigned kind, const void *pc)
{
  Granule &g = granule (addr);
  if (g.exec != exec_no)
    {
      g.exec = exec_no;
      g.n = 0;
    }
  const unsigned tid = me->id;
  const VC &vc = me->vc;
  const unsigned clk = vc[tid];
  unsigned w = 0;
  bool stored = false;
  for (unsigned i = 0; i < g.n; ++i)
    {
      Access &x = g.a[i];
      if (x.tid == tid)
        {
          if (x.mask == mask && x.kind == kind)
            {
              x.clk = clk;
              stored = true;
            }
          g.a[w++] = x;
          continue;
        }
      const bool hb = x.tid < vc.size () && x.clk <= vc[x.tid];
      if ((x.mask & mask) && ((x.kind | kind) & 1) && !((x.kind & 2) && (kind & 2)) && !hb && race_msg.empty ())
        race_msg = mc::cat ((kind & 1) ? "write" : "read", " by thread ", tid, " in ", where (pc), " is not ordered with the ", (x.kind & 1) ? "write" : "read", " by thread ", x.tid, " to the same memory");
      if (hb && (kind & 1) && (x.mask & ~mask) == 0)
        continue; // superseded
      g.a[w++] = x;
    }
  g.n = w;
  if (!stored)
    {
      if (g.n == g.cap)
        {
          g.cap = g.cap ? g.cap * 2 : 2;
          g.a = static_cast<Access *> (__libc_realloc (g.a, g.cap * sizeof (Access)));
        }
      g.a[g.n++] = Access{ (unsigned char)mask, (unsigned char)kind, (unsigned short)tid, clk };
    }
}

void
access (const void *p, size_t n, unsigned kind, const void *pc)
{
  if (!managed () || n == 0)
    return;
  In in;
  ++n_accesses;
  uintptr_t a = uintptr_t (p), e = a + n;
  while (a < e)
    {
      uintptr_t g = a & ~uintptr_t (7), ge = g + 8;
      unsigned lo = a - g, hi = (e < ge ? e : ge) - g;
      access1 (g, ((1u << hi) - 1) & ~((1u << lo) - 1), kind, pc);
      a = ge;
    }
}

template <class T>
T
next (const char *name)
{
  void *p = dlsym (RTLD_NEXT, name);
  if (!p)
    {
      fprintf (stderr, "sched: no %s\n", name);
      _exit (70);
    }
  return reinterpret_cast<T> (p);
}

void
wait_baton (Thread *t)
{
  while (sem_wait (&t->baton) != 0)
    {
    }
}

int
choose (int n)
{
  try
    {
      return ctx->choose (n);
    }
  catch (const mc::Fail &f)
    {
      mc::die (f.key, f.msg);
    }
}

// Chooses the next thread to run; the running thread is one of the candidates if it is ready.
Thread *
pick ()
{
  std::vector<Thread *> r;
  const bool self_ready = me->state == READY;
  for (int round = 0; round < 2 && r.empty (); ++round)
    {
      if (self_ready && (!me->yielded || round))
        r.push_back (me);
      for (Thread *t : threads)
        if (t != me && t->state == READY && (!t->yielded || round))
          r.push_back (t);
      if (r.empty () && round == 0)
        for (Thread *t : threads)
          t->yielded = false;
    }
  if (r.empty ())
    {
      for (Thread *t : threads)
        if (t->state == BLOCKED && t->timed)
          {
            t->state = READY;
            t->timed_out = true;
            t->timed = false;
            return t;
          }
      return nullptr;
    }
  if (r.size () == 1)
    return r[0];
  const long k = n_points++;
  size_t v = 0;
  const bool cur = r[0] == me;
  if (cur && ++same_thread > 20000)
    {
      same_thread = 0;
      return r[1];
    }
  switch (policy)
    {
    case sched::FIFO:
      break;
    case sched::CHILD:
      v = r.size () - 1;
      break;
    case sched::LIFO:
      v = cur ? 0 : r.size () - 1;
      break;
    case sched::ROBIN:
      {
        // the next higher identifier
        int best = -1;
        for (size_t i = 0; i < r.size (); ++i)
          if (r[i] != me && r[i]->id > me->id && (best < 0 || r[i]->id < r[best]->id))
            best = int (i);
        if (best < 0)
          for (size_t i = 0; i < r.size (); ++i)
            if (r[i] != me && (best < 0 || r[i]->id < r[best]->id))
              best = int (i);
        v = best;
        break;
      }
    case sched::EXPLORE:
      if (k >= win_from && k < win_to && (!cur || bound_left > 0))
        {
          v = choose (int (r.size ()));
          if (cur && v)
            --bound_left;
        }
      break;
    }
  if (r[v] != me)
    same_thread = 0;
  th = mc::mix (th, r[v]->id + 1);
  return r[v];
}

void
deadlock ()
{
  std::string s = "no thread can continue:";
  for (Thread *t : threads)
    if (t->state == BLOCKED)
      s += mc::cat (" thread ", t->id, " waits;");
  mc::die ("deadlock", s);
}

// Gives other threads the opportunity to run. Called with in_runtime > 0.
void
point ()
{
  Thread *t = pick ();
  if (!t)
    deadlock ();
  if (t != me)
    {
      const int keep = in_runtime;
      in_runtime = 0;
      sem_post (&t->baton);
      Thread *self = me;
      wait_baton (self);
      in_runtime = keep;
    }
}

void
block (const void *o, bool timed = false)
{
  me->state = BLOCKED;
  me->on = o;
  me->timed = timed;
  me->timed_out = false;
  point ();
}

int
wake (const void *o, int n)
{
  int w = 0;
  for (Thread *t : threads)
    if (w < n && t->state == BLOCKED && t->on == o)
      {
        t->state = READY;
        t->on = nullptr;
        t->timed = false;
        ++w;
      }
  for (Thread *t : threads)
    t->yielded = false;
  return w;
}

void *
wrapper (void *p)
{
  me = static_cast<Thread *> (p);
  wait_baton (me);
  {
    // the stack may have belonged to another thread
    In in;
    pthread_attr_t at;
    void *lo;
    size_t n;
    if (pthread_getattr_np (me->real, &at) == 0)
      {
        pthread_attr_getstack (&at, &lo, &n);
        char here;
        clear_range (uintptr_t (lo), uintptr_t (&here) - uintptr_t (lo));
        pthread_attr_destroy (&at);
      }
  }
  me->ret = me->fn (me->arg);
  while (!me->dtors.empty ())
    {
      auto d = me->dtors.back ();
      me->dtors.pop_back ();
      d.first (d.second);
    }
  ++in_runtime;
  release (me);
  me->state = DONE;
  wake (me, 1 << 30);
  Thread *t = pick ();
  void *r = me->ret;
  if (!t)
    {
      // all remaining threads are blocked
      deadlock ();
    }
  me = nullptr;
  in_runtime = 0;
  sem_post (&t->baton);
  return r;
}

Thread *
find (pthread_t p)
{
  for (size_t i = threads.size (); i-- > 0;)
    if (pthread_equal (threads[i]->real, p) && !threads[i]->joined)
      return threads[i];
  return nullptr;
}

} // namespace

namespace sched
{

void
begin (mc::Ctx &c, Policy p, long from, long to, int bound)
{
  init ();
  ctx = &c;
  policy = p;
  win_from = from;
  win_to = to;
  bound_left = bound;
  n_points = n_threads = n_accesses = n_creations = 0;
  th = 1;
  race_msg.clear ();
  same_thread = 0;
  bool live = false;
  for (Thread *t : threads)
    if (t->id != 0 && t->state != DONE)
      live = true;
  if (!live)
    {
      for (Thread *t : threads)
        {
          sem_destroy (&t->baton);
          delete t;
        }
      threads.clear ();
      syncs.clear ();
      mutexes.clear ();
      ++exec_no;
      if (pages.size () > 4096)
        {
          for (auto &q : pages)
            {
              for (Granule &g : q.second->g)
                __libc_free (g.a);
              __libc_free (q.second);
            }
          pages.clear ();
          last_page = 1;
        }
      Thread *t = new Thread;
      t->id = 0;
      sem_init (&t->baton, 0, 0);
      t->real = pthread_self ();
      t->vc.assign (1, 1);
      threads.push_back (t);
    }
  me = threads[0];
  me->state = READY;
  on = true;
}

void
end ()
{
  {
    In in;
    // let remaining threads run
    for (int i = 0; i < 1000000; ++i)
      {
        bool other = false;
        for (Thread *t : threads)
          if (t != me && t->state == READY)
            other = true;
        if (!other)
          break;
        policy = ROBIN;
        me->yielded = true;
        point ();
      }
    me->yielded = false;
  }
  on = false;
  fail_creation = 0;
  if (!race_msg.empty ())
    ctx->fail ("race", "unsynchronised memory accesses: " + race_msg);
}

long switch_points () { return n_points; }
long threads_created () { return n_threads; }
long accesses () { return n_accesses; }
uint64_t trace_hash () { return th; }
int self_id () { return me ? me->id : 0; }
bool active () { return on; }
Quiet::Quiet () { ++in_runtime; }
Quiet::~Quiet () { --in_runtime; }

} // namespace sched

// ---------------------------------------------------------------- memory

#define API extern "C" __attribute__ ((visibility ("default")))

extern "C" size_t malloc_usable_size (void *) noexcept;
static void *
fresh (void *p, size_t n)
{
  if (on && me && p && !in_runtime)
    {
      In in;
      clear_range (uintptr_t (p), malloc_usable_size (p));
    }
  return p;
}

API void *malloc (size_t n) { return fresh (__libc_malloc (n), n); }
API void *calloc (size_t a, size_t b) { return fresh (__libc_calloc (a, b), a * b); }
API void *realloc (void *p, size_t n) { void *q = __libc_realloc (p, n); return q == p ? q : fresh (q, n); }
API void *memalign (size_t a, size_t n) { return fresh (__libc_memalign (a, n), n); }
API void *aligned_alloc (size_t a, size_t n) { return fresh (__libc_memalign (a, n), n); }
API int
posix_memalign (void **p, size_t a, size_t n)
{
  *p = fresh (__libc_memalign (a, n), n);
  return *p ? 0 : ENOMEM;
}
extern "C" size_t malloc_usable_size (void *) noexcept;
API void
free (void *p)
{
  if (on && me && p && !in_runtime)
    {
      size_t n = malloc_usable_size (p);
      access (p, n, 1, __builtin_return_address (0));
    }
  __libc_free (p);
}

// ---------------------------------------------------------------- instrumentation

API void __tsan_init () {}
API void __tsan_func_entry (void *) {}
API void __tsan_func_exit () {}
API void __tsan_vptr_update (void **p, void *) { access (p, 8, 1, __builtin_return_address (0)); }
API void __tsan_vptr_read (void **p) { access (p, 8, 0, __builtin_return_address (0)); }
API void __tsan_ignore_thread_begin () {}
API void __tsan_ignore_thread_end () {}

#define RW(N)                                                                                                          \
  API void __tsan_read##N (void *p) { access (p, N, 0, __builtin_return_address (0)); }                                \
  API void __tsan_write##N (void *p) { access (p, N, 1, __builtin_return_address (0)); }                               \
  API void __tsan_unaligned_read##N (void *p) { access (p, N, 0, __builtin_return_address (0)); }                      \
  API void __tsan_unaligned_write##N (void *p) { access (p, N, 1, __builtin_return_address (0)); }                     \
  API void __tsan_volatile_read##N (void *p) { access (p, N, 0, __builtin_return_address (0)); }                       \
  API void __tsan_volatile_write##N (void *p) { access (p, N, 1, __builtin_return_address (0)); }                      \
  API void __tsan_read_write##N (void *p) { access (p, N, 1, __builtin_return_address (0)); }                          \
  API void __tsan_unaligned_read_write##N (void *p) { access (p, N, 1, __builtin_return_address (0)); }
RW (1) RW (2) RW (4) RW (8) RW (16)

API void __tsan_read_range (void *p, unsigned long n) { access (p, n, 0, __builtin_return_address (0)); }
API void __tsan_write_range (void *p, unsigned long n) { access (p, n, 1, __builtin_return_address (0)); }
API void *
__tsan_memcpy (void *d, const void *s, size_t n)
{
  access (s, n, 0, __builtin_return_address (0));
  access (d, n, 1, __builtin_return_address (0));
  return memcpy (d, s, n);
}
API void *
__tsan_memmove (void *d, const void *s, size_t n)
{
  access (s, n, 0, __builtin_return_address (0));
  access (d, n, 1, __builtin_return_address (0));
  return memmove (d, s, n);
}
API void *
__tsan_memset (void *d, int c, size_t n)
{
  access (d, n, 1, __builtin_return_address (0));
  return memset (d, c, n);
}

static void
before_atomic (const void *p, size_t n, unsigned kind, int mo, const void *pc)
{
  if (!managed ())
    return;
  {
    In in;
    point ();
    for (Thread *t : threads)
      if (kind & 1)
        t->yielded = false;
    if (mo == 1 || mo == 2 || mo == 4 || mo == 5)
      acquire (p);
  }
  access (p, n, kind | 2, pc);
}

static void
after_atomic (const void *p, int mo)
{
  if (!managed ())
    return;
  if (mo >= 3)
    {
      In in;
      release (p);
    }
}

#define ATOMIC(B, T)                                                                                                   \
  API T __tsan_atomic##B##_load (const volatile T *p, int mo)                                                          \
  {                                                                                                                    \
    before_atomic ((const void *)p, sizeof (T), 0, mo, __builtin_return_address (0));                                  \
    return *p;                                                                                                         \
  }                                                                                                                    \
  API void __tsan_atomic##B##_store (volatile T *p, T v, int mo)                                                       \
  {                                                                                                                    \
    before_atomic ((const void *)p, sizeof (T), 1, 0, __builtin_return_address (0));                                   \
    *p = v;                                                                                                            \
    after_atomic ((const void *)p, mo);                                                                                \
  }                                                                                                                    \
  API T __tsan_atomic##B##_exchange (volatile T *p, T v, int mo)                                                       \
  {                                                                                                                    \
    before_atomic ((const void *)p, sizeof (T), 1, mo, __builtin_return_address (0));                                  \
    T o = *p;                                                                                                          \
    *p = v;                                                                                                            \
    after_atomic ((const void *)p, mo);                                                                                \
    return o;                                                                                                          \
  }                                                                                                                    \
  API int __tsan_atomic##B##_compare_exchange_strong (volatile T *p, T *e, T v, int mo, int)                           \
  {                                                                                                                    \
    before_atomic ((const void *)p, sizeof (T), 1, mo, __builtin_return_address (0));                                  \
    int ok = *p == *e;                                                                                                 \
    if (ok)                                                                                                            \
      {                                                                                                                \
        *p = v;                                                                                                        \
        after_atomic ((const void *)p, mo);                                                                            \
      }                                                                                                                \
    else                                                                                                               \
      *e = *p;                                                                                                         \
    return ok;                                                                                                         \
  }                                                                                                                    \
  API int __tsan_atomic##B##_compare_exchange_weak (volatile T *p, T *e, T v, int mo, int f)                           \
  {                                                                                                                    \
    return __tsan_atomic##B##_compare_exchange_strong (p, e, v, mo, f);                                                \
  }                                                                                                                    \
  API T __tsan_atomic##B##_compare_exchange_val (volatile T *p, T e, T v, int mo, int f)                               \
  {                                                                                                                    \
    __tsan_atomic##B##_compare_exchange_strong (p, &e, v, mo, f);                                                      \
    return e;                                                                                                          \
  }
#define FETCH(B, T, NAME, EXPR)                                                                                        \
  API T __tsan_atomic##B##_fetch_##NAME (volatile T *p, T v, int mo)                                                   \
  {                                                                                                                    \
    before_atomic ((const void *)p, sizeof (T), 1, mo, __builtin_return_address (0));                                  \
    T o = *p;                                                                                                          \
    *p = (T) (EXPR);                                                                                                     \
    after_atomic ((const void *)p, mo);                                                                                \
    return o;                                                                                                          \
  }
#define ALLF(B, T)                                                                                                     \
  ATOMIC (B, T)                                                                                                        \
  FETCH (B, T, add, o + v)                                                                                             \
  FETCH (B, T, sub, o - v)                                                                                             \
  FETCH (B, T, and, o &v)                                                                                              \
  FETCH (B, T, or, o | v)                                                                                              \
  FETCH (B, T, xor, o ^ v)                                                                                             \
  FETCH (B, T, nand, ~(o & v))
typedef unsigned char u8;
ALLF (8, u8)
typedef unsigned short u16;
ALLF (16, u16)
typedef unsigned u32;
ALLF (32, u32)
typedef unsigned long u64;
typedef unsigned __int128 u128;
ALLF (64, u64)
ALLF (128, u128)
static char fence_object;
API void
__tsan_atomic_thread_fence (int)
{
  if (!managed ())
    return;
  In in;
  point ();
  acquire (&fence_object);
  release (&fence_object);
}
API void __tsan_atomic_signal_fence (int) {}

// ---------------------------------------------------------------- threads

API int
pthread_create (pthread_t *pt, const pthread_attr_t *at, void *(*fn) (void *), void *arg)
{
  static auto real = next<int (*) (pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)> ("pthread_create");
  if (!managed ())
    return real (pt, at, fn, arg);
  In in;
  if (++n_creations == sched::fail_creation)
    return EAGAIN;
  Thread *t = new Thread;
  t->id = int (threads.size ());
  t->fn = fn;
  t->arg = arg;
  sem_init (&t->baton, 0, 0);
  t->vc = me->vc;
  t->vc.resize (t->id + 1);
  t->vc[t->id] = 1;
  tick (me);
  int r = real (&t->real, at, wrapper, t);
  if (r)
    {
      fprintf (stderr, "sched: cannot create a thread\n");
      _exit (70);
    }
  if (pt)
    *pt = t->real;
  threads.push_back (t);
  ++n_threads;
  point ();
  return 0;
}

API int
pthread_join (pthread_t p, void **ret)
{
  static auto real = next<int (*) (pthread_t, void **)> ("pthread_join");
  if (!managed ())
    return real (p, ret);
  In in;
  Thread *t = find (p);
  if (!t)
    return ESRCH;
  point ();
  while (t->state != DONE)
    block (t);
  acquire (t);
  t->joined = true;
  void *v;
  int k = in_runtime;
  int r = real (p, &v);
  in_runtime = k;
  if (ret)
    *ret = t->ret;
  return r;
}

API int
pthread_detach (pthread_t p)
{
  static auto real = next<int (*) (pthread_t)> ("pthread_detach");
  if (on && me)
    if (Thread *t = find (p))
      t->detached = true;
  return real (p);
}

API int
pthread_mutex_lock (pthread_mutex_t *m)
{
  static auto real = next<int (*) (pthread_mutex_t *)> ("pthread_mutex_lock");
  if (!managed ())
    return real (m);
  In in;
  point ();
  Mutex *x = &mutexes[m];
  if (x->owner == me->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP)
    {
      ++x->depth;
      return 0;
    }
  while (x->owner >= 0)
    {
      block (m);
      x = &mutexes[m];
    }
  x->owner = me->id;
  x->depth = 1;
  acquire (m);
  return 0;
}

API int
pthread_mutex_trylock (pthread_mutex_t *m)
{
  static auto real = next<int (*) (pthread_mutex_t *)> ("pthread_mutex_trylock");
  if (!managed ())
    return real (m);
  In in;
  point ();
  Mutex &x = mutexes[m];
  if (x.owner == me->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP)
    {
      ++x.depth;
      return 0;
    }
  if (x.owner >= 0)
    return EBUSY;
  x.owner = me->id;
  x.depth = 1;
  acquire (m);
  return 0;
}

static void
unlock (pthread_mutex_t *m)
{
  Mutex &x = mutexes[m];
  if (--x.depth > 0)
    return;
  x.owner = -1;
  release (m);
  wake (m, 1 << 30);
}

API int
pthread_mutex_unlock (pthread_mutex_t *m)
{
  static auto real = next<int (*) (pthread_mutex_t *)> ("pthread_mutex_unlock");
  if (!managed ())
    return real (m);
  In in;
  unlock (m);
  point ();
  return 0;
}

// Readers and writers exclude each other and themselves.
API int pthread_rwlock_rdlock (pthread_rwlock_t *m) { return managed () ? pthread_mutex_lock ((pthread_mutex_t *)m) : next<int (*) (pthread_rwlock_t *)> ("pthread_rwlock_rdlock") (m); }
API int pthread_rwlock_wrlock (pthread_rwlock_t *m) { return managed () ? pthread_mutex_lock ((pthread_mutex_t *)m) : next<int (*) (pthread_rwlock_t *)> ("pthread_rwlock_wrlock") (m); }
API int pthread_rwlock_unlock (pthread_rwlock_t *m) { return managed () ? pthread_mutex_unlock ((pthread_mutex_t *)m) : next<int (*) (pthread_rwlock_t *)> ("pthread_rwlock_unlock") (m); }

static int
cond_wait (pthread_cond_t *c, pthread_mutex_t *m, bool timed)
{
  In in;
  const int depth = mutexes[m].depth;
  mutexes[m].depth = 1;
  unlock (m);
  block (c, timed);
  const bool to = me->timed_out;
  acquire (c);
  Mutex *x = &mutexes[m];
  while (x->owner >= 0)
    {
      block (m);
      x = &mutexes[m];
    }
  x->owner = me->id;
  x->depth = depth;
  acquire (m);
  return to ? ETIMEDOUT : 0;
}

API int
pthread_cond_wait (pthread_cond_t *c, pthread_mutex_t *m)
{
  static auto real = next<int (*) (pthread_cond_t *, pthread_mutex_t *)> ("pthread_cond_wait");
  return managed () ? cond_wait (c, m, false) : real (c, m);
}
API int
pthread_cond_timedwait (pthread_cond_t *c, pthread_mutex_t *m, const timespec *t)
{
  static auto real = next<int (*) (pthread_cond_t *, pthread_mutex_t *, const timespec *)> ("pthread_cond_timedwait");
  return managed () ? cond_wait (c, m, true) : real (c, m, t);
}
API int
pthread_cond_clockwait (pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const timespec *t)
{
  static auto real = next<int (*) (pthread_cond_t *, pthread_mutex_t *, clockid_t, const timespec *)> ("pthread_cond_clockwait");
  return managed () ? cond_wait (c, m, true) : real (c, m, k, t);
}
API int
pthread_cond_signal (pthread_cond_t *c)
{
  static auto real = next<int (*) (pthread_cond_t *)> ("pthread_cond_signal");
  if (!managed ())
    return real (c);
  In in;
  release (c);
  wake (c, 1);
  point ();
  return 0;
}
API int
pthread_cond_broadcast (pthread_cond_t *c)
{
  static auto real = next<int (*) (pthread_cond_t *)> ("pthread_cond_broadcast");
  if (!managed ())
    return real (c);
  In in;
  release (c);
  wake (c, 1 << 30);
  point ();
  return 0;
}

API int
pthread_once (pthread_once_t *o, void (*f) ())
{
  static auto real = next<int (*) (pthread_once_t *, void (*) ())> ("pthread_once");
  if (!managed ())
    return real (o, f);
  volatile int *s = reinterpret_cast<volatile int *> (o);
  {
    In in;
    point ();
    while (*s == 1)
      block (o);
    if (*s == 2)
      {
        acquire (o);
        return 0;
      }
    *s = 1;
  }
  try
    {
      f ();
    }
  catch (...)
    {
      In in;
      *s = 0;
      wake (o, 1 << 30);
      throw;
    }
  In in;
  *s = 2;
  release (o);
  wake (o, 1 << 30);
  return 0;
}

// Guards of function-local static variables: byte 0 complete, byte 1 in progress.
API int
__cxa_guard_acquire (long long *g)
{
  volatile char *b = reinterpret_cast<volatile char *> (g);
  if (!managed ())
    {
      if (b[0])
        return 0;
      b[1] = 1;
      return 1;
    }
  In in;
  point ();
  while (!b[0] && b[1])
    block (g);
  if (b[0])
    {
      acquire (g);
      return 0;
    }
  b[1] = 1;
  return 1;
}
API void
__cxa_guard_release (long long *g)
{
  volatile char *b = reinterpret_cast<volatile char *> (g);
  b[1] = 0;
  b[0] = 1;
  if (managed ())
    {
      In in;
      release (g);
      wake (g, 1 << 30);
    }
}
API void
__cxa_guard_abort (long long *g)
{
  volatile char *b = reinterpret_cast<volatile char *> (g);
  b[1] = 0;
  if (managed ())
    {
      In in;
      wake (g, 1 << 30);
    }
}

extern "C" int __cxa_thread_atexit_impl (void (*) (void *), void *, void *);
API int
__cxa_thread_atexit (void (*f) (void *), void *o, void *dso)
{
  if (on && me && me->id)
    {
      In in;
      me->dtors.push_back ({ f, o });
      return 0;
    }
  return __cxa_thread_atexit_impl (f, o, dso);
}

static int
yield_point ()
{
  In in;
  me->yielded = true;
  point ();
  me->yielded = false;
  return 0;
}
API int
sched_yield ()
{
  static auto real = next<int (*) ()> ("sched_yield");
  return managed () ? yield_point () : real ();
}
API int
nanosleep (const timespec *a, timespec *b)
{
  static auto real = next<int (*) (const timespec *, timespec *)> ("nanosleep");
  return managed () ? yield_point () : real (a, b);
}
API int
clock_nanosleep (clockid_t k, int fl, const timespec *a, timespec *b)
{
  static auto real = next<int (*) (clockid_t, int, const timespec *, timespec *)> ("clock_nanosleep");
  return managed () ? yield_point () : real (k, fl, a, b);
}
API int
usleep (useconds_t u)
{
  static auto real = next<int (*) (useconds_t)> ("usleep");
  return managed () ? yield_point () : real (u);
}

API long
syscall (long nr, ...)
{
  static auto real = next<long (*) (long, ...)> ("syscall");
  va_list ap;
  va_start (ap, nr);
  long a[6];
  for (long &v : a)
    v = va_arg (ap, long);
  va_end (ap);
  if (!managed () || nr != SYS_futex)
    return real (nr, a[0], a[1], a[2], a[3], a[4], a[5]);
  In in;
  int *u = reinterpret_cast<int *> (a[0]);
  switch (int (a[1]) & 127 & ~FUTEX_CLOCK_REALTIME)
    {
    case FUTEX_WAIT:
    case FUTEX_WAIT_BITSET:
      point ();
      if (*u != int (a[2]))
        {
          errno = EAGAIN;
          return -1;
        }
      block (u, a[3] != 0);
      if (me->timed_out)
        {
          errno = ETIMEDOUT;
          return -1;
        }
      return 0;
    case FUTEX_WAKE:
    case FUTEX_WAKE_BITSET:
      {
        int n = wake (u, int (a[2]));
        point ();
        return n;
      }
    }
  return real (nr, a[0], a[1], a[2], a[3], a[4], a[5]);
}

extern "C" unsigned hw () __asm__ ("_ZNSt6thread20hardware_concurrencyEv");
extern "C" __attribute__ ((visibility ("default"))) unsigned
hw ()
{
  return sched::processors;
}
API int
get_nprocs ()
{
  return int (sched::processors ? sched::processors : 1);
}
