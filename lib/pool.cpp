// A pool of threads behind pthread_create and pthread_join: threads of the code under test are made of parked ones,
// because creating threads is expensive here. Threads run concurrently as usual.
#include <atomic>
#include <dlfcn.h>
#include <linux/futex.h>
#include <mutex>
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <vector>

// Fails the thread creations of these numbers (counted from 0), used to inject faults.
long pool_created = 0;
long pool_fail_at = -1;

namespace
{

struct Worker
{
  std::atomic<int> state{ 0 }; // 0 parked, 1 has a job, 2 has done the job, 3 has done the job and is not joined
  std::atomic<bool> detached{ false };
  void *(*f) (void *);
  void *a, *r;
  pthread_t id;
};

std::mutex *lock = new std::mutex;
std::vector<Worker *> *all = new std::vector<Worker *>, *idle = new std::vector<Worker *>;

void
futex (std::atomic<int> *p, int op, int v)
{
  syscall (SYS_futex, reinterpret_cast<int *> (p), op | FUTEX_PRIVATE_FLAG, v, nullptr, nullptr, 0);
}

void *
loop (void *q)
{
  Worker *w = static_cast<Worker *> (q);
  for (;;)
    {
      int s;
      while ((s = w->state.load ()) != 1)
        futex (&w->state, FUTEX_WAIT, s);
      w->r = w->f (w->a);
      w->state.store (2);
      futex (&w->state, FUTEX_WAKE, 1);
    }
}

void
forked ()
{
  lock = new std::mutex;
  all = new std::vector<Worker *>;
  idle = new std::vector<Worker *>;
}

} // namespace

extern "C" int
pthread_create (pthread_t *t, const pthread_attr_t *at, void *(*f) (void *), void *a)
{
  static auto real = reinterpret_cast<int (*) (pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)> (dlsym (RTLD_NEXT, "pthread_create"));
  static int once = pthread_atfork (nullptr, nullptr, forked);
  (void)once;
  if (pool_created++ == pool_fail_at)
    return 11; // EAGAIN
  std::lock_guard<std::mutex> g (*lock);
  Worker *w;
  if (idle->empty ())
    {
      w = new Worker;
      const int e = real (&w->id, nullptr, loop, w);
      if (e != 0)
        return e;
      all->push_back (w);
    }
  else
    {
      w = idle->back ();
      idle->pop_back ();
    }
  w->f = f;
  w->a = a;
  *t = w->id;
  w->state.store (1);
  futex (&w->state, FUTEX_WAKE, 1);
  return 0;
}

extern "C" int
pthread_join (pthread_t t, void **r)
{
  Worker *w = nullptr;
  {
    std::lock_guard<std::mutex> g (*lock);
    for (Worker *v : *all)
      if (v->id == t)
        w = v;
  }
  if (!w)
    return 3; // ESRCH
  int s;
  while ((s = w->state.load ()) != 2)
    futex (&w->state, FUTEX_WAIT, s);
  if (r)
    *r = w->r;
  w->state.store (0);
  std::lock_guard<std::mutex> g (*lock);
  idle->push_back (w);
  return 0;
}
