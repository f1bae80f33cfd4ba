// Preloaded into the programs: fails one thread creation or decomposition.
//   SHIM_THREAD=k SHIM_LAPACK=k,info (numbers from 0), SHIM_COUNT=file for the numbers reached
//   info 1001 to 1006: an exception is raised instead
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <new>
#include <pthread.h>
#include <stdexcept>
#include <system_error>
#include <unistd.h>

namespace
{
struct Unspecific : std::exception
{
  const char *
  what () const noexcept override
  {
    return "something else";
  }
};
}

static void
raise (int what)
{
  switch (what)
    {
    case 1001:
      throw std::bad_alloc ();
    case 1002:
      throw Unspecific ();
    case 1003:
      throw std::out_of_range ("out of range");
    case 1004:
      throw std::overflow_error ("overflow");
    case 1005:
      throw std::bad_array_new_length ();
    case 1006:
      throw std::system_error (12, std::system_category (), "system");
    }
}

static std::atomic<long> threads{ 0 }, decompositions{ 0 };
static long thread_at = -1, lapack_at = -1;
static int lapack_info = 1;

__attribute__ ((constructor)) static void
begin ()
{
  const char *s;
  if ((s = getenv ("SHIM_THREAD")))
    thread_at = atol (s);
  if ((s = getenv ("SHIM_LAPACK")))
    {
      lapack_at = atol (s);
      lapack_info = atoi (strchr (s, ',') + 1);
    }
}

__attribute__ ((destructor)) static void
end ()
{
  if (const char *s = getenv ("SHIM_COUNT"))
    {
      char b[100];
      int n = snprintf (b, sizeof b, "%ld %ld\n", threads.load (), decompositions.load ());
      int f = open (s, O_WRONLY | O_CREAT | O_TRUNC, 0600);
      if (write (f, b, n) != n)
        _exit (99);
      close (f);
    }
}

extern "C" int
pthread_create (pthread_t *t, const pthread_attr_t *at, void *(*f) (void *), void *a)
{
  static auto real = reinterpret_cast<int (*) (pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)> (dlsym (RTLD_NEXT, "pthread_create"));
  if (threads++ == thread_at)
    return 11; // EAGAIN
  return real (t, at, f, a);
}

#define DECOMPOSE(name, params, args, lwork)                                                                                                                                                          \
  extern "C" void name params                                                                                                                                                                         \
  {                                                                                                                                                                                                   \
    static auto real = reinterpret_cast<void(*) params> (dlsym (RTLD_NEXT, #name));                                                                                                                   \
    if (lwork >= 0 && decompositions++ == lapack_at)                                                                                                                                                  \
      raise (lapack_info), info = lapack_info; \
    else                                                                                                                                                                                              \
      real args;                                                                                                                                                                                      \
  }

DECOMPOSE (dsyevd_, (const char &job, const char &uplo, const int &n, double A[], const int &lda, double w[], double work[], const int &lwork, int iwork[], const int &liwork, int &info),
           (job, uplo, n, A, lda, w, work, lwork, iwork, liwork, info), lwork)
DECOMPOSE (dsyevr_,
           (const char &job, const char &range, const char &uplo, const int &n, double A[], const int &lda, const double &vl, const double &vu, const int &il, const int &iu, const double &abstol, int &m, double w[], double Z[], const int &ldz, int isupp[], double work[], const int &lwork, int iwork[], const int &liwork, int &info),
           (job, range, uplo, n, A, lda, vl, vu, il, iu, abstol, m, w, Z, ldz, isupp, work, lwork, iwork, liwork, info), lwork)
DECOMPOSE (dsyevx_,
           (const char &job, const char &range, const char &uplo, const int &n, double A[], const int &lda, const double &vl, const double &vu, const int &il, const int &iu, const double &abstol, int &m, double w[], double Z[], const int &ldz, double work[], const int &lwork, int iwork[], int ifail[], int &info),
           (job, range, uplo, n, A, lda, vl, vu, il, iu, abstol, m, w, Z, ldz, work, lwork, iwork, ifail, info), lwork)
