#include "lapack_wrap.hpp"
#include <cmath>
#include <string>
namespace mc
{
[[noreturn]] void die (const std::string &key, const std::string &msg);
}
extern "C" __attribute__ ((weak)) void *__asan_region_is_poisoned (void *begin, unsigned long size);

// The arrays passed to the solver must be as large as it requires (the solver itself is not instrumented).
static void
room (const char *f, const char *what, const void *p, long n, unsigned long size)
{
  if (n > 0 && (!p || (__asan_region_is_poisoned && __asan_region_is_poisoned (const_cast<void *> (p), n * size))))
    mc::die ("memory", std::string ("array ") + what + " passed to " + f + " has not the " + std::to_string (n) + " elements required");
}
#define ROOM(p, n) room (__func__ + 7, #p, p, n, sizeof (*p))

namespace lapackw
{
bool normalise = false;
long fail_at = 0, calls = 0;
int fail_info = 1, fail_done = 0;

static void
norm (int n, double *Z)
{
  if (normalise)
    for (int j = 0; j < n; ++j)
      {
        double *z = Z + long (j) * n;
        int b = 0;
        for (int i = 1; i < n; ++i)
          if (std::fabs (z[i]) > std::fabs (z[b]) + 1e-6)
            b = i;
        if (z[b] < 0)
          for (int i = 0; i < n; ++i)
            z[i] = -z[i];
      }
}

static bool
fails ()
{
  return ++calls == fail_at;
}

// What a solver that fails leaves behind.
static void
lost (int n, double *Z, double *w)
{
  if (fail_done > 1)
    for (int i = 0; i < n; ++i)
      Z[long (n) * (n - 1) + i] = i;
  if (fail_done > 2)
    w[n - 1] = 0;
}
}

using namespace lapackw;
extern "C"
{
  void __real_dsyevd_ (const char &, const char &, const int &, double[], const int &, double[], double[], const int &, int[], const int &, int &);
  void __real_dsyevr_ (const char &, const char &, const char &, const int &, double[], const int &, const double &, const double &, const int &, const int &, const double &, int &, double[], double[], const int &, int[], double[], const int &, int[], const int &, int &);
  void __real_dsyevx_ (const char &, const char &, const char &, const int &, double[], const int &, const double &, const double &, const int &, const int &, const double &, int &, double[], double[], const int &, double[], const int &, int[], int[], int &);

  void
  __wrap_dsyevd_ (const char &job, const char &uplo, const int &n, double A[], const int &lda, double w[], double work[], const int &lwork, int iwork[], const int &liwork, int &info)
  {
    if (lwork >= 0 && fails ())
      {
        if (fail_done)
          {
            __real_dsyevd_ (job, uplo, n, A, lda, w, work, lwork, iwork, liwork, info);
            lost (n, A, w);
          }
        info = fail_info;
        return;
      }
    if (lwork >= 0 && liwork >= 0)
      {
        ROOM (A, long (lda) * n);
        ROOM (w, n);
        ROOM (work, lwork);
        ROOM (iwork, liwork);
      }
    __real_dsyevd_ (job, uplo, n, A, lda, w, work, lwork, iwork, liwork, info);
    if (lwork >= 0 && info == 0 && lda == n)
      norm (n, A);
  }
  void
  __wrap_dsyevr_ (const char &job, const char &range, const char &uplo, const int &n, double A[], const int &lda, const double &vl, const double &vu, const int &il, const int &iu, const double &abstol, int &m, double w[], double Z[], const int &ldz, int isupp[], double work[], const int &lwork, int iwork[], const int &liwork, int &info)
  {
    if (lwork >= 0 && fails ())
      {
        if (fail_done)
          {
            __real_dsyevr_ (job, range, uplo, n, A, lda, vl, vu, il, iu, abstol, m, w, Z, ldz, isupp, work, lwork, iwork, liwork, info);
            lost (n, Z, w);
          }
        info = fail_info;
        if (fail_done > 2)
          m = 0;
        return;
      }
    if (lwork >= 0 && liwork >= 0)
      {
        ROOM (A, long (lda) * n);
        ROOM (w, n);
        ROOM (Z, long (ldz) * n);
        ROOM (isupp, 2 * n);
        ROOM (work, lwork);
        ROOM (iwork, liwork);
      }
    __real_dsyevr_ (job, range, uplo, n, A, lda, vl, vu, il, iu, abstol, m, w, Z, ldz, isupp, work, lwork, iwork, liwork, info);
    if (lwork >= 0 && info == 0 && ldz == n)
      norm (n, Z);
  }
  void
  __wrap_dsyevx_ (const char &job, const char &range, const char &uplo, const int &n, double A[], const int &lda, const double &vl, const double &vu, const int &il, const int &iu, const double &abstol, int &m, double w[], double Z[], const int &ldz, double work[], const int &lwork, int iwork[], int ifail[], int &info)
  {
    if (lwork >= 0 && fails ())
      {
        if (fail_done)
          {
            __real_dsyevx_ (job, range, uplo, n, A, lda, vl, vu, il, iu, abstol, m, w, Z, ldz, work, lwork, iwork, ifail, info);
            lost (n, Z, w);
          }
        info = fail_info;
        if (fail_done)
          ifail[0] = n;
        if (fail_done > 2)
          m = 0;
        return;
      }
    if (lwork >= 0)
      {
        ROOM (A, long (lda) * n);
        ROOM (w, n);
        ROOM (Z, long (ldz) * n);
        ROOM (work, lwork);
        ROOM (iwork, 5l * n);
        ROOM (ifail, n);
      }
    __real_dsyevx_ (job, range, uplo, n, A, lda, vl, vu, il, iu, abstol, m, w, Z, ldz, work, lwork, iwork, ifail, info);
    if (lwork >= 0 && info == 0 && ldz == n)
      norm (n, Z);
  }
}
