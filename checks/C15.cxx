// C15: the eigenvalue decomposition is correct for every symmetric matrix.
#include "core/decompose.h"
#include "lapack_wrap.hpp"
#include "mc.hpp"
#include <limits>
#include <stdexcept>
#include <vector>

using namespace std;
using especia::real;
typedef long double ld;
typedef vector<real> V;

static const char *const names[] = { "D", "R", "X" };

struct Any
{
  int kind;
  especia::D_Decompose d;
  especia::R_Decompose r;
  especia::X_Decompose x;
  Any (int kind, int n) : kind (kind), d (n), r (n), x (n) {}
  void
  operator() (const real A[], real Z[], real w[]) const
  {
    if (kind == 0)
      d (A, Z, w);
    else if (kind == 1)
      r (A, Z, w);
    else
      x (A, Z, w);
  }
};

extern "C" void dsyevx_ (const char *, const char *, const char *, const int *, double *, const int *, const double *, const double *, const int *, const int *, const double *, int *, double *, double *,
                         const int *, double *, const int *, int *, int *, int *);

// Whether LAPACK itself yields these eigenvectors and eigenvalues (bisection and inverse iteration in DSYEVX do not
// always produce orthogonal eigenvectors of singular matrices: a recorded finding).
static bool
same_as_dsyevx (int n, V A, const V &Z, const V &w)
{
  V z (n * n), u (n), work (100 * n);
  vector<int> iwork (5 * n), ifail (n);
  const double tol = 2 * numeric_limits<double>::min (), none = 0;
  const int lw = 100 * n, zero = 0;
  int m, info;
  dsyevx_ ("V", "A", "U", &n, A.data (), &n, &none, &none, &zero, &zero, &tol, &m, u.data (), z.data (), &n, work.data (), &lw, iwork.data (), ifail.data (), &info);
  if (info != 0)
    return false;
  for (int j = 0; j < n; ++j)
    {
      if (!mc::near (u[j], w[j], 1e-12, 1e-13 * fabs (w[n - 1])))
        return false;
      for (int i = 0; i < n; ++i)
        if (!mc::near (z[j * n + i], Z[j * n + i], 0, 1e-3) && !mc::near (z[j * n + i], -Z[j * n + i], 0, 1e-3))
          return false;
    }
  return true;
}

static string
show (int n, const V &a)
{
  string s = mc::cat ("n=", n, ":");
  if (n <= 6)
    for (int j = 0; j < n; ++j)
      for (int i = 0; i <= j; ++i)
        s += mc::cat (" ", a[j * n + i]);
  return s;
}

// a: upper triangle in column-major layout.
static void
judge (mc::Ctx &c, const Any &dec, int n, const V &a, const string &text, V *keep = nullptr)
{
  V A (a), Z (n * n + 1, -7.0), w (n + 1, -7.0);
  // the other triangle holds anything
  for (int j = 0; j < n; ++j)
    for (int i = j + 1; i < n; ++i)
      A[j * n + i] = (i + j) % 2 ? 1e30 : -3.75;
  const V B (A);
  try
    {
      dec (A.data (), Z.data (), w.data ());
    }
  catch (exception &e)
    {
      c.fail ("exception", string (e.what ()) + ": " + text);
    }
  if (A != B)
    c.fail ("input", "the input was changed: " + text);
  if (Z[n * n] != -7.0 || w[n] != -7.0)
    c.fail ("bounds", "more than the result was written: " + text);
  ld norm = 0;
  for (int j = 0; j < n; ++j)
    for (int i = 0; i <= j; ++i)
      norm += (i == j ? 1 : 2) * ld (a[j * n + i]) * a[j * n + i];
  norm = sqrtl (norm);
  const ld eps = 2.3e-16L * 20 * (n + 4);
  for (int j = 1; j < n; ++j)
    if (!(w[j] >= w[j - 1]))
      c.fail ("order", mc::cat ("eigenvalues ", w[j - 1], " and ", w[j], " are not ascending: ", text));
  for (int j = 0; j < n; ++j)
    {
      for (int k = 0; k <= j; ++k)
        {
          ld s = 0;
          for (int i = 0; i < n; ++i)
            s += ld (Z[j * n + i]) * Z[k * n + i];
          if (!(fabsl (s - (j == k)) <= eps * (j == k || dec.kind == 0 ? 1 : dec.kind == 1 ? 100 : 5000)))
            {
              if (dec.kind == 2 && same_as_dsyevx (n, A, Z, w))
                {
                  c.check (false, "X-inverse-iteration", mc::cat ("eigenvectors ", j, " and ", k, " have product ", double (s), " (DSYEVX itself yields them): ", text));
                  if (keep)
                    keep->clear ();
                  return;
                }
              c.fail ("orthonormal", mc::cat ("eigenvectors ", j, " and ", k, " have product ", double (s), ": ", text));
            }
        }
      for (int i = 0; i < n; ++i)
        {
          ld s = 0;
          for (int k = 0; k < n; ++k)
            s += ld (i <= k ? a[k * n + i] : a[i * n + k]) * Z[j * n + k];
          if (!(fabsl (s - ld (w[j]) * Z[j * n + i]) <= eps * norm + 1e-300L))
            {
              if (dec.kind == 2 && same_as_dsyevx (n, A, Z, w))
                {
                  c.check (false, "X-inverse-iteration", mc::cat ("residual ", double (s - ld (w[j]) * Z[j * n + i]), " of eigenvector ", j, " (DSYEVX itself yields it): ", text));
                  if (keep)
                    keep->clear ();
                  return;
                }
              c.fail ("eigenvector", mc::cat ("residual ", double (s - ld (w[j]) * Z[j * n + i]), " of eigenvector ", j, " with eigenvalue ", w[j], ": ", text));
            }
        }
    }
  if (keep)
    *keep = V (w.begin (), w.begin () + n);
}

static V
structured (int n, int kind)
{
  V a (n * n, 0.0);
  for (int j = 0; j < n; ++j)
    for (int i = 0; i <= j; ++i)
      {
        real &v = a[j * n + i];
        const real h = real (mc::mix (kind, j * 1000 + i) % 2001) / 1000.0 - 1.0;
        switch (kind)
          {
          case 0:
            v = 0;
            break;
          case 1:
            v = i == j;
            break;
          case 2:
            v = 1;
            break;
          case 3:
            v = 1.0 / (i + j + 1);
            break;
          case 4: // Wilkinson
            v = i == j ? fabs (i - (n - 1) / 2.0) : j == i + 1;
            break;
          case 5:
            v = i == j ? 2 : j == i + 1 ? -1 : 0;
            break;
          case 6:
            v = h;
            break;
          case 7:
            v = (i == j ? 1 : 0) + 1e-9 * h;
            break;
          case 8: // graded
            v = (i == j ? 1 : 0.3 * h) * pow (10.0, -0.5 * (i + j));
            break;
          case 9: // equal blocks
            v = i / 2 == j / 2 ? (i == j ? 2 : 1) : 0;
            break;
          case 10:
            v = i == j ? -1 - i : 0.01 * h;
            break;
          case 11: // rank one
            v = (i + 1.0) * (j + 1.0);
            break;
          case 12: // zero diagonal
            v = i == j ? 0 : h;
            break;
          default: // arrow
            v = i == j ? i : i == 0 ? 1 : 0;
            break;
          }
      }
  return a;
}
const int STRUCTURES = 14;

static void
entries (mc::Ctx &c, int n, const vector<real> &values)
{
  V a (n * n, 0.0);
  for (int j = 0; j < n; ++j)
    for (int i = 0; i <= j; ++i)
      a[j * n + i] = c.pick (values);
  const string s = show (n, a);
  c.log (s);
  V w[3];
  for (int k = 0; k < 3; ++k)
    {
      static Any *dec[3][8];
      if (!dec[k][n])
        dec[k][n] = new Any (k, n);
      judge (c, *dec[k][n], n, a, mc::cat (names[k], " ", s), &w[k]);
    }
  ld norm = 0;
  for (real v : a)
    norm = max (norm, fabsl (v));
  for (int k = 1; k < 3; ++k)
    for (int j = 0; j < int (w[k].size ()); ++j)
      if (fabsl (w[k][j] - w[0][j]) > 1e-14L * n * n * norm)
        c.fail ("strategies", mc::cat ("eigenvalues ", w[k][j], " and ", w[0][j], " of ", names[k], " and D: ", s));
  uint64_t h = n;
  for (real v : w[0])
    h = mc::hash_double (v, h);
  c.outcome (h);
  c.count ("decompositions", 3);
  if (c.want_sample ())
    c.sample (s);
}

static void
structures (mc::Ctx &c)
{
  const int k = c.choose (3);
  const int n = 1 + c.choose (c.tier ? 80 : 33);
  const int kind = c.choose (STRUCTURES);
  const real scale = c.pick ({ 1.0, 1e-100, 1e100, 1e-6 });
  V a = structured (n, kind);
  for (real &v : a)
    v *= scale;
  const string text = mc::cat (names[k], " structure ", kind, " scale ", scale, " ", show (n, a));
  c.log (text);
  V w;
  judge (c, Any (k, n), n, a, text, &w);
  uint64_t h = n;
  for (real v : w)
    h = mc::hash_double (v, h);
  c.outcome (h);
  c.count ("decompositions");
  if (c.want_sample ())
    c.sample (text);
}

// Histories: uses and copies of a decomposer, before it is used.
static void
histories (mc::Ctx &c)
{
  const int k = c.choose (3);
  const int n = c.pick ({ 1, 2, 3, 5, 12 });
  const int length = 1 + c.choose (c.tier ? 4 : 3);
  vector<Any> pool;
  pool.emplace_back (k, n);
  string text = mc::cat (names[k], " n=", n, " history");
  for (int step = 0; step < length; ++step)
    {
      const int op = c.choose (6);
      text += mc::cat (" ", op);
      c.log (text);
      if (op == 4)
        {
          Any copy (pool.back ());
          pool.push_back (copy);
        }
      else if (op == 5)
        {
          // another decomposer of another dimension in between
          judge (c, Any ((k + 1) % 3, n + 3), n + 3, structured (n + 3, 6), text);
        }
      else
        {
          static const int kinds[] = { 6, 3, 8, 0 };
          const V a = structured (n, kinds[op]);
          const Any &used = step % 2 ? pool.front () : pool.back ();
          V w, f;
          judge (c, used, n, a, text, &w);
          judge (c, Any (k, n), n, a, text, &f);
          for (int i = 0; i < int (min (w.size (), f.size ())); ++i)
            if (!mc::near (w[i], f[i], 1e-13, 1e-15))
              c.fail ("history", mc::cat ("eigenvalue ", w[i], ", of a new decomposer ", f[i], ": ", text));
        }
    }
  c.outcome (mc::hash_str (text));
}

// Failures of the solver.
static void
failures (mc::Ctx &c)
{
  const int k = c.choose (3), n = c.pick ({ 1, 2, 5, 9 });
  const int info = c.pick ({ 1, 2, 9, -1, -8, 1000 });
  const int done = info > 0 ? c.choose (4) : 0;
  const bool before = c.flip ();
  const string text = mc::cat (names[k], " n=", n, " the solver returns ", info, " having done ", done);
  c.log (text);
  const Any dec (k, n);
  const V a = structured (n, 6);
  if (before)
    judge (c, dec, n, a, text);
  V Z (n * n), w (n);
  lapackw::fail_at = lapackw::calls + 1;
  lapackw::fail_info = info;
  lapackw::fail_done = done;
  int kind = 0;
  try
    {
      dec (a.data (), Z.data (), w.data ());
    }
  catch (runtime_error &)
    {
      kind = 1;
    }
  catch (invalid_argument &)
    {
      kind = 2;
    }
  catch (...)
    {
      kind = 3;
    }
  lapackw::fail_at = 0;
  if (kind != (info > 0 ? 1 : 2))
    c.fail ("failure", mc::cat (kind == 0 ? "not reported" : "reported as another error", ": ", text));
  // works again
  judge (c, dec, n, a, text);
  c.outcome (mc::hash_str (text));
}

int
mc_shards (int)
{
  return 10;
}

const char *
mc_rule ()
{
  return "every symmetric matrix of dimension 1 to 4 with entries from finite sets, structured matrices up to dimension 33, all three strategies; all histories of uses and copies up to a length; failures of the solver; non-trivial: distinct spectra";
}

void
mc_case (mc::Ctx &c)
{
  switch (c.shard ())
    {
    case 0:
      return entries (c, 1, { 0.0, 1.0, -1.0, 3.5, 1e-300, 1e300, -2e-8 });
    case 1:
      return entries (c, 2, { 0.0, 1.0, -1.0, 3.5, 1e-9, 1e9, -2e-8, 1e150, 1e-150, 0.1 });
    case 2:
      return entries (c, 3, c.tier ? vector<real>{ 0.0, 1.0, -1.0, 2.0, 1e-8, 1e6, -0.3 } : vector<real>{ 0.0, 1.0, -1.0, 2.5, 1e-8 });
    case 3:
      return entries (c, 4, c.tier ? vector<real>{ 0.0, 1.0, -1.0, 1e-7 } : vector<real>{ 0.0, 1.0, -0.5 });
    case 4:
      return entries (c, 5, { 0.0, 1.0 });
    case 5:
      return structures (c);
    case 6:
      return histories (c);
    case 7:
      return failures (c);
    default:
      return entries (c, 3, c.shard () == 8 ? vector<real>{ 1.0, 1.0 + 1e-15, 0.0, 1e-16 } : vector<real>{ 1e10, 1.0, 1e-10, -1e5 });
    }
}
