// C25: wavelength equations are accurate and invert each other.
#include "core/base.h"
#include "core/equations.h"
#include "mc.hpp"
#include <algorithm>
#include <stdexcept>

using namespace std;
using especia::Equations;
using especia::real;
typedef long double ld;

// The published equations; s is the wavenumber in inverse micrometres.
static ld
refractivity (int k, ld s)
{
  const ld t = s * s;
  switch (k)
    {
    case 0: // Edlen (1953)
      return 6.4328e-5L + 2.94981e-2L / (146 - t) + 2.5540e-4L / (41 - t);
    case 1: // Edlen (1966)
      return 8.34213e-5L + 2.40603e-2L / (130 - t) + 1.5997e-4L / (38.9L - t);
    default: // Birch & Downs (1994)
      return 8.34254e-5L + 2.406147e-2L / (130 - t) + 1.5998e-4L / (38.9L - t);
    }
}

static ld
slope (int k, ld s) // of the refractivity
{
  const ld t = s * s;
  auto g = [&] (ld a, ld p) { return 2 * a * s / ((p - t) * (p - t)); };
  switch (k)
    {
    case 0:
      return g (2.94981e-2L, 146) + g (2.5540e-4L, 41);
    case 1:
      return g (2.40603e-2L, 130) + g (1.5997e-4L, 38.9L);
    default:
      return g (2.406147e-2L, 130) + g (1.5998e-4L, 38.9L);
    }
}

static real
simple (int k, real x)
{
  return k == 0 ? Equations::edlen53 (x) : k == 1 ? Equations::edlen66 (x) : Equations::birch94 (x);
}

static void
full (int k, real x, real &y, real &z)
{
  if (k == 0)
    Equations::edlen53 (x, y, z);
  else if (k == 1)
    Equations::edlen66 (x, y, z);
  else
    Equations::birch94 (x, y, z);
}

static real
invert (int k, real c, real x, real goal)
{
  return k == 0 ? especia::solve (Equations::edlen53, c, x, goal) : k == 1 ? especia::solve (Equations::edlen66, c, x, goal) : especia::solve (Equations::birch94, c, x, goal);
}

static const char *const names[] = { "Edlen (1953)", "Edlen (1966)", "Birch & Downs (1994)" };

const int N = 4000;

// Vacuum wavelengths from 2000 to 100000 Angstrom.
static real
wavelength (int i, int n)
{
  return 2000.0 * pow (50.0, real (i) / n);
}

static void
formulas (mc::Ctx &c)
{
  const int k = c.shard () % 3;
  const int n = c.tier ? 20 * N : N;
  const int i = c.choose (n + 1);
  const real w = wavelength (i, n), x = 10.0 / w;
  const string text = mc::cat (names[k], " at ", w, " Angstrom");
  c.log (text);
  const ld s = 1000 * ld (x);
  const ld y = ld (x) * (1 + refractivity (k, s));
  const ld z = 1 + refractivity (k, s) + s * slope (k, s);
  real a, b;
  full (k, x, a, b);
  if (fabsl (a - y) > 2e-15L * y || fabsl (simple (k, x) - y) > 2e-15L * y)
    c.fail ("formula", mc::cat ("wavenumber in air ", a, " and ", simple (k, x), " instead of ", double (y), ": ", text));
  if (fabsl (b - z) > 4e-15L * z)
    c.fail ("derivative", mc::cat ("derivative ", b, " instead of ", double (z), ": ", text));
  // there and back
  for (real goal : { 1e-4, 1e-8, 1e-12 })
    for (real start : { 1.0, 0.5, 2.0 })
      {
        if (start != 1.0 && (k == 99 || x * start > 0.0058))
          continue; // starting values beyond the poles of the formulas
        real r;
        try
          {
            r = invert (k, a, a * start, goal);
          }
        catch (runtime_error &e)
          {
            c.fail ("inversion", mc::cat ("no solution with accuracy ", goal, " from ", start, ": ", text));
          }
        if (fabs (r - x) > goal * x + 2e-15 * x)
          c.fail ("inversion", mc::cat ("air to vacuum returns ", 10.0 / r, " with accuracy ", goal, " from ", start, ": ", text));
      }
  if (i < n)
    {
      const real x2 = 10.0 / wavelength (i + 1, n);
      if (!(simple (k, x2) < simple (k, x)))
        c.fail ("monotonic", "not monotonic: " + text);
    }
  if (!(simple (k, x) > x))
    c.fail ("shift", "wavelength in air not shorter: " + text);
  c.outcome (mc::hash_double (a, k));
  if (c.want_sample ())
    c.sample (text);
}

static void
doppler (mc::Ctx &c)
{
  const ld cl = 299792458.0L;
  static const vector<real> v = [] {
    vector<real> r = { 0.0, 1e-9, 1e-3, 1.0, 29.78e3, 465.0, 3e5, 1e6, 3e7, 1e8, 2.5e8, 2.99e8, 2.9979e8 };
    for (int i = 0; i < 60; ++i)
      r.push_back (100.0 * pow (1.27, i));
    const size_t n = r.size ();
    for (size_t i = 0; i < n; ++i)
      if (r[i] < 299792458.0)
        r.push_back (-r[i]);
    r.erase (remove_if (r.begin (), r.end (), [] (real x) { return fabs (x) >= 299792458.0; }), r.end ());
    sort (r.begin (), r.end ());
    return r;
  }();
  const int i = c.choose (int (v.size ())), j = c.choose (int (v.size ()));
  const real a = v[i], b = v[j];
  const string text = mc::cat ("velocities ", a, " ", b);
  c.log (text);
  auto factor = [&] (ld x) { return sqrtl ((1 + x / cl) / (1 - x / cl)); };
  auto tol = [&] (ld x) { return 3e-16L * (1 + 1 / (1 - fabsl (x) / cl)); };
  const ld fa = 1 + ld (especia::redshift (a)), fb = 1 + ld (especia::redshift (b));
  // the factor is rounded to double before one is subtracted
  if (fabsl (fa - factor (a)) > tol (a) * factor (a) + 3e-16L)
    c.fail ("doppler", mc::cat ("redshift ", double (fa - 1), " instead of ", double (factor (a) - 1), ": ", text));
  const ld inv = 1 + ld (especia::redshift (-a));
  if (fabsl (fa * inv - 1) > 4 * tol (a) + 6e-16L * (fa + inv))
    c.fail ("inverse", mc::cat ("the factors of opposite velocities multiply to ", double (fa * inv), ": ", text));
  const ld sum = (ld (a) + b) / (1 + ld (a) * b / (cl * cl));
  if (fabs (a) < 2.6e8 && fabs (b) < 2.6e8 && fabsl (fa * fb - factor (sum)) > (4 * tol (a) + 4 * tol (b)) * factor (sum) + 6e-16L * (fa + fb))
    c.fail ("composition", mc::cat ("factors multiply to ", double (fa * fb), " instead of ", double (factor (sum)), ": ", text));
  if (b - a > 1e-3 && !(fb > fa))
    c.fail ("doppler", "not monotonic: " + text);
  if (especia::redshift (0.0) != 0.0)
    c.fail ("doppler", "redshift at rest");
  c.outcome (mc::hash_double (a, mc::hash_double (b, 1)));
}

// Functions with known solutions.
static int g_kind;
static long g_calls;
static void
test_function (const real &x, real &y, real &z)
{
  ++g_calls;
  switch (g_kind)
    {
    case 0:
      y = 3 * x - 1, z = 3;
      break;
    case 1:
      y = x * x, z = 2 * x;
      break;
    case 2:
      y = x * x * x, z = 3 * x * x;
      break;
    case 3:
      y = exp (x), z = exp (x);
      break;
    case 4:
      y = log (x), z = 1 / x;
      break;
    case 5:
      y = atan (x - 2), z = 1 / (1 + (x - 2) * (x - 2));
      break;
    case 6: // without a solution below unity
      y = x * x + 1, z = 2 * x;
      break;
    case 7: // constant
      y = 1, z = 0;
      break;
    case 8: // not a number
      y = NAN, z = 1;
      break;
    case 9: // oscillates
      y = x > 0 ? sqrt (x) : -sqrt (-x), z = 0.5 / sqrt (fabs (x));
      break;
    case 10: // negative solutions
      y = x, z = 1;
      break;
    }
}

static void
root_finder (mc::Ctx &c)
{
  g_kind = c.choose (11);
  const real c0 = c.pick ({ 0.3, 1.0, 2.0, 0.0, -1.0, 40.0, 1e-6 });
  const real x0 = c.pick ({ 1.0, 0.1, 3.0, 17.0, 1e-3, 1e4, 0.0, -2.0 });
  const real goal = c.pick ({ 1e-3, 1e-8, 1e-14, 0.0 });
  const int limit = c.pick ({ 100, 0, 1, 2, 5 });
  const string text = mc::cat ("function ", g_kind, " value ", c0, " start ", x0, " accuracy ", goal, " iterations ", limit);
  c.log (text);
  g_calls = 0;
  real r;
  bool thrown = false;
  try
    {
      r = limit == 100 ? especia::solve (test_function, c0, x0, goal) : especia::solve (test_function, c0, x0, goal, especia::natural (limit));
    }
  catch (runtime_error &e)
    {
      thrown = true;
    }
  c.count (thrown ? "errors" : "solutions");
  if (g_calls > limit + 1)
    c.fail ("iterations", mc::cat (g_calls, " function values: ", text));
  if (!thrown)
    {
      vector<ld> s;
      const ld v = c0;
      switch (g_kind)
        {
        case 0:
          s = { (v + 1) / 3 };
          break;
        case 1:
          if (v >= 0)
            s = { sqrtl (v), -sqrtl (v) };
          break;
        case 2:
          s = { cbrtl (v) };
          break;
        case 3:
          if (v > 0)
            s = { logl (v) };
          break;
        case 4:
          s = { expl (v) };
          break;
        case 5:
          if (fabsl (v) < 1.5L)
            s = { 2 + tanl (v) };
          break;
        case 6:
          if (v >= 1)
            s = { sqrtl (v - 1), -sqrtl (v - 1) };
          break;
        case 9:
          s = { v * fabsl (v) };
          break;
        case 10:
          s = { v };
          break;
        }
      bool ok = false;
      for (ld t : s)
        ok = ok || fabsl (r - t) <= 1.01L * goal * fabsl (t) + 2e-15L * fabsl (t) + (g_kind == 6 ? 2e-8L : 1e-15L);
      if (!ok)
        c.fail ("root", mc::cat ("returned ", r, ": ", text));
    }
  else if (limit == 100 && goal > 1e-9 && x0 > 0 && c0 > 0 && (g_kind == 0 || g_kind == 1 || g_kind == 2 || (g_kind == 3 && c0 > 1.5 && x0 < 20 && x0 > 0.05)))
    // convex functions with a positive solution always converge
    c.fail ("root", "no solution found: " + text);
  c.outcome (mc::hash_str (text, thrown));
  if (c.want_sample ())
    c.sample (text);
}

int
mc_shards (int)
{
  return 3 + 1 + 1;
}

const char *
mc_rule ()
{
  return "every formula at every wavelength of a logarithmic grid over the documented range, inverted with several accuracy goals and starting values; all pairs of velocities of a set; the root finder on functions with and without solutions; non-trivial: distinct values";
}

void
mc_case (mc::Ctx &c)
{
  if (c.shard () < 3)
    formulas (c);
  else if (c.shard () == 3)
    doppler (c);
  else
    root_finder (c);
}
