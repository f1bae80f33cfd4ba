// C14: quadrature attains its goal and its refinements are consistent.
#include "core/integrator.h"
#include "core/profiles.h"
#include "mc.hpp"
#include <algorithm>
#include <functional>
#include <map>

using namespace std;
using especia::natural;
using especia::real;
typedef long double ld;
typedef especia::Integrator<ld> IL;
typedef especia::Integrator<real> ID;

static const int points[] = { 13, 19, 27, 41 };
static const ld PI = acosl (-1.0L);

template <class T>
static especia::Integrator<T>
integrator (int p, int q)
{
  typedef especia::Integrator<T> I;
  return I (typename I::Formula (p), typename I::Formula (q));
}

// The nodes and weights of a formula, found by probing.
struct Rule
{
  vector<ld> x, w;
  ld
  apply (const function<ld (ld)> &f, ld a, ld b) const
  {
    ld s = 0, c = (a + b) / 2, h = (b - a) / 2;
    for (size_t i = 0; i < x.size (); ++i)
      s += w[i] * f (c + h * x[i]);
    return s * h;
  }
};

static const Rule &
rule (int k)
{
  static Rule r[4];
  if (r[k].x.empty ())
    {
      const IL in = integrator<ld> (k, k);
      vector<ld> x;
      auto rec = [&] (ld v) -> ld {
        x.push_back (v);
        return 1;
      };
      in.integrate (rec, -1.0L, 1.0L, 1.0L, 0);
      sort (x.begin (), x.end ());
      x.erase (unique (x.begin (), x.end ()), x.end ());
      for (ld p : x)
        {
          auto f = [&] (ld v) -> ld { return v == p ? 1 : 0; };
          r[k].w.push_back (in.integrate (f, -1.0L, 1.0L, 1.0L, 0));
        }
      r[k].x = x;
    }
  return r[k];
}

// Pairs of formulas in use.
static const vector<pair<int, int> > &
pairs ()
{
  static const vector<pair<int, int> > p = { { 1, 2 }, { 0, 1 }, { 0, 2 }, { 0, 3 }, { 1, 3 }, { 2, 3 }, { 2, 1 }, { 1, 0 }, { 3, 0 }, { 3, 2 }, { 3, 1 }, { 2, 0 } };
  return p;
}

static void
formulas (mc::Ctx &c)
{
  const int k = c.choose (4);
  const Rule &r = rule (k);
  const string text = mc::cat ("formula with ", points[k], " points");
  c.log (text);
  if (int (r.x.size ()) != points[k])
    c.fail ("formula", mc::cat (r.x.size (), " points: ", text));
  const int n = points[k];
  for (int i = 0; i < n; ++i)
    {
      if (fabsl (r.x[i] + r.x[n - 1 - i]) > 1e-18L || fabsl (r.w[i] - r.w[n - 1 - i]) > 1e-18L)
        c.fail ("formula", "not symmetric: " + text);
      if (!(r.w[i] > 0 && r.x[i] >= -1.0L && r.x[i] <= 1.0L))
        c.fail ("formula", mc::cat ("node ", double (r.x[i]), " weight ", double (r.w[i]), ": ", text));
      if (k < 3)
        {
          bool in = false;
          for (ld y : rule (k + 1).x)
            in = in || y == r.x[i];
          if (!in)
            c.fail ("formula", "not nested: " + text);
        }
    }
  // interpolatory: exact up to the degree of the number of points
  for (int d = 0; d <= n; ++d)
    {
      // Legendre polynomials by recurrence
      ld s = 0;
      for (int i = 0; i < n; ++i)
        {
          ld p0 = 1, p1 = r.x[i];
          for (int j = 2; j <= d; ++j)
            {
              const ld p2 = ((2 * j - 1) * r.x[i] * p1 - (j - 1) * p0) / j;
              p0 = p1;
              p1 = p2;
            }
          s += r.w[i] * (d == 0 ? 1 : p1);
        }
      if (fabsl (s - (d == 0 ? 2 : 0)) > 2e-18L * n)
        c.fail ("degree", mc::cat ("degree ", d, " integrates to ", double (s), ": ", text));
    }
  c.outcome (k + 1);
}

static void
polynomials (mc::Ctx &c)
{
  const pair<int, int> pq = c.pick (pairs ());
  const int n = points[pq.second];
  const int d = c.choose (n + 1);
  const int refinements = c.tier ? c.choose (40) : c.pick ({ 0, 1, 2, 3, 5, 9, 17 });
  const pair<ld, ld> ab = c.pick<pair<ld, ld> > ({ { -1, 1 }, { 0, 3 }, { 1.25L, -0.5L } });
  const ld shift = c.pick<ld> ({ 0.3L, -0.125L });
  const string text = mc::cat ("polynomial of degree ", d, " about ", double (shift), " on ", double (ab.first), " to ", double (ab.second), " formulas ", points[pq.first], " ", n, " refinements ", refinements);
  c.log (text);
  const ld a = ab.first, b = ab.second, scale = max (fabsl (a - shift), fabsl (b - shift));
  long calls = 0;
  auto f = [&] (ld x) -> ld {
    ++calls;
    const ld t = (x - shift) / scale;
    ld p = 1;
    for (int i = 0; i < d; ++i)
      p *= t;
    return p;
  };
  const ld r = integrator<ld> (pq.first, pq.second).integrate (f, a, b, 0.0L, natural (refinements));
  auto F = [&] (ld x) { return scale * powl ((x - shift) / scale, d + 1) / (d + 1); };
  const ld e = F (b) - F (a);
  if (fabsl (r - e) > 1e-17L * fabsl (b - a) * (1 + refinements))
    c.fail ("exactness", mc::cat ("integral ", double (r), " instead of ", double (e), " error ", double (r - e), ": ", text));
  c.count ("function values", calls);
  c.outcome (mc::hash_str (text));
  if (c.want_sample ())
    c.sample (text);
}

struct Integrand
{
  const char *name;
  ld (*f) (ld);
  ld (*F) (ld); // antiderivative, if known
};

static const Integrand integrands[] = {
  { "exp", [] (ld x) -> ld { return expl (x); }, [] (ld x) -> ld { return expl (x); } },
  { "cos", [] (ld x) -> ld { return cosl (3 * x + 0.2L); }, [] (ld x) -> ld { return sinl (3 * x + 0.2L) / 3; } },
  { "runge", [] (ld x) -> ld { return 1 / (1 + 25 * (x - 0.1L) * (x - 0.1L)); }, [] (ld x) -> ld { return atanl (5 * (x - 0.1L)) / 5; } },
  { "gauss", [] (ld x) -> ld { return expl (-40 * (x - 0.37L) * (x - 0.37L)); }, [] (ld x) -> ld { return sqrtl (PI / 40) / 2 * erfl (sqrtl (40.0L) * (x - 0.37L)); } },
  { "sech", [] (ld x) -> ld { return 1 / coshl (7 * (x + 0.21L)); }, [] (ld x) -> ld { return 2 * atanl (tanhl (3.5L * (x + 0.21L))) / 7; } },
  { "log", [] (ld x) -> ld { return logl (x + 2.5L); }, [] (ld x) -> ld { return (x + 2.5L) * logl (x + 2.5L) - x; } },
  { "zero", [] (ld x) -> ld { return 0; }, [] (ld x) -> ld { return 0; } },
  // not smooth
  { "root", [] (ld x) -> ld { return powl (fabsl (x - 0.23L), 0.5L); }, nullptr },
  { "kink", [] (ld x) -> ld { return fabsl (x + 0.41L) + 0.1L * x; }, nullptr },
  { "step", [] (ld x) -> ld { return x > 0.619L ? 1.0L + x * x * 0.3L : 0.2L * expl (x); }, nullptr },
};
const int SMOOTH = 7, ALL = 10;

// Adaptive bisection of the worst part without any reuse of function values.
static bool
adaptive (const Integrand &g, int p, int q, ld a, ld b, int refinements, ld &result)
{
  struct P
  {
    ld a, b, r, e;
  };
  vector<P> parts;
  auto make = [&] (ld a, ld b) {
    P t{ a, b, rule (q).apply (g.f, a, b), 0 };
    t.e = fabsl (t.r - rule (p).apply (g.f, a, b));
    return t;
  };
  parts.push_back (make (a, b));
  for (int i = 0; i < refinements; ++i)
    {
      size_t w = 0;
      for (size_t j = 1; j < parts.size (); ++j)
        if (parts[j].e > parts[w].e)
          w = j;
      for (size_t j = 0; j < parts.size (); ++j)
        if (j != w && parts[j].e > parts[w].e * (1 - 1e-6L) - 1e-16L)
          return false; // too close to tell
      const P t = parts[w];
      const ld m = (t.a + t.b) / 2;
      parts[w] = make (t.a, m);
      parts.push_back (make (m, t.b));
    }
  result = 0;
  for (auto &t : parts)
    result += t.r;
  return true;
}

static void
refinements (mc::Ctx &c)
{
  const pair<int, int> pq = c.pick (pairs ());
  const Integrand &g = integrands[c.choose (ALL)];
  const pair<ld, ld> ab = c.pick<pair<ld, ld> > ({ { -1, 1 }, { -1.7L, 0.93L }, { 0.11L, 2.9L }, { 1.1L, -0.8L } });
  const int k = c.choose (c.tier ? 60 : 20);
  const string text = mc::cat (g.name, " on ", double (ab.first), " to ", double (ab.second), " formulas ", points[pq.first], " ", points[pq.second], " refinements ", k);
  c.log (text);
  auto f = [&] (ld x) -> ld { return g.f (x); };
  const ld r = integrator<ld> (pq.first, pq.second).integrate (f, ab.first, ab.second, 0.0L, natural (k));
  ld e;
  if (!adaptive (g, pq.first, pq.second, ab.first, ab.second, k, e))
    {
      c.count ("ties, not judged");
      return;
    }
  c.count ("traces");
  if (fabsl (r - e) > 1e-15L * (1 + fabsl (e)))
    c.fail ("reuse", mc::cat ("integral ", double (r), ", without reuse of function values ", double (e), " difference ", double (r - e), ": ", text));
  c.outcome (mc::hash_str (text));
}

template <class T>
static void
accuracy (mc::Ctx &c)
{
  const pair<int, int> pq = pairs ()[c.choose (6)];
  const Integrand &g = integrands[c.choose (SMOOTH)];
  const vector<ld> ends = { -1.8L, -0.9L, 0.0L, 0.37L, 1.0L, 4.5L };
  const ld a = c.pick (ends), b = c.pick (ends);
  const ld goal = sizeof (T) > 8 ? c.pick<ld> ({ 1e-3L, 1e-6L, 1e-10L, 1e-14L }) : c.pick<ld> ({ 1e-3L, 1e-6L, 1e-12L });
  const string text = mc::cat (g.name, " on ", double (a), " to ", double (b), " formulas ", points[pq.first], " ", points[pq.second], " accuracy goal ", double (goal), sizeof (T) > 8 ? " extended" : "");
  c.log (text);
  auto f = [&] (T x) -> T { return T (g.f (x)); };
  const auto in = integrator<T> (pq.first, pq.second);
  const ld r = in.integrate (f, T (a), T (b), T (goal));
  const ld e = g.F (T (b)) - g.F (T (a));
  const ld eps = sizeof (T) > 8 ? 1e-17L : 4e-15L;
  // an estimate of the error is less reliable when it is large
  const ld allowed = goal > 1e-4L ? 10 * goal : 2 * goal;
  if (!(fabsl (r - e) <= allowed + eps))
    c.fail ("accuracy", mc::cat ("integral ", double (r), " instead of ", double (e), ": ", text));
  const ld s = in.integrate (f, T (b), T (a), T (goal));
  if (!(fabsl (r + s) <= eps * 10))
    c.fail ("sign", mc::cat ("integral ", double (r), " and with interchanged limits ", double (s), ": ", text));
  const ld m = c.pick<ld> ({ 0.5L, 0.2L }) * (a + b);
  const ld u = in.integrate (f, T (a), T (m), T (goal)), v = in.integrate (f, T (m), T (b), T (goal));
  if (!(fabsl (u + v - r) <= 3 * allowed + 3 * eps))
    c.fail ("additivity", mc::cat ("integrals ", double (u), " and ", double (v), " do not add to ", double (r), ": ", text));
  c.outcome (mc::hash_str (text));
  if (c.want_sample ())
    c.sample (text);
}

static void
infinite (mc::Ctx &c)
{
  struct G
  {
    const char *name;
    ld (*f) (ld);
    ld pos, neg;
  };
  static const G gs[] = {
    { "exp(-2|x|)", [] (ld x) -> ld { return expl (-2 * fabsl (x)); }, 0.5L, 0.5L },
    { "x exp(-3|x|)", [] (ld x) -> ld { return x * expl (-3 * fabsl (x)); }, 1 / 9.0L, -1 / 9.0L },
    { "x^2 exp(-3|x|)", [] (ld x) -> ld { return x * x * expl (-3 * fabsl (x)); }, 2 / 27.0L, 2 / 27.0L },
    { "exp(-x^2)", [] (ld x) -> ld { return expl (-x * x); }, sqrtl (PI) / 2, sqrtl (PI) / 2 },
    { "x^3 exp(-x^2)", [] (ld x) -> ld { return x * x * x * expl (-x * x); }, 0.5L, -0.5L },
    { "exp(-(x-1)^2)", [] (ld x) -> ld { return expl (-(x - 1) * (x - 1)); }, sqrtl (PI) / 2 * (1 + erfl (1.0L)), sqrtl (PI) / 2 * (1 - erfl (1.0L)) },
    { "sech^2", [] (ld x) -> ld { return 1 / (coshl (x) * coshl (x)); }, 1, 1 },
    { "exp(-2|x|) cos x", [] (ld x) -> ld { return expl (-2 * fabsl (x)) * cosl (x); }, 0.4L, 0.4L },
  };
  const int gi = c.choose (8);
  const G &g = gs[gi];
  const pair<int, int> pq = pairs ()[c.choose (6)];
  // some are not smooth at infinity after the transformation of the variable
  const real goal = gi == 1 || gi == 2 || gi == 7 ? c.pick ({ 1e-3, 1e-6 }) : c.pick ({ 1e-3, 1e-6, 1e-9 });
  const int kind = c.choose (3);
  const string text = mc::cat (g.name, kind == 0 ? " to positive infinity" : kind == 1 ? " from negative infinity" : " infinite", " formulas ", points[pq.first], " ", points[pq.second], " accuracy goal ", goal);
  c.log (text);
  auto f = [&] (real x) -> real { return real (g.f (x)); };
  const ID in = integrator<real> (pq.first, pq.second);
  const real r = kind == 0 ? in.integrate_positive_infinite (f, goal) : kind == 1 ? in.integrate_negative_infinite (f, goal) : in.integrate_infinite (f, goal);
  const ld e = kind == 0 ? g.pos : kind == 1 ? g.neg : g.pos + g.neg;
  if (!(fabsl (r - e) <= goal * (kind == 2 ? 4 : 2) + 1e-13L))
    c.fail ("infinite", mc::cat ("integral ", r, " instead of ", double (e), ": ", text));
  if (kind == 0)
    {
      // the number of refinements applies to each of them
      const natural k = c.pick<natural> ({ 0, 1, 7, 40, 150 });
      const real p = in.integrate ([&] (real u) -> real { return u > 0.0 ? f (-log (u)) / u : 0.0; }, 0.0, 1.0, 0.0, k);
      const real q = in.integrate ([&] (real u) -> real { return u > 0.0 ? f (log (u)) / u : 0.0; }, 0.0, 1.0, 0.0, k);
      const real rp = in.integrate_positive_infinite (f, 0.0, k), rq = in.integrate_negative_infinite (f, 0.0, k), ri = in.integrate_infinite (f, 0.0, k);
      if (!(fabs (p - rp) <= 1e-13) || !(fabs (q - rq) <= 1e-13) || !(fabs (p + q - ri) <= 1e-13))
        c.fail ("refinements", mc::cat ("after ", k, " refinements ", rp, " ", rq, " ", ri, " instead of ", p, " ", q, " ", p + q, ": ", text));
    }
  c.outcome (mc::hash_str (text));
}

template <class P>
static void
width (mc::Ctx &c, int kind)
{
  vector<real> q = { c.pick ({ 1215.6701, 2796.3543 }), 0.4164, c.pick ({ 0.0, 1.5, 3.0 }), c.pick ({ 0.0, -120.0 }), c.pick ({ 3.0, 12.5, 40.0, 900.0 }), kind < 2 ? c.pick ({ 11.5, 13.0, 14.5, 16.0 }) : c.pick ({ 11.5, 13.0, 14.5, 16.0, 18.0, 20.0 }) };
  if (kind == 1)
    {
      q.push_back (1330.0);
      q.push_back (c.pick ({ 0.0, 20.0 }));
    }
  else if (kind)
    q.push_back (c.pick ({ 1e7, 6.265e8 }));
  const real prefix = c.pick ({ 1.0, 1e-3 });
  string text = mc::cat ("equivalent width, kind ", kind, " prefix ", prefix);
  for (real v : q)
    text += mc::cat (" ", v);
  c.log (text);
  const P p (q.data ());
  const real w = especia::Equivalent_Width_Calculator<ID> ().calculate (p, prefix);
  // midpoint rule in x = b sinh(t): smooth and decaying
  const ld b = q[4] * p.center () / 299792.458L;
  ld s = 0;
  const int n = 20000;
  const ld T = kind >= 2 ? 20 : 3.5L;
  for (int i = 0; i < n; ++i)
    {
      const ld t = T * ((i + 0.5L) / n * 2 - 1);
      s += -expm1l (-ld (p (real (p.center () + b * sinhl (t))))) * b * coshl (t) * 2 * T / n;
    }
  const ld e = s / p.redshift_factor () / prefix;
  // the reference does not include the outermost wings of a Lorentzian
  const ld far = kind < 2 ? 0 : 2 * ld (p (p.center () + 1000.0)) * 1e6L / (b * sinhl (T));
  if (!(fabsl (w - e) <= (2e-5L + far) / prefix / p.redshift_factor () + 2e-6L * e))
    c.fail ("width", mc::cat ("equivalent width ", w, " instead of ", double (e), ": ", text));
  c.outcome (mc::hash_double (w, kind));
  if (c.want_sample ())
    c.sample (text);
}

static void
convolution (mc::Ctx &c)
{
  const real tau = c.pick ({ 0.0, 0.3, 2.0, 20.0 }), wl = c.pick ({ 0.5, 1.0, 3.0 }), wi = c.pick ({ 0.3, 1.0, 2.0 }), x = c.pick ({ 0.0, 0.4, -1.1, 5.0 }), y0 = c.pick ({ 0.0, 0.3 });
  const string text = mc::cat ("convolution depth ", tau, " widths ", wl, " ", wi, " at ", x, " asymmetry ", y0);
  c.log (text);
  auto f = [&] (real t) -> real { return tau * exp (-t * t / (wl * wl)); };
  auto g = [&] (real t) -> real { return exp (-(t - y0) * (t - y0) / (wi * wi)) / (sqrt (M_PI) * wi); };
  const real r = especia::Convolutor<ID> ().convolute (f, g, x);
  ld s = 0;
  const int n = 8000;
  const ld L = 9 * wi;
  for (int i = 0; i <= n; ++i)
    {
      const ld y = y0 - L + 2 * L * i / n;
      s += expl (-tau * expl (-(x - y) * (x - y) / (wl * wl))) * expl (-(y - y0) * (y - y0) / (wi * wi)) / (sqrtl (PI) * wi) * 2 * L / n;
    }
  if (!(fabsl (r - s) <= 2e-6L))
    c.fail ("convolution", mc::cat ("convolution ", r, " instead of ", double (s), ": ", text));
  c.outcome (mc::hash_double (r, 3));
}

// Many similar parts, the errors of which add up.
static void
periods (mc::Ctx &c)
{
  const pair<int, int> pq = pairs ()[c.choose (6)];
  const int kind = c.choose (2);
  const ld a = c.pick<ld> ({ 0.5L, 1.0L, 2.0L, 4.0L, 8.0L });
  const ld goal = c.pick<ld> ({ 1e-3L, 1e-6L, 1e-9L });
  const int K = 97;
  const string text = mc::cat (kind ? "exp(a sin 2 pi x)" : "exp(a cos 2 pi x)", " a=", double (a), " over ", K, " periods, formulas ", points[pq.first], " ", points[pq.second], " accuracy goal ", double (goal));
  c.log (text);
  auto f = [&] (ld x) -> ld { return expl (a * (kind ? sinl (2 * PI * x) : cosl (2 * PI * x))); };
  const ld r = integrator<ld> (pq.first, pq.second).integrate (f, 0.1L, 0.1L + K, goal, 100000);
  // the modified Bessel function of order zero
  ld e = 0, t = 1;
  for (int k = 1; k < 100; ++k)
    {
      e += t;
      t *= a * a / (4.0L * k * k);
    }
  e *= K;
  if (!(fabsl (r - e) <= 3 * goal + 1e-16L * e))
    c.fail ("accuracy", mc::cat ("integral ", double (r), " instead of ", double (e), ": ", text));
  c.outcome (mc::hash_str (text));
}

int
mc_shards (int)
{
  return 13;
}

const char *
mc_rule ()
{
  return "every pair of different formulas, every polynomial degree up to that of the formula, intervals in both directions and forced numbers of refinements; integrands with and without kinks compared with bisection without reuse of function values; accuracy goals on integrands with known integrals, with up to thousands of parts; line parameters; non-trivial: distinct problems";
}

void
mc_case (mc::Ctx &c)
{
  using namespace especia;
  switch (c.shard ())
    {
    case 0:
      return formulas (c);
    case 1:
      return polynomials (c);
    case 2:
      return refinements (c);
    case 3:
      return accuracy<ld> (c);
    case 4:
      return accuracy<real> (c);
    case 5:
      return infinite (c);
    case 6:
      return width<Intergalactic_Doppler> (c, 0);
    case 7:
      return width<Many_Multiplet> (c, 1);
    case 8:
      return width<Intergalactic_Voigt<Pseudo_Voigt> > (c, 2);
    case 12:
      return periods (c);
    case 9:
      return width<Intergalactic_Voigt<Extended_Pseudo_Voigt> > (c, 3);
    default:
      return c.shard () == 10 ? convolution (c) : formulas (c);
    }
}
