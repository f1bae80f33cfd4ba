// C13: line profiles match their physical definition.
#include "core/profiles.h"
#include "mc.hpp"

using namespace std;
using especia::natural;
using especia::real;
typedef long double ld;

static const ld PI = acosl (-1.0L);
static const ld C = 299792.458L; // km s-1

// Gaussian and Lorentzian of unit area, pseudo-Voigt approximations of Ida, Ando & Toraya (2000).
static ld
gauss (ld x, ld b)
{
  return expl (-(x / b) * (x / b)) / (sqrtl (PI) * b);
}

static ld
lorentz (ld x, ld d)
{
  return d / (PI * (d * d + x * x));
}

static ld
pv (ld x, ld b, ld d)
{
  const ld g = sqrtl (logl (2)) * b;
  const ld w = powl (powl (g, 5) + 2.69296L * powl (g, 4) * d + 2.42843L * g * g * g * d * d + 4.47163L * g * g * d * d * d + 0.07842L * g * powl (d, 4) + powl (d, 5), 0.2L);
  const ld r = d / w, eta = 1.36603L * r - 0.47719L * r * r + 0.11116L * r * r * r;
  return (1 - eta) * gauss (x, w / sqrtl (logl (2))) + eta * lorentz (x, w);
}

static ld
poly (ld r, const ld *a)
{
  ld s = 0;
  for (int i = 6; i >= 0; --i)
    s = s * r + a[i];
  return s;
}

static ld
epv (ld x, ld b, ld d)
{
  // table 1 of the paper
  static const ld wg[] = { 0.66000L, 0.15021L, -1.24984L, 4.74052L, -9.48291L, 8.48252L, -2.95553L };
  static const ld wl[] = { -0.42179L, -1.25693L, 10.30003L, -23.45651L, 29.14158L, -16.50453L, 3.19974L };
  static const ld wi[] = { 1.19913L, 1.43021L, -15.36331L, 47.06071L, -73.61822L, 57.92559L, -17.80614L };
  static const ld wp[] = { 1.10186L, -0.47745L, -0.68688L, 2.76622L, -4.55466L, 4.05475L, -1.26571L };
  static const ld el[] = { -0.30165L, -1.38927L, 9.31550L, -24.10743L, 34.96491L, -21.18862L, 3.70290L };
  static const ld ei[] = { 0.25437L, -0.14107L, 3.23653L, -11.09215L, 22.10544L, -24.12407L, 9.76947L };
  static const ld ep[] = { 1.01579L, 1.50429L, -9.21815L, 23.59717L, -39.71134L, 32.83023L, -10.02142L };
  const ld g = sqrtl (logl (2)) * b, t = g + d, r = d / t;
  const ld Wg = t * (1 - r * poly (r, wg)), Wl = t * (1 - (1 - r) * poly (r, wl)), Wi = t * poly (r, wi), Wp = t * poly (r, wp);
  const ld nl = r * (1 + (1 - r) * poly (r, el)), ni = r * (1 - r) * poly (r, ei), np = r * (1 - r) * poly (r, ep);
  const ld gi = Wi / sqrtl (powl (2, 2.0L / 3) - 1), gp = Wp / logl (sqrtl (2) + 1);
  return (1 - nl - ni - np) * gauss (x, Wg / sqrtl (logl (2))) + nl * lorentz (x, Wl) + ni / (2 * gi) * powl (1 + x * x / (gi * gi), -1.5L) + np / (2 * gp) / (coshl (x / gp) * coshl (x / gp));
}

// The Voigt function itself: the convolution of both.
static ld
voigt (ld x, ld b, ld d)
{
  if (d == 0)
    return gauss (x, b);
  // substitute the Lorentzian: t = x + d tan(u); trapezoidal rule over the Gaussian converges exponentially
  const int n = 4000;
  ld s = 0, lim = 9 * b, h = 2 * lim / n;
  // fine step relative to the Lorentzian width is needed
  int m = n;
  while (h > d / 8 && m < 400000)
    {
      m *= 2;
      h = 2 * lim / m;
    }
  for (int i = 0; i <= m; ++i)
    {
      ld y = -lim + i * h;
      s += gauss (y, b) * lorentz (x - y, d);
    }
  return s * h;
}

struct Line
{
  vector<real> q;
  string text;
};

static ld
amplitude (ld f, ld col, ld lambda, ld centre)
{
  // pi e^2 / (m c^2) f N lambda * observed wavelength, in Angstrom: e^2 / (4 eps0 m c^2)
  const ld e = 1.6021766208e-19L, eps0 = 8.854187817e-12L, m = 9.10938356e-31L, c = 299792458.0L;
  // column densities in cm-2, wavelengths in Angstrom
  return 1e4L * 1e-10L * e * e / (4 * eps0 * m * c * c) * f * powl (10, col) * lambda * centre;
}

enum Kind
{
  DOPPLER,
  MANY,
  PSEUDO,
  EXTENDED
};

struct Expected
{
  ld z, c, b, d, a;
};

static Expected
expected (Kind k, const vector<real> &q)
{
  Expected e;
  e.z = (1 + ld (q[2])) * (1 + ld (q[3]) / C);
  ld u = q[0];
  if (k == MANY)
    {
      // omega = omega0 + q ((1 + da/a)^2 - 1)
      const ld al = 1 + ld (q[7]) * 1e-6L;
      u = 1e8L / (1e8L / ld (q[0]) + ld (q[6]) * (al * al - 1));
    }
  e.c = u * e.z;
  e.b = ld (q[4]) * e.c / C;
  e.d = 0;
  if (k == PSEUDO || k == EXTENDED)
    // damping constant (s-1): gamma lambda^2 / (4 pi c)
    e.d = 1e-10L * ld (q[6]) * ld (q[0]) * e.c / (4 * PI * 299792458.0L);
  e.a = amplitude (q[1], q[5], u, e.c);
  return e;
}

static ld
shape (Kind k, ld x, ld b, ld d)
{
  switch (k)
    {
    case PSEUDO:
      return pv (x, b, d);
    case EXTENDED:
      return epv (x, b, d);
    default:
      return fabsl (x) < 4 * b ? gauss (x, b) : 0;
    }
}

static const vector<real> &
offsets ()
{
  static const vector<real> o = { 0.0, 0.05, 0.3, 0.5, 0.9, 1.0, 1.5, 2.0, 2.7, 3.3, 3.9999, 4.0001, 5.0, 8.0, 20.0, 100.0, 1000.0 };
  return o;
}

template <class P>
static void
line (mc::Ctx &c, Kind k, const vector<real> &q, const string &text)
{
  const P p (q.data ());
  const Expected e = expected (k, q);
  if (natural (q.size ()) != P::parameter_count ())
    c.fail ("parameters", mc::cat ("number of parameters ", P::parameter_count ()));
  if (fabsl (p.center () - e.c) > 1e-14L * e.c)
    c.fail ("centre", mc::cat ("centre ", p.center (), " instead of ", double (e.c), ": ", text));
  if (fabsl (p.redshift_factor () - e.z) > 1e-14L * e.z)
    c.fail ("redshift", mc::cat ("redshift factor ", p.redshift_factor (), " instead of ", double (e.z), ": ", text));
  const ld w = e.b + e.d;
  uint64_t h = 0;
  for (real o : offsets ())
    {
      ld v[2];
      for (int s = 0; s < 2; ++s)
        {
          // x - c is exact (close numbers)
          const real x = p.center () + real ((s ? -1 : 1) * o * w);
          const ld dx = ld (x) - ld (p.center ());
          const ld t = p (x);
          const ld eps = 4e-16L * e.c;
          if ((k == DOPPLER || k == MANY) && fabsl (fabsl (dx) - 4 * e.b) < 1e-3L * e.b * 0.05L)
            continue;
          const ld r = e.a * shape (k, dx, e.b, e.d);
          const ld var = max (fabsl (e.a * shape (k, dx + eps, e.b, e.d) - r), fabsl (e.a * shape (k, dx - eps, e.b, e.d) - r));
          v[s] = t;
          if (!(fabsl (t - r) <= 1e-12L * fabsl (r) + var + 1e-280L))
            c.fail ("depth", mc::cat ("optical depth at ", x, " (offset ", double (dx), ") is ", double (t), " instead of ", double (r), ": ", text));
          h = mc::hash_double (double (t), h);
        }
    }
  // symmetry at exactly mirrored positions
  for (int i = 1; i < 40; ++i)
    {
      const real s = ldexp (1.0, int (floor (log2 (double (w)))) - 3) * i;
      const real c0 = p.center ();
      if ((c0 + s) - c0 != s || c0 - (c0 - s) != s)
        continue;
      if (!mc::near (p (c0 + s), p (c0 - s), 1e-13, 1e-300))
        c.fail ("symmetry", mc::cat ("optical depth ", p (c0 + s), " and ", p (c0 - s), " at equal distances: ", text));
    }
  c.outcome (h);
  c.count ("profile values", 2 * offsets ().size ());
  if (c.want_sample ())
    c.sample (text);
}

template <class P>
static void
lines (mc::Ctx &c, Kind k)
{
  vector<real> q;
  q.push_back (c.pick ({ 1215.6701, 2796.3543, 5891.5833 }));
  q.push_back (c.pick ({ 0.41640, 1.0e-3 }));
  q.push_back (c.pick ({ 0.0, 1.5, 3.025 }));
  q.push_back (c.pick ({ 0.0, -250.0, 33.3 }));
  q.push_back (c.pick ({ 0.8, 12.5, 60.0 }));
  q.push_back (c.pick ({ 11.0, 14.25, 20.5 }));
  if (k == MANY)
    {
      q.push_back (c.pick ({ 0.0, 1330.0, -1110.0 }));
      q.push_back (c.pick ({ 0.0, -5.7, 1000.0, 1.0e5 }));
    }
  else if (k != DOPPLER)
    q.push_back (c.pick ({ 0.0, 1.0e5, 6.265e8, 1.0e11, 1.0e13 }));
  string text = k == DOPPLER ? "Doppler" : k == MANY ? "many multiplet" : k == PSEUDO ? "pseudo-Voigt" : "extended pseudo-Voigt";
  for (real v : q)
    text += mc::cat (" ", v);
  c.log (text);
  line<P> (c, k, q, text);
}

template <class P>
static void
superposition (mc::Ctx &c, Kind k)
{
  // every sequence of up to n lines out of a set, in every order
  vector<vector<real> > set;
  for (int i = 0; i < 4; ++i)
    {
      vector<real> q = { 1215.67 + i % 2, 0.4 / (1 + i), 1.5, -40.0 + 30.0 * i, 8.0 + 5 * i, 12.0 + 0.7 * i };
      if (k == MANY)
        {
          q.push_back (100.0 * i);
          q.push_back (10.0);
        }
      else if (k != DOPPLER)
        q.push_back (1e8 * (i + 1));
      set.push_back (q);
    }
  int n = c.choose (c.tier ? 8 : 6);
  // many lines
  const bool many = n == (c.tier ? 7 : 5);
  if (many)
    n = 5 + c.choose (76);
  vector<real> all;
  vector<int> pick;
  for (int i = 0; i < n; ++i)
    {
      int j = many ? (i * i + i / 3) % 4 : c.choose (4);
      pick.push_back (j);
      all.insert (all.end (), set[j].begin (), set[j].end ());
    }
  string text = mc::cat ("kind ", int (k), " lines");
  for (int j : pick)
    text += mc::cat (" ", j);
  c.log (text);
  all.push_back (0.0);
  const especia::Superposition<P> s (n, all.data ());
  for (real x = 3036.0; x < 3045.0; x += 0.37)
    {
      ld sum = 0, mag = 0;
      for (int j : pick)
        {
          const real t = P (set[j].data ()) (x);
          sum += t;
          mag += fabs (t);
        }
      if (fabsl (s (x) - sum) > 1e-14L * (n > 4 ? n : 1) * mag)
        c.fail ("superposition", mc::cat ("sum at ", x, " is ", s (x), " instead of ", double (sum), ": ", text));
    }
  c.outcome (mc::hash_str (text));
}

template <class A>
static void
approximation (mc::Ctx &c, Kind k)
{
  // widths over seven decades; compared with the formula and with the Voigt function itself
  const real b = c.pick ({ 0.5, 1e-3, 7.0 });
  vector<real> ratios = { 0.0, 1e-6, 1e-3, 0.01, 0.1, 0.3, 0.7, 1.0, 1.6, 3.0, 10.0, 100.0 };
  const real d = b * c.pick (ratios);
  const A a (b, d);
  const string text = mc::cat ("widths ", b, " ", d);
  c.log (text);
  const ld w = ld (b) + d;
  const ld peak = k == PSEUDO ? pv (0, b, d) : epv (0, b, d);
  uint64_t h = 0;
  for (real o : offsets ())
    for (int s = -1; s <= 1; s += 2)
      {
        const real x = s * o * real (w);
        const ld r = k == PSEUDO ? pv (x, b, d) : epv (x, b, d);
        const ld t = a (x);
        if (!(fabsl (t - r) <= 1e-11L * fabsl (r) + 1e-300L))
          c.fail ("approximation", mc::cat ("value at ", x, " is ", double (t), " instead of ", double (r), ": ", text));
        if (d == 0 || d >= 0.01 * b)
          {
            const ld v = voigt (x, b, d);
            if (fabsl (t - v) > (k == PSEUDO ? 0.0125L : 0.0013L) * peak)
              c.fail ("voigt", mc::cat ("value at ", x, " is ", double (t), ", the Voigt function is ", double (v), ": ", text));
          }
        h = mc::hash_double (double (t), h);
      }
  // unit area, by substitution x = w tan(u)
  ld area = 0;
  const int n = 20000;
  for (int i = 0; i < n; ++i)
    {
      const ld u = PI * ((i + 0.5L) / n - 0.5L);
      const ld g = min (ld (b), w);
      area += a (real (g * tanl (u))) * g / (cosl (u) * cosl (u)) * PI / n;
    }
  if (fabsl (area - 1) > 1e-5L)
    c.fail ("area", mc::cat ("area ", double (area), ": ", text));
  c.outcome (h);
}

int
mc_shards (int)
{
  return 4 + 4 + 2;
}

const char *
mc_rule ()
{
  return "every combination of line parameters out of finite sets for every line type, at offsets from the centre to the far wings; every sequence of up to four lines superposed, sequences of up to 80 lines; pseudo-Voigt widths over eight decades; non-trivial: distinct profiles";
}

void
mc_case (mc::Ctx &c)
{
  using namespace especia;
  switch (c.shard ())
    {
    case 0:
      return lines<Intergalactic_Doppler> (c, DOPPLER);
    case 1:
      return lines<Many_Multiplet> (c, MANY);
    case 2:
      return lines<Intergalactic_Voigt<Pseudo_Voigt> > (c, PSEUDO);
    case 3:
      return lines<Intergalactic_Voigt<Extended_Pseudo_Voigt> > (c, EXTENDED);
    case 4:
      return superposition<Intergalactic_Doppler> (c, DOPPLER);
    case 5:
      return superposition<Many_Multiplet> (c, MANY);
    case 6:
      return superposition<Intergalactic_Voigt<Pseudo_Voigt> > (c, PSEUDO);
    case 7:
      return superposition<Intergalactic_Voigt<Extended_Pseudo_Voigt> > (c, EXTENDED);
    case 8:
      return approximation<Pseudo_Voigt> (c, PSEUDO);
    default:
      return approximation<Extended_Pseudo_Voigt> (c, EXTENDED);
    }
}
