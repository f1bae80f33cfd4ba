// C10: masked data have no influence; cost is half of chi-square.
#include "sec.hpp"
#include <limits>
#include <stdexcept>

using namespace std;
using especia::natural;
using especia::Section;

struct Tau
{
  double a, x0, w;
  double
  operator() (const double &x) const
  {
    return a * exp (-(x - x0) * (x - x0) / (w * w));
  }
};

int
mc_shards (int tier)
{
  return 5 * 8 + 4; // section sizes x sub-shards, orders of wavelengths
}

const char *
mc_rule ()
{
  return "all masks (and all mask intervals) of sections of 3 to 6 (thorough 8) points x polynomial counts 0 to 5 (thorough 7) x resolutions x absorption x substituted masked values; sequences of two mask intervals on wavelengths in any order; non-trivial: distinct costs";
}

static const vector<double> extreme = { 1e30, -1e30, numeric_limits<double>::quiet_NaN (), numeric_limits<double>::infinity (), 0.0 };

static string
text (const vector<double> &x, const vector<double> &y, const vector<double> &z, unsigned m)
{
  ostringstream os;
  os.precision (17);
  for (size_t i = 0; i < x.size (); ++i)
    os << x[i] << ' ' << y[i] << ' ' << z[i] << ' ' << ((m >> i) & 1) << '\n';
  return os.str ();
}

// Masks are sets of points, whatever the order of the data.
static void
unordered (mc::Ctx &c, int first)
{
  static const vector<double> bounds = { -1e300, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 3.5, 4.0, 4.5, 1e300 };
  const int n = 1 + c.choose (c.tier ? 5 : 4);
  vector<double> x (n), y (n), z (n, 0.5);
  for (int i = 0; i < n; ++i)
    {
      x[i] = 1.0 + (i ? c.choose (4) : first);
      y[i] = i;
    }
  const double a = c.pick (bounds), b = c.pick (bounds);
  const int k = c.choose (4);
  const double a2 = vector<double>{ 2.0, 3.0, 1.5, 1e300 }[k], b2 = vector<double>{ 2.0, 4.0, 2.5, -1e300 }[k];
  Section s (n, x.data (), y.data (), z.data ());
  s.mask (a, b);
  s.mask (a2, b2);
  vector<Row> rows = rows_of (c, s);
  size_t valid = 0;
  for (int i = 0; i < n; ++i)
    {
      const int m = !((a <= x[i] && x[i] <= b) || (a2 <= x[i] && x[i] <= b2));
      valid += m;
      if (rows.size () != size_t (n) || rows[i].msk != m || rows[i].wav != x[i] || rows[i].flx != y[i])
        c.fail ("mask", mc::cat ("point ", i, " of wavelengths ", x[0], " ", n > 1 ? x[1] : 0.0, " ", n > 2 ? x[2] : 0.0, " ", n > 3 ? x[3] : 0.0, " after masking ", a, " to ", b, " and ", a2, " to ", b2));
    }
  if (s.valid_data_count () != valid || s.data_count () != size_t (n))
    c.fail ("mask", mc::cat ("valid data count ", s.valid_data_count (), " instead of ", valid));
}

void
mc_case (mc::Ctx &c)
{
  if (c.shard () >= 40)
    return unordered (c, c.shard () - 40);
  const int n = 3 + c.shard () / 8 + (c.tier ? (c.shard () / 8 > 3 ? 1 : 0) : (c.shard () / 8 > 3 ? -1 : 0));
  const unsigned sub = c.shard () % 8;
  // the mask: lowest three bits from the shard
  unsigned m = sub;
  for (int i = 3; i < n; ++i)
    m |= unsigned (c.choose (2)) << i;
  const natural deg = c.choose (c.tier ? 8 : 6);
  const double r = c.pick ({ 0.05, 20.0, 400.0 });
  const Tau tau{ c.pick ({ 0.0, 1.5 }), 5000.4, 0.9 };
  const int size = c.choose (3); // usual residuals, residuals of up to 1e6 uncertainties, one outlier
  const int how = c.choose (3); // mask given by flags, by single-point intervals, by maximal intervals
  vector<double> x (n), y (n), z (n);
  for (int i = 0; i < n; ++i)
    {
      x[i] = 5000.0 + 0.25 * i;
      y[i] = 1.0 + 0.125 * ((i * 7) % 5) - 0.5 * (i % 2);
      z[i] = (0.25 + 0.25 * (i % 3)) * (size == 1 ? 1e-6 : 1.0);
    }
  if (size == 2)
    y[n / 2] = 3e4;
  size_t valid = __builtin_popcount (m);
  if (deg > valid)
    return; // singular
  c.log (mc::cat ("n=", n, " mask=", m, " degree=", deg, " r=", r, " tau=", tau.a, " how=", how, " size=", size));
  auto make = [&] (const vector<double> &yy, const vector<double> &zz) {
    Section s (n, x.data (), yy.data (), zz.data ());
    if (how == 0)
      {
        // through the reader (values that cannot be read are set by the constructor instead)
        bool readable = true;
        for (int i = 0; i < n; ++i)
          readable = readable && isfinite (yy[i]) && isfinite (zz[i]);
        if (readable)
          {
            istringstream is (text (x, yy, zz, m));
            if (!s.get (is))
              c.fail ("read", "data were not read");
            return s;
          }
      }
    if (how <= 1)
      for (int i = 0; i < n; ++i)
        {
          if (!((m >> i) & 1))
            s.mask (x[i], x[i]);
        }
    else
      for (int i = 0; i < n; ++i)
        {
          if (!((m >> i) & 1))
            {
              int j = i;
              while (j + 1 < n && !((m >> (j + 1)) & 1))
                ++j;
              s.mask (i ? nextafter (x[i - 1], 1e9) : 0.0, j + 1 < n ? nextafter (x[j + 1], 0.0) : 1e9);
              i = j;
            }
        }
    s.mask (x[0] + 0.1, x[0] + 0.2); // contains no data
    s.mask (x[n - 1], x[0]);         // empty interval
    return s;
  };
  Section s = make (y, z);
  if (s.valid_data_count () != valid || s.data_count () != size_t (n))
    c.fail ("mask", mc::cat ("valid data count ", s.valid_data_count (), " instead of ", valid));
  double direct = s.cost (tau, r, deg);
  s.apply (deg, r, tau);
  vector<Row> rows = rows_of (c, s);
  double chi = 0;
  for (int i = 0; i < n; ++i)
    {
      if (rows[i].msk != int ((m >> i) & 1))
        c.fail ("mask", mc::cat ("flag of point ", i));
      double res = (y[i] - rows[i].fit) / z[i];
      if (!mc::near (rows[i].res, res, 1e-7, 1e-7 + 2e-8 * fmax (1.0, fabs (rows[i].fit)) / z[i])) // the fit is written with few digits
        c.fail ("residual", mc::cat ("residual of point ", i, " is ", rows[i].res, " not ", res));
      if ((m >> i) & 1)
        chi += rows[i].res * rows[i].res;
    }
  if (!mc::near (s.cost (), 0.5 * chi, 1e-6, 1e-9))
    c.fail ("cost", mc::cat ("cost ", s.cost (), " instead of half of chi-square ", 0.5 * chi));
  if (!mc::near (s.cost (), direct, 1e-12, 1e-15))
    c.fail ("direct", mc::cat ("direct cost ", direct, " differs from the cost ", s.cost (), " after applying the model"));
  if (!mc::near (s.cost (tau, r, deg), direct, 1e-13, 0))
    c.fail ("direct", "direct cost changes after applying the model");
  c.state (mc::hash_double (direct, mc::mix (m, deg * 1000 + how)));
  c.outcome (mc::hash_double (direct, 7));
  // substitute masked values
  if (valid < size_t (n))
    {
      const double ey = c.pick (extreme);
      const double ez = c.choose (2) ? 1e-20 : fabs (ey);
      vector<double> y2 = y, z2 = z;
      for (int i = 0; i < n; ++i)
        if (!((m >> i) & 1))
          {
            y2[i] = ey;
            z2[i] = ez;
          }
      Section t = make (y2, z2);
      double d2 = t.cost (tau, r, deg);
      t.apply (deg, r, tau);
      if (!mc::near (d2, direct, 1e-12, 1e-15) || !mc::near (t.cost (), direct, 1e-12, 1e-15))
        c.fail ("influence", mc::cat ("masked values ", ey, " +- ", ez, " change the cost from ", direct, " to ", d2, " and ", t.cost ()));
      vector<Row> rt = rows_of (c, t);
      for (int i = 0; i < n; ++i)
        if (!mc::near (rt[i].cfl, rows[i].cfl, 1e-7, 1e-9) || !mc::near (rt[i].fit, rows[i].fit, 1e-7, 1e-9) || !mc::near (rt[i].cat, rows[i].cat, 1e-7, 1e-9))
          c.fail ("influence", mc::cat ("masked values change the continuum or fit at point ", i));
    }
  if (c.want_sample ())
    c.sample (mc::cat ("n=", n, " mask=", m, " degree=", deg, " cost=", direct));
}
