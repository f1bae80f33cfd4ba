// C12: instrumental convolution is exact for any sampling.
#include "sec.hpp"
#include <stdexcept>

using namespace std;
using especia::natural;
using especia::Section;

struct Tau
{
  int kind;
  double x0, x1;
  double
  operator() (const double &x) const
  {
    const double t = (x - x0) / (x1 - x0);
    switch (kind)
      {
      case 0: return 0.0;
      case 1: return 0.7;
      case 2: return 2.0 * exp (-(t - 0.45) * (t - 0.45) / 0.02);
      case 3: return t < 0.3 ? 3.0 : 0.2;
      case 4: return 1.5 * t;
      case 5: return 0.5 + 0.5 * sin (40.0 * t);
      case 6: return 30.0 * exp (-fabs (t - 0.98) / 0.05);
      default: return t < 0.03 ? 1.0 : 0.0;
      }
  }
};

int
mc_shards (int)
{
  return 8 * 14;
}

const char *
mc_rule ()
{
  return "section sizes x ratios of data spacing to instrumental width (both sides of every supersampling step up to 6 and truncation transition) x 8 absorption shapes; every point against direct integration; non-trivial: distinct convolved profiles";
}

void
mc_case (mc::Ctx &c)
{
  // ratio of data spacing to HWHM
  static const vector<double> ratios = { 0.013, 0.0503, 0.11, 0.199, 0.26, 0.34, 0.41, 0.49, 0.61, 0.79, 0.81, 0.99, 0.999999, 1.000001, 1.01, 1.3, 1.34, 1.99, 1.999999, 2.000001, 2.01, 2.6, 3.3, 4.7, 5.9, 9.3, 37.7, 150.2 };
  static const vector<int> sizes = { 1, 2, 3, 4, 5, 7, 12, 33, 64, 200 };
  const Tau tau{ c.shard () % 8, 0, 0 };
  const int part = c.shard () / 8;
  const double ratio = ratios[part * 2 + c.choose (2)];
  const int n = c.pick (sizes);
  const double start = c.pick ({ 1215.0, 8000.0 });
  const double d = c.pick ({ 0.02, 0.25 });
  const int grid = n > 3 ? c.choose (2) : 0; // slightly nonuniform
  vector<double> x (n), y (n, 1.0), z (n, 1.0);
  for (int i = 0; i < n; ++i)
    x[i] = start + d * i + (grid && i && i + 1 < n ? 0.1 * d * (i % 3 - 1) : 0.0);
  Tau t{ tau.kind, x[0] - 1e-9, x[n - 1] + (n == 1 ? 1.0 : 0.0) };
  const double width = x[n - 1] - x[0], centre = 0.5 * (x[0] + x[n - 1]);
  const double spacing = n > 1 ? width / (n - 1) : d;
  const double r = 0.5 * centre / (spacing / ratio) / 1000.0;
  string what = mc::cat ("n=", n, " start=", start, " spacing=", spacing, " resolution=", r, " ratio=", ratio, " shape=", tau.kind, " grid=", grid);
  c.log (what);
  c.state (mc::hash_str (what));
  Section s (n, x.data (), y.data (), z.data ());
  double direct = s.cost (t, r, 0);
  s.apply (0, r, t);
  vector<Row> rows = rows_of (c, s);
  if (n < 3)
    return; // no convolution is defined; only memory safety is judged
  Convolved v = ref_convolve (x, r, t);
  ld chi = 0;
  uint64_t hh = 0;
  for (int i = 0; i < n; ++i)
    {
      const double tol = 2e-8;
      if (!mc::near (rows[i].cat, double (v.cat[i]), tol, 1e-9))
        c.fail ("convolution", mc::cat ("convolved absorption at point ", i, " is ", rows[i].cat, " instead of ", double (v.cat[i]), ": ", what));
      if (!mc::near (rows[i].opt, double (v.opt[i]), tol, 1e-12) || !mc::near (rows[i].atm, double (v.atm[i]), tol, 1e-12))
        c.fail ("absorption", mc::cat ("optical depth or absorption at point ", i, ": ", what));
      if (tau.kind <= 1 && ratio < 0.5 && fabs (rows[i].cat - exp (-t (x[i]))) > 2e-3)
        c.fail ("constant", mc::cat ("constant absorption is changed to ", rows[i].cat, ": ", what));
      if (rows[i].cfl != 1.0)
        c.fail ("unity", "continuum: " + what);
      chi += (1.0L - v.cat[i]) * (1.0L - v.cat[i]);
      hh = mc::hash_double (rows[i].cat, hh);
    }
  if (!mc::near (direct, double (chi) / 2, 1e-9, 1e-13) || !mc::near (s.cost (), direct, 1e-12, 1e-15))
    c.fail ("cost", mc::cat ("cost ", direct, " and ", s.cost (), " instead of ", double (chi) / 2, ": ", what));
  c.outcome (hh);
  if (c.want_sample ())
    c.sample (what);
}
