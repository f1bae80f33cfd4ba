// Helpers to observe a Section through its public interface.
#pragma once
#include "core/section.h"
#include "mc.hpp"
#include <sstream>
#include <string>
#include <vector>

struct Row
{
  double wav, flx, unc;
  int msk;
  double opt, atm, cat, cfl, tfl, fit, res, nfl, nun;
};

inline double
to_double (const std::string &s, bool &ok)
{
  char *e;
  double d = strtod (s.c_str (), &e);
  if (e == s.c_str () || *e)
    ok = false;
  return d;
}

// Parses the data written by a section: 13 columns per line.
inline bool
parse_rows (const std::string &text, std::vector<Row> &rows)
{
  std::istringstream is (text);
  std::string l;
  rows.clear ();
  while (std::getline (is, l))
    {
      std::istringstream ls (l);
      std::vector<std::string> t;
      std::string w;
      while (ls >> w)
        t.push_back (w);
      if (t.size () != 13)
        return false;
      bool ok = true;
      Row r;
      double *d[] = { &r.wav, &r.flx, &r.unc, nullptr, &r.opt, &r.atm, &r.cat, &r.cfl, &r.tfl, &r.fit, &r.res, &r.nfl, &r.nun };
      for (int i = 0; i < 13; ++i)
        if (d[i])
          *d[i] = to_double (t[i], ok);
      if (t[3] == "1")
        r.msk = 1;
      else if (t[3] == "0")
        r.msk = 0;
      else
        ok = false;
      if (!ok)
        return false;
      rows.push_back (r);
    }
  return true;
}

inline std::vector<Row>
rows_of (mc::Ctx &c, const especia::Section &s)
{
  std::ostringstream os;
  s.put (os);
  std::vector<Row> r;
  if (!parse_rows (os.str (), r))
    c.fail ("format", "the data written cannot be parsed into 13 columns:\n" + os.str ());
  return r;
}

typedef long double ld;

// The integrals of the Gaussian profile and of its first moment over [u, v], by Gauss-Legendre quadrature.
inline void
moments (ld h, ld u, ld v, ld &g0, ld &g1)
{
  static const ld xs[] = { 0.0L, 0.4058451513773971669066064120769615L, 0.7415311855993944398638647732807884L, 0.9491079123427585245261896840478513L };
  static const ld ws[] = { 0.4179591836734693877551020408163265L, 0.3818300505051189449503697754889751L, 0.2797053914892766679014677714237796L, 0.1294849661688696932706114326790820L };
  const ld ln2 = std::log (2.0L), norm = std::sqrt (ln2 / std::acos (-1.0L)) / h;
  const int parts = 1 + int (8 * (v - u) / h);
  g0 = g1 = 0;
  for (int p = 0; p < parts; ++p)
    {
      ld a = u + (v - u) * p / parts, b = u + (v - u) * (p + 1) / parts, c = (a + b) / 2, d = (b - a) / 2;
      for (int i = 0; i < 4; ++i)
        for (int sg = (i ? -1 : 1); sg <= 1; sg += 2)
          {
            ld x = c + sg * d * xs[i];
            ld y = ws[i] * d * norm * std::exp (-ln2 * (x / h) * (x / h));
            g0 += y;
            g1 += x * y;
          }
    }
}


struct Convolved
{
  std::vector<ld> opt, atm, cat;
};

// The absorption of at least three data points convolved with a Gaussian instrumental profile of resolution r
// (in units of 1000): piecewise linear absorption, additional samples if the data spacing is larger than the half
// width, truncated at four half widths, outermost segments repeated.
template <class T>
Convolved
ref_convolve (const std::vector<double> &x, double r, const T &tau)
{
  const int n = int (x.size ());
  const ld h = 0.5L * (0.5L * (ld (x[0]) + x[n - 1])) / (ld (r) * 1000.0L);
  const ld dd = (ld (x[n - 1]) - x[0]) / (n - 1);
  const int ss = int (std::ceil (dd / h));
  const ld w = dd / ss;
  const int segs = int (4.0L * h / w);
  const int ns = ss * (n - 1) + 1;
  std::vector<ld> xa (ns), a (ns), od (ns);
  for (int i = 0; i + 1 < n; ++i)
    for (int k = 0; k < ss; ++k)
      xa[i * ss + k] = x[i] + (ld (x[i + 1]) - x[i]) * k / ss;
  xa[ns - 1] = x[n - 1];
  for (int i = 0; i < ns; ++i)
    {
      od[i] = tau (double (xa[i]));
      a[i] = std::exp (-od[i]);
    }
  std::vector<ld> g0 (segs), g1 (segs);
  for (int j = 0; j < segs; ++j)
    moments (h, j * w, (j + 1) * w, g0[j], g1[j]);
  Convolved c;
  for (int i = 0; i < n; ++i)
    {
      const int k = i * ss;
      ld v = 0;
      for (int j = 0; j < segs; ++j)
        {
          // right: segment [k+j, k+j+1]; left: segment [k-j-1, k-j]; the outermost segment is repeated
          int l = std::min (k + j, ns - 2), m = std::max (k - j - 1, 0);
          v += a[l] * g0[j] + (a[l + 1] - a[l]) * (g1[j] / w - j * g0[j]);
          v += a[m + 1] * g0[j] + (a[m] - a[m + 1]) * (g1[j] / w - j * g0[j]);
        }
      c.cat.push_back (v);
      c.opt.push_back (od[k]);
      c.atm.push_back (a[k]);
    }
  return c;
}
