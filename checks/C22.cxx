// C22: the result file reports the optimized model faithfully.
#include "core/profiles.h"
#include "result.hpp"
#include "spec.hpp"
#include <algorithm>

using namespace std;
using especia::natural;
using especia::real;
using result::V;

static const int count_of[] = { 6, 7, 7, 8 };

static const string &
data_file (int k)
{
  static string f[2];
  if (f[k].empty ())
    {
      f[k] = mc::scratch () + "/d" + to_string (k);
      ofstream os (f[k]);
      for (int i = 0; i < 41 - 20 * k; ++i)
        os << mc::str (5000 + 0.25 * (k + 1) * i) << " " << 1.0 - 0.3 * exp (-0.5 * pow ((i - 14.0) / 3, 2)) + 0.01 * (i % 4) << " " << 0.05 + 0.01 * (i % 3) << "\n";
    }
  return f[k];
}

// What is to be shown.
struct Item
{
  double value, unc;
  bool free;
};

template <class Function>
static void
check (mc::Ctx &c, int type, const spec::Spec &d, const string &what, bool zero, int history = 0)
{
  const spec::Meaning m = spec::meaning (d);
  if (!m.error.empty ())
    c.fail ("harness", m.error + what);
  istringstream is (spec::join (spec::lines (d)));
  ostringstream os;
  especia::Model<Function> model = especia::Model<Function>::parse (is, os);
  // distinct values and uncertainties
  const size_t n = m.lo.size ();
  V x (n + 1), u (n + 1);
  for (size_t i = 0; i < n; ++i)
    {
      x[i] = m.lo[i] + (m.up[i] - m.lo[i]) * (0.31 + 0.4 * double ((i * 7) % 11) / 11);
      if (m.lo[i] < 0 && m.up[i] > 0 && i % 2)
        x[i] = 0; // exactly
      u[i] = zero ? 0 : (m.up[i] - m.lo[i]) * (0.011 + 0.0137 * double (i)); // zero: the search has not converged
    }
  ostringstream out;
  if (history == 1 || history == 3)
    {
      // what was set and computed before does not matter
      V y (x), w (n + 1, 0.5);
      for (size_t i = 0; i < n; ++i)
        y[i] = 0.75 * m.lo[i] + 0.25 * m.up[i];
      model.set (&y[0], &w[0]);
      model.cost (&y[0], natural (n));
      ostringstream other;
      model.put (other);
    }
  model.set (&x[0], &u[0]);
  if (history == 2 || history == 3)
    {
      ostringstream other;
      model.put (other);
      V y (x);
      for (size_t i = 0; i < n; ++i)
        y[i] = 0.25 * m.lo[i] + 0.75 * m.up[i];
      model.cost (&y[0], natural (n));
      model.put (out);
      if (other.str () != out.str ())
        c.fail ("repeated", "the model is written differently the second time\n" + other.str () + out.str ());
    }
  else
    model.put (out);
  auto item = [&] (const spec::Slot &s) { return s.free ? Item{ x[s.index], u[s.index], true } : Item{ s.val, 0, false }; };
  auto bad = [&] (const string &key, const string &w) { c.fail (key, w + "\n" + spec::join (spec::lines (d)) + out.str ()); };
  auto show = [&] (const result::Cell &cell, const Item &i, int p, bool sci, const string &name) {
    if (cell.v.empty () || !result::shown (cell.v[0], i.value, p, sci))
      bad ("value", name + " is shown as " + cell.text + " instead of " + mc::str (i.value));
    if (i.free != (cell.v.size () == 2))
      bad ("uncertainty", name + " is shown as " + cell.text + ", but it is " + (i.free ? "free" : "constant"));
    if (i.free && !result::shown (cell.v[1], i.unc, p, sci))
      bad ("uncertainty", name + " is shown as " + cell.text + ", but its uncertainty is " + mc::str (i.unc));
  };
  const result::Tables t = result::tables (out.str ());
  if (!t.error.empty ())
    bad ("table", t.error);
  if (t.row[0].size () != m.s.size ())
    bad ("table", mc::cat (t.row[0].size (), " sections are shown"));
  string text;
  if (!result::part (out.str (), "data", text))
    bad ("data", "no data");
  const vector<V> rows = result::data (text);
  size_t at = 0, lines = 0;
  vector<string> names;
  for (size_t i = 0; i < m.s.size (); ++i)
    {
      const auto &s = m.s[i];
      ifstream ifs (s.file);
      especia::Section sec;
      sec.get (ifs, s.a, s.b);
      // the data as they are in the file
      vector<V> data;
      {
        ifstream f (s.file);
        double a, b, e;
        while (f >> a >> b >> e)
          if (a >= s.a && a <= s.b)
            data.push_back ({ a, b, e });
      }
      vector<real> q;
      vector<V> each;
      for (auto &l : s.lines)
        {
          each.push_back (V ());
          for (auto &p : l)
            {
              q.push_back (item (p).value);
              each.back ().push_back (q.back ());
            }
        }
      q.push_back (0);
      for (auto &k : s.masks)
        sec.mask (k.first, k.second);
      const double cost = sec.cost (especia::Superposition<Function> (natural (s.lines.size ()), &q[0]), item (s.res).value, s.poly);
      // table
      const vector<result::Cell> *row = nullptr;
      for (auto &r : t.row[0])
        if (!r.empty () && r[0].text == s.id)
          {
            if (row)
              bad ("table", "section " + s.id + " is shown twice");
            row = &r;
          }
      if (!row || row->size () < 8)
        bad ("table", "section " + s.id + " is not shown");
      long valid = 0;
      auto masked = [&] (double w) {
        for (auto &k : s.masks)
          if (w >= k.first && w <= k.second)
            return true;
        return false;
      };
      for (auto &r : data)
        valid += !masked (r[0]);
      show ((*row)[1], { data.front ()[0], 0, false }, 2, false, "start wavelength");
      show ((*row)[2], { data.back ()[0], 0, false }, 2, false, "end wavelength");
      show ((*row)[3], { double (s.poly), 0, false }, 9, false, "number of polynomials");
      show ((*row)[4], item (s.res), 2, false, "resolution");
      show ((*row)[5], { double (valid), 0, false }, 9, false, "number of data points");
      show ((*row)[6], { cost, 0, false }, 2, false, "cost");
      if (valid > 0)
        show ((*row)[7], { cost / valid, 0, false }, 2, false, "cost per data point");
      // data
      double sum = 0;
      for (auto &r : data)
        {
          if (at >= rows.size () || rows[at].size () != 13)
            bad ("data", mc::cat ("row ", at, " is missing or incomplete"));
          const V &v = rows[at++];
          double opt = 0;
          for (auto &e : each)
            opt += Function (&e[0]) (r[0]);
          const double fit = v[6] * v[7];
          const struct
          {
            const char *name;
            double shown, value, tol;
          } cols[] = { { "wavelength", v[0], r[0], 1e-8 },
                       { "flux", v[1], r[1], 1e-8 },
                       { "uncertainty", v[2], r[2], 1e-8 },
                       { "selection", v[3], masked (r[0]) ? 0.0 : 1.0, 0 },
                       { "optical depth", v[4], opt, 1e-7 },
                       { "absorption", v[5], exp (-opt), 1e-7 },
                       { "fit without convolution", v[8], v[7] * v[5], 1e-7 },
                       { "fit", v[9], fit, 1e-7 },
                       { "normalised flux", v[11], r[1] / v[7], 1e-7 },
                       { "normalised uncertainty", v[12], r[2] / v[7], 1e-7 } };
          for (auto &k : cols)
            if (!mc::near (k.shown, k.value, k.tol, 1e-12))
              bad ("data", mc::cat (k.name, " of row ", at - 1, " is ", k.shown, " instead of ", k.value));
          if (!mc::near (v[10], (r[1] - fit) / r[2], 1e-7, 1e-7 * (fabs (fit) + 1) / r[2]))
            bad ("data", mc::cat ("residual of row ", at - 1, " is ", v[10], " instead of ", (r[1] - fit) / r[2]));
          if (v[3] != 0)
            sum += 0.5 * v[10] * v[10];
        }
      if (!result::shown ((*row)[6].v[0], sum, 2) && !mc::near ((*row)[6].v[0], sum, 1e-6, 0.0051))
        bad ("data", mc::cat ("cost ", (*row)[6].v[0], " does not agree with the residuals, which make ", sum));
      // lines
      for (size_t k = 0; k < s.lines.size (); ++k, ++lines)
        {
          const vector<result::Cell> *w = nullptr;
          for (auto &r : t.row[1])
            if (!r.empty () && r[0].text == s.ids[k])
              {
                if (w)
                  bad ("table", "line " + s.ids[k] + " is shown twice");
                w = &r;
              }
          if (!w || w->size () < (type == 3 ? 10u : 9u))
            bad ("table", "line " + s.ids[k] + " is not shown");
          vector<Item> p;
          for (auto &sl : s.lines[k])
            p.push_back (item (sl));
          const double c0 = 299792.458;
          const double rest = type == 3 ? 1e8 / (1e8 / p[0].value + p[6].value * (pow (p[7].value * 1e-6 + 1, 2) - 1)) : p[0].value;
          const double z = 1 + p[2].value, v = 1 + p[3].value / c0;
          const result::Cell &o = (*w)[1];
          if (o.v.size () != 2 || !result::shown (o.v[0], rest * z * v, 4))
            bad ("position", "line " + s.ids[k] + " is shown at " + o.text + " instead of " + mc::str (rest * z * v));
          const double dw = z * v * p[0].unc + p[0].value * sqrt (pow (v * p[2].unc, 2) + pow (z * p[3].unc / c0, 2));
          if (!result::shown (o.v[1], dw, 4))
            bad ("position", "line " + s.ids[k] + " is shown at " + o.text + ", but the uncertainty is " + mc::str (dw));
          static const struct
          {
            const char *name;
            int digits;
            bool sci;
          } col[] = { { "rest wavelength", 4, false }, { "oscillator strength", 3, true }, { "redshift", 7, false }, { "radial velocity", 3, false }, { "broadening velocity", 3, false }, { "column density", 3, false } };
          for (int j = 0; j < 6; ++j)
            show ((*w)[2 + j], p[j], col[j].digits, col[j].sci, string (col[j].name) + " of " + s.ids[k]);
          if (type == 3)
            show ((*w)[9], p[7], 3, false, "variation of the fine-structure constant of " + s.ids[k]);
          const especia::Equivalent_Width_Calculator<especia::Integrator<real> > calculator;
          const double ew = calculator.calculate (Function (&each[k][0]), 1e-3);
          if ((*w)[8].v.size () != 1 || !result::shown ((*w)[8].v[0], ew, 3))
            bad ("width", "the equivalent width of line " + s.ids[k] + " is shown as " + (*w)[8].text + " instead of " + mc::str (ew));
        }
    }
  if (at != rows.size ())
    bad ("data", mc::cat (rows.size (), " rows instead of ", at));
  if (lines != t.row[1].size ())
    bad ("table", mc::cat (t.row[1].size (), " lines are shown"));
  c.outcome (mc::hash_str (what));
  if (c.want_sample ())
    c.sample (what);
}

// Parameter j of line l: constant, free, or a reference to the first line.
static spec::Param
param (int j, int l, int mode)
{
  // rest wavelength, strength, redshift, velocity, broadening, column density, then damping or coefficient and variation
  static const double v[4][8] = { { 3335.5, 0.25, 0.5, 3.5, 20, 13.2, 0, 0 }, { 3337.25, 0.0125, 0.499, -12.25, 8.5, 14.1, 0, 0 }, { 1667.75, 0.4, 2.0, 0.5, 31, 12.7, 0, 0 }, { 5003.5, 0.07, 0, -1.25, 5.5, 13.9, 0, 0 } };
  static const double w[8] = { 0.02, 0.001, 1e-5, 2, 1.5, 0.3, 0, 0 };
  (void)w;
  spec::Param p;
  const double x = v[l][j], h = w[j];
  p.val = mc::str (x);
  p.lo = mode == 0 ? "0" : mc::str (x - h);
  p.up = mode == 0 ? "0" : mc::str (x + 1.5 * h);
  p.flag = mode == 1 ? "1" : "0";
  return p;
}

// Many sections and lines, chains of references, and models used before.
static void
extended (mc::Ctx &c, int type, int part)
{
  const int np = count_of[type], sections = part ? 12 : 3;
  const int refs = c.choose (5);                      // none, chains backwards, forwards, to varying lines, sections only
  const int free = c.choose (4), history = c.choose (4);
  const int masked = c.choose (3), bounds = c.choose (3), names = c.choose (3);
  spec::Spec d;
  int total = 0;
  vector<string> ids;
  auto lines_of = [&] (int s) { return part ? s == 5 ? 9 : (s * 5 + 1) % 4 : s == 1 ? 0 : 2; };
  for (int s = 0; s < sections; ++s)
    total += lines_of (s);
  auto id = [&] (int l) { return names == 0 ? "L" + to_string (l) : names == 1 ? to_string (total - l) : (l % 2 ? "s" : string (1, char ('A' + l % 26))) + to_string (l); };
  int l = 0;
  for (int s = 0; s < sections; ++s)
    {
      spec::Sec sec;
      auto sid = [&] (int i) { return names == 0 ? "S" + to_string (i) : names == 1 ? to_string (100 - i) : "s" + to_string (i); }; // the name of a line, too
      sec.id = sid (s);
      sec.file = data_file (s % 2);
      sec.a = s % 3 == 2 ? "5001" : "0";
      sec.b = s % 4 == 3 ? "5006" : "9999";
      sec.poly = to_string (s % 4);
      if (masked == 1 && s == sections / 2)
        {
          sec.masks = { "0", "1e5" }; // no datum is left
          sec.poly = "0";
        }
      if (masked == 2)
        sec.masks = { "5003", "5002", "5004", "5004.5", "5004.25", "5005" };
      auto chain = [&] (int i, int count, int root, int way) -> int {
        // the one referred to, or -1
        if (way == 0 || i == root)
          return -1;
        const int k = way == 1 ? i - 1 : i + 1;
        return (k + count) % count;
      };
      auto set = [&] (spec::Param &p, double v, double h, int k) {
        const bool f = free == 0 ? true : free == 1 ? false : (k * 7 + s) % (free + 1) == 0;
        p.val = mc::str (v);
        p.lo = mc::str (v - h);
        p.up = mc::str (v + 1.5 * h);
        p.flag = f ? "1" : "0";
        if (bounds == 1)
          swap (p.lo, p.up);
        if (bounds == 2 && k % 3 == 0)
          p.up = p.lo;
      };
      set (sec.res, 25 + s, 5, s);
      const int sr = refs == 0 ? -1 : refs == 1 ? chain (s, sections, 0, 1) : chain (s, sections, sections - 1, 2);
      if (sr >= 0)
        sec.res.ref = sid (sr);
      for (int k = 0; k < lines_of (s); ++k, ++l)
        {
          spec::Line li;
          li.id = id (l);
          for (int j = 0; j < np; ++j)
            {
              static const double v[8] = { 3335.5, 0.25, 0.5, 3.5, 20, 13.2, 2e8, 0 }, h[8] = { 0.02, 0.001, 1e-5, 2, 1.5, 0.3, 1e7, 0 };
              spec::Param p;
              const bool mm = type == 3 && j >= 6;
              set (p, mm ? (j == 6 ? 1500.0 - 70 * l : 4.5 - 0.3 * l) : v[j] * (1 + (j == 2 ? 1e-3 : 0.03) * (l % 5)), mm ? (j == 6 ? 10 : 2) : h[j], l + j);
              const int to = refs == 1 ? chain (l, total, 0, 1) : refs == 2 ? chain (l, total, total - 1, 2) : refs == 3 ? chain (l, total, j % total, 1 + j % 2) : -1;
              if (to >= 0)
                p.ref = id (to);
              li.p.push_back (p);
            }
          sec.lines.push_back (li);
        }
      d.s.push_back (sec);
    }
  const string what = mc::cat ("extended type=", type, " sections=", sections, " lines=", l, " references=", refs, " free=", free, " history=", history, " masked=", masked, " bounds=", bounds, " names=", names);
  switch (type)
    {
    case 0:
      return check<especia::Intergalactic_Doppler> (c, type, d, what, false, history);
    case 1:
      return check<especia::Intergalactic_Voigt<especia::Pseudo_Voigt> > (c, type, d, what, false, history);
    case 2:
      return check<especia::Intergalactic_Voigt<especia::Extended_Pseudo_Voigt> > (c, type, d, what, false, history);
    default:
      return check<especia::Many_Multiplet> (c, type, d, what, false, history);
    }
}

int
mc_shards (int)
{
  return 4 * 8 + 8;
}

const char *
mc_rule ()
{
  return "all models of one or two sections and up to three lines whose parameters follow any of the patterns: constant, free, one free, one constant, each parameter referring to another line or section; line types, polynomial counts, masks, order of names; every cell of the tables and data compared; models of 3 and 12 sections and up to 25 lines with chains of references in every direction, swapped and coincident bounds, sections without data, set and written before; non-trivial: distinct models";
}

void
mc_case (mc::Ctx &c)
{
  const int type = c.shard () % 4, shape = c.shard () / 4;
  if (shape >= 8)
    return extended (c, type, shape - 8);
  const int np = count_of[type];
  spec::Spec d;
  const int sections = 1 + shape % 2, masks = shape / 2 % 2, poly = c.choose (3);
  const int per = shape / 4 ? 2 : 1; // lines of the first section
  const int pattern = c.choose (3 + 2 * np + 1);
  const int refs = c.choose (np + 2); // the parameters of the other lines referring to the first line
  const int names = c.choose (2), res = c.choose (3);
  const bool zero = refs < 2 && c.flip ();
  int l = 0;
  for (int s = 0; s < sections; ++s)
    {
      spec::Sec sec;
      sec.id = names ? (s ? "alpha" : "zeta") : (s ? "s2" : "s1");
      sec.file = data_file (s);
      sec.a = "4999";
      sec.b = s ? "5008.2" : "5009.25";
      sec.poly = to_string (s ? (poly + 1) % 3 : poly);
      if (masks)
        {
          sec.masks = { "5001", "5002.25" };
          if (!s)
            {
              sec.masks.push_back ("5006");
              sec.masks.push_back ("5006");
            }
        }
      sec.res.val = s ? "17.5" : "25.25";
      sec.res.lo = "12.5";
      sec.res.up = s ? "19" : "31";
      sec.res.flag = (res == 1) ? "1" : "0";
      if (res == 2 && s)
        sec.res.ref = d.s[0].id;
      if (res == 2 && !s)
        sec.res.flag = "1";
      const int lines = s == 0 ? per : 2 - per + (sections == 2 ? 1 : 0);
      for (int k = 0; k < lines; ++k, ++l)
        {
          spec::Line li;
          li.id = names ? string (1, char ('z' - l)) : "l" + to_string (l);
          for (int j = 0; j < np; ++j)
            {
              int mode = pattern == 0 ? 0 : pattern == 1 ? 1 : pattern == 2 ? (j + l) % 2 : pattern < 3 + np ? j == pattern - 3 : pattern < 3 + 2 * np ? j != pattern - 3 - np : (j / 2 + l) % 2;
              spec::Param p = param (j, l, mode);
              if (j >= 6)
                {
                  const double x = type == 3 ? (j == 6 ? 1500.0 - 700 * l : 4.5 - 3 * l) : 2e8 / (l + 1), h = type == 3 ? (j == 6 ? 10 : 2) : 1e7;
                  p.val = mc::str (x);
                  p.lo = mc::str (x - h);
                  p.up = mc::str (x + 1.5 * h);
                }
              if (l > 0 && (refs == np + 1 || refs == j + 1))
                p.ref = d.s.empty () ? sec.lines[0].id : d.s[0].lines[0].id;
              li.p.push_back (p);
            }
          sec.lines.push_back (li);
        }
      d.s.push_back (sec);
    }
  if (l < 2 && refs > 0)
    return;
  bool any = false;
  for (auto &s : d.s)
    {
      any = any || s.res.flag == "1";
      for (auto &li : s.lines)
        for (auto &p : li.p)
          any = any || p.flag == "1";
    }
  (void)any;
  const string what = mc::cat ("type=", type, " sections=", sections, " lines=", l, " masks=", masks, " polynomials=", poly, " pattern=", pattern, " references=", refs, " names=", names, " resolution=", res, zero ? " no uncertainties" : "");
  switch (type)
    {
    case 0:
      return check<especia::Intergalactic_Doppler> (c, type, d, what, zero);
    case 1:
      return check<especia::Intergalactic_Voigt<especia::Pseudo_Voigt> > (c, type, d, what, zero);
    case 2:
      return check<especia::Intergalactic_Voigt<especia::Extended_Pseudo_Voigt> > (c, type, d, what, zero);
    default:
      return check<especia::Many_Multiplet> (c, type, d, what, zero);
    }
}
