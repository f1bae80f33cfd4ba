// C09: spectra are read exactly, and written data can be read back.
#include "sec.hpp"
#include <limits>

using namespace std;
using especia::Section;

struct Shape
{
  const char *text;
  int kind; // 0 data, 1 comment, 2 blank, 3 error
  double x, y, z;
  int w;
};

static const vector<Shape> shapes = {
  { "1.0 2.5 0.5 1", 0, 1.0, 2.5, 0.5, 1 },
  { "2.0 -3.0 -0.25 0", 0, 2.0, -3.0, -0.25, 0 },
  { "2.0 4.0", 0, 2.0, 4.0, 1.0, 1 },
  { "  3.0\t1.0 \t0.125", 0, 3.0, 1.0, 0.125, 1 },
  { "", 2, 0, 0, 0, 0 },
  { "# 1.0 2.0", 1, 0, 0, 0, 0 },
  { "%1.0 2.0 3.0", 1, 0, 0, 0, 0 },
  { "!", 1, 0, 0, 0, 0 },
  { "\t# 1.0 2.0", 3, 0, 0, 0, 0 },
  { "1.0", 3, 0, 0, 0, 0 },
  { "1.5e0 1e-3 2E+1 0 7 8 trailing", 0, 1.5, 1e-3, 20.0, 0 },
  { "-1 .5 3 1", 0, -1.0, 0.5, 3.0, 1 },
  { "2.0 nope", 3, 0, 0, 0, 0 },
  { "4999.123456 0 1e-30 1", 0, 4999.123456, 0, 1e-30, 1 },
  { "3 1e+30 4. 1", 0, 3.0, 1e30, 4.0, 1 },
};

struct Window
{
  bool dflt;
  double a, b;
};

static const vector<Window> windows = {
  { true, 0, 0 }, { false, 1.0, 2.0 }, { false, 2.0, 2.0 }, { false, 2.0, 3.0 },
  { false, nextafter (1.0, 2.0), nextafter (3.0, 2.0) }, { false, 3.0, 1.0 }, { false, -10.0, 10.0 },
  { false, nextafter (2.0, 3.0), 1e9 }, { false, -5.0, 1.0 }, { false, 10.0, 20.0 },
};

int
mc_shards (int)
{
  return int (shapes.size ()) + 1 + 2 + 15;
}

const char *
mc_rule ()
{
  return "all files up to 4 (thorough 5) lines over 15 line shapes, 10 intervals, with and without final newline, fresh or reused section; block sequences; large files; non-trivial: distinct non-empty selections";
}

struct Ref
{
  bool ok = true;
  size_t used = 0; // lines consumed
  vector<Shape> pts;
};

static Ref
reference (const vector<const Shape *> &l, size_t from, const Window &w)
{
  Ref r;
  double a = w.dflt ? 0.0 : w.a, b = w.dflt ? numeric_limits<double>::max () : w.b;
  size_t i = from;
  for (; i < l.size (); ++i)
    {
      if (l[i]->kind == 2)
        {
          ++i;
          break;
        }
      if (l[i]->kind == 1)
        continue;
      if (l[i]->kind == 3)
        {
          r.ok = false;
          break;
        }
      if (a <= l[i]->x && l[i]->x <= b)
        r.pts.push_back (*l[i]);
    }
  r.used = i;
  if (r.pts.empty ())
    r.ok = false;
  return r;
}

static void
compare (mc::Ctx &c, const Section &s, const vector<Shape> &p, const string &what)
{
  size_t valid = 0;
  for (auto &q : p)
    valid += q.w;
  if (s.data_count () != p.size ())
    c.fail ("count", mc::cat (what, ": ", s.data_count (), " points instead of ", p.size ()));
  if (s.valid_data_count () != valid)
    c.fail ("valid", mc::cat (what, ": ", s.valid_data_count (), " valid points instead of ", valid));
  if (s.lower_bound () != p.front ().x || s.upper_bound () != p.back ().x)
    c.fail ("bounds", mc::cat (what, ": bounds ", s.lower_bound (), " ", s.upper_bound ()));
  if (!mc::near (s.center (), 0.5 * (p.front ().x + p.back ().x), 1e-14, 1e-14) || !mc::near (s.width (), p.back ().x - p.front ().x, 1e-14, 1e-14))
    c.fail ("centre", what + ": centre or width");
  vector<Row> r;
  ostringstream os;
  s.put (os, -numeric_limits<double>::max ());
  if (!parse_rows (os.str (), r))
    c.fail ("format", what + ": output cannot be parsed:\n" + os.str ());
  if (r.size () != p.size ())
    c.fail ("rows", mc::cat (what, ": ", r.size (), " rows written instead of ", p.size ()));
  for (size_t i = 0; i < r.size (); ++i)
    {
      if (!mc::near (r[i].wav, p[i].x, 6e-9) || !mc::near (r[i].flx, p[i].y, 6e-9) || !mc::near (r[i].unc, p[i].z, 6e-9) || r[i].msk != p[i].w)
        c.fail ("data", mc::cat (what, ": row ", i, " is ", r[i].wav, " ", r[i].flx, " ", r[i].unc, " ", r[i].msk, " instead of ", p[i].x, " ", p[i].y, " ", p[i].z, " ", p[i].w));
    }
}

// Large files around buffer sizes.
static void
large (mc::Ctx &c)
{
  const long n = c.pick<long> ({ 19999, 20000, 20001, 65537 });
  const int cols = c.pick ({ 2, 3, 4 });
  const int comment_every = c.pick ({ 0, 7 });
  const int window = c.choose (3);
  ostringstream os;
  vector<Shape> exp;
  double a = window == 0 ? 0 : 1000 + 0.5 * 100, b = window == 0 ? 1e9 : window == 1 ? 1000 + 0.5 * (n - 100) : 1000 + 0.5 * 101;
  for (long i = 0; i < n; ++i)
    {
      if (comment_every && i % comment_every == 0)
        os << "# comment\n";
      Shape p{ "", 0, 1000 + 0.5 * i, double (i % 17), cols > 2 ? 1.0 + i % 3 : 1.0, cols > 3 ? int (i % 5 != 0) : 1 };
      os << p.x << ' ' << p.y;
      if (cols > 2)
        os << ' ' << p.z;
      if (cols > 3)
        os << ' ' << p.w;
      os << '\n';
      if (a <= p.x && p.x <= b)
        exp.push_back (p);
    }
  istringstream is (os.str ());
  Section s;
  s.get (is, a, b);
  if (!is)
    c.fail ("large", "a valid large file was rejected");
  compare (c, s, exp, mc::cat ("large file of ", n, " rows"));
  c.outcome (mc::mix (n, cols * 100 + window));
  c.state (mc::mix (n, cols * 1000 + window * 10 + comment_every));
}

// Sequences of blocks: read one after another, and as a vector; written and read back.
static void
blocks (mc::Ctx &c, int part)
{
  const int nb = 1 + part / 5;
  vector<const Shape *> l;
  vector<vector<Shape> > exp;
  for (int b = 0; b < nb; ++b)
    {
      const int n = 1 + c.choose (2);
      vector<Shape> e;
      for (int i = 0; i < n; ++i)
        {
          static const int data[] = { 0, 1, 2, 3, 10 };
          const Shape &s = shapes[data[b == 0 && i == 0 ? part % 5 : c.choose (b ? 3 : 5)]];
          l.push_back (&s);
          e.push_back (s);
        }
      if (c.flip ())
        l.insert (l.end () - 1, &shapes[5]);
      exp.push_back (e);
      if (b + 1 < nb)
        l.push_back (&shapes[4]);
    }
  string t;
  for (auto *s : l)
    t += string (s->text) + "\n";
  c.state (mc::hash_str (t, 99));
  vector<Section> v;
  istringstream is (t);
  is >> v;
  c.log (t);
  if (int (v.size ()) != nb)
    c.fail ("blocks", mc::cat ("read ", v.size (), " sections instead of ", nb));
  for (int b = 0; b < nb; ++b)
    compare (c, v[b], exp[b], mc::cat ("block ", b));
  ostringstream os;
  os << v;
  vector<Section> v2;
  istringstream is2 (os.str ());
  is2 >> v2;
  if (v2.size () != v.size ())
    c.fail ("roundtrip", mc::cat ("wrote ", v.size (), " sections, read back ", v2.size ()));
  for (int b = 0; b < nb; ++b)
    compare (c, v2[b], exp[b], mc::cat ("block read back ", b));
  c.outcome (mc::hash_str (os.str ()));
}

// Written with a window, formatting state untouched, values of all magnitudes.
static void
written (mc::Ctx &c)
{
  static const vector<double> mag = { 0.0, 1.0, -2.0, 1e-9, -1e9, 123456.789, 1e-99, 9.99999999e99, 3.00000004e-300 };
  const int n = 1 + c.choose (3);
  vector<double> x, y, z;
  for (int i = 0; i < n; ++i)
    {
      x.push_back (1000.0 + i);
      y.push_back (c.pick (mag));
      z.push_back (i == 0 ? fabs (c.pick (mag)) : 0.5 * i);
    }
  Section s (n, x.data (), y.data (), z.data ());
  const double a = c.pick ({ 0.0, 1000.0, 1000.5, 1001.0 }), b = c.pick ({ 999.0, 1000.0, 1001.0, 1e6 });
  ostringstream os;
  os << fixed << left;
  os.precision (3);
  const auto f = os.flags ();
  s.put (os, a, b);
  if (os.flags () != f)
    c.fail ("flags", "writing data changed the format flags of the stream");
  vector<Row> r;
  if (!parse_rows (os.str (), r))
    c.fail ("format", "output cannot be parsed:\n" + os.str ());
  size_t k = 0;
  for (int i = 0; i < n; ++i)
    if (a <= x[i] && x[i] <= b)
      {
        if (k >= r.size () || !mc::near (r[k].wav, x[i], 6e-9) || !mc::near (r[k].flx, y[i], 6e-9) || !mc::near (r[k].unc, z[i], 6e-9) || r[k].msk != 1)
          c.fail ("data", mc::cat ("row for ", x[i], " is missing or wrong:\n", os.str ()));
        ++k;
      }
  if (k != r.size ())
    c.fail ("rows", "surplus rows written");
  // read back
  istringstream is (os.str ());
  Section t;
  t.get (is);
  if (k == 0 ? bool (is) : !is)
    c.fail ("readback", "status of reading back");
  if (k && (t.data_count () != k || t.valid_data_count () != k))
    c.fail ("readback", "number of points read back");
  c.state (mc::hash_str (os.str (), mc::hash_double (a, mc::hash_double (b, n))));
  c.outcome (mc::hash_str (os.str ()));
}

void
mc_case (mc::Ctx &c)
{
  const int sh = c.shard ();
  const int ns = int (shapes.size ());
  if (sh == ns + 1)
    return large (c);
  if (sh == ns + 2)
    return written (c);
  if (sh > ns + 2)
    return blocks (c, sh - ns - 3);
  // four lines with the first five intervals only (quick)
  const bool w4 = c.flip ();
  vector<const Shape *> l;
  if (sh < ns)
    {
      l.push_back (&shapes[sh]);
      const int d = c.tier ? 5 : (w4 ? 4 : 3);
      while (int (l.size ()) < d)
        {
          int k = c.choose (ns + 1);
          if (k == 0)
            break;
          l.push_back (&shapes[k - 1]);
        }
    }
  if (w4 && int (l.size ()) < 4)
    return;
  const Window &w = w4 ? windows[c.choose (3)] : c.pick (windows);
  const bool nl = !c.flip ();
  const bool reuse = l.size () < 3 ? c.flip () : false;
  string t;
  for (size_t i = 0; i < l.size (); ++i)
    {
      t += l[i]->text;
      if (i + 1 < l.size () || nl)
        t += '\n';
    }
  c.log (mc::cat ("window ", w.a, " ", w.b, w.dflt ? " (default)" : "", "\n", t));
  Ref r = reference (l, 0, w);
  Section s;
  if (reuse)
    {
      istringstream p ("7 8 9\n8 9 10 0\n9 9 9\n1 2 3\n5 5 5\n");
      s.get (p);
    }
  istringstream is (t);
  if (w.dflt)
    s.get (is);
  else
    s.get (is, w.a, w.b);
  c.state (mc::hash_str (t, mc::hash_double (w.a, mc::hash_double (w.b, w.dflt))));
  if (bool (is) != r.ok)
    c.fail ("status", mc::cat (r.ok ? "valid data were rejected" : "invalid or empty data were accepted", ":\n", t));
  if (r.ok)
    {
      compare (c, s, r.pts, "text:\n" + t);
      uint64_t h = r.pts.size ();
      for (auto &p : r.pts)
        h = mc::hash_double (p.x, mc::hash_double (p.y, mc::hash_double (p.z, h + p.w)));
      c.outcome (h);
      // the next block starts after the blank line
      if (l.size () > r.used)
        {
          Section s2;
          Ref r2 = reference (l, r.used, w);
          if (w.dflt)
            s2.get (is);
          else
            s2.get (is, w.a, w.b);
          if (bool (is) != r2.ok)
            c.fail ("next", "status of reading the next block of:\n" + t);
          if (r2.ok)
            compare (c, s2, r2.pts, "next block of:\n" + t);
        }
    }
  if (c.want_sample () && r.ok)
    c.sample (mc::cat ("[", w.a, ",", w.b, "] ", t, " => ", r.pts.size (), " points"));
}
