// C07: a model definition means what the documentation says.
#include "spec.hpp"
#include <algorithm>

using namespace std;
using namespace spec;

static const string &
data_file (int k)
{
  static string f[3];
  if (f[0].empty ())
    for (int j = 0; j < 3; ++j)
      {
        f[j] = mc::scratch () + "/d" + to_string (j) + ".dat";
        ofstream os (f[j]);
        os.precision (12);
        for (int i = 0; i < 13 + 2 * j; ++i)
          os << 5000 + 0.25 * i << " " << 1.0 + 0.3 * sin (1.3 * i + j) << " " << 0.1 + 0.01 * (i % 3) << "\n";
      }
  return f[k];
}

struct Quiet
{
  ostringstream err;
  streambuf *old;
  Quiet () : old (cerr.rdbuf (err.rdbuf ())) {}
  ~Quiet () { cerr.rdbuf (old); }
};

template <class Function>
static void
judge (mc::Ctx &c, const Spec &d, const string &text, char comment = '%', char open = '{', char close = '}')
{
  const Meaning m = meaning (d);
  vector<especia::Section> v;
  string error = m.error;
  if (error.empty ())
    sections<Function> (m, v, error);
  istringstream is (text);
  ostringstream os;
  bool parsed = false;
  Quiet q;
  try
    {
      const especia::Model<Function> model = especia::Model<Function>::parse (is, os, comment, open, close);
      parsed = true;
      if (!error.empty ())
        c.fail ("accepted", "a definition is accepted in spite of a " + error + ":\n" + text);
      const string s = compare<Function> (model, m, v);
      if (!s.empty ())
        c.fail ("meaning", s + ":\n" + text);
    }
  catch (runtime_error &e)
    {
      if (error.empty ())
        c.fail ("rejected", string (e.what ()) + " " + q.err.str () + ":\n" + text);
    }
  if (!error.empty () && !parsed && q.err.str ().empty ())
    c.fail ("silent", "no message about a " + error + ":\n" + text);
  // the copy
  const string o = os.str ();
  const size_t i = o.find ("<model>\n"), e = o.rfind ("</model>\n");
  string want = text;
  if (!want.empty () && want.back () != '\n')
    want += '\n';
  if (i == string::npos || e == string::npos || o.substr (i + 8, e - i - 8) != want)
    c.fail ("copy", "the definition is not copied verbatim:\n" + text + "\n--- output:\n" + o);
  c.outcome (mc::hash_str (text));
  c.count (error.empty () ? "well-formed" : "malformed");
  if (c.want_sample ())
    c.sample (text);
}

static Param
param (int kind, int seed, const string &ref = "")
{
  // 0 constant, 1 optimized, 2 optimized with reversed bounds, 3 coincident bounds, 4 constant with reversed bounds and
  // a value outside, 5 negative bounds
  const string b = to_string (20 + seed % 7), e = to_string (31 + seed % 5), v = to_string (24 + seed % 3) + ".5";
  switch (kind)
    {
    case 0:
      return { v, b, e, "0", ref };
    case 1:
      return { v, b, e, "1", ref };
    case 2:
      return { v, e, b, "1", ref };
    case 3:
      return { v, b, b, "1", ref };
    case 4:
      return { "3.25e+1", e, b, "0", ref };
    case 5:
      return { "0", "-1.5e0", "2.25", "1", ref };
    default:
      return { "77", "0", "0", "0", ref };
    }
}

static Sec
section (int k, const string &id, Param res)
{
  Sec s;
  s.id = id;
  s.file = data_file (k % 3);
  s.a = "4999.5";
  s.b = "5010";
  s.poly = "1";
  s.res = res;
  return s;
}

// All kinds of parameters of one section with a line.
static void
kinds (mc::Ctx &c)
{
  Spec d;
  d.s.push_back (section (0, "s", param (c.choose (5), 0)));
  d.s[0].poly = c.pick ({ "0", "1", "2", "3" });
  Line l{ "l", {} };
  l.p.push_back (param (c.choose (7), 1));
  l.p.push_back (param (c.choose (7), 2));
  d.s[0].lines.push_back (l);
  judge<Probe<2> > (c, d, join (lines (d)));
}

static const vector<vector<int> > &
permutations (int n)
{
  static map<int, vector<vector<int> > > m;
  auto &v = m[n];
  if (v.empty ())
    {
      vector<int> p (n);
      for (int i = 0; i < n; ++i)
        p[i] = i;
      do
        v.push_back (p);
      while (next_permutation (p.begin (), p.end ()));
    }
  return v;
}

// References between resolutions: every graph.
static void
section_references (mc::Ctx &c, int n, bool flags)
{
  static const char *const names[] = { "A", "b", "Zz", "m1" };
  const vector<int> &perm = c.pick (permutations (n));
  Spec d;
  for (int i = 0; i < n; ++i)
    {
      const int k = c.choose (3 + n * (flags ? 2 : 1));
      Param p = k < 2 ? param (k, i) : k == 2 ? param (1, i, "nowhere") : param ((k - 3) / n ? 1 : 0, i, names[perm[(k - 3) % n]]);
      Sec s = section (i, names[perm[i]], p);
      // lines are named as sections
      Line l{ names[perm[(i + 1) % n]], {} };
      l.p.push_back (param (1, i));
      s.lines.push_back (l);
      d.s.push_back (s);
    }
  judge<Probe<1> > (c, d, join (lines (d)));
}

// References between lines: every graph for the first, some for the second parameter.
static void
line_references (mc::Ctx &c, int n)
{
  static const char *const names[] = { "l2", "L", "a", "l10" };
  const vector<int> &perm = c.tier ? c.pick (permutations (n)) : permutations (n)[permutations (n).size () / 2];
  const int first = c.choose (n + 1);
  Spec d;
  d.s.push_back (section (0, "s", param (1, 0)));
  d.s.push_back (section (1, "a", param (0, 0)));
  for (int i = 0; i < n; ++i)
    {
      const int k = c.choose (n + 4);
      Line l{ names[perm[i]], {} };
      l.p.push_back (k < 3 ? param (k, i) : k == 3 ? param (1, i, "s") : param (i % 2, i, names[perm[k - 4]]));
      const int q = c.choose (4);
      l.p.push_back (q < 2 ? param (q, i + 3) : param (1 - i % 2, i, names[perm[q == 2 ? 0 : n - 1]]));
      d.s[i < first ? 0 : 1].lines.push_back (l);
    }
  judge<Probe<2> > (c, d, join (lines (d)));
}

static Spec
base_spec ()
{
  Spec d;
  d.s.push_back (section (0, "s1", param (1, 0)));
  d.s.push_back (section (1, "s2", param (0, 0, "s1")));
  d.s[0].masks = { "5000.7", "5001.1", "5002", "5002.3" };
  d.s[0].lines.push_back (Line{ "l1", { param (1, 1), param (2, 2) } });
  d.s[0].lines.push_back (Line{ "l2", { param (0, 1), param (1, 2, "l1") } });
  d.s[1].lines.push_back (Line{ "l3", { param (0, 1, "l1"), param (1, 3) } });
  return d;
}

// Comments, blank lines, white space, prose.
static void
layout (mc::Ctx &c)
{
  static const vector<string> between = { "", "   ", "\t", "% comment", "  % { } 1 2 3", "%}", "%{", "%%", " \r" };
  static const vector<string> trailing = { " % comment", "%", "   ", "\t% { 1", " % }", "\r" };
  static const vector<string> prose = { "Prose with 1 2 3 numbers", "```", "# \"head\" | (x) <y> [z]", "% } comment {", "a % b } c", "\xc3\x84\xff" };
  static const vector<string> space = { "\t", "    ", " \t \t", "\v\f " };
  const Spec d = base_spec ();
  vector<string> v = lines (d);
  const int kind = c.choose (7);
  bool last = true;
  vector<string> w;
  switch (kind)
    {
    case 0: // a line in one or two gaps
      {
        const int g = c.choose (int (v.size ()) + 1), h = c.choose (int (v.size ()) + 1);
        const string &s = c.pick (between), &t = c.pick (between);
        for (int i = 0; i <= int (v.size ()); ++i)
          {
            if (i == g)
              w.push_back (s);
            if (i == h)
              w.push_back (t);
            if (i < int (v.size ()))
              w.push_back (v[i]);
          }
        v = w;
        break;
      }
    case 1: // trailing text on one or two lines
      {
        const int g = c.choose (int (v.size ())), h = c.choose (int (v.size ()));
        v[g] += c.pick (trailing);
        v[h] += c.pick (trailing);
        break;
      }
    case 2: // on all lines
      {
        const string &s = c.pick (trailing), &t = c.pick (between);
        const bool b = c.flip ();
        for (auto &l : v)
          {
            w.push_back (l + s);
            if (b)
              w.push_back (t);
          }
        v = w;
        break;
      }
    case 3: // other white space
      {
        const string &s = c.pick (space), &t = c.pick (space);
        const bool lead = c.flip (), trail = c.flip ();
        for (auto &l : v)
          {
            istringstream is (l);
            string x, n;
            while (is >> x)
              n += (n.empty () ? lead ? s : "" : t) + x;
            w.push_back (n + (trail ? s : ""));
          }
        v = w;
        break;
      }
    case 4: // prose outside the sections
      {
        vector<int> gaps = { 0 };
        for (int i = 0; i < int (v.size ()); ++i)
          if (v[i] == "}")
            gaps.push_back (i + 1);
        for (int k = int (gaps.size ()) - 1; k >= 0; --k)
          {
            const int p = c.choose (int (prose.size ()) + 1);
            if (p)
              v.insert (v.begin () + gaps[k], prose[p - 1]);
          }
        break;
      }
    case 5: // no line feed at the end, with or without text
      {
        const int p = c.choose (4);
        if (p)
          v.push_back (p == 1 ? "text" : p == 2 ? "% c" : " ");
        last = false;
        break;
      }
    default: // comments after the reference
      {
        const int g = c.choose (3);
        for (auto &l : v)
          if (l.find (" l1") != string::npos && l.size () > 8)
            l += g == 0 ? " a comment" : g == 1 ? " 1 2 3" : " l2";
      }
    }
  string t = join (v);
  if (!last)
    t.pop_back ();
  judge<Probe<2> > (c, d, t);
}

// Marks of the caller's choice.
static void
marks (mc::Ctx &c)
{
  static const char m[] = "%{}#[];!<>";
  const int a = c.choose (10), b = c.choose (10), e = c.choose (10);
  if (a == b || a == e || b == e)
    return;
  const Spec d = base_spec ();
  vector<string> v = lines (d, m[b], m[e]), w;
  for (auto &l : v)
    {
      w.push_back (l + " " + m[a] + " text " + m[b] + m[e]);
      w.push_back (string (1, m[a]));
    }
  judge<Probe<2> > (c, d, join (w), m[a], m[b], m[e]);
}

// Data, masks, numbers of polynomials.
static void
heads (mc::Ctx &c)
{
  Spec d = base_spec ();
  for (int i = 0; i < 2; ++i)
    {
      Sec &s = d.s[i];
      s.file = data_file (c.choose (i ? 2 : 3));
      s.a = c.pick ({ "0", "5000", "5000.25", "5.0005e3" });
      s.b = c.pick ({ "5010", "5003", "+5002.75" });
      s.poly = c.pick ({ "0", "1", "2", "4" });
      s.masks.clear ();
      for (int k = c.choose (i ? 2 : 3); k > 0; --k)
        {
          s.masks.push_back (k == 1 ? "5001" : "0");
          s.masks.push_back (k == 1 ? "5001.5" : "5000.5");
        }
    }
  judge<Probe<2> > (c, d, join (lines (d)));
}

// The line types of the programs: each parameter optimized, constant or a reference.
template <class Function>
static void
types (mc::Ctx &c)
{
  const int n = Function::parameter_count ();
  static const char *const value[] = { "5001", "0.1", "0.0001", "3", "20", "13", "1e8", "5" };
  static const char *const low[] = { "5000.5", "0.05", "-0.0001", "-5", "10", "12.5", "1e7", "-10" };
  static const char *const up[] = { "5001.75", "0.15", "0.0003", "5", "30", "13.5", "2e8", "15" };
  if (n == 8)
    ; // the seventh parameter is a sensitivity coefficient there
  const int j = c.choose (n), k = c.choose (n), a = c.choose (4), b = c.choose (4), poly = c.choose (3);
  Spec d;
  for (int i = 0; i < 2; ++i)
    {
      Sec s = section (i, i ? "two" : "one", Param{ "30", "20", "35", i ? "0" : "1", "" });
      s.poly = to_string (poly);
      for (int m = 0; m < 2; ++m)
        {
          Line l{ string ("l") + char ('0' + 2 * i + m), {} };
          for (int q = 0; q < n; ++q)
            {
              Param p{ value[q], low[q], up[q], "0", "" };
              if (q == 6 && n == 8)
                p = { "1100", "1000", "1200", "0", "" };
              for (int o = 0; o < 2; ++o)
                if (q == (o ? k : j))
                  {
                    const int x = o ? b : a;
                    if (x == 1)
                      p.flag = "1";
                    else if (x == 2)
                      {
                        p.flag = m == 0 ? "1" : "0";
                        p.ref = m == 0 ? "" : i ? "l2" : "l0";
                      }
                    else if (x == 3)
                      {
                        p.flag = "1";
                        p.ref = i == 1 && m == 1 ? "" : string ("l") + char ('0' + 2 * i + m + 1);
                      }
                  }
              l.p.push_back (p);
            }
          s.lines.push_back (l);
        }
      d.s.push_back (s);
    }
  judge<Function> (c, d, join (lines (d)));
}

// Bounds of all signs, sizes and distances, in either order.
static void
bounds (mc::Ctx &c)
{
  static const vector<pair<string, string> > pairs = {
    { "-2", "-1" }, { "-1", "0" }, { "0", "1" }, { "-1e-7", "1e-7" }, { "-3e6", "-2.5e6" }, { "1.0000001", "1.0000004" }, { "2.5e6", "3e6" },
    { "5000.12345", "5000.12346" }, { "0", "1e-12" }, { "-1e-9", "0" }, { "1e11", "1.5e11" }, { "99999", "100001" }, { "-0.0000002", "-0.0000001" }, { "1", "1" }, { "-7", "-7" }, { "0", "0" }, { "-1", "1" } };
  Spec d;
  d.s.push_back (section (0, "s", param (1, 0)));
  Line l{ "l", {} };
  for (int k = 0; k < 2; ++k)
    {
      const auto &p = c.pick (pairs);
      const int f = c.choose (3); // optimized, reversed, constant
      const string v = c.pick ({ "0", "-1.5" });
      l.p.push_back ({ v, f == 1 ? p.second : p.first, f == 1 ? p.first : p.second, f == 2 ? "0" : "1", "" });
    }
  d.s[0].lines.push_back (l);
  judge<Probe<2> > (c, d, join (lines (d)));
}

// Intervals masked.
static void
masks (mc::Ctx &c)
{
  // the data are in steps of 0.25
  static const vector<string> at = { "0", "4999.9", "5000", "5000.25", "5000.3", "5001", "5001.5", "5003", "5003.5", "1e9" };
  Spec d = base_spec ();
  const int n = 1 + c.choose (2);
  d.s[0].masks.clear ();
  for (int i = 0; i < n; ++i)
    for (int k = 0; k < 2; ++k)
      d.s[0].masks.push_back (c.pick (at));
  d.s[0].poly = c.pick ({ "0", "1" });
  judge<Probe<2> > (c, d, join (lines (d)));
}

// Numbers of sections and lines.
static void
structure (mc::Ctx &c)
{
  Spec d;
  const int n = 1 + c.choose (c.tier ? 5 : 4);
  int id = 0;
  for (int i = 0; i < n; ++i)
    {
      Sec s = section (i, string (1, char ('z' - i)), param (i % 3 == 1 ? 0 : 1, i));
      s.poly = to_string (i % 3);
      static const int number[] = { 0, 1, 2, 5, 18 };
      const int m = number[c.choose (5)];
      for (int k = 0; k < m; ++k, ++id)
        {
          Line l{ mc::cat (char ('a' + (id * 7) % 26), id), {} };
          l.p.push_back (param (id % 4, id));
          l.p.push_back (param ((id + 1) % 3, id + 2));
          if (id > 0 && id % 3 == 2)
            l.p[1].ref = mc::cat (char ('a' + ((id - 2) * 7) % 26), id - 2);
          s.lines.push_back (l);
        }
      d.s.push_back (s);
    }
  judge<Probe<2> > (c, d, join (lines (d)));
}

// Chains of references, in all orders of names.
static void
chains (mc::Ctx &c, bool longer)
{
  const int n = longer ? c.pick ({ 8, 9, 10, 11, 13, 17, 33 }) : c.tier ? 7 : 6;
  vector<int> perm (n);
  if (longer)
    {
      const int order = c.choose (4);
      for (int i = 0; i < n; ++i)
        perm[i] = 10 + (order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? (i * 12) % 37 : (i % 2 ? i / 2 : n - 1 - i / 2));
    }
  else
    perm = c.pick (permutations (n));
  const int end = c.choose (3); // constant, optimized, cycle
  const bool sec = c.flip ();
  Spec d;
  d.s.push_back (section (0, "n99", param (1, 0)));
  for (int i = 0; i < n; ++i)
    {
      Param p = param (i + 1 < n || end == 2 ? 1 : end, i, i + 1 < n ? mc::cat ("n", perm[i + 1]) : end == 2 ? mc::cat ("n", perm[1]) : "");
      if (sec)
        d.s.push_back (section (i, mc::cat ("n", perm[i]), p));
      else
        d.s[0].lines.push_back (Line{ mc::cat ("n", perm[i]), { p } });
    }
  judge<Probe<1> > (c, d, join (lines (d)));
}

int
mc_shards (int)
{
  return 19;
}

const char *
mc_rule ()
{
  return "every graph of references between up to three (thorough four) sections and three lines over two sections, chains of six references in all orders, longer ones in some, all kinds of parameters, bounds, numbers of sections and lines, layouts, marks, data intervals, masks and line types; non-trivial: distinct definitions";
}

void
mc_case (mc::Ctx &c)
{
  switch (c.shard ())
    {
    case 0:
      return kinds (c);
    case 1:
      return section_references (c, 3, true);
    case 2:
      return section_references (c, 2, true);
    case 3:
      return line_references (c, 2);
    case 4:
      return line_references (c, 3);
    case 5:
      return layout (c);
    case 6:
      return marks (c);
    case 7:
      return heads (c);
    case 8:
      return types<especia::Intergalactic_Doppler> (c);
    case 9:
      return types<especia::Intergalactic_Voigt<especia::Pseudo_Voigt> > (c);
    case 10:
      return types<especia::Intergalactic_Voigt<especia::Extended_Pseudo_Voigt> > (c);
    case 11:
      return types<especia::Many_Multiplet> (c);
    case 12:
      return section_references (c, c.tier ? 4 : 1, false);
    case 13:
      return line_references (c, 1);
    case 14:
      return bounds (c);
    case 15:
      return masks (c);
    case 16:
      return structure (c);
    case 17:
      return chains (c, false);
    default:
      return chains (c, true);
    }
}
