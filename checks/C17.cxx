// C17: data utilities transform every row and nothing else.
// The real utilities run as processes on every file of a bounded set; reference: the rows of the text and the
// documented formulas in extended precision.
#include "prog.hpp"

using namespace std;
typedef long double ld;

struct Row
{
  vector<string> tok;
  // 0: certainly valid with two columns, 1: with three, 2: certainly invalid, 3: either rejected or taken, 4: either rejected or skipped
  int kind;
};

static bool
number (const string &s, ld &v)
{
  char *e;
  errno = 0;
  v = strtold (s.c_str (), &e);
  return !s.empty () && *e == 0 && s.find_first_not_of ("0123456789+-.eE") == string::npos;
}

static bool
plain (const string &s)
{
  ld v;
  return number (s, v) && (v == 0 || (fabsl (v) < 1e300L && fabsl (v) > 1e-290L));
}

static Row
classify (const string &l)
{
  istringstream is (l);
  Row r;
  string t;
  while (is >> t)
    r.tok.push_back (t);
  if (r.tok.empty () || r.tok[0][0] == '%' || r.tok[0][0] == '#')
    r.kind = 4;
  else if (r.tok.size () < 2 || !isdigit (r.tok[0][0]) || !(isdigit (r.tok[1][0]) || r.tok[1][0] == '-'))
    r.kind = 2;
  else if (!plain (r.tok[0]) || !plain (r.tok[1]) || r.tok.size () > 3 || (r.tok.size () == 3 && !plain (r.tok[2])))
    r.kind = 3;
  else
    {
      ld w;
      number (r.tok[0], w);
      r.kind = w < 2000 || w > 1e6L ? 3 : r.tok.size () == 3;
    }
  return r;
}

static ld
air (ld w) // B. Edlen (1966), as used for wavelengths in vacuum (Angstrom)
{
  const ld s2 = 1e8L / (w * w); // square of the wavenumber in inverse micrometers
  const ld n = 1 + 1e-8L * (8342.13L + 2406030 / (130 - s2) + 15997 / (38.9L - s2));
  return w / n;
}

static const ld speed = 299792458.0L;

enum Tool
{
  to_air,
  to_vac,
  heli
};

static const char *const names[] = { "vactoair", "airtovac", "helicorr" };

static vector<string>
split (const string &s, bool &terminated)
{
  vector<string> l;
  size_t i = 0;
  while (i < s.size ())
    {
      size_t j = s.find ('\n', i);
      if (j == string::npos)
        {
          l.push_back (s.substr (i));
          terminated = false;
          return l;
        }
      l.push_back (s.substr (i, j - i));
      i = j + 1;
    }
  terminated = true;
  return l;
}

static void
failed (mc::Ctx &c, const mc::Proc &p, const string &what)
{
  if (p.code () >= 256)
    c.fail ("crash", mc::cat (what, ": ended by signal ", p.code () - 256));
  if (!p.out.empty ())
    c.fail ("output-on-error", what + ": failed but wrote\n" + p.out.substr (0, 300));
  if (p.err.empty ())
    c.fail ("no-message", what + ": failed without a message");
}

static void
wavelength (mc::Ctx &c, Tool t, ld v, const string &in, const string &out, const string &what)
{
  ld a, b;
  number (in, a);
  if (!number (out, b))
    c.fail ("wavelength", what + ": wavelength written as " + out);
  const ld tol = 5.1e-7L + 1e-15L * a;
  bool ok;
  if (t == to_air)
    ok = fabsl (b - air (a)) <= tol;
  else if (t == to_vac)
    ok = fabsl (air (b) - a) <= 5.2e-7L + 1e-15L * a;
  else
    ok = fabsl (b - a * sqrtl ((1 + v / speed) / (1 - v / speed))) <= tol + 1e-15L * a;
  if (!ok)
    c.fail ("wavelength", what + ": wavelength " + in + " became " + out);
}

static void
value (mc::Ctx &c, const string &in, const string &out, const string &what)
{
  ld a, b;
  number (in, a);
  if (!number (out, b) || fabsl (a - b) > 5.01e-7L * fabsl (a) + 1e-300L)
    c.fail ("value", what + ": value " + in + " became " + out);
}

// Judges the result for a text.
static void
judge (mc::Ctx &c, Tool t, ld v, const string &text, size_t skip, const mc::Proc &p, const string &what)
{
  bool term;
  vector<string> lines = split (text, term);
  vector<Row> rows;
  bool bad = false, maybe = false;
  int two = 0, three = 0;
  for (size_t i = skip; i < lines.size (); ++i)
    {
      Row r = classify (lines[i]);
      if (r.kind == 4)
        {
          maybe = true;
          continue;
        }
      bad = bad || r.kind == 2;
      maybe = maybe || r.kind == 3;
      two += r.kind == 0;
      three += r.kind == 1;
      rows.push_back (r);
    }
  if (rows.empty () || (two && three))
    bad = true;
  if (bad && p.code () == 0)
    c.fail ("accepted", what + ": invalid input was accepted, output\n" + p.out.substr (0, 400));
  if (!bad && !maybe && p.code () != 0)
    c.fail ("rejected", mc::cat (what, ": valid input was rejected, exit code ", p.code (), " ", p.err));
  if (p.code () != 0)
    {
      failed (c, p, what);
      c.count ("rejected");
      return;
    }
  vector<string> out = split (p.out, term);
  if (!term || out.size () != rows.size ())
    c.fail ("rows", mc::cat (what, ": ", rows.size (), " rows became ", out.size (), term ? "" : " without final newline", "\n", p.out.substr (0, 400)));
  bool width_set = false;
  size_t width = 0;
  for (size_t i = 0; i < rows.size (); ++i)
    {
      istringstream is (out[i]);
      vector<string> tok;
      string s;
      while (is >> s)
        tok.push_back (s);
      const string w = mc::cat (what, ", row ", i, " '", out[i], "'");
      if (tok.size () != 2 && tok.size () != 3)
        c.fail ("columns", w + ": number of columns");
      if (width_set && width != tok.size ())
        c.fail ("columns", w + ": number of columns differs from that of other rows");
      width = tok.size (), width_set = true;
      if (tok.size () > rows[i].tok.size ())
        c.fail ("invented", w + ": an uncertainty was invented");
      if (rows[i].kind < 2 && tok.size () != rows[i].tok.size ())
        c.fail ("columns", w + ": number of columns of '" + lines[skip + i] + "'");
      ld x;
      number (rows[i].tok[0], x);
      if (plain (rows[i].tok[0]) && x >= 2000 && x <= 1e6L)
        wavelength (c, t, v, rows[i].tok[0], tok[0], w);
      for (size_t k = 1; k < tok.size (); ++k)
        if (plain (rows[i].tok[k]))
          value (c, rows[i].tok[k], tok[k], w);
    }
  c.count ("transformed");
}

static const vector<string> row_alphabet = { "5000.5 1.5 0.25",  "5001.25 -2e-3 0.5", "6000.123456 3",      "99999.987654\t7.25e-7", "2000.1 1e299 1e-280",
                                             "",                 "x",                 "% 5000 1 1",         "5003 1 0.1 7",           "  4000.0\t 2.0   0.125  ",
                                             "5000.5",           "5004 1 x",          "5005 1e400 1",       "12345678.9012345 1 1",   "5006 y 1",
                                             "5007.7 0 0" };

static mc::Proc
run (const char *tool, const vector<string> &args, const string &in)
{
  mc::Run r;
  r.argv = { prog::path (tool) };
  r.argv.insert (r.argv.end (), args.begin (), args.end ());
  r.in = in;
  r.cwd = mc::scratch ();
  r.env = prog::plain_env ();
  return mc::run (r);
}

// All files up to a length.
static void
files (mc::Ctx &c, Tool t, int first)
{
  const int depth = c.tier ? 4 : 3;
  const int n = int (row_alphabet.size ());
  string text;
  int len = 0;
  for (int k = 0; k < depth; ++k)
    {
      const int m = k < c.tier + 2 ? n : 9; // the later rows: fewer shapes
      const int i = k == 0 ? first : c.choose (m + 1);
      if (k && i == m)
        break;
      text += (k ? "\n" : "") + row_alphabet[i];
      ++len;
    }
  if (c.flip ())
    text += "\n";
  const int skip = c.choose (len + 2);
  const string velocity = t != heli ? "" : len == depth ? "25000" : c.pick<string> ({ "25000", "-31234.5", "0" });
  vector<string> args;
  if (t == heli)
    args.push_back (velocity);
  if (skip > 0 || (len < depth && c.flip ()))
    args.push_back (to_string (skip));
  const mc::Proc p = run (names[t], args, text);
  const string what = mc::cat (names[t], " ", velocity, " skip ", skip, " on '", text, "'");
  if (p.code () == 0)
    c.outcome (mc::hash_str (p.out, t));
  judge (c, t, t == heli ? strtold (velocity.c_str (), nullptr) : 0, text, skip, p, what);
  if (c.want_sample ())
    c.sample (what);
}

// All argument lists of a menu.
static void
arguments (mc::Ctx &c, Tool t)
{
  static const vector<string> values = { "0", "1", "2", "5", "x", "", "30000", "-2e5", "1.5x", "--help", "1e400", "nan", " 1", "%s%n" };
  const string text = "5000.5 1.5 0.25\n5001.25 -2e-3 0.5\n5002 3 1\n";
  const int n = c.choose (4);
  vector<string> args;
  for (int i = 0; i < n; ++i)
    args.push_back (c.pick (values));
  const mc::Proc p = run (names[t], args, text);
  string what = names[t];
  for (auto &a : args)
    what += " '" + a + "'";
  c.outcome (mc::hash_str (what));
  if (t == heli && n == 0)
    {
      if (p.code () != 0)
        c.fail ("usage", "usage message");
      return;
    }
  const int most = t == heli ? 2 : 1;
  // an argument is certainly wrong (2), certainly right (0), or either (1)
  auto natural = [] (const string &s) { return s == "0" || s == "1" || s == "2" || s == "5" || s == "30000" ? 0 : s == "x" || s == "" || s == "--help" || s == "nan" || s == "%s%n" ? 2 : 1; };
  auto real = [] (const string &s) { return s == "x" || s == "" || s == "--help" || s == "%s%n" ? 2 : s == "1e400" || s == "nan" || s == "1.5x" || s == " 1" ? 1 : 0; };
  int worst = 0;
  if (n > most)
    worst = 2;
  else
    {
      for (int i = 0; i < n; ++i)
        worst = max (worst, t == heli && i == 0 ? real (args[i]) : natural (args[i]));
    }
  if (worst == 2)
    {
      if (p.code () == 0)
        c.fail ("arguments", what + ": invalid arguments were accepted, output\n" + p.out);
      failed (c, p, what);
    }
  else if (worst == 1)
    {
      if (p.code () != 0)
        failed (c, p, what);
    }
  else
    {
      const int s = t == heli ? 1 : 0;
      judge (c, t, t == heli ? strtold (args[0].c_str (), nullptr) : 0, text, n > s ? stoul (args[s]) : 0, p, what);
    }
}

static string
many (int rows, int columns, int which)
{
  string s;
  for (int i = 0; i < rows; ++i)
    {
      char b[128];
      if (columns == 3)
        snprintf (b, sizeof b, "%.6f %.6e %.6e\n", 3000 + 0.01 * i, 1 + 0.001 * i, 0.1 + 1e-5 * i);
      else
        snprintf (b, sizeof b, "%.6f %.6e\n", 3000 + 0.01 * i, which ? 0.1 + 1e-5 * i : 1 + 0.001 * i);
      s += b;
    }
  return s;
}

// Long files.
static void
large (mc::Ctx &c)
{
  const int rows = c.pick<int> ({ 19998, 19999, 20000, 20001, 20003, 45000 });
  const int skip = c.pick<int> ({ 0, 1, 3 });
  const int what = c.choose (4);
  const int columns = what == 3 ? 2 : c.pick<int> ({ 2, 3 });
  const string in = many (rows, columns, 0);
  c.outcome (mc::mix (rows * 4 + what, columns * 8 + skip));
  if (what < 3)
    {
      vector<string> args;
      if (what == heli)
        args.push_back ("12345.6");
      args.push_back (to_string (skip));
      const mc::Proc p = run (names[what], args, in);
      judge (c, Tool (what), 12345.6L, in, skip, p, mc::cat (names[what], " on ", rows, " rows"));
      return;
    }
  prog::write (mc::scratch () + "/f", in);
  prog::write (mc::scratch () + "/u", many (rows, 2, 1));
  const mc::Proc p = run ("ezip", { "f", "u", to_string (skip) }, "");
  bool term;
  vector<string> out = split (p.out, term), all = split (many (rows, 3, 0), term);
  if (p.code () != 0 || out.size () + skip != all.size ())
    c.fail ("ezip-rows", mc::cat ("ezip on ", rows, " rows: exit code ", p.code (), ", ", out.size (), " rows"));
  for (size_t i = 0; i < out.size (); ++i)
    {
      double a[3] = { 0 }, b[3];
      sscanf (out[i].c_str (), "%lf %lf %lf", a, a + 1, a + 2);
      sscanf (all[i + skip].c_str (), "%lf %lf %lf", b, b + 1, b + 2);
      if (fabs (a[0] - b[0]) > 6e-7 || !mc::near (a[1], b[1], 6e-7) || !mc::near (a[2], b[2], 6e-7))
        c.fail ("ezip", "ezip: '" + all[i + skip] + "' became '" + out[i] + "'");
    }
}

// Conversions forth and back.
static void
inverse (mc::Ctx &c)
{
  const int columns = c.pick<int> ({ 2, 3 });
  const int kind = c.choose (5);
  string in;
  const double first = c.pick<double> ({ 2000, 3000, 10000, 50000 });
  for (int i = 0; i < 200; ++i)
    {
      char b[128];
      snprintf (b, sizeof b, columns == 3 ? "%.6f %.6e %.6e\n" : "%.6f %.6e\n", first * (1 + 0.001 * i), 1 + 0.001 * i, 0.1 + 1e-5 * i);
      in += b;
    }
  static const char *const v[] = { "", "", "30000", "-1e6", "123.456" };
  static const char *const u[] = { "", "", "-30000", "1e6", "-123.456" };
  const mc::Proc p = kind == 0 ? run ("airtovac", {}, in) : kind == 1 ? run ("vactoair", {}, in) : run ("helicorr", { v[kind] }, in);
  const mc::Proc q = kind == 0 ? run ("vactoair", {}, p.out) : kind == 1 ? run ("airtovac", {}, p.out) : run ("helicorr", { u[kind] }, p.out);
  c.outcome (mc::hash_str (q.out, kind));
  bool term;
  vector<string> a = split (in, term), b = split (q.out, term);
  if (p.code () != 0 || q.code () != 0 || a.size () != b.size ())
    c.fail ("inverse", "forth and back: exit codes or number of rows");
  for (size_t i = 0; i < a.size (); ++i)
    {
      double x[3] = { 0 }, y[3] = { 0 };
      const int n = sscanf (a[i].c_str (), "%lf %lf %lf", x, x + 1, x + 2), m = sscanf (b[i].c_str (), "%lf %lf %lf", y, y + 1, y + 2);
      if (n != m || fabs (x[0] - y[0]) > 1.1e-6 + 1e-15 * x[0] || !mc::near (x[1], y[1], 6e-7) || !mc::near (x[2], y[2], 6e-7))
        c.fail ("inverse", "forth and back: '" + a[i] + "' became '" + b[i] + "'");
    }
}

// Merging: all pairs of files with the wavelengths of the row numbers.
static void
merge (mc::Ctx &c, int first)
{
  // shapes of rows: two columns, other value, three columns, one column, text, blank, missing second number
  const int shapes = 6, depth = c.tier ? 4 : 3;
  auto shape = [] (int s, int row, int file) {
    const string w = mc::cat (4000.25 + row), v = file ? mc::cat (0.125 + row) : mc::cat (1.5 - row);
    switch (s)
      {
      case 0:
        return w + " " + v;
      case 1:
        return " " + w + "\t" + v + "e-3 ";
      case 2:
        return w + " " + v + " 99";
      case 3:
        return w;
      case 4:
        return string ("text");
      default:
        return string ();
      }
  };
  string text[2];
  vector<vector<string> > rows (2);
  for (int f = 0; f < 2; ++f)
    for (int k = 0; k < depth; ++k)
      {
        static const int fewer[] = { 0, 2, 4, 5 };
        const int m = f == 1 && !c.tier ? 4 : shapes;
        const int i = f == 0 && k == 0 ? first : c.choose (m + 1);
        if (i == m)
          break;
        const int s = m == 4 ? fewer[i] : i;
        rows[f].push_back (shape (s, k, f));
        text[f] += rows[f].back () + "\n";
      }
  const int longest = int (max (rows[0].size (), rows[1].size ()));
  const int skip = c.choose (longest + 2);
  const bool missing = skip == 0 && c.flip ();
  const int which = missing ? c.choose (2) : 0;
  const string f = mc::scratch () + "/f", u = mc::scratch () + "/u";
  prog::write (f, text[0]);
  prog::write (u, text[1]);
  if (missing)
    unlink ((which ? u : f).c_str ());
  vector<string> args = { "f", "u" };
  if (skip)
    args.push_back (to_string (skip));
  const mc::Proc p = run ("ezip", args, "");
  const string what = mc::cat ("ezip skip ", skip, " of '", text[0], "' and '", text[1], "'", missing ? (which ? " (second missing)" : " (first missing)") : "");
  bool bad = missing, maybe = false;
  vector<vector<Row> > r (2);
  for (int k = 0; k < 2; ++k)
    {
      for (size_t i = skip; i < rows[k].size (); ++i)
        {
          const Row x = classify (rows[k][i]);
          if (x.kind == 4)
            maybe = true;
          else
            {
              bad = bad || x.kind == 2;
              r[k].push_back (x);
            }
        }
      bad = bad || r[k].empty ();
    }
  if (bad || r[0].size () != r[1].size ())
    bad = true;
  else
    for (size_t i = 0; i < r[0].size (); ++i)
      if (r[0][i].tok[0] != r[1][i].tok[0])
        return; // other wavelengths: not specified
  if (bad && p.code () == 0)
    c.fail ("ezip-accepted", what + ": invalid input was accepted, output\n" + p.out);
  if (!bad && !maybe && p.code () != 0)
    c.fail ("ezip-rejected", mc::cat (what, ": valid input was rejected, exit code ", p.code (), " ", p.err));
  if (p.code () != 0)
    {
      failed (c, p, what);
      return;
    }
  c.outcome (mc::hash_str (p.out));
  bool term;
  vector<string> out = split (p.out, term);
  if (!term || out.size () != r[0].size ())
    c.fail ("ezip-rows", what + ": number of rows, output\n" + p.out);
  for (size_t i = 0; i < out.size (); ++i)
    {
      istringstream is (out[i]);
      vector<string> tok;
      string s;
      while (is >> s)
        tok.push_back (s);
      ld a, b;
      if (tok.size () != 3 || !number (tok[0], a) || !number (r[0][i].tok[0], b) || fabsl (a - b) > 6e-7L)
        c.fail ("ezip", what + ": row '" + out[i] + "'");
      value (c, r[0][i].tok[1], tok[1], what);
      value (c, r[1][i].tok[1], tok[2], what);
    }
}

static void
merge_arguments (mc::Ctx &c)
{
  static const vector<string> values = { "f", "u", "missing", "0", "1", "2", "9", "x", "" };
  prog::write (mc::scratch () + "/f", "5000 1\n5001 2\n5002 4\n");
  prog::write (mc::scratch () + "/u", "5000 0.25\n5001 0.5\n5002 0.125\n");
  const int n = 1 + c.choose (4);
  vector<string> args;
  string what = "ezip";
  for (int i = 0; i < n; ++i)
    {
      args.push_back (c.pick (values));
      what += " '" + args.back () + "'";
    }
  const mc::Proc p = run ("ezip", args, "");
  c.outcome (mc::hash_str (what));
  auto file = [] (const string &s) { return s == "f" || s == "u"; };
  const int skip = n < 3 ? 0 : args[2] == "0" ? 0 : args[2] == "1" ? 1 : args[2] == "2" ? 2 : -1;
  if (n < 2 || n > 3 || !file (args[0]) || !file (args[1]) || skip < 0)
    {
      if (p.code () == 0)
        c.fail ("ezip-arguments", what + ": invalid arguments were accepted, output\n" + p.out);
      failed (c, p, what);
      return;
    }
  static const double x[] = { 5000, 5001, 5002 }, y[] = { 1, 2, 4 }, z[] = { 0.25, 0.5, 0.125 };
  istringstream is (p.out);
  for (int i = skip; i < 3; ++i)
    {
      double a, b, d;
      if (!(is >> a >> b >> d) || a != x[i] || b != (args[0] == "f" ? y : z)[i] || d != (args[1] == "f" ? y : z)[i])
        c.fail ("ezip", what + ": wrong output\n" + p.out);
    }
  string rest;
  if (p.code () != 0 || is >> rest)
    c.fail ("ezip", what + ": wrong output\n" + p.out);
}

// One row of a long table is different.
static void
odd_row (mc::Ctx &c)
{
  static const vector<int> quick = { 2, 7, 8, 16, 33, 64, 65, 100, 128, 150, 256, 1000, 1025, 4097 },
                           deep = { 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 150, 200, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1024, 1025, 4095, 4096, 4097, 20001 };
  const int rows = c.pick (c.tier ? deep : quick);
  const int at = c.pick<int> ({ 0, 1, rows / 3, rows / 2, rows - 2, rows - 1 });
  const int tool = c.choose (4);
  const int shape = c.choose (4); // fewer columns, more columns, text, only one number
  bool term;
  vector<string> l = split (many (rows, shape == 0 ? 3 : 2, 0), term);
  const string usual = l[at];
  l[at] = shape == 0 ? usual.substr (0, usual.rfind (' ')) : shape == 1 ? usual + " 0.5" : shape == 2 ? string ("text 1 1") : usual.substr (0, usual.find (' '));
  string in;
  for (auto &x : l)
    in += x + "\n";
  const string what = mc::cat (tool < 3 ? names[tool] : "ezip", " on ", rows, " rows, row ", at, ": '", l[at], "'");
  c.outcome (mc::hash_str (what));
  if (tool < 3)
    {
      const mc::Proc p = run (names[tool], tool == heli ? vector<string> { "0.5" } : vector<string> (), in);
      judge (c, Tool (tool), 0.5L, in, 0, p, what);
      return;
    }
  // merging: one of the files lacks a row or contains text
  const int which = c.choose (2);
  const string other = many (rows, 2, 1 - which);
  if (shape < 2)
    {
      l = split (many (rows, 2, which), term);
      l.erase (l.begin () + at);
      if (shape == 1)
        l.push_back ("9000.5 1.0"), l.push_back ("9000.75 1.0");
      in.clear ();
      for (auto &x : l)
        in += x + "\n";
    }
  prog::write (mc::scratch () + "/f", which ? other : in);
  prog::write (mc::scratch () + "/u", which ? in : other);
  const mc::Proc p = run ("ezip", { "f", "u" }, "");
  if (p.code () == 0)
    c.fail ("ezip-accepted", what + ": invalid input was accepted");
  failed (c, p, what);
}

// All wavelengths of a table and velocities of a menu.
static void
sweep (mc::Ctx &c)
{
  static const vector<string> v = { "0",   "1e-3", "0.01", "0.1", "0.25", "0.5",  "0.75",   "0.999", "1",     "1.001", "2.5",    "9.99",   "10",        "99",
                                    "300", "1e3",  "29999", "3e4", "1e5",  "1e6",  "2997924", "1e7",   "1.5e7", "3e7",   "1e8",    "1.5e8" };
  const int tool = c.choose (3);
  const int part = c.choose (c.tier ? 40 : 8), parts = c.tier ? 40 : 8;
  string velocity;
  if (tool == heli)
    {
      velocity = c.pick (v);
      if (velocity != "0" && c.flip ())
        velocity = "-" + velocity;
    }
  string in;
  const int rows = 500;
  for (int i = 0; i < rows; ++i)
    {
      char b[128];
      snprintf (b, sizeof b, "%.6f %.6e %.6e\n", 2000 * pow (500.0, (i + double (part) / parts) / rows), 1 + 0.001 * i, 0.1 + 1e-5 * i);
      in += b;
    }
  const mc::Proc p = run (names[tool], tool == heli ? vector<string> { velocity } : vector<string> (), in);
  c.outcome (mc::hash_str (p.out));
  judge (c, Tool (tool), tool == heli ? strtold (velocity.c_str (), nullptr) : 0, in, 0, p, mc::cat (names[tool], " ", velocity, " part ", part));
}

int
mc_shards (int)
{
  return int (row_alphabet.size ()) * 3 + 3 + 1 + 1 + 6 + 1 + 2;
}

const char *
mc_rule ()
{
  return "every file up to a length over an alphabet of rows (two, three and four columns, blank, comment, text, extreme numbers) with and without final newline, all skip counts, all argument lists of a menu, long files, tables with one different row, a sweep of wavelengths and velocities, all pairs of files to merge; "
         "non-trivial: distinct outputs";
}

double
mc_time_limit ()
{
  return 60;
}

void
mc_case (mc::Ctx &c)
{
  int s = c.shard ();
  const int n = int (row_alphabet.size ());
  if (s < 3 * n)
    return files (c, Tool (s / n), s % n);
  s -= 3 * n;
  if (s < 3)
    return arguments (c, Tool (s));
  s -= 3;
  if (s == 0)
    return large (c);
  if (s == 1)
    return inverse (c);
  s -= 2;
  if (s < 6)
    return merge (c, s);
  if (s == 7)
    return odd_row (c);
  if (s == 8)
    return sweep (c);
  merge_arguments (c);
}
