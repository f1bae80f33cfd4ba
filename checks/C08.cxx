// C08: a malformed model definition is rejected, never misread.
#include "spec.hpp"
#include <algorithm>
#include <cstring>

using namespace std;
using namespace spec;
typedef Probe<2> F;

static const string &
data_file (int k)
{
  static string f[8];
  if (f[0].empty ())
    {
      static const char *const rows[] = { "", "", "# comment\n% another\n! one more\n", "5000 1 0.1\n5000.5 x 0.1\n5001 1 0.1\n5002 1 0.1\n", "5000 1 0.1\n5000.5 1 0.1\n5001\n", "abc\n", "\n5000 1 0.1\n5001 1 0.1\n5002 1 0.1\n" };
      for (int j = 0; j < 7; ++j)
        {
          f[j] = mc::scratch () + "/d" + to_string (j);
          ofstream os (f[j]);
          if (j == 0)
            for (int i = 0; i < 13; ++i)
              os << 5000 + 0.25 * i << " " << 1.0 + 0.3 * sin (1.3 * i) << " " << 0.1 + 0.01 * (i % 3) << "\n";
          else
            os << rows[j];
        }
      f[7] = mc::scratch ();
    }
  return f[k];
}

// Text whose tokens may run together when it is read number by number: not judged.
static bool
adhesive (const string &t)
{
  istringstream is (t);
  string w;
  while (is >> w)
    {
      double d;
      if (number (w, d))
        continue;
      char *e;
      strtol (w.c_str (), &e, 10);
      if (e > w.c_str () && isalpha (static_cast<unsigned char> (*e)) && w[0] != '-' && atoi (w.c_str ()) < 2 && strchr ("ls", *e))
        return true; // a flag and a reference
      strtod (w.c_str (), &e);
      size_t k = e - w.c_str ();
      if (w.size () > 1 && w[0] == '0' && (w[1] == 'x' || w[1] == 'X'))
        k = 1;
      if (k > 0 && k < w.size () && strchr ("+-.0123456789", w[k]))
        return true;
    }
  return false;
}

static void
normalise (Spec &d)
{
  // other ways to write 0, 1 and natural numbers
  auto flag = [] (Param &p) {
    if (!p.flag.empty () && p.flag.find_first_not_of ("0123456789+-") == string::npos && p.flag.size () < 8)
      {
        char *e;
        const long v = strtol (p.flag.c_str (), &e, 10);
        if (*e == 0 && (v == 0 || v == 1))
          p.flag = v ? "1" : "0";
      }
  };
  for (auto &s : d.s)
    {
      flag (s.res);
      if (s.poly.size () > 1 && s.poly[0] == '+')
        s.poly.erase (0, 1);
      for (auto &l : s.lines)
        for (auto &p : l.p)
          flag (p);
    }
}

struct Quiet
{
  ostringstream err;
  streambuf *old;
  Quiet () : old (cerr.rdbuf (err.rdbuf ())) {}
  ~Quiet () { cerr.rdbuf (old); }
};

// want: -1 what the strict reading says, 1 must be refused
static void
judge (mc::Ctx &c, const string &text, int want = -1)
{
  string error;
  bool unjudged = false;
  Spec d = read (text, 2, error, unjudged);
  Meaning m;
  vector<especia::Section> v;
  if (error.empty ())
    {
      normalise (d);
      m = meaning (d);
      error = m.error;
      if (error.empty ())
        sections<F> (m, v, error);
    }
  if (want == 1 && error.empty ())
    error = "an error by construction";
  unjudged = (unjudged && error.empty ()) || error == "real number instead of a natural number" || adhesive (text);
  istringstream is (text);
  ostringstream os;
  Quiet q;
  bool refused = false;
  try
    {
      const especia::Model<F> model = especia::Model<F>::parse (is, os);
      if (!unjudged)
        {
          if (!error.empty ())
            {
              // an error raised by the first evaluation is reported, too
              if (error == "wrong number" && text.find ("9999999999") != string::npos)
                return; // the effort of an evaluation depends on the resolution
              vector<double> x (model.get_parameter_count ());
              const auto x0 = model.get_initial_parameter_values ();
              for (size_t i = 0; i < x.size (); ++i)
                x[i] = x0[i];
              model.cost (&x[0], natural (x.size ()));
              c.fail ("misread", "accepted in spite of " + error + ":\n" + text);
            }
          const string s = compare<F> (model, m, v);
          if (!s.empty ())
            c.fail ("meaning", s + ":\n" + text);
        }
    }
  catch (runtime_error &e)
    {
      refused = true;
      if (error.empty () && !unjudged)
        c.fail ("rejected", string (e.what ()) + " " + q.err.str () + ":\n" + text);
    }
  string h = text;
  for (size_t k; (k = h.find (mc::scratch ())) != string::npos;)
    h.erase (k, mc::scratch ().size ());
  c.outcome (mc::hash_str (h));
  c.count (unjudged ? "not judged" : refused ? "refused" : "accepted");
  if (c.want_sample ())
    c.sample (text);
}

static string
base_text ()
{
  const string f = data_file (0);
  return "% a comment\n{\n  s1 " + f + " 4999.5 5010 1 5000.7 5001.1\n  25 20 30 1\n  l1\n  1.5 1 2 1\n  0.5 0 0 0\n  l2\n  2 2 3 0 l1\n  0 -1 1 1\n}\n{\n  s2 " + f
         + " 5000.5 5009 2\n  25 0 0 0 s1\n  l3\n  4 3.5 2e0 1\n  0 0 0 0 l2\n}\n";
}

// The first choice of a case is divided among the shards.
static int part = -1;
static const int parts = 8;

struct Nothing
{
};

static int
choose (mc::Ctx &c, int n)
{
  if (part < 0)
    return c.choose (n);
  const int p = part;
  part = -1;
  if (p >= n)
    throw Nothing ();
  return p + parts * c.choose ((n - p + parts - 1) / parts);
}

struct Token
{
  size_t at, n;
};

static vector<Token>
tokens (const string &t)
{
  vector<Token> v;
  size_t i = 0;
  while (i < t.size ())
    {
      while (i < t.size () && isspace (static_cast<unsigned char> (t[i])))
        ++i;
      size_t k = i;
      while (k < t.size () && !isspace (static_cast<unsigned char> (t[k])))
        ++k;
      if (k > i)
        v.push_back ({ i, k - i });
      i = k;
    }
  return v;
}

static string
edit_token (mc::Ctx &c, const string &t)
{
  static const vector<string> alphabet = { "x", "-1", "1e999", "nan", "inf", "{", "}", "%", "2", "0", "1", "0x10", "1.5", "1.5x", "-", "1e", "l1", "l2", "s1", "s2", "1,5", "\"1\"", "99999999999999999999", string (300, 'y'), "}{", "{}", "-0.0", "+1", "1e-400" };
  const vector<Token> v = tokens (t);
  const Token &k = v[choose (c, int (v.size ()))];
  const int a = c.choose (int (alphabet.size ()) + 5);
  const string w = t.substr (k.at, k.n);
  switch (a)
    {
    case 0: // missing
      return t.substr (0, k.at) + t.substr (k.at + k.n);
    case 1: // twice
      return t.substr (0, k.at) + w + " " + t.substr (k.at);
    case 2: // line feed before
      return t.substr (0, k.at) + "\n" + t.substr (k.at);
    case 3: // line feed after
      return t.substr (0, k.at + k.n) + "\n" + t.substr (k.at + k.n);
    case 4: // surplus
      return t.substr (0, k.at + k.n) + " 7" + t.substr (k.at + k.n);
    default:
      return t.substr (0, k.at) + alphabet[a - 5] + t.substr (k.at + k.n);
    }
}

static string
edit_line (mc::Ctx &c, const string &t)
{
  vector<string> v;
  istringstream is (t);
  string l;
  while (getline (is, l))
    v.push_back (l);
  const int k = choose (c, int (v.size ()));
  switch (c.choose (4))
    {
    case 0:
      v.erase (v.begin () + k);
      break;
    case 1:
      v.insert (v.begin () + k, v[k]);
      break;
    case 2: // joined with the next line
      if (k + 1 < int (v.size ()))
        {
          v[k] += " " + v[k + 1];
          v.erase (v.begin () + k + 1);
        }
      break;
    default: // moved
      {
        const int to = c.choose (int (v.size ()));
        const string s = v[k];
        v.erase (v.begin () + k);
        v.insert (v.begin () + min (to, int (v.size ())), s);
      }
    }
  return join (v);
}

static void
data_files (mc::Ctx &c)
{
  // the first or second section refers to a bad data file, or selects nothing
  const int k = choose (c, 12);
  const bool second = c.flip ();
  const string f0 = data_file (0), ranges[] = { "4999.5 5010", "5020 5030", "5010 5000", "5000.1 5000.2" };
  string f = f0, r = ranges[0];
  if (k < 6)
    f = data_file (k + 1);
  else if (k == 6)
    f = data_file (7); // a directory
  else if (k == 7)
    f = data_file (0) + ".missing";
  else if (k == 8)
    f = "/dev/null";
  else
    r = ranges[k - 8];
  const int lines = c.choose (3), poly = c.choose (3);
  auto sec = [&] (const string &id, const string &file, const string &range) {
    string t = "{\n" + id + " " + file + " " + range + " " + to_string (poly) + "\n25 20 30 1\n";
    for (int i = 0; i < lines; ++i)
      t += id + "l" + to_string (i) + "\n1.5 1 2 1\n0.5 0 0 0\n";
    return t + "}\n";
  };
  judge (c, second ? sec ("a", f0, ranges[0]) + sec ("b", f, r) : sec ("a", f, r) + sec ("b", f0, ranges[0]), 1);
}

// Every short text over an alphabet.
static void
short_texts (mc::Ctx &c, int length)
{
  static const string f = data_file (0);
  static const vector<string> alphabet = { "{", "}", " s", " " + f + " 5000 5003 1", " 25 20 30 1", "\n", "%", " l 1 1 2 1\n1 0 0 0" };
  string t;
  // the empty fragment makes the shorter texts
  const int k = int (alphabet.size ());
  for (int i = 0; i < length; ++i)
    {
      const int j = i == 0 ? choose (c, k) : c.choose (k + 1);
      if (j == k)
        break;
      t += alphabet[j];
    }
  judge (c, t);
}

// Every graph of references between four sections or lines, and long chains that end properly or in a cycle.
static void
references (mc::Ctx &c)
{
  const int kind = choose (c, 7); // none or to whom the first refers, or a long chain
  const bool sec = c.flip ();
  vector<int> to; // -1 none, -2 unknown
  vector<string> name;
  if (kind < 6)
    {
      static const char *const orders[][4] = { { "a", "b", "c", "d" }, { "d", "b", "a", "c" } };
      const int o = c.choose (2);
      to.push_back (kind - 2);
      for (int i = 1; i < 4; ++i)
        to.push_back (c.choose (6) - 2);
      name.assign (orders[o], orders[o] + 4);
    }
  else
    {
      const int n = c.pick ({ 5, 6, 7, 8, 9, 10, 12, 16, 25 }), order = c.choose (4), end = c.choose (4);
      for (int i = 0; i < n; ++i)
        {
          const int k = order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? (i * 7 + 3) % 26 : (i % 2 ? i / 2 : n - 1 - i / 2);
          name.push_back (string (1, char ('A' + k)));
          to.push_back (i + 1 < n ? i + 1 : end == 0 ? -1 : end == 1 ? 0 : end == 2 ? n / 2 : -2);
        }
    }
  auto ref = [&] (size_t i) { return to[i] == -1 ? string () : " " + (to[i] == -2 ? "nobody" : name[to[i]]); };
  string t = "{\ns " + data_file (0) + " 4999.5 5010 1\n25 20 30 1\n";
  for (size_t i = 0; i < to.size (); ++i)
    if (sec)
      t += "}\n{\n" + name[i] + " " + data_file (0) + " 4999.5 5010 0\n" + to_string (20 + i) + " 10 50 " + (i % 2 ? "0" : "1") + ref (i) + "\n";
    else
      t += name[i] + "\n1.5 1 " + to_string (2 + i) + " 1" + ref (i) + "\n0.5 0 0 0" + (i % 3 ? "" : ref (i)) + "\n";
  judge (c, t + "}\n");
}

int
mc_shards (int)
{
  return 10 * parts;
}

const char *
mc_rule ()
{
  return "every single edit (missing, repeated, surplus, replaced, moved token, line or byte) of a definition with references, every truncation, every short text over an alphabet of fragments, all kinds of bad data files, every graph of references between four sections or lines, and chains of up to 25; thorough: pairs of edits; non-trivial: distinct texts";
}

static void
family (mc::Ctx &c, int f)
{
  const string t = base_text ();
  switch (f)
    {
    case 0:
      return judge (c, edit_token (c, t));
    case 1:
      return judge (c, edit_line (c, t));
    case 2: // truncated at any byte, at either end
      {
        const size_t k = choose (c, int (t.size ()) + 1);
        return judge (c, c.flip () ? t.substr (0, k) : t.substr (k));
      }
    case 3:
      {
        static const char bytes[] = { 0, '\xff', '{', '}', '%', '\n', ' ', '-', 'e', '9', '\r', '.', '\t', '0' };
        string u (t);
        const size_t k = choose (c, int (t.size ()));
        const char b = bytes[c.choose (sizeof bytes)];
        if (c.flip ())
          u[k] = b;
        else
          u.insert (k, 1, b);
        return judge (c, u);
      }
    case 4:
      return data_files (c);
    case 5:
      return short_texts (c, c.tier ? 7 : 6);
    case 6: // two edits of lines
      return judge (c, edit_line (c, edit_line (c, t)));
    case 9:
      return references (c);
    case 7: // a token and a line
      if (c.tier)
        return judge (c, edit_token (c, edit_line (c, t)));
      return judge (c, edit_line (c, t.substr (t.find ("}\n") + 2)));
    default: // two tokens of a short definition
      {
        const string s = "{\ns " + data_file (0) + " 5000 5003 1 5001 5002\n25 20 30 1\nl\n1.5 1 2 1\n0 0 0 0\n}\n";
        return judge (c, edit_token (c, edit_token (c, s)));
      }
    }
}

void
mc_case (mc::Ctx &c)
{
  part = c.shard () % parts;
  try
    {
      family (c, c.shard () / parts);
    }
  catch (Nothing)
    {
      c.choose (1);
    }
}
