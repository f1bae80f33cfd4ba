// What a model definition says, independent of the parser of the code: a specification, its text and its meaning.
#pragma once
#include "core/model.h"
#include "mc.hpp"
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace spec
{

using especia::natural;
using especia::real;

struct Param
{
  std::string val, lo, up, flag, ref;
};

struct Line
{
  std::string id;
  std::vector<Param> p;
};

struct Sec
{
  std::string id, file, a, b, poly;
  std::vector<std::string> masks;
  Param res;
  std::vector<Line> lines;
};

struct Spec
{
  std::vector<Sec> s;
};

inline std::string
text (const Param &p)
{
  return "  " + p.val + "  " + p.lo + "  " + p.up + "  " + p.flag + (p.ref.empty () ? "" : "  " + p.ref);
}

// The lines of the definition.
inline std::vector<std::string>
lines (const Spec &d, char open = '{', char close = '}')
{
  std::vector<std::string> v;
  for (const Sec &s : d.s)
    {
      v.push_back (std::string (1, open));
      std::string h = "  " + s.id + " " + s.file + " " + s.a + " " + s.b + " " + s.poly;
      for (auto &m : s.masks)
        h += " " + m;
      v.push_back (h);
      v.push_back (text (s.res));
      for (const Line &l : s.lines)
        {
          v.push_back ("  " + l.id);
          for (const Param &p : l.p)
            v.push_back (text (p));
        }
      v.push_back (std::string (1, close));
    }
  return v;
}

inline std::string
join (const std::vector<std::string> &v)
{
  std::string t;
  for (auto &l : v)
    t += l + "\n";
  return t;
}

inline bool
number (const std::string &t, double &d)
{
  if (t.empty () || t.find_first_not_of ("0123456789+-.eE") != std::string::npos)
    return false;
  char *e;
  d = strtod (t.c_str (), &e);
  return *e == 0 && std::isfinite (d) && (d == 0 || std::fabs (d) > 1e-300);
}

inline bool
natural_number (const std::string &t, unsigned &n)
{
  const size_t sign = !t.empty () && t[0] == '+'; // "+1" is 1, too
  if (t.size () == sign || t.size () > 6 || t.find_first_not_of ("0123456789", sign) != std::string::npos)
    return false;
  n = unsigned (atoi (t.c_str () + sign));
  return true;
}

// A flag is 0 or 1, however written.
inline bool
flag_value (const std::string &t)
{
  if (t.empty () || t.size () > 6 || t.find_first_not_of ("0123456789+-") != std::string::npos)
    return false;
  char *e;
  const long v = strtol (t.c_str (), &e, 10);
  return *e == 0 && (v == 0 || v == 1);
}

// What a definition means: the value of a slot is a constant or a free parameter.
struct Slot
{
  bool free;
  int index;
  double val;
};

struct Meaning
{
  std::string error; // not empty: the definition is malformed
  bool unjudged = false;
  std::vector<double> lo, up;          // bounds of the free parameters
  struct Section
  {
    std::string id, file;
    double a, b;
    unsigned poly;
    std::vector<std::pair<double, double> > masks;
    Slot res;
    std::vector<std::string> ids;
    std::vector<std::vector<Slot> > lines;
  };
  std::vector<Section> s;
};

struct Raw
{
  double val, lo, up;
  bool opt;
  std::string ref;
  int visit = 0;
  Slot slot;
};

// 0: not resolved because of an error.
inline bool
resolve (std::map<std::string, Raw *> &m, Raw &r, std::string &error, int &k)
{
  (void)k;
  if (r.visit == 2)
    return true;
  if (r.visit == 1)
    {
      error = "cyclic reference";
      return false;
    }
  r.visit = 1;
  if (!r.ref.empty ())
    {
      auto i = m.find (r.ref);
      if (i == m.end ())
        {
          error = "reference not found";
          return false;
        }
      if (!resolve (m, *i->second, error, k))
        return false;
      r.slot = i->second->slot;
    }
  r.visit = 2;
  return true;
}

inline bool
raw (const Param &p, Raw &r, Meaning &m)
{
  if (!number (p.val, r.val) || !number (p.lo, r.lo) || !number (p.up, r.up) || !flag_value (p.flag))
    {
      m.error = "wrong number";
      return false;
    }
  r.opt = p.flag == "1";
  r.ref = p.ref;
  return true;
}

inline Meaning
meaning (const Spec &d)
{
  Meaning m;
  std::map<std::string, Raw *> rs;
  std::vector<std::map<std::string, Raw *> > rl;
  std::vector<Raw> sr (d.s.size ());
  std::vector<std::vector<std::vector<Raw> > > lr (d.s.size ());
  std::set<std::string> lids;
  if (d.s.empty ())
    {
      m.error = "no section";
      return m;
    }
  for (size_t i = 0; i < d.s.size (); ++i)
    {
      const Sec &s = d.s[i];
      Meaning::Section t;
      t.id = s.id;
      t.file = s.file;
      if (!number (s.a, t.a) || !number (s.b, t.b) || !natural_number (s.poly, t.poly))
        {
          m.error = "wrong number";
          return m;
        }
      if (rs.count (s.id))
        {
          m.error = "duplicate section";
          return m;
        }
      if (s.masks.size () % 2)
        {
          m.error = "odd mask";
          return m;
        }
      for (size_t k = 0; k < s.masks.size (); k += 2)
        {
          double a, b;
          if (!number (s.masks[k], a) || !number (s.masks[k + 1], b))
            {
              m.error = "wrong mask";
              return m;
            }
          t.masks.push_back ({ a, b });
        }
      if (!raw (s.res, sr[i], m))
        return m;
      rs[s.id] = &sr[i];
      lr[i].resize (s.lines.size ());
      for (size_t l = 0; l < s.lines.size (); ++l)
        {
          if (!lids.insert (s.lines[l].id).second)
            {
              m.error = "duplicate line";
              return m;
            }
          t.ids.push_back (s.lines[l].id);
          lr[i][l].resize (s.lines[l].p.size ());
          rl.resize (s.lines[l].p.size ());
          for (size_t j = 0; j < s.lines[l].p.size (); ++j)
            {
              if (!raw (s.lines[l].p[j], lr[i][l][j], m))
                return m;
              rl[j][s.lines[l].id] = &lr[i][l][j];
            }
        }
      m.s.push_back (t);
    }
  // the independent parameters, in the order of the definition
  auto own = [&m] (Raw &r) {
    if (!r.ref.empty ())
      return;
    if (r.opt && r.lo != r.up)
      {
        r.slot = { true, int (m.lo.size ()), 0 };
        m.lo.push_back (std::min (r.lo, r.up));
        m.up.push_back (std::max (r.lo, r.up));
      }
    else
      r.slot = { false, 0, r.opt ? r.lo : r.val };
    r.visit = 2;
  };
  for (size_t i = 0; i < d.s.size (); ++i)
    {
      own (sr[i]);
      for (auto &l : lr[i])
        for (auto &r : l)
          own (r);
    }
  int k = 0;
  for (size_t i = 0; i < d.s.size (); ++i)
    {
      if (!resolve (rs, sr[i], m.error, k))
        return m;
      m.s[i].res = sr[i].slot;
      for (auto &l : lr[i])
        {
          std::vector<Slot> v;
          for (size_t j = 0; j < l.size (); ++j)
            {
              if (!resolve (rl[j], l[j], m.error, k))
                return m;
              v.push_back (l[j].slot);
            }
          m.s[i].lines.push_back (v);
        }
    }
  return m;
}

// Reads a definition the strict way.
inline Spec
read (const std::string &t, size_t parameters, std::string &error, bool &unjudged, char comment = '%', char open = '{', char close = '}')
{
  Spec d;
  error.clear ();
  unjudged = false;
  // strip comments
  std::vector<std::string> v;
  {
    std::string l;
    std::istringstream is (t);
    while (std::getline (is, l))
      {
        l = l.substr (0, l.find (comment));
        if (l.find_first_not_of (" \t\r\v\f") != std::string::npos)
          v.push_back (l);
      }
  }
  std::string u;
  for (auto &l : v)
    u += l + "\n";
  size_t at = 0;
  while (true)
    {
      const size_t e = u.find (close, at);
      const std::string chunk = u.substr (at, e == std::string::npos ? e : e - at);
      const size_t o = chunk.find (open);
      if (e == std::string::npos)
        {
          if (o != std::string::npos)
            error = "unterminated section";
          break;
        }
      if (o == std::string::npos)
        {
          error = "end without beginning";
          break;
        }
      std::string body = chunk.substr (o + 1);
      // A beginning inside a section is a word like any other; whether it may serve as identifier is not judged.
      if (body.find (open) != std::string::npos)
        unjudged = true;
      Sec s;
      std::istringstream is (body);
      // The head may be preceded by line ends; its tokens may be spread over lines.
      if (!(is >> s.id >> s.file >> s.a >> s.b >> s.poly))
        {
          error = "incomplete head";
          break;
        }
      double x;
      unsigned n;
      if (!number (s.a, x) || !number (s.b, x) || !natural_number (s.poly, n))
        {
          // a number followed by something else may be read as two words
          const bool real_count = number (s.a, x) && number (s.b, x) && number (s.poly, x);
          error = real_count ? "real number instead of a natural number" : "wrong number";
          break;
        }
      std::string l, w;
      if (!std::getline (is, l))
        {
          error = "incomplete head";
          break;
        }
      {
        std::istringstream ls (l);
        while (ls >> w)
          s.masks.push_back (w);
      }
      auto param = [&] (Param &p) {
        if (!(is >> p.val >> p.lo >> p.up >> p.flag))
          return false;
        if (!number (p.val, x) || !number (p.lo, x) || !number (p.up, x) || !flag_value (p.flag))
          return false;
        if (!std::getline (is, l))
          return false;
        std::istringstream ls (l);
        ls >> p.ref; // what follows is a comment
        return true;
      };
      if (!param (s.res))
        {
          error = "wrong resolution";
          break;
        }
      while (is >> w)
        {
          Line li;
          li.id = w;
          for (size_t j = 0; j < parameters; ++j)
            {
              Param p;
              if (!param (p))
                {
                  error = "wrong parameter";
                  break;
                }
              li.p.push_back (p);
            }
          if (!error.empty ())
            break;
          s.lines.push_back (li);
        }
      if (!error.empty ())
        break;
      d.s.push_back (s);
      at = e + 1;
    }
  if (error.empty () && d.s.empty ())
    error = "no section";
  return d;
}

// A line whose optical depth depends on each of its parameters.
template <int N> class Probe
{
public:
  Probe () : c (0)
  {
    for (int i = 0; i < N; ++i)
      q[i] = 0;
  }
  explicit Probe (const real p[]) : c (5001.0)
  {
    for (int i = 0; i < N; ++i)
      q[i] = p[i];
  }
  real
  operator() (const real &x) const
  {
    real s = 0.1;
    for (int i = 0; i < N; ++i)
      s += q[i] * (0.02 + 0.01 * i) * especia::sq (std::sin (x * (1.1 + 0.37 * i) + 0.3 * i));
    return s;
  }
  real
  center () const
  {
    return c;
  }
  real
  redshift_factor () const
  {
    return 1.0;
  }
  static natural
  parameter_count ()
  {
    return N;
  }

private:
  real q[N];
  real c;
};

// The cost of the model at x, from what the definition says; false if a data file is no good.
template <class Function>
bool
sections (const Meaning &m, std::vector<especia::Section> &v, std::string &error)
{
  for (auto &s : m.s)
    {
      std::ifstream ifs (s.file.c_str ());
      if (!ifs)
        {
          error = "no data file";
          return false;
        }
      especia::Section t;
      if (!t.get (ifs, s.a, s.b))
        {
          error = "no data";
          return false;
        }
      for (auto &k : s.masks)
        t.mask (k.first, k.second);
      v.push_back (t);
    }
  return true;
}

inline double
value (const Slot &s, const std::vector<double> &x)
{
  return s.free ? x[s.index] : s.val;
}

template <class Function>
real
cost (const Meaning &m, const std::vector<especia::Section> &v, const std::vector<double> &x)
{
  real d = 0;
  for (size_t i = 0; i < m.s.size (); ++i)
    {
      std::vector<real> q;
      for (auto &l : m.s[i].lines)
        for (auto &p : l)
          q.push_back (value (p, x));
      q.push_back (0);
      d += v[i].cost (especia::Superposition<Function> (natural (m.s[i].lines.size ()), &q[0]), value (m.s[i].res, x), m.s[i].poly);
    }
  return d;
}

// Compares a parsed model with the meaning of its definition.
template <class Function>
std::string
compare (const especia::Model<Function> &model, const Meaning &m, const std::vector<especia::Section> &v)
{
  const size_t n = m.lo.size ();
  std::vector<double> x (n + 1);
  if (n > 0)
    {
      if (model.get_parameter_count () != n)
        return mc::cat (model.get_parameter_count (), " parameters, not ", n);
      const std::valarray<real> x0 = model.get_initial_parameter_values (), d0 = model.get_initial_local_step_sizes ();
      if (x0.size () != n || d0.size () != n)
        return "number of initial values";
      const auto con = model.get_constraint ();
      for (size_t i = 0; i < n; ++i)
        {
          x[i] = x0[i];
          if (!mc::near (x0[i], 0.5 * (m.lo[i] + m.up[i]), 1e-14, 1e-14 * (m.up[i] - m.lo[i])))
            return mc::cat ("initial value ", i, " is ", x0[i], ", not ", 0.5 * (m.lo[i] + m.up[i]));
          if (!mc::near (d0[i], 0.5 * (m.up[i] - m.lo[i]), 1e-14))
            return mc::cat ("initial step size ", i, " is ", d0[i], ", not ", 0.5 * (m.up[i] - m.lo[i]));
        }
      if (con.is_violated (&x[0], natural (n)))
        return "the initial values violate the bounds";
      for (size_t i = 0; i < n; ++i)
        for (int k = 0; k < 4; ++k)
          {
            std::vector<double> y (x);
            const double b = k < 2 ? m.lo[i] : m.up[i];
            y[i] = k % 2 == 0 ? b : std::nextafter (b, k < 2 ? -HUGE_VAL : HUGE_VAL);
            if (con.is_violated (&y[0], natural (n)) != (k % 2 == 1))
              return mc::cat ("value ", y[i], " of parameter ", i, k % 2 ? " does not violate" : " violates", " bounds ", m.lo[i], " and ", m.up[i]);
            if (con.cost (&y[0], natural (n)) != 0)
              return "the bounds have a cost";
          }
    }
  for (int k = 0; k < 3; ++k)
    {
      for (size_t i = 0; i < n; ++i)
        x[i] = m.lo[i] + (m.up[i] - m.lo[i]) * (k == 0 ? 0.5 : k == 1 ? (i + 1.0) / (n + 1.5) : 0.9 - 0.7 * i / n);
      real a = 0, b = 0;
      std::string ea, eb;
      bool physical = true; // the effort depends on the resolution
      for (auto &s : m.s)
        physical = physical && value (s.res, x) > 0.1 && value (s.res, x) < 1000;
      if (!physical)
        continue;
      try
        {
          a = model.cost (&x[0], natural (n ? n : 1));
        }
      catch (std::runtime_error &e)
        {
          ea = e.what ();
        }
      try
        {
          b = cost<Function> (m, v, x);
        }
      catch (std::runtime_error &e)
        {
          eb = e.what ();
        }
      if (ea.empty () != eb.empty ())
        return mc::cat ("cost: ", ea, " instead of ", eb);
      if (!mc::near (a, b, 1e-11))
        return mc::cat ("cost ", a, ", not ", b);
      if (ea.empty () && a == a && model (&x[0], natural (n ? n : 1)) != a)
        return "call operator";
    }
  return "";
}

inline std::string
parse_error (const std::exception &e)
{
  return e.what ();
}

} // namespace spec
