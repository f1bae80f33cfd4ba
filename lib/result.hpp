// Reads a result: the parts between tags, the tables and the data.
#pragma once
#include "mc.hpp"
#include <cstdlib>
#include <sstream>
#include <string>
#include <vector>

namespace result
{

typedef std::vector<double> V;

// The lines between two tag lines.
inline bool
part (const std::string &t, const std::string &tag, std::string &out)
{
  const size_t a = t.find ("<" + tag + ">\n");
  if (a == std::string::npos)
    return false;
  const size_t b = t.find ("</" + tag + ">\n", a);
  if (b == std::string::npos)
    return false;
  const size_t s = a + tag.size () + 3;
  out = t.substr (s, b - s);
  return true;
}

struct Cell
{
  std::string text;
  std::vector<double> v; // value and uncertainty, if numeric
};

struct Tables
{
  std::vector<std::vector<Cell> > head, row[2];
  std::string error;
};

inline Cell
cell (std::string s)
{
  Cell c;
  for (const char *tag : { "<strong>", "</strong>" })
    for (size_t k; (k = s.find (tag)) != std::string::npos;)
      s.erase (k, std::string (tag).size ());
  c.text = s;
  const std::string pm = "&plusmn;";
  const size_t k = s.find (pm);
  const std::string a = s.substr (0, k), b = k == std::string::npos ? "" : s.substr (k + pm.size ());
  char *e;
  const double x = strtod (a.c_str (), &e);
  while (*e == ' ')
    ++e;
  if (*e == 0 && e != a.c_str ())
    c.v.push_back (x);
  if (!b.empty ())
    {
      const double y = strtod (b.c_str (), &e);
      if (e != b.c_str ())
        c.v.push_back (y);
    }
  return c;
}

inline Tables
tables (const std::string &t)
{
  Tables r;
  size_t at = 0;
  for (int k = 0; k < 2; ++k)
    {
      const size_t b = t.find ("<tbody", at);
      const size_t e = b == std::string::npos ? b : t.find ("</tbody>", b);
      if (e == std::string::npos)
        {
          r.error = "no table";
          return r;
        }
      size_t p = t.find (">", b);
      while ((p = t.find ("<tr>", p)) != std::string::npos && p < e)
        {
          const size_t q = t.find ("</tr>", p);
          if (q == std::string::npos || q > e)
            {
              r.error = "unfinished row";
              return r;
            }
          std::vector<Cell> row;
          size_t c = p;
          while ((c = t.find ("<td>", c)) != std::string::npos && c < q)
            {
              const size_t d = t.find ("</td>", c);
              if (d == std::string::npos || d > q)
                {
                  r.error = "unfinished cell";
                  return r;
                }
              row.push_back (cell (t.substr (c + 4, d - c - 4)));
              c = d;
            }
          r.row[k].push_back (row);
          p = q;
        }
      at = e;
    }
  return r;
}

inline std::vector<V>
data (const std::string &t)
{
  std::vector<V> v;
  std::istringstream is (t);
  std::string l;
  while (std::getline (is, l))
    {
      V r;
      std::istringstream ls (l);
      std::string w;
      while (ls >> w)
        r.push_back (strtod (w.c_str (), nullptr));
      if (!r.empty ())
        v.push_back (r);
    }
  return v;
}

// A number written with p digits after the decimal point, or p + 1 significant ones.
inline bool
shown (double printed, double value, int p, bool scientific = false)
{
  if (printed == value || (std::isnan (printed) && std::isnan (value)))
    return true;
  double unit = std::pow (10.0, -p);
  if (scientific && value != 0)
    unit *= std::pow (10.0, std::floor (std::log10 (std::fabs (value)) + 1e-12));
  return std::fabs (printed - value) <= 0.5 * unit * (1 + 1e-6) + 1e-11 * std::fabs (value);
}

} // namespace result
