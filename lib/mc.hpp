// A small stateless model checker: enumerates every sequence of choices a harness can make.
//
// A harness defines
//    int  mc_shards (int tier);          number of top-level subtrees (each explored in a process of its own)
//    void mc_case (mc::Ctx &c);          one execution; all nondeterminism comes from c.choose()
//    const char *mc_rule ();             how cases are made and what makes one non-trivial
// and fails a case by calling c.fail (key, message).
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <sstream>
#include <string>
#include <vector>

namespace mc
{

struct Fail
{
  std::string key, msg;
};

inline uint64_t
mix (uint64_t h, uint64_t v)
{
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h ^= h >> 33;
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 33;
  return h;
}

inline uint64_t
hash_bytes (const void *p, size_t n, uint64_t h = 0x1234567)
{
  const unsigned char *c = static_cast<const unsigned char *> (p);
  for (size_t i = 0; i < n; ++i)
    {
      h = (h ^ c[i]) * 0x100000001b3ull;
    }
  return mix (h, n);
}

inline uint64_t
hash_str (const std::string &s, uint64_t h = 0x1234567)
{
  return hash_bytes (s.data (), s.size (), h);
}

inline uint64_t
hash_double (double d, uint64_t h)
{
  uint64_t u;
  std::memcpy (&u, &d, 8);
  return mix (h, u);
}

class Ctx
{
public:
  // Returns a value in [0, n): every value is explored.
  int choose (int n);
  bool
  flip ()
  {
    return choose (2) != 0;
  }
  template <class T>
  const T &
  pick (const std::vector<T> &v)
  {
    return v[choose (int (v.size ()))];
  }
  template <class T>
  T
  pick (std::initializer_list<T> l)
  {
    return *(l.begin () + choose (int (l.size ())));
  }
  // Records a distinct state / a distinct non-trivial outcome.
  void state (uint64_t h);
  void outcome (uint64_t h);
  // Adds to a named counter reported in the evidence.
  void count (const char *name, long n = 1);
  // Keeps a description of this case as a sample (first few only).
  bool want_sample () const;
  void sample (const std::string &s);
  // True when the case is replayed for a report.
  bool
  verbose () const
  {
    return verbose_;
  }
  void
  log (const std::string &s)
  {
    if (verbose_)
      {
        text_ += s;
        text_ += '\n';
      }
  }
  [[noreturn]] void fail (const std::string &key, const std::string &msg);
  // A failure listed in the known-findings file is noted and does not end the case.
  void check (bool ok, const std::string &key, const std::string &msg);

  // Ends the exploration of the alternatives to the choices made after the first `depth` ones of this case.
  void cut (size_t depth);
  size_t depth () const { return pos - 1; }

  int shard () const;
  int tier = 0; // 0 quick, 1 thorough

  // implementation
  std::vector<int> trail, arity;
  size_t prefix = 0;
  bool verbose_ = false;
  std::string text_;
  size_t pos = 0;
  size_t cut_ = 0;
};

// Comparison of floating point numbers (equal NaNs and infinities included).
inline bool
near (double a, double b, double rel, double abs = 0.0)
{
  if (a == b || (std::isnan (a) && std::isnan (b)))
    {
      return true;
    }
  if (std::isnan (a) || std::isnan (b) || std::isinf (a) || std::isinf (b))
    {
      return false;
    }
  return std::fabs (a - b) <= abs + rel * std::fmax (std::fabs (a), std::fabs (b));
}

inline std::string
str (double d)
{
  char b[64];
  std::snprintf (b, sizeof b, "%.17g", d);
  return b;
}

template <class... A>
std::string
cat (const A &...a)
{
  std::ostringstream os;
  os.precision (17);
  (void)std::initializer_list<int>{ (os << a, 0)... };
  return os.str ();
}

// A scratch directory of this process, removed at its end.
const std::string &scratch ();

} // namespace mc

int mc_shards (int tier);
void mc_case (mc::Ctx &c);
const char *mc_rule ();
double mc_time_limit (); // seconds per case (weak default: 20)
