// C16: random numbers are those of the documented generators.
#include "core/deviates.h"
#include "core/random.h"
#include "mc.hpp"
#include <random>
#include <sstream>

using namespace std;
using especia::natural;
using especia::real;
using especia::word32;
using especia::word64;

// Reference generators, by their defining recurrences.
struct Ref
{
  virtual ~Ref () {}
  virtual word64 next () = 0;
  int w = 64;
  long double
  uniform ()
  {
    word64 r = next ();
    int b = w < 53 ? w : 53;
    return (long double)(r >> (w - b)) / (long double)((1ull << b) - 1);
  }
};

// Initialisation by array of Matsumoto and Nishimura: the first n words and the word that follows.
static vector<word64>
init_array (int w, int n, word64 f1, word64 f2, word64 f3, const vector<word64> &key, word64 *extra = nullptr)
{
  const word64 mask = w == 64 ? ~0ull : (1ull << w) - 1;
  vector<word64> s (n);
  auto h = [&] (word64 v) { return v ^ (v >> (w - 2)); };
  s[0] = 19650218ull & mask;
  for (int i = 1; i < n; ++i)
    s[i] = (f1 * h (s[i - 1]) + i) & mask;
  word64 lung = f1 * h (s[n - 1]) + n;
  int i = 1, j = 0;
  for (int k = max (n, int (key.size ())); k; --k)
    {
      s[i] = ((s[i] ^ (h (s[i - 1]) * f2)) + key[j] + j) & mask;
      if (++i == n)
        {
          s[0] = s[n - 1];
          i = 1;
        }
      j = (j + 1) % int (key.size ());
    }
  for (int k = n - 1; k; --k)
    {
      s[i] = ((s[i] ^ (h (s[i - 1]) * f3)) - i) & mask;
      if (++i == n)
        {
          s[0] = s[n - 1];
          i = 1;
        }
    }
  if (extra)
    {
      *extra = (lung ^ (h (s[n - 1]) * f3)) - n;
      s[0] |= 1ull << (w - 1);
    }
  else
    s[0] = 1ull << (w - 1);
  return s;
}

template <class E>
struct Ref_Mt : Ref
{
  E e;
  Ref_Mt (const vector<word64> &key)
  {
    w = E::word_size;
    vector<word64> s = w == 64 ? init_array (64, E::state_size, 6364136223846793005ull, 3935559000370003845ull, 2862933555777941757ull, key)
                               : init_array (32, E::state_size, 1812433253ull, 1664525ull, 1566083941ull, key);
    ostringstream o;
    for (word64 v : s)
      o << v << ' ';
    o << E::state_size;
    istringstream i (o.str ());
    i >> e;
    if (!i)
      abort ();
  }
  word64
  next () override
  {
    return e ();
  }
};

struct Ref_Melg : Ref
{
  vector<word64> s;
  word64 lung;
  int i = 0;
  Ref_Melg (const vector<word64> &key) { s = init_array (64, 311, 6364136223846793005ull, 3935559000370003845ull, 2862933555777941757ull, key, &lung); }
  word64
  next () override
  {
    const int n = 311;
    const word64 upper = ~0ull << 31;
    word64 x = (s[i] & upper) | (s[(i + 1) % n] & ~upper);
    lung = (x >> 1) ^ ((x & 1) ? 0x5c32e06df730fc42ull : 0) ^ s[(i + 81) % n] ^ (lung ^ (lung << 23));
    s[i] = x ^ (lung ^ (lung >> 33));
    word64 r = s[i] ^ (s[i] << 16) ^ (s[(i + 19) % n] & 0x6aede6fd97b338ecull);
    i = (i + 1) % n;
    return r;
  }
};

struct Ref_Pcg : Ref
{
  word64 st, inc;
  Ref_Pcg (word64 seed, word64 sel)
  {
    w = 32;
    inc = 2 * sel + 1;
    st = (inc + seed) * 6364136223846793005ull + inc;
  }
  word64
  next () override
  {
    word64 o = st;
    st = o * 6364136223846793005ull + inc;
    word32 x = word32 (((o >> 18) ^ o) >> 27), r = word32 (o >> 59);
    return r ? word32 (x >> r | x << (32 - r)) : x;
  }
};

typedef mersenne_twister_engine<uint_fast32_t, 32, 351, 175, 19, 0xE4BD75F5u, 11, 0xFFFFFFFFu, 7, 0x655E5280u, 15, 0xFFD58000u, 17, 1812433253u> E11213a;
typedef mersenne_twister_engine<uint_fast32_t, 32, 351, 175, 19, 0xCCAB8EE7u, 11, 0xFFFFFFFFu, 7, 0x31B6AB00u, 15, 0xFFE50000u, 17, 1812433253u> E11213b;

static vector<word64>
seeds (int tier)
{
  vector<word64> s = { 0, ~0ull, 1, 2, 3, 42, 271828, 9600629759793949339ull, 0x5555555555555555ull, 0xAAAAAAAAAAAAAAAAull, 0xFFFFFFFFull, 0xFFFFFFFF00000000ull };
  for (int i = 2; i < 64; ++i)
    s.push_back (1ull << i);
  if (tier)
    for (int i = 0; i < 1000; ++i)
      s.push_back (mc::mix (9, i));
  return s;
}

static vector<word64>
key_of (word64 s)
{
  return { s & 0xFFFFFFFFull, s & 0xFFFFFFFF00000000ull };
}

static vector<word64>
long_key (int n)
{
  vector<word64> k (n);
  for (int i = 0; i < n; ++i)
    k[i] = mc::mix (3, i) ^ (i == 1 ? 0 : 0);
  return k;
}

const int GENERATORS = 6, PARTS = 4;

int
mc_shards (int)
{
  return GENERATORS * PARTS + 8;
}

const char *
mc_rule ()
{
  return "every generator with every seed (each single bit, patterns, keys shorter and longer than the state) over three and more regenerations of the state; every position at which a copy is made and every interleaving of calls of original and copy; all sequences of uniform values over an alphabet fed into the polar method; non-trivial: distinct sequences";
}

static void
same (mc::Ctx &c, word64 a, word64 b, const string &what)
{
  if (a != b)
    c.fail ("sequence", mc::cat (what, ": ", a, " instead of ", b));
}

static void
uniform_same (mc::Ctx &c, real a, long double b, const string &what)
{
  if (!(a >= 0.0 && a <= 1.0))
    c.fail ("interval", mc::cat (what, ": ", a, " is not in [0, 1]"));
  if (fabsl (a - b) > 4e-16L * b)
    c.fail ("scaling", mc::cat (what, ": ", a, " instead of ", double (b)));
}

template <class G, class R>
static void
generator (mc::Ctx &c, const char *name, int part, int n, const function<G (word64)> &make, const function<G (const vector<word64> &)> &make_key, const function<R (word64)> &ref, const function<R (const vector<word64> &)> &ref_key)
{
  if (part == 0)
    {
      const word64 s = c.pick (seeds (c.tier));
      const string text = mc::cat (name, " seed ", s);
      c.log (text);
      const bool real_valued = c.flip ();
      const G g = make (s);
      R r = ref (s);
      word64 h = 0;
      for (int i = 0; i < 3 * n + 7; ++i)
        if (real_valued)
          uniform_same (c, g (), r.uniform (), mc::cat (text, " draw ", i));
        else
          {
            word64 v = g.rand ();
            same (c, v, r.next (), mc::cat (text, " draw ", i));
            h = mc::mix (h, v);
          }
      c.outcome (mc::mix (h, s));
      c.count ("draws", 3 * n + 7);
      if (c.want_sample ())
        c.sample (text);
    }
  else if (part == 1)
    {
      const int len = c.pick ({ 1, 2, 3, 4, 7, n - 1, n, n + 1, 2 * n + 3 });
      const string text = mc::cat (name, " key of length ", len);
      c.log (text);
      const vector<word64> k = long_key (len);
      const G g = make_key (k);
      R r = ref_key (k);
      word64 h = 0;
      for (int i = 0; i < 4 * n; ++i)
        {
          word64 v = g.rand ();
          same (c, v, r.next (), mc::cat (text, " draw ", i));
          h = mc::mix (h, v);
        }
      c.outcome (h);
      c.count ("draws", 4 * n);
    }
  else
    {
      // copies
      const int from = part == 2 ? 0 : n + 2, to = part == 2 ? n + 2 : 2 * n + 4;
      const int p = from + c.choose (to - from);
      const bool assigned = false;
      const G g = make (271828);
      R r = ref (271828);
      for (int i = 0; i < p; ++i)
        same (c, g.rand (), r.next (), mc::cat (name, " draw ", i));
      const G k (g);
      R rk (r);
      (void)assigned;
      const int w = c.tier ? c.choose (256) : c.choose (8) * 5 + p % 4; // orders of calls
      const string text = mc::cat (name, " copied after ", p, ", order ", w);
      c.log (text);
      word64 h = p;
      for (int i = 0; i < (c.tier ? 8 : 5); ++i)
        {
          word64 v;
          if ((w >> i) & 1)
            same (c, v = k.rand (), rk.next (), text + ": the copy");
          else if (i & 1)
            {
              same (c, v = g.rand (), r.next (), text + ": the original");
            }
          else
            {
              uniform_same (c, g (), r.uniform (), text + ": the original");
              v = 0;
            }
          h = mc::mix (h, v);
        }
      // both to the end of the next regeneration
      for (int i = 0; i < n + 1; ++i)
        {
          same (c, k.rand (), rk.next (), text + ": the copy, later");
          same (c, g.rand (), r.next (), text + ": the original, later");
        }
      c.outcome (h);
      c.count ("draws", p + 2 * n + 7);
    }
}

template <class G, class R>
static void
keyed (mc::Ctx &c, const char *name, int part, int n)
{
  generator<G, R> (
      c, name, part, n, [] (word64 s) { return G (s); }, [] (const vector<word64> &k) { return G (natural (k.size ()), k.data ()); },
      [] (word64 s) { return R (key_of (s)); }, [] (const vector<word64> &k) { return R (k); });
}

struct Source
{
  mc::Ctx *c;
  const vector<double> *alphabet;
  vector<double> *log;
  int limit;
  explicit Source (word64 = 0) : c (nullptr) {}
  Source (mc::Ctx *c, const vector<double> *a, vector<double> *l, int n) : c (c), alphabet (a), log (l), limit (n) {}
  real
  operator() () const
  {
    double v = int (log->size ()) < limit ? (*alphabet)[c->choose (int (alphabet->size ()))] : log->size () % 2 ? 0.3 : 0.6;
    log->push_back (v);
    return v;
  }
};

// The polar method on given uniform values.
struct Polar
{
  function<long double ()> u;
  bool have = false;
  long double kept = 0, tol = 0; // tol: the error caused by rounding errors of the uniform values
  long double
  next ()
  {
    if (have)
      {
        have = false;
        return kept;
      }
    for (;;)
      {
        long double a = 2 * u () - 1, b = 2 * u () - 1;
        // the radius as rounded by the program decides the rejection
        double da = double (a), db = double (b);
        double t = da * da + db * db;
        if (t >= 1 || t == 0)
          continue;
        long double f = sqrtl (-2 * logl (a * a + b * b) / (a * a + b * b));
        kept = b * f;
        const long double e = 2e-15L, tt = a * a + b * b;
        tol = e * f * (1 + 1 / (1 - tt < 1e-12L ? 1e-12L : 1 - tt));
        have = true;
        return a * f;
      }
  }
};

static void
deviates (mc::Ctx &c, int sh)
{
  if (sh < 4)
    {
      // all sequences over an alphabet, half of it fixed by the shard
      static const vector<vector<double> > alphabets = {
        { 0.0, 0.5, 0.75, 1.0 }, { 0.5, 0.25, 0.9, 0.1 }, { 0.5, 0.5 + 1.2e-16, 0.5000000001, 0.6 }, { 0.0, 1.0, 0.1464466094067262, 0.8535533905932738 }
      };
      const int limit = c.tier ? 10 : 8;
      vector<double> log;
      const especia::Normal_Deviate<Source> d (Source (&c, &alphabets[sh], &log, limit));
      const int calls = 1 + c.choose (6);
      vector<double> got;
      for (int i = 0; i < calls; ++i)
        got.push_back (d ());
      size_t pos = 0;
      Polar p;
      p.u = [&] () -> long double { return pos < log.size () ? log[pos++] : (++pos, pos % 2 ? 0.6 : 0.3); };
      string text = "uniform values";
      for (double v : log)
        text += mc::cat (" ", v);
      c.log (text);
      for (int i = 0; i < calls; ++i)
        {
          long double e = p.next ();
          if (fabsl (got[i] - e) > 1e-13L * fabsl (e) + 1e-300L)
            c.fail ("deviate", mc::cat ("deviate ", i, " is ", got[i], " instead of ", double (e), ": ", text));
        }
      if (pos != log.size ())
        c.fail ("pairs", mc::cat (log.size (), " uniform values used instead of ", pos, ": ", text));
      word64 h = calls;
      for (double v : got)
        h = mc::hash_double (v, h);
      c.outcome (h);
      if (c.want_sample ())
        c.sample (text);
    }
  else
    {
      // with the generators, copies at every position
      const int kind = sh - 4;
      const word64 seed = c.pick<word64> ({ 1, 271828, 9600629759793949339ull, 0 });
      const int p = c.choose (60);
      auto run = [&] (auto d, auto ref) {
        Polar q;
        q.u = [&] { return ref.uniform (); };
        auto check = [&] (Polar &q, double v, const char *who, int i) {
          long double e = q.next ();
          if (fabsl (v - e) > 1e-12L * fabsl (e) + q.tol)
            c.fail ("deviate", mc::cat (who, " deviate ", i, " is ", v, " instead of ", double (e), ", seed ", seed, ", generator ", kind, ", copied after ", p));
        };
        for (int i = 0; i < p; ++i)
          check (q, d (), "the", i);
        auto ref2 = ref;
        auto d2 = d;
        Polar q2;
        q2.u = [&] { return ref2.uniform (); };
        q2.have = q.have;
        q2.kept = q.kept;
        q2.tol = q.tol;
        const int w = c.choose (c.tier ? 16 : 4) * (c.tier ? 1 : 5);
        for (int i = 0; i < 4; ++i)
          if ((w >> i) & 1)
            check (q2, d2 (), "the copy's", i);
          else
            check (q, d (), "the original's", i);
        for (int i = 0; i < (c.tier ? 3000 : 700); ++i)
          {
            check (q2, d2 (), "the copy's", i);
            check (q, d (), "the original's", i);
          }
        c.outcome (mc::hash_double (d (), p * 16 + w));
      };
      if (kind == 0)
        run (especia::Normal_Deviate<especia::Melg19937_64> (seed), Ref_Melg (key_of (seed)));
      else if (kind == 1)
        run (especia::Normal_Deviate<especia::Mt19937_64> (seed), Ref_Mt<mt19937_64> (key_of (seed)));
      else if (kind == 2)
        run (especia::Normal_Deviate<especia::Mt19937_32> (seed), Ref_Mt<mt19937> (key_of (seed)));
      else
        run (especia::Normal_Deviate<especia::Pcg_32> (especia::Pcg_32 (seed, 54)), Ref_Pcg (seed, 54));
    }
}

void
mc_case (mc::Ctx &c)
{
  const int sh = c.shard ();
  if (sh >= GENERATORS * PARTS)
    return deviates (c, sh - GENERATORS * PARTS);
  const int part = sh % PARTS;
  switch (sh / PARTS)
    {
    case 0:
      return keyed<especia::Melg19937_64, Ref_Melg> (c, "melg19937-64", part, 311);
    case 1:
      return keyed<especia::Mt19937_64, Ref_Mt<mt19937_64> > (c, "mt19937-64", part, 312);
    case 2:
      return keyed<especia::Mt19937_32, Ref_Mt<mt19937> > (c, "mt19937-32", part, 624);
    case 3:
      return keyed<especia::Mt11213a_32, Ref_Mt<E11213a> > (c, "mt11213a-32", part, 351);
    case 4:
      return keyed<especia::Mt11213b_32, Ref_Mt<E11213b> > (c, "mt11213b-32", part, 351);
    default:
      if (part == 1)
        {
          const word64 s = c.pick (seeds (c.tier)), sel = c.pick (seeds (0));
          const especia::Pcg_32 g (s, sel);
          Ref_Pcg r (s, sel & (~0ull >> 1));
          for (int i = 0; i < 200; ++i)
            same (c, g.rand (), r.next (), mc::cat ("pcg-32 seed ", s, " selector ", sel, " draw ", i));
          c.outcome (mc::mix (s, sel));
          return;
        }
      return generator<especia::Pcg_32, Ref_Pcg> (
          c, "pcg-32", part, 100, [] (word64 s) { return especia::Pcg_32 (s); }, [] (const vector<word64> &k) { return especia::Pcg_32 (k[0]); },
          [] (word64 s) { return Ref_Pcg (s, 7863035247680335341ull); }, [] (const vector<word64> &k) { return Ref_Pcg (k[0], 7863035247680335341ull); });
    }
}
