// Reference model of the evolution strategy, written from Hansen & Ostermeier (2001) and Hansen (2014) in matrix form.
#pragma once
#include "mc.hpp"
#include <algorithm>
#include <functional>
#include <limits>
#include <vector>

namespace es
{

typedef std::vector<double> V;

struct State
{
  unsigned g = 0;
  V x, d, ps, pc, B, C; // matrices n by n, column j at [j * n]
  double s = 1;
  double y = 0;
  bool optimized = false, underflow = false;
};

struct Params
{
  int n, mu, lambda;
  V w;
  double damp, cs, cc, cmu, c1;
  unsigned modulus;
  double goal;
  unsigned stop;
};

struct Trace
{
  unsigned g;
  double y, lo, hi;
};

inline State
initial (const V &x, const V &d, double s)
{
  State t;
  const size_t n = x.size ();
  t.x = x;
  t.d = d;
  t.s = s;
  t.ps.assign (n, 0.0);
  t.pc = t.ps;
  t.B.assign (n * n, 0.0);
  t.C = t.B;
  for (size_t i = 0; i < n; ++i)
    {
      t.B[i * n + i] = 1.0;
      t.C[i * n + i] = d[i] * d[i];
    }
  return t;
}

// Log of what happened in a generation, to judge whether a comparison is meaningful.
struct Notes
{
  bool tie = false;      // equal fitness among candidates whose order matters
  bool marginal = false; // a decision within rounding errors
  long resampled = 0;
  long decompositions = 0, conditioned = 0;
  std::vector<Trace> trace;
  std::vector<V> candidates;
};

// f includes the cost of the constraint; violated(x) is the constraint; draw() the deviates; decompose(C, B, d) gives
// ascending eigenvalues; before(a, b) the order of fitness; tracing(g).
template <class F, class Viol, class Draw, class Dec, class Cmp, class Tr>
void
optimize (State &t, const Params &p, const F &f, const Viol &violated, Draw &draw, const Dec &decompose, const Cmp &before, const Tr &tracing, Notes &o)
{
  const int n = p.n;
  const double eps = std::numeric_limits<double>::epsilon ();
  const double chi = std::sqrt (double (n)) * (1.0 - 1.0 / (4.0 * n) + 1.0 / (21.0 * n * n));
  double ws = 0, w2 = 0;
  for (double w : p.w)
    {
      ws += w;
      w2 += w * w;
    }
  const double mueff_root = ws / std::sqrt (w2);
  while (t.g < p.stop)
    {
      std::vector<V> z (p.lambda, V (n)), x (p.lambda), bz (p.lambda), bdz (p.lambda);
      std::vector<std::pair<double, int> > r;
      for (int k = 0; k < p.lambda; ++k)
        {
          V a (n, 0.0), b (n, 0.0); // accepted parts of B D z and B z
          for (int j = 0; j < n; ++j)
            for (;;)
              {
                const double q = draw ();
                V u = a, v = b, c (n);
                for (int i = 0; i < n; ++i)
                  {
                    u[i] += t.B[j * n + i] * t.d[j] * q;
                    v[i] += t.B[j * n + i] * q;
                    c[i] = t.x[i] + t.s * u[i];
                  }
                if (violated (c))
                  {
                    ++o.resampled;
                    continue;
                  }
                a = u;
                b = v;
                x[k] = c;
                break;
              }
          bdz[k] = a;
          bz[k] = b;
          o.candidates.push_back (x[k]);
        }
      V y (p.lambda);
      for (int k = 0; k < p.lambda; ++k)
        y[k] = f (x[k]);
      std::vector<int> idx (p.lambda);
      for (int k = 0; k < p.lambda; ++k)
        idx[k] = k;
      std::stable_sort (idx.begin (), idx.end (), [&] (int a, int b) { return before (y[a], y[b]); });
      ++t.g;
      t.underflow = y[idx[0]] == y[idx[p.mu]];
      for (int k = 0; k < p.mu; ++k)
        {
          const double a = y[idx[k]], b = y[idx[k + 1]];
          if (a == b || std::fabs (a - b) < 1e-11 * (std::fabs (a) + std::fabs (b)) || a != a || b != b)
            if (!(t.underflow && a == y[idx[0]]))
              o.tie = true;
        }
      if (t.underflow)
        for (int k = 0; k < p.lambda; ++k)
          for (int i = 0; i < n; ++i)
            if (x[k][i] != x[0][i])
              o.tie = true; // equal fitness of different candidates may be a matter of rounding
      if (t.underflow)
        break;
      V m (n, 0.0), mu (n, 0.0), mv (n, 0.0);
      std::vector<double> S (n * n, 0.0);
      for (int k = 0; k < p.mu; ++k)
        for (int i = 0; i < n; ++i)
          {
            const double w = p.w[k] / ws;
            m[i] += w * x[idx[k]][i];
            mu[i] += w * bdz[idx[k]][i];
            mv[i] += w * bz[idx[k]][i];
            for (int j = 0; j < n; ++j)
              S[j * n + i] += w * bdz[idx[k]][i] * bdz[idx[k]][j];
          }
      t.x = m;
      if (p.c1 > 0 || p.cmu > 0)
        {
          for (int i = 0; i < n; ++i)
            t.pc[i] = (1 - p.cc) * t.pc[i] + std::sqrt (p.cc * (2 - p.cc)) * mueff_root * mu[i];
          for (int j = 0; j < n; ++j)
            for (int i = 0; i <= j; ++i)
              t.C[j * n + i] = (1 - p.c1 - p.cmu) * t.C[j * n + i] + p.c1 * t.pc[i] * t.pc[j] + p.cmu * S[j * n + i];
          if (t.g % p.modulus == 0)
            {
              ++o.decompositions;
              V e (n);
              decompose (t.C, t.B, e);
              const double limit = 0.01 / eps;
              const double add = e[n - 1] / limit - e[0];
              if (add > 0)
                {
                  ++o.conditioned;
                  for (int i = 0; i < n; ++i)
                    {
                      t.C[i * n + i] += add;
                      e[i] += add;
                    }
                }
              for (int i = 0; i < n; ++i)
                t.d[i] = std::sqrt (e[i]);
            }
        }
      double l = 0;
      for (int i = 0; i < n; ++i)
        {
          t.ps[i] = (1 - p.cs) * t.ps[i] + std::sqrt (p.cs * (2 - p.cs)) * mueff_root * mv[i];
          l += t.ps[i] * t.ps[i];
        }
      t.s *= std::exp (p.cs / p.damp * (std::sqrt (l) / chi - 1));
      t.optimized = true;
      for (int i = 0; i < n; ++i)
        {
          const double a = t.s * t.s * t.C[i * n + i], b = p.goal * t.x[i] * p.goal * t.x[i] + eps / 0.01;
          if (!(a < b))
            t.optimized = false;
          if (std::fabs (a - b) < 1e-9 * (std::fabs (a) + std::fabs (b)))
            o.marginal = true;
        }
      if (t.optimized || tracing (t.g))
        o.trace.push_back ({ t.g, f (t.x), t.s * t.d[0], t.s * t.d[n - 1] });
      if (t.optimized)
        break;
    }
  t.y = f (t.x);
}

} // namespace es
