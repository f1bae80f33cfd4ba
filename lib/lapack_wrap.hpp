// Interposes the eigenvalue routines of LAPACK (linked with -Wl,--wrap).
#pragma once
namespace lapackw
{
// The signs of eigenvectors are arbitrary and may depend on rounding errors: normalise them.
extern bool normalise;
// The n-th call that decomposes a matrix (from 1) ends with this value of info.
extern long fail_at;
extern int fail_info;
// 0: it does nothing, 1: it computes everything, 2: all but one eigenvector, 3: nor all eigenvalues
extern int fail_done;
// Number of calls that decompose a matrix.
extern long calls;
}
