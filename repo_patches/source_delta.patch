From 2a20270976f668abb5c89d841490b2b913ed34c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:01 +0000
Subject: [PATCH 01/21] fix: ezip takes the number of lines to skip from its
 third argument

---
 src/main/cxx/apps/ezip.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cxx/apps/ezip.cxx b/src/main/cxx/apps/ezip.cxx
index 1b09c7f..07be4c6 100644
--- a/src/main/cxx/apps/ezip.cxx
+++ b/src/main/cxx/apps/ezip.cxx
@@ -66,7 +66,7 @@ main (int argc, char *argv[])
 
       if (argc == 4)
         {
-          skip = especia::convert<natural> (string (argv[2]));
+          skip = especia::convert<natural> (string (argv[3]));
         }
 
       valarray<real> x;
-- 
2.43.0


From 0d9a3e0dc0bec12db59f0deaa84679f713aa4d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:14 +0000
Subject: [PATCH 02/21] fix: do not misalign or invent uncertainties missing
 from data rows

---
 src/main/cxx/core/dataio.cxx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/main/cxx/core/dataio.cxx b/src/main/cxx/core/dataio.cxx
index 4612c72..618fbeb 100644
--- a/src/main/cxx/core/dataio.cxx
+++ b/src/main/cxx/core/dataio.cxx
@@ -117,15 +117,16 @@ especia::get (istream &is, valarray<real> &x, valarray<real> &y,
         }
     }
 
-  if (n > 0 and is.eof ())
+  // The third column is optional, but it cannot be missing from some rows only.
+  if (n > 0 and is.eof () and (w.empty () or w.size () == n))
     {
       x.resize (n);
       y.resize (n);
-      z.resize (n);
+      z.resize (w.size ());
 
       copy (u.begin (), u.end (), &x[0]);
       copy (v.begin (), v.end (), &y[0]);
-      copy (w.begin (), w.end (), &z[0]);
+      copy (w.begin (), w.end (), begin (z));
 
       is.clear (is.rdstate () & ~ios_base::failbit);
     }
-- 
2.43.0


From b9f67f4a1bc5d500e6710e606bc47890e31512e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:43 +0000
Subject: [PATCH 03/21] fix: keep output columns separated when a number fills
 its field

---
 src/main/cxx/core/dataio.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cxx/core/dataio.cxx b/src/main/cxx/core/dataio.cxx
index 618fbeb..02ac639 100644
--- a/src/main/cxx/core/dataio.cxx
+++ b/src/main/cxx/core/dataio.cxx
@@ -157,10 +157,10 @@ especia::put (ostream &os, const valarray<real> &x, const valarray<real> &y,
           os.setf (ios_base::fixed, ios_base::floatfield);
           os << setw (w) << x[i];
           os.setf (ios_base::scientific, ios_base::floatfield);
-          os << setw (w) << y[i];
+          os << ' ' << setw (w - 1) << y[i];
           if (z.size () > 0)
             {
-              os << setw (w) << z[i];
+              os << ' ' << setw (w - 1) << z[i];
             }
           os << '\n';
         }
-- 
2.43.0


From 83e1ad34364af8ce41c1eb49d618bb4a3976fa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:43 +0000
Subject: [PATCH 04/21] fix: parse model definitions with the delimiters
 requested by the caller

---
 src/main/cxx/core/model.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cxx/core/model.h b/src/main/cxx/core/model.h
index c714935..ba60e2d 100644
--- a/src/main/cxx/core/model.h
+++ b/src/main/cxx/core/model.h
@@ -105,7 +105,7 @@ public:
     using std::runtime_error;
 
     Model<Function> model;
-    model.get (is, os);
+    model.get (is, os, comment_mark, begin_of_section, end_of_section);
 
     if (is.fail ())
       {
-- 
2.43.0


From 92a4c2ced7e539e38bb970eda453f3dcf3f0f4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:43 +0000
Subject: [PATCH 05/21] fix: reject a model definition with an unterminated
 section or no section

---
 src/main/cxx/core/model.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/main/cxx/core/model.h b/src/main/cxx/core/model.h
index ba60e2d..7a9fbeb 100644
--- a/src/main/cxx/core/model.h
+++ b/src/main/cxx/core/model.h
@@ -632,6 +632,22 @@ private:
               return is;
             }
         }
+      else if (line.find (begin_of_section) != string::npos)
+        {
+          // The end of the last section is missing
+          is.setstate (ios_base::badbit | ios_base::failbit);
+          cerr << errmsg << synmsg << endl;
+
+          return is;
+        }
+
+    if (sections.empty ())
+      {
+        is.setstate (ios_base::badbit | ios_base::failbit);
+        cerr << errmsg << synmsg << endl;
+
+        return is;
+      }
 
     if (!st.bad () and st.eof ())
       {
-- 
2.43.0


From 7e73ccbf66e2a6472798d97d4d7fc91e30556f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:43 +0000
Subject: [PATCH 06/21] fix: name the offending reference in parser error
 messages

---
 src/main/cxx/core/model.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main/cxx/core/model.h b/src/main/cxx/core/model.h
index 7a9fbeb..a7ed93f 100644
--- a/src/main/cxx/core/model.h
+++ b/src/main/cxx/core/model.h
@@ -697,7 +697,7 @@ private:
                     else
                       {
                         is.setstate (ios_base::failbit);
-                        cerr << errmsg << ref[j] << srfmsg << endl;
+                        cerr << errmsg << ref[j] << ": " << srfmsg << endl;
 
                         return is;
                       }
@@ -705,7 +705,7 @@ private:
                 else
                   {
                     is.setstate (ios_base::failbit);
-                    cerr << errmsg << ref[j] << rnfmsg << endl;
+                    cerr << errmsg << ref[j] << ": " << rnfmsg << endl;
 
                     return is;
                   }
@@ -743,7 +743,7 @@ private:
                       else
                         {
                           is.setstate (ios_base::failbit);
-                          cerr << errmsg << ref[j] << srfmsg << endl;
+                          cerr << errmsg << ref[k] << ": " << srfmsg << endl;
 
                           return is;
                         }
@@ -751,7 +751,7 @@ private:
                   else
                     {
                       is.setstate (ios_base::failbit);
-                      cerr << errmsg << ref[j] << rnfmsg << endl;
+                      cerr << errmsg << ref[k] << ": " << rnfmsg << endl;
 
                       return is;
                     }
-- 
2.43.0


From 6ebd6677b34c632ecd86898164cc470b05d9dff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:43 +0000
Subject: [PATCH 07/21] fix: report cyclic references instead of following them
 forever

---
 src/main/cxx/core/model.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/main/cxx/core/model.h b/src/main/cxx/core/model.h
index a7ed93f..023405c 100644
--- a/src/main/cxx/core/model.h
+++ b/src/main/cxx/core/model.h
@@ -673,6 +673,8 @@ private:
              i != section_name_map.end (); ++i)
           {
             const natural j = isc[i->second];
+            // The number of references followed, used to detect cycles
+            size_t hops = 0;
 
             while (!ref[j].empty ())
               {
@@ -680,7 +682,7 @@ private:
                   {
                     const natural k = isc[section_name_map[ref[j]]];
 
-                    if (j != k)
+                    if (j != k and hops++ < section_name_map.size ())
                       {
                         if (ref[k].empty ())
                           {
@@ -718,6 +720,8 @@ private:
           for (natural j = 0; j < Function::parameter_count (); ++j)
             {
               const natural k = i->second + j;
+              // The number of references followed, used to detect cycles
+              size_t hops = 0;
 
               while (!ref[k].empty ())
                 {
@@ -726,7 +730,7 @@ private:
                     {
                       const natural l = profile_name_map[ref[k]] + j;
 
-                      if (k != l)
+                      if (k != l and hops++ < profile_name_map.size ())
                         {
                           if (ref[l].empty ())
                             {
-- 
2.43.0


From 390bb37c68c6e97e73ccc81fe073807cf2b3fc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:15 +0000
Subject: [PATCH 08/21] fix: hold a parameter with coincident bounds constant
 instead of sampling forever

---
 src/main/cxx/core/model.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/main/cxx/core/model.h b/src/main/cxx/core/model.h
index 023405c..9689f24 100644
--- a/src/main/cxx/core/model.h
+++ b/src/main/cxx/core/model.h
@@ -653,7 +653,18 @@ private:
       {
         // Index unique parameters
         for (natural i = 0, k = 0; i < msk.size (); ++i)
-          if (msk[i] and ref[i].empty ())
+          if (msk[i] and ref[i].empty () and lo[i] == up[i])
+            {
+              // There is no room for optimization between coincident bounds
+              val[i] = lo[i];
+              msk[i] = false;
+
+              lo[i] = 0.0;
+              up[i] = 0.0;
+
+              ind.push_back (0);
+            }
+          else if (msk[i] and ref[i].empty ())
             {
               if (lo[i] > up[i])
                 swap (lo[i], up[i]);
-- 
2.43.0


From 6a2cdf75a5fbdc5e76f02e533538429e0971fc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:15 +0000
Subject: [PATCH 09/21] fix: refuse parent numbers and population sizes the
 optimizer cannot handle

---
 src/main/cxx/core/runner.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main/cxx/core/runner.h b/src/main/cxx/core/runner.h
index 056e5d3..ec5ca71 100644
--- a/src/main/cxx/core/runner.h
+++ b/src/main/cxx/core/runner.h
@@ -175,6 +175,12 @@ public:
     const natural stop_generation = parse_stop_generation ();
     const natural trace_modulus = parse_trace_modulus ();
 
+    if (parent_number == 0 or population_size <= parent_number)
+      {
+        throw invalid_argument ("especia::Runner::run() Error: the population "
+                                "must be larger than the number of parents");
+      }
+
     M model = M::parse (cin, cout);
 
     const Optimizer optimizer
-- 
2.43.0


From 25003a6c6b839b8b9a78bc22876127c395b4b06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:15 +0000
Subject: [PATCH 10/21] fix: pass exceptions thrown by evaluation threads on to
 the caller

---
 src/main/cxx/core/optimize.h | 84 +++++++++++++++++++++++++++++++-----
 1 file changed, 74 insertions(+), 10 deletions(-)

diff --git a/src/main/cxx/core/optimize.h b/src/main/cxx/core/optimize.h
index 3334019..d32bf96 100644
--- a/src/main/cxx/core/optimize.h
+++ b/src/main/cxx/core/optimize.h
@@ -8,6 +8,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <exception>
 #include <limits>
 #include <thread>
 #include <valarray>
@@ -121,9 +122,12 @@ optimize (const F &f, const Constraint &constraint, natural n,
           const Compare &compare, const Tracing &tracer)
 {
   using std::accumulate;
+  using std::current_exception;
+  using std::exception_ptr;
   using std::exp;
   using std::numeric_limits;
   using std::partial_sort;
+  using std::rethrow_exception;
   using std::sqrt;
   using std::thread;
   using std::valarray;
@@ -184,15 +188,40 @@ optimize (const F &f, const Constraint &constraint, natural n,
 #else // C++-11
       vector<thread> threads;
       threads.reserve (population_size);
+      // The errors, if any, that occurred in a thread
+      vector<exception_ptr> errors (population_size);
       for (natural k = 0; k < population_size; ++k)
         {
-          threads.push_back (thread ([k, &f, &constraint, &x, n, &y] () {
-            y[k] = f (&x[k][0], n) + constraint.cost (&x[k][0], n);
-          }));
+          try
+            {
+              threads.push_back (
+                  thread ([k, &f, &constraint, &x, n, &y, &errors] () {
+                    try
+                      {
+                        y[k] = f (&x[k][0], n) + constraint.cost (&x[k][0], n);
+                      }
+                    catch (...)
+                      {
+                        errors[k] = current_exception ();
+                      }
+                  }));
+            }
+          catch (...)
+            {
+              errors[k] = current_exception ();
+              break;
+            }
         }
-      for (natural k = 0; k < population_size; ++k)
+      for (natural k = 0; k < threads.size (); ++k)
         {
           threads[k].join ();
+        }
+      for (natural k = 0; k < population_size; ++k)
+        {
+          if (errors[k])
+            {
+              rethrow_exception (errors[k]);
+            }
           indexes[k] = k;
         }
 #endif
@@ -323,8 +352,11 @@ postopti (const F &f, const Constraint &constraint, natural n, const real x[],
           real z[])
 {
   using std::abs;
+  using std::current_exception;
+  using std::exception_ptr;
   using std::exp;
   using std::log;
+  using std::rethrow_exception;
   using std::sqrt;
   using std::thread;
   using std::valarray;
@@ -363,14 +395,46 @@ postopti (const F &f, const Constraint &constraint, natural n, const real x[],
             }
           }
 #else // C++-11
-          thread tp ([&f, &constraint, &p, n, &zp] () {
-            zp = f (&p[0], n) + constraint.cost (&p[0], n);
-          });
-          thread tq ([&f, &constraint, &q, n, &zq] () {
-            zq = f (&q[0], n) + constraint.cost (&q[0], n);
+          // The errors, if any, that occurred in a thread
+          exception_ptr ep;
+          exception_ptr eq;
+          thread tp ([&f, &constraint, &p, n, &zp, &ep] () {
+            try
+              {
+                zp = f (&p[0], n) + constraint.cost (&p[0], n);
+              }
+            catch (...)
+              {
+                ep = current_exception ();
+              }
           });
+          thread tq;
+          try
+            {
+              tq = thread ([&f, &constraint, &q, n, &zq, &eq] () {
+                try
+                  {
+                    zq = f (&q[0], n) + constraint.cost (&q[0], n);
+                  }
+                catch (...)
+                  {
+                    eq = current_exception ();
+                  }
+              });
+            }
+          catch (...)
+            {
+              eq = current_exception ();
+            }
           tp.join ();
-          tq.join ();
+          if (tq.joinable ())
+            {
+              tq.join ();
+            }
+          if (ep or eq)
+            {
+              rethrow_exception (ep ? ep : eq);
+            }
 #endif
           // Compute the rescaled global step size
           g[j] = c / sqrt (abs ((zp + zq) - (zx + zx)));
-- 
2.43.0


From 0db3bb7d8613b02cc8283472e01590c16cff4bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:46 +0000
Subject: [PATCH 11/21] fix: report a failure to write the results

---
 src/main/cxx/apps/ecom.cxx     | 4 +++-
 src/main/cxx/apps/edat.cxx     | 4 +++-
 src/main/cxx/apps/elog.cxx     | 4 +++-
 src/main/cxx/apps/emes.cxx     | 4 +++-
 src/main/cxx/apps/emod.cxx     | 4 +++-
 src/main/cxx/apps/ezip.cxx     | 5 ++++-
 src/main/cxx/core/runner.h     | 8 ++++++++
 src/main/cxx/util/airtovac.cxx | 5 ++++-
 src/main/cxx/util/helicorr.cxx | 5 ++++-
 src/main/cxx/util/vactoair.cxx | 5 ++++-
 10 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/src/main/cxx/apps/ecom.cxx b/src/main/cxx/apps/ecom.cxx
index 369cef6..2836c33 100644
--- a/src/main/cxx/apps/ecom.cxx
+++ b/src/main/cxx/apps/ecom.cxx
@@ -5,6 +5,8 @@
 /// @copyright MIT License
 #include <iostream>
 
+#include "../core/exitcodes.h"
+
 using namespace std;
 
 /// Extracts the command from Especia result HTML. Reads from standard
@@ -30,5 +32,5 @@ main ()
           found = (s == "<command>");
         }
     }
-  return 0;
+  return cout ? 0 : especia::Exit_Codes::runtime_error;
 }
diff --git a/src/main/cxx/apps/edat.cxx b/src/main/cxx/apps/edat.cxx
index 1c06ea6..337b2d0 100644
--- a/src/main/cxx/apps/edat.cxx
+++ b/src/main/cxx/apps/edat.cxx
@@ -5,6 +5,8 @@
 /// @copyright MIT License
 #include <iostream>
 
+#include "../core/exitcodes.h"
+
 using namespace std;
 
 /// Extracts the section data from Especia result HTML. Reads from standard
@@ -31,5 +33,5 @@ main ()
         }
     }
 
-  return 0;
+  return cout ? 0 : especia::Exit_Codes::runtime_error;
 }
diff --git a/src/main/cxx/apps/elog.cxx b/src/main/cxx/apps/elog.cxx
index 85b4f49..d8fa7b9 100644
--- a/src/main/cxx/apps/elog.cxx
+++ b/src/main/cxx/apps/elog.cxx
@@ -5,6 +5,8 @@
 /// @copyright MIT License
 #include <iostream>
 
+#include "../core/exitcodes.h"
+
 using namespace std;
 
 /// Extracts the log data from Especia result HTML. Reads from standard
@@ -31,5 +33,5 @@ main ()
         }
     }
 
-  return 0;
+  return cout ? 0 : especia::Exit_Codes::runtime_error;
 }
diff --git a/src/main/cxx/apps/emes.cxx b/src/main/cxx/apps/emes.cxx
index 0f29297..d79de7f 100644
--- a/src/main/cxx/apps/emes.cxx
+++ b/src/main/cxx/apps/emes.cxx
@@ -5,6 +5,8 @@
 /// @copyright MIT License
 #include <iostream>
 
+#include "../core/exitcodes.h"
+
 using namespace std;
 
 /// Extracts status messages from Especia result HTML. Reads from standard
@@ -36,5 +38,5 @@ main ()
         }
     }
 
-  return 0;
+  return cout ? 0 : especia::Exit_Codes::runtime_error;
 }
diff --git a/src/main/cxx/apps/emod.cxx b/src/main/cxx/apps/emod.cxx
index 9d72810..0109452 100644
--- a/src/main/cxx/apps/emod.cxx
+++ b/src/main/cxx/apps/emod.cxx
@@ -5,6 +5,8 @@
 /// @copyright MIT License
 #include <iostream>
 
+#include "../core/exitcodes.h"
+
 using namespace std;
 
 /// Extracts the model definition from Especia result HTML. Reads from standard
@@ -36,5 +38,5 @@ main ()
         }
     }
 
-  return 0;
+  return cout ? 0 : especia::Exit_Codes::runtime_error;
 }
diff --git a/src/main/cxx/apps/ezip.cxx b/src/main/cxx/apps/ezip.cxx
index 07be4c6..a80add9 100644
--- a/src/main/cxx/apps/ezip.cxx
+++ b/src/main/cxx/apps/ezip.cxx
@@ -84,7 +84,10 @@ main (int argc, char *argv[])
 
       if (fxy and fxz and y.size () == z.size ())
         {
-          especia::put (cout, x, y, z);
+          if (not especia::put (cout, x, y, z))
+            {
+              throw runtime_error ("Error: an output error occurred");
+            }
         }
       else
         {
diff --git a/src/main/cxx/core/runner.h b/src/main/cxx/core/runner.h
index ec5ca71..59e6b13 100644
--- a/src/main/cxx/core/runner.h
+++ b/src/main/cxx/core/runner.h
@@ -145,6 +145,7 @@ public:
   ///
   /// @return an exit code
   /// @throw invalid_argument if an invalid argument was supplied.
+  /// @throw runtime_error if the result could not be written.
   template <class M>
   int
   run ()
@@ -153,6 +154,7 @@ public:
     using std::cout;
     using std::endl;
     using std::invalid_argument;
+    using std::runtime_error;
 
     if (get_arg_count () == 1)
       {
@@ -215,6 +217,12 @@ public:
                &result.get_parameter_uncertainties ()[0]);
     model.put (cout);
 
+    if (not cout)
+      {
+        throw runtime_error ("especia::Runner::run() Error: the result could "
+                             "not be written");
+      }
+
     if (result.is_optimized ())
       {
         return 0;
diff --git a/src/main/cxx/util/airtovac.cxx b/src/main/cxx/util/airtovac.cxx
index 51f05e9..3ae8197 100644
--- a/src/main/cxx/util/airtovac.cxx
+++ b/src/main/cxx/util/airtovac.cxx
@@ -70,7 +70,10 @@ main (int argc, char *argv[])
                      / especia::solve (Equations::edlen66, real (10.0) / x[i],
                                        real (10.0) / x[i], real (1.0E-08));
             }
-          especia::put (cout, x, y, z);
+          if (not especia::put (cout, x, y, z))
+            {
+              throw runtime_error ("Error: an output error occurred");
+            }
         }
       else
         {
diff --git a/src/main/cxx/util/helicorr.cxx b/src/main/cxx/util/helicorr.cxx
index 2cf4642..1455a36 100644
--- a/src/main/cxx/util/helicorr.cxx
+++ b/src/main/cxx/util/helicorr.cxx
@@ -79,7 +79,10 @@ main (int argc, char *argv[])
             {
               x *= 1.0 + especia::redshift (v);
             }
-          especia::put (cout, x, y, z);
+          if (not especia::put (cout, x, y, z))
+            {
+              throw runtime_error ("Error: an output error occurred");
+            }
         }
       else
         {
diff --git a/src/main/cxx/util/vactoair.cxx b/src/main/cxx/util/vactoair.cxx
index 6746a7c..8bf5e87 100644
--- a/src/main/cxx/util/vactoair.cxx
+++ b/src/main/cxx/util/vactoair.cxx
@@ -68,7 +68,10 @@ main (int argc, char *argv[])
             {
               x[i] = real (10.0) / Equations::edlen66 (real (10.0) / x[i]);
             }
-          especia::put (cout, x, y, z);
+          if (not especia::put (cout, x, y, z))
+            {
+              throw runtime_error ("Error: an output error occurred");
+            }
         }
       else
         {
-- 
2.43.0


From 3d423b0038a4cafb97ad6fb029a82a7c8d19a875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:34 +0000
Subject: [PATCH 12/21] fix: report an underdetermined continuum even if
 rounding errors hide it

---
 src/main/cxx/core/section.cxx | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/main/cxx/core/section.cxx b/src/main/cxx/core/section.cxx
index fc6f667..fb57d3d 100644
--- a/src/main/cxx/core/section.cxx
+++ b/src/main/cxx/core/section.cxx
@@ -49,6 +49,22 @@ especia::Section::continuum (const natural m, const std::valarray<real> &cat,
 
   if (m > 0)
     {
+      natural count = 0;
+      for (size_t i = 0; i < n; ++i)
+        {
+          if (msk[i] and cat[i] != 0.0)
+            {
+              ++count;
+            }
+        }
+      if (count < m)
+        {
+          // Rounding errors may hide that the normal equations are singular.
+          throw runtime_error (
+              "especia::section::continuum(): Error: normal equations "
+              "are singular");
+        }
+
       valarray<real> b (0.0, m);
       valarray<real> c (0.0, m);
       valarray<valarray<real> > a (b, m);
-- 
2.43.0


From 0e92915ee9e97f4c85875aff61ac18ae725f2b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:11 +0000
Subject: [PATCH 13/21] =?UTF-8?q?fix:=20report=20the=20rank-1=20and=20rank?=
 =?UTF-8?q?-=C2=B5=20adaption=20rates=20by=20the=20right=20getters?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/main/cxx/core/optimize.h  |  4 ++--
 src/main/cxx/core/optimizer.h | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/main/cxx/core/optimize.h b/src/main/cxx/core/optimize.h
index d32bf96..a2765c9 100644
--- a/src/main/cxx/core/optimize.h
+++ b/src/main/cxx/core/optimize.h
@@ -87,8 +87,8 @@ private:
 /// @param[in] step_size_damping The step size damping.
 /// @param[in] cs The step size cumulation rate.
 /// @param[in] cc The distribution cumulation rate.
-/// @param[in] ccov The rank-1 covariance matrix adaption rate.
-/// @param[in] acov The rank-µ covariance matrix adaption rate.
+/// @param[in] ccov The rank-µ covariance matrix adaption rate.
+/// @param[in] acov The rank-1 covariance matrix adaption rate.
 /// @param[in] update_modulus The covariance matrix update modulus.
 /// @param[in] accuracy_goal The accuracy goal.
 /// @param[in] stop_generation The stop generation.
diff --git a/src/main/cxx/core/optimizer.h b/src/main/cxx/core/optimizer.h
index ae0ff4e..1e0c4ff 100644
--- a/src/main/cxx/core/optimizer.h
+++ b/src/main/cxx/core/optimizer.h
@@ -214,7 +214,7 @@ public:
     real
     get_rank_1_covariance_matrix_adaption_rate () const
     {
-      return ccov;
+      return acov;
     }
 
     /// Returns the rank-µ covariance matrix adaption rate.
@@ -223,7 +223,7 @@ public:
     real
     get_rank_m_covariance_matrix_adaption_rate () const
     {
-      return acov;
+      return ccov;
     }
 
     /// Returns the step size damping.
@@ -334,10 +334,10 @@ public:
     /// The distribution cumulation rate.
     real cc;
 
-    /// The rank-µ covariance matrix adaption rate.
+    /// The rank-1 covariance matrix adaption rate.
     real acov;
 
-    /// The rank-1 covariance matrix adaption rate.
+    /// The rank-µ covariance matrix adaption rate.
     real ccov;
 
     /// The step size damping.
@@ -732,8 +732,8 @@ private:
         config.get_step_size_damping (),
         config.get_step_size_cumulation_rate (),
         config.get_distribution_cumulation_rate (),
-        config.get_rank_1_covariance_matrix_adaption_rate (),
         config.get_rank_m_covariance_matrix_adaption_rate (),
+        config.get_rank_1_covariance_matrix_adaption_rate (),
         config.get_covariance_update_modulus (), config.get_accuracy_goal (),
         config.get_stop_generation (), result.__generation_number (),
         result.get_parameter_values_pointer (), result.__global_step_size (),
-- 
2.43.0


From baf1813e9f46e377f76892adbacc260e1f588e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:18 +0000
Subject: [PATCH 14/21] fix: evaluate the pseudo-Voigt profile for a vanishing
 damping constant

---
 src/main/cxx/core/profiles.cxx | 23 ++++++++++++-----------
 src/main/cxx/core/profiles.h   |  4 ++--
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/main/cxx/core/profiles.cxx b/src/main/cxx/core/profiles.cxx
index 0f295c4..96c1eac 100644
--- a/src/main/cxx/core/profiles.cxx
+++ b/src/main/cxx/core/profiles.cxx
@@ -138,18 +138,19 @@ poly_eta_p (const real &r)
 }
 
 especia::Pseudo_Voigt::Pseudo_Voigt (const real &b, const real &d)
-    : rho (c_g * b / d),
-      h (1.0
-         / pow (
-             1.0
-                 + rho
-                       * (0.07842
-                          + rho
-                                * (4.47163
-                                   + rho * (2.42843 + rho * (rho + 2.69296)))),
-             0.2)),
+    : g (c_g * b),
+      gamma_l (pow (
+          d * d * d * d * d
+              + g
+                    * (0.07842 * (d * d * d * d)
+                       + g
+                             * (4.47163 * (d * d * d)
+                                + g
+                                      * (2.42843 * (d * d)
+                                         + g * (g + 2.69296 * d)))),
+          0.2)),
       // transposed digits in T. Ida, M. Ando, H. Toraya (2000) ^^
-      gamma_l (d / h), gamma_g (gamma_l / c_g),
+      gamma_g (gamma_l / c_g), h (d / gamma_l),
       eta (h * (1.36603 - h * (0.47719 - h * 0.11116)))
 {
 }
diff --git a/src/main/cxx/core/profiles.h b/src/main/cxx/core/profiles.h
index 44b3ef0..cd2386f 100644
--- a/src/main/cxx/core/profiles.h
+++ b/src/main/cxx/core/profiles.h
@@ -44,10 +44,10 @@ public:
   real operator() (const real &x) const;
 
 private:
-  const real rho;
-  const real h;
+  const real g;
   const real gamma_l;
   const real gamma_g;
+  const real h;
   const real eta;
 
   static const real c_g;
-- 
2.43.0


From 75549165728ec74e57ce0611cf395cb338642941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:27 +0000
Subject: [PATCH 15/21] fix: reject malformed mask intervals instead of
 ignoring them

---
 src/main/cxx/core/model.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/main/cxx/core/model.h b/src/main/cxx/core/model.h
index 9689f24..60aa5f7 100644
--- a/src/main/cxx/core/model.h
+++ b/src/main/cxx/core/model.h
@@ -541,8 +541,18 @@ private:
                           if (s.get (ifs, a, b))
                             {
                               istringstream is2 (s2);
-                              while (is2 >> a >> b)
-                                s.mask (a, b);
+                              while (is2 >> ws and not is2.eof ())
+                                if (is2 >> a >> b)
+                                  s.mask (a, b);
+                                else
+                                  {
+                                    is.setstate (ios_base::badbit
+                                                 | ios_base::failbit);
+                                    cerr << errmsg << sid << ": " << synmsg
+                                         << endl;
+
+                                    return is;
+                                  }
 
                               sections.push_back (s);
                               isc.push_back (i);
-- 
2.43.0


From 86230d234a8fa21b65a1509a6f8a9f08dd452edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:51 +0000
Subject: [PATCH 16/21] fix: end the estimate of uncertainties if the objective
 has no curvature

---
 src/main/cxx/core/optimize.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/main/cxx/core/optimize.h b/src/main/cxx/core/optimize.h
index a2765c9..dd9aabf 100644
--- a/src/main/cxx/core/optimize.h
+++ b/src/main/cxx/core/optimize.h
@@ -356,6 +356,7 @@ postopti (const F &f, const Constraint &constraint, natural n, const real x[],
   using std::exception_ptr;
   using std::exp;
   using std::log;
+  using std::numeric_limits;
   using std::rethrow_exception;
   using std::sqrt;
   using std::thread;
@@ -450,6 +451,16 @@ postopti (const F &f, const Constraint &constraint, natural n, const real x[],
               b = c;
               c = c * 0.618;
             }
+          // There is no curvature, if the computation step leaves its range
+          if (c > numeric_limits<real>::max ())
+            {
+              g[j] = c;
+              break;
+            }
+          if (c < numeric_limits<real>::min ())
+            {
+              break;
+            }
         }
       while (a == 0.0
              or b == 0.0); // the computation step is too small or too large
-- 
2.43.0


From e14e33681f3de025441590f950c5d2c105f9443c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:17 +0000
Subject: [PATCH 17/21] fix: account for the variation of the fine-structure
 constant in the observed wavelength

---
 src/main/cxx/core/model.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cxx/core/model.h b/src/main/cxx/core/model.h
index 60aa5f7..91641d3 100644
--- a/src/main/cxx/core/model.h
+++ b/src/main/cxx/core/model.h
@@ -341,7 +341,8 @@ public:
         const real x = val[j];
         const real z = val[j + 2];
         const real v = val[j + 3];
-        const real w = x * (1.0 + z) * (1.0 + v / c);
+        // The variation of the fine-structure constant, if any, is included
+        const real w = Function (&val[j]).center ();
         const real dx = unc[j];
         const real dz = unc[j + 2];
         const real dv = unc[j + 3];
-- 
2.43.0


From c47020f357c480f2f171ac064f8fd1b90e2ba682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:17 +0000
Subject: [PATCH 18/21] fix: scale the uncertainty of the rest wavelength to
 the observed wavelength

---
 src/main/cxx/core/model.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cxx/core/model.h b/src/main/cxx/core/model.h
index 91641d3..76fca05 100644
--- a/src/main/cxx/core/model.h
+++ b/src/main/cxx/core/model.h
@@ -347,7 +347,7 @@ public:
         const real dz = unc[j + 2];
         const real dv = unc[j + 3];
         const real dw
-            = dx
+            = (1.0 + z) * (1.0 + v / c) * dx
               + x * sqrt (sq ((1.0 + v / c) * dz) + sq ((1.0 + z) * dv / c));
         const real ew = calculator.calculate (Function (&val[j]), milli);
 
-- 
2.43.0


From c6d1747d70187d97d9657be0c9eafb44e46b28ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:00 +0000
Subject: [PATCH 19/21] fix: apply commands to files in the current directory

The target file of foreach had the name of the source file in the current
directory. Applied to a file there, the command was given the same file as
source and target, and a file of the same name was overwritten and moved
away when another one was processed.
---
 src/main/scripts/foreach | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/scripts/foreach b/src/main/scripts/foreach
index a09e4a2..359edb0 100755
--- a/src/main/scripts/foreach
+++ b/src/main/scripts/foreach
@@ -18,7 +18,7 @@ shift
 for sourceFile in "${@}"
 do
     cp "${sourceFile}" "${sourceFile}.backup"
-    targetFile="$(basename "$sourceFile")"
+    targetFile="${sourceFile}.target"
     ${command} "${sourceFile}" "${targetFile}"
     mv "${targetFile}" "${sourceFile}"
 done
-- 
2.43.0


From 575ffa359bba17219b2a4703fc5b8f9931d56627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:00 +0000
Subject: [PATCH 20/21] fix: do not search a former target file for expected
 values

When the target file of erun could not be written, the values of a former
run were found in it and the new run was reported to be successful.
---
 src/main/scripts/erun | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/scripts/erun b/src/main/scripts/erun
index bc7d6df..aa06139 100755
--- a/src/main/scripts/erun
+++ b/src/main/scripts/erun
@@ -18,6 +18,8 @@ targetFile="$2"
 ecom=$(dirname "$0")/ecom
 emod=$(dirname "$0")/emod
 elog=$(dirname "$0")/elog
+# a former target file must not be mistaken for the new one
+: > "${targetFile}"
 # shellcheck disable=SC2094
 # shellcheck disable=SC2091
 ${emod} < "${resultFile}" | $(${ecom} < "${resultFile}") | tee "${targetFile}" | ${elog}
-- 
2.43.0


From 274474a7a32c94e15faf960188e05cace31553d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:25 +0000
Subject: [PATCH 21/21] fix: equivalent width of lines with extended wings

---
 src/main/cxx/core/profiles.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/main/cxx/core/profiles.h b/src/main/cxx/core/profiles.h
index cd2386f..e1d002f 100644
--- a/src/main/cxx/core/profiles.h
+++ b/src/main/cxx/core/profiles.h
@@ -521,8 +521,14 @@ public:
   {
     using std::exp;
 
-    const real integral = integrator.integrate_positive_infinite (
-        [&f] (real x) -> real { return 1.0 - exp (-f (x + f.center ())); });
+    // A rational transformation, because Lorentzian wings decay algebraically
+    const real integral = integrator.integrate (
+        [&f] (real u) -> real {
+          const real x = (1.0 - u) / u;
+
+          return u > 0.0 ? (1.0 - exp (-f (x + f.center ()))) / (u * u) : 0.0;
+        }, // infinity maps to zero
+        0.0, 1.0);
 
     return (2.0 / prefix) * integral / f.redshift_factor ();
   }
-- 
2.43.0

