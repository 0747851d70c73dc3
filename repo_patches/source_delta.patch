From 4bc866d18fc1f30ebdb811ff8b86b0661044015d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:06 +0000
Subject: [PATCH 01/10] fix: two-sided probability of infeasible bounds is 0
 instead of an assertion failure

When some B_i < b_i the window of admissible counts becomes empty and its size
went negative, which aborts in PoissonPMFGenerator::compute_array().
---
 src/ecdf2.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecdf2.cc b/src/ecdf2.cc
index 9cf2dd7..52edd13 100644
--- a/src/ecdf2.cc
+++ b/src/ecdf2.cc
@@ -92,7 +92,7 @@ vector<double> poisson_process_noncrossing_probability(int n, double intensity,
     double prev_location = 0.0;
 
     for (unsigned int i = 0; i < bounds.size(); ++i) {
-        int cur_size = b_step_count - B_step_count + 1;
+        int cur_size = max(b_step_count - B_step_count + 1, 0); // An empty window means that every path has crossed.
 
         double lambda = intensity*(bounds[i].location-prev_location);
         if (lambda > 0) {
-- 
2.43.0


From 5c29eda930ee4df5e047a8d7cc671c98d4a85de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:06 +0000
Subject: [PATCH 02/10] fix: ecdf1_new_b/ecdf1_new_B for n=1 and n=0

For n=1 the jump size was 2, failing the assertion jump_size<=n (and reading
beyond the minibuffers without it); for n=0 the code read B[-1].
---
 src/ecdf1_new.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ecdf1_new.cc b/src/ecdf1_new.cc
index b87b17f..0894840 100644
--- a/src/ecdf1_new.cc
+++ b/src/ecdf1_new.cc
@@ -116,12 +116,14 @@ double ecdf1_new_B(const vector<double>& B)
     //cout << "Called ecdf1_new_B()\n";
     int n = B.size();
     check_boundary_vector("B", n, B);
+    if (n == 0) {
+        return 1.0; // No constraints, same as the other algorithms.
+    }
 
     // Asymptotically any k in the range [logn, n/logn] should give optimal results as n goes to infinity.
     // Setting k=c*sqrt(n) and minimizing the asymptotic runtime, we obtain k=sqrt(2*n),
     // however, empirically slightly lower numbers give better results.
-    int k = sqrt(n) + 1; // The +1 is to prevent it from being zero for small array sizes.
-
+    int k = min(int(sqrt(n)) + 1, n); // The +1 is to prevent it from being zero for small array sizes.
 
     vector<double> poisson_nocross_probabilities = poisson_B_noncrossing_probability_n2(n, n, B, k);
     return poisson_nocross_probabilities[n] / poisson_pmf(n, n);
-- 
2.43.0


From 522467e648d525dbd7ae54771e909889f2fed04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:06 +0000
Subject: [PATCH 03/10] fix: reject NaN in boundary vectors

A NaN in the middle of a vector passed both comparisons, giving a meaningless
result or an assertion failure later on.
---
 src/common.cc | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/common.cc b/src/common.cc
index 4519e10..4d53b9b 100644
--- a/src/common.cc
+++ b/src/common.cc
@@ -1,11 +1,21 @@
 #include "common.hh"
 
+#include <cstdint>
+#include <cstring>
 #include <stdexcept>
 #include <sstream>
 
 using namespace std;
 
 
+// Tests the bits directly since isnan() and comparisons with NaN are unreliable under -ffast-math.
+static bool is_nan(double x)
+{
+    uint64_t bits;
+    memcpy(&bits, &x, sizeof(bits));
+    return (bits & UINT64_C(0x7fffffffffffffff)) > UINT64_C(0x7ff0000000000000);
+}
+
 static bool is_monotone_increasing(const vector<double>& v)
 {
     double prev = -numeric_limits<double>::infinity();
@@ -26,6 +36,14 @@ void check_boundary_vector(string name, int n, const vector<double>& v)
         throw runtime_error(ss.str());
     }
 
+    for (int i = 0; i < (int)v.size(); ++i) {
+        if (is_nan(v[i])) {
+            stringstream ss;
+            ss << name << "_1,...," << name << "_" << n << " must not contain NaN.";
+            throw runtime_error(ss.str());
+        }
+    }
+
     if (!is_monotone_increasing(v)) {
         stringstream ss;
         ss << name << "_1,...," << name << "_" << n << " must be monotone non-decreasing.";
-- 
2.43.0


From 0d0916a7bcc2fc5ad9d287b331ad7363e9a8cc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:06 +0000
Subject: [PATCH 04/10] fix: crossprob_mc poisson with an empty first line

Without an upper boundary every simulated process was counted as a crossing as
soon as it made one step, so the estimate was always 0.
---
 src/crossprob_mc.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index c515271..097f169 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -121,9 +121,6 @@ static double ecdf_crossing_probability_montecarlo(long n, const vector<double>&
 
 static bool does_random_poisson_process_cross(const vector<double>& b, const vector<double>& B, ExponentialRNG& exprng, vector<double>& tmp_buffer)
 {
-    size_t max_steps = b.size();
-    assert(tmp_buffer.size() >= max_steps);
-
     size_t num_steps = 0;
     double last_x = 0.0;
     while (true) {
@@ -131,9 +128,13 @@ static bool does_random_poisson_process_cross(const vector<double>& b, const vec
         if (last_x > 1.0) {
             return does_integer_step_function_cross(&tmp_buffer[0], num_steps, b, B);
         }
-        if (num_steps >= max_steps) {
+        // An empty b means that no upper boundary was specified, so the number of steps is not limited.
+        if ((b.size() > 0) && (num_steps >= b.size())) {
             return true;
         }
+        if (num_steps >= tmp_buffer.size()) {
+            tmp_buffer.resize(num_steps + 1);
+        }
         tmp_buffer[num_steps] = last_x;
         ++num_steps;
     }
-- 
2.43.0


From 1c090a49194837459f19d67a3bdb31c1328a70f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:06 +0000
Subject: [PATCH 05/10] fix: set the parameters of the TinyMT64 generator

mat1, mat2 and tmat were used uninitialised.
---
 src/crossprob_mc.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index 097f169..4979e3e 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -17,6 +17,10 @@ class RandomNumberGenerator {
 public:
     RandomNumberGenerator(uint64_t seed) {
         // cout << "Random seed: " << seed << endl;
+        // Parameters of the reference implementation. They must be set before calling tinymt64_init().
+        random_state.mat1 = 0xfa051f40;
+        random_state.mat2 = 0xffd0fff4;
+        random_state.tmat = UINT64_C(0x58d02ffeffbfffbc);
         tinymt64_init(&random_state, seed);
     }
     double generate_uniform01()
-- 
2.43.0


From 6172bcf555addb311fde9e3f7da3507ca0ac0101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:06 +0000
Subject: [PATCH 06/10] fix: never take the logarithm of zero in
 generate_exponential()

---
 src/crossprob_mc.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index 4979e3e..e25cd73 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -29,7 +29,8 @@ public:
     }
     double generate_exponential(double beta)
     {
-        return -beta * log(generate_uniform01()); 
+        // (0,1] rather than [0,1), since log(0) is not finite.
+        return -beta * log(tinymt64_generate_doubleOC(&random_state));
     }
 private:
     tinymt64_t random_state;
-- 
2.43.0


From 137f0eeac867627c14954683678fcb1ee3598691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:06 +0000
Subject: [PATCH 07/10] fix: count Monte-Carlo simulations with the type of
 num_simulations

With an int counter the loop never ends for 2^31 or more simulations.
---
 src/crossprob_mc.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index e25cd73..c5ce195 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -116,8 +116,8 @@ static double ecdf_crossing_probability_montecarlo(long n, const vector<double>&
     RandomNumberGenerator rng(time(NULL) + (n<<20));
 
     vector<double> tmp_buffer(n);
-    int count_crossings = 0;
-    for (int reps = 0; reps < num_simulations; ++reps) {
+    long count_crossings = 0;
+    for (long reps = 0; reps < num_simulations; ++reps) {
         count_crossings += does_random_ecdf_cross(b, B, rng, tmp_buffer);
     }
 
@@ -154,8 +154,8 @@ static double poisson_process_crossing_probability_montecarlo(double intensity,
     ExponentialRNG exprng(time(NULL) + (int)(intensity*1000000.0), 1.0/intensity);
 
     vector<double> buffer(b.size() + 1);
-    int count_crossings = 0;
-    for (int reps = 0; reps < num_simulations; ++reps) {
+    long count_crossings = 0;
+    for (long reps = 0; reps < num_simulations; ++reps) {
         count_crossings += does_random_poisson_process_cross(b, B, exprng, buffer);
     }
 
-- 
2.43.0


From 910fe561bdcd8b697f1fbfa604073db7915dc9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:06 +0000
Subject: [PATCH 08/10] fix: FFTWConvolver must reject sizes above the maximum
 it allocated for

Sizes up to maximum_input_size+2047 were accepted and overflowed the buffers.
---
 src/fftwconvolver.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fftwconvolver.cc b/src/fftwconvolver.cc
index 4b98a62..c7f5e03 100644
--- a/src/fftwconvolver.cc
+++ b/src/fftwconvolver.cc
@@ -26,7 +26,7 @@ int round_up(int n, int rounding)
 }
 
 FFTWConvolver::FFTWConvolver(int maximum_input_size) :
-    maximum_input_size(maximum_input_size+ROUNDING-1),
+    maximum_input_size(maximum_input_size),
     r2c_plans(round_up(2*maximum_input_size, ROUNDING)/ROUNDING, NULL),
     c2r_plans(round_up(2*maximum_input_size, ROUNDING)/ROUNDING, NULL)
 {
-- 
2.43.0


From 2234405d68910e1e2310f2b443faa36851de5f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:06 +0000
Subject: [PATCH 09/10] fix: ecdf1_mns2016_b/B return 0 instead of NaN when the
 probability is 0

---
 src/ecdf1_mns2016.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ecdf1_mns2016.cc b/src/ecdf1_mns2016.cc
index 6d858b6..3f77a50 100644
--- a/src/ecdf1_mns2016.cc
+++ b/src/ecdf1_mns2016.cc
@@ -228,6 +228,10 @@ double ecdf1_mns2016_b(const vector<double>& b)
     //FLOAT max_coef = maximum_multiplicative_coefficient(p);
     //FLOAT min_coef = minimum_multiplicative_coefficient(p);
     FLOAT integral_result = p.evaluate(1);
+    if (integral_result <= 0) {
+        // The probability is zero (up to rounding). Its logarithm is not defined.
+        return 0.0;
+    }
     FLOAT log_integral_result = LOG(integral_result);
     FLOAT noncrossing_probability = EXP(LOG_GAMMA(n+1) + log_integral_result - total_exponent_delta*LOG(2));
     // cout << p << endl;
-- 
2.43.0


From 3e2bb4a9bc98ef29f6ebaa9beb6456493c40f94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 10/10] fix: tinymt64_generate_double returned 1.0, outside its
 documented [0,1), when the 64-bit output rounds up to 2^64

---
 src/tinymt64.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tinymt64.h b/src/tinymt64.h
index eed92de..2e880c9 100644
--- a/src/tinymt64.h
+++ b/src/tinymt64.h
@@ -48,7 +48,7 @@
 #define TINYMT64_SH1 11
 #define TINYMT64_SH8 8
 #define TINYMT64_MASK UINT64_C(0x7fffffffffffffff)
-#define TINYMT64_MUL (1.0 / 18446744073709551616.0)
+#define TINYMT64_MUL (1.0 / 9007199254740992.0)
 
 #if defined(__cplusplus)
 extern "C" {
@@ -188,7 +188,7 @@ inline static uint64_t tinymt64_generate_uint64(tinymt64_t * random) {
  */
 inline static double tinymt64_generate_double(tinymt64_t * random) {
     tinymt64_next_state(random);
-    return tinymt64_temper(random) * TINYMT64_MUL;
+    return (tinymt64_temper(random) >> 11) * TINYMT64_MUL;
 }
 
 /**
-- 
2.43.0

