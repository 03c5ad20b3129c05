From 82d0c3244f7d363a9372ef7f568460597c7e6f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:39 +0000
Subject: [PATCH 01/20] fix: covariance of vector sample and vector variate of
 different dimensions

The initial (zero) covariance matrix was built as sample x variate while every
update adds a variate x sample outer product, so that differing dimensions
made the update read out of bounds.
---
 include/boost/accumulators/statistics/covariance.hpp          | 4 ++--
 include/boost/accumulators/statistics/weighted_covariance.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/accumulators/statistics/covariance.hpp b/include/boost/accumulators/statistics/covariance.hpp
index d80a85e..90abba4 100644
--- a/include/boost/accumulators/statistics/covariance.hpp
+++ b/include/boost/accumulators/statistics/covariance.hpp
@@ -123,8 +123,8 @@ namespace impl
         covariance_impl(Args const &args)
           : cov_(
                 numeric::outer_product(
-                    numeric::fdiv(args[sample | Sample()], (std::size_t)1)
-                  , numeric::fdiv(args[parameter::keyword<VariateTag>::get() | VariateType()], (std::size_t)1)
+                    numeric::fdiv(args[parameter::keyword<VariateTag>::get() | VariateType()], (std::size_t)1)
+                  , numeric::fdiv(args[sample | Sample()], (std::size_t)1)
                 )
             )
         {
diff --git a/include/boost/accumulators/statistics/weighted_covariance.hpp b/include/boost/accumulators/statistics/weighted_covariance.hpp
index e423a22..f529cf0 100644
--- a/include/boost/accumulators/statistics/weighted_covariance.hpp
+++ b/include/boost/accumulators/statistics/weighted_covariance.hpp
@@ -66,9 +66,9 @@ namespace impl
         weighted_covariance_impl(Args const &args)
           : cov_(
                 numeric::outer_product(
-                    numeric::fdiv(args[sample | Sample()], (std::size_t)1)
+                    numeric::fdiv(args[parameter::keyword<VariateTag>::get() | VariateType()], (std::size_t)1)
                       * numeric::one<Weight>::value
-                  , numeric::fdiv(args[parameter::keyword<VariateTag>::get() | VariateType()], (std::size_t)1)
+                  , numeric::fdiv(args[sample | Sample()], (std::size_t)1)
                       * numeric::one<Weight>::value
                 )
             )
-- 
2.43.0


From 913b1a4e11660e8367537af301b21b11921f7ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:20 +0000
Subject: [PATCH 02/20] fix: rolling_window could not be extracted
 (rolling_window_plus1 undeclared at its point of use)

---
 include/boost/accumulators/statistics/rolling_window.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/accumulators/statistics/rolling_window.hpp b/include/boost/accumulators/statistics/rolling_window.hpp
index a43ecdf..63303b7 100644
--- a/include/boost/accumulators/statistics/rolling_window.hpp
+++ b/include/boost/accumulators/statistics/rolling_window.hpp
@@ -155,7 +155,7 @@ namespace impl
         template<typename Args>
         result_type result(Args const &args) const
         {
-            return rolling_window_plus1(args).advance_begin(is_rolling_window_plus1_full(args));
+            return find_accumulator<tag::rolling_window_plus1>(args[accumulator]).result(args).advance_begin(is_rolling_window_plus1_full(args));
         }
         
         // serialization is done by accumulators it depends on
-- 
2.43.0


From c2be6d083c1d9a84ba10cf903509b857296ad5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:17 +0000
Subject: [PATCH 03/20] fix: coherent tail mean of the left tail ignored the
 discrete correction (missing parentheses)

---
 include/boost/accumulators/statistics/tail_mean.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/accumulators/statistics/tail_mean.hpp b/include/boost/accumulators/statistics/tail_mean.hpp
index f56606d..50794b0 100644
--- a/include/boost/accumulators/statistics/tail_mean.hpp
+++ b/include/boost/accumulators/statistics/tail_mean.hpp
@@ -84,7 +84,7 @@ namespace impl
             return some_non_coherent_tail_mean(args)
                  + numeric::fdiv(quantile(args), n)
                  * (
-                     ( is_same<LeftRight, left>::value ) ? args[quantile_probability] : 1. - args[quantile_probability]
+                     ( ( is_same<LeftRight, left>::value ) ? args[quantile_probability] : 1. - args[quantile_probability] )
                      - numeric::fdiv(n, count(args))
                    );
         }
-- 
2.43.0


From 2b45795453eaaf7ad24b429527f5aa219603affe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:17 +0000
Subject: [PATCH 04/20] fix: tail_quantile read before the tail for n == 0 and
 rejected a cache of exactly n samples

---
 include/boost/accumulators/statistics/tail_quantile.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/accumulators/statistics/tail_quantile.hpp b/include/boost/accumulators/statistics/tail_quantile.hpp
index ed1f6e6..9618611 100644
--- a/include/boost/accumulators/statistics/tail_quantile.hpp
+++ b/include/boost/accumulators/statistics/tail_quantile.hpp
@@ -77,7 +77,7 @@ namespace impl
             );
 
             // If n is in a valid range, return result, otherwise return NaN or throw exception
-            if ( n < static_cast<std::size_t>(tail(args).size()))
+            if ( 0 < n && n <= static_cast<std::size_t>(tail(args).size()))
             {
                // Note that the cached samples of the left are sorted in ascending order,
                // whereas the samples of the right tail are sorted in descending order
-- 
2.43.0


From 5ff2abb620ab75210a558c44f3bac27be472b943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:17 +0000
Subject: [PATCH 05/20] fix: tail_variate_means rejected a cache of exactly the
 required number of samples

---
 include/boost/accumulators/statistics/tail_variate_means.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/accumulators/statistics/tail_variate_means.hpp b/include/boost/accumulators/statistics/tail_variate_means.hpp
index efe9f7c..aeea8db 100644
--- a/include/boost/accumulators/statistics/tail_variate_means.hpp
+++ b/include/boost/accumulators/statistics/tail_variate_means.hpp
@@ -104,7 +104,7 @@ namespace impl
             this->tail_means_.resize(num_variates, Sample(0));
 
             // If n is in a valid range, return result, otherwise return NaN or throw exception
-            if (n < static_cast<std::size_t>(tail(args).size()))
+            if (n <= static_cast<std::size_t>(tail(args).size()))
             {
                 this->tail_means_ = std::accumulate(
                     tail_variate(args).begin()
-- 
2.43.0


From de19a00ed34f4c96643291ae0d38af4fc62d0f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:32 +0000
Subject: [PATCH 06/20] fix: weighted_tail_quantile read before the tail when
 the weight threshold is zero

---
 .../boost/accumulators/statistics/weighted_tail_quantile.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/accumulators/statistics/weighted_tail_quantile.hpp b/include/boost/accumulators/statistics/weighted_tail_quantile.hpp
index b143457..2967bac 100644
--- a/include/boost/accumulators/statistics/weighted_tail_quantile.hpp
+++ b/include/boost/accumulators/statistics/weighted_tail_quantile.hpp
@@ -81,7 +81,7 @@ namespace impl
             std::size_t n = 0;
             Weight sum = Weight(0);
 
-            while (sum < threshold)
+            while (sum < threshold || n == 0)
             {
                 if (n < static_cast<std::size_t>(tail_weights(args).size()))
                 {
-- 
2.43.0


From c0ff1330b70f80647ec57ff663bfb36c34d468ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:32 +0000
Subject: [PATCH 07/20] fix: weighted_tail_variate_means did not terminate when
 the tail cache is too small

---
 .../statistics/weighted_tail_variate_means.hpp        | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/boost/accumulators/statistics/weighted_tail_variate_means.hpp b/include/boost/accumulators/statistics/weighted_tail_variate_means.hpp
index f096a93..aa50fc6 100644
--- a/include/boost/accumulators/statistics/weighted_tail_variate_means.hpp
+++ b/include/boost/accumulators/statistics/weighted_tail_variate_means.hpp
@@ -120,6 +120,11 @@ namespace impl
             float_type threshold = sum_of_weights(args)
                              * ( ( is_same<LeftRight, left>::value ) ? args[quantile_probability] : 1. - args[quantile_probability] );
 
+            std::size_t num_variates = tail_variate(args).begin()->size();
+
+            this->tail_means_.clear();
+            this->tail_means_.resize(num_variates, Sample(0));
+
             std::size_t n = 0;
             Weight sum = Weight(0);
 
@@ -139,6 +144,7 @@ namespace impl
                           , this->tail_means_.end()
                           , std::numeric_limits<float_type>::quiet_NaN()
                         );
+                        return make_iterator_range(this->tail_means_);
                     }
                     else
                     {
@@ -149,11 +155,6 @@ namespace impl
                 }
             }
 
-            std::size_t num_variates = tail_variate(args).begin()->size();
-
-            this->tail_means_.clear();
-            this->tail_means_.resize(num_variates, Sample(0));
-
             this->tail_means_ = std::inner_product(
                 tail_variate(args).begin()
               , tail_variate(args).begin() + n
-- 
2.43.0


From 2b82c454354a5051725765990e08b9bd2d13d210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:04 +0000
Subject: [PATCH 08/20] fix: weighted_p_square_cumulative_distribution left its
 last marker position uncumulated and aimed the markers one cell too low

---
 .../accumulators/statistics/weighted_p_square_cumul_dist.hpp  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp b/include/boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp
index f8a44d6..24a666a 100644
--- a/include/boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp
+++ b/include/boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp
@@ -111,7 +111,7 @@ namespace impl
                     }
 
                     // calculate correct initial actual positions
-                    for (std::size_t i = 1; i < b; ++i)
+                    for (std::size_t i = 1; i < b + 1; ++i)
                     {
                         this->actual_positions[i] += this->actual_positions[i - 1];
                     }
@@ -153,7 +153,7 @@ namespace impl
                 for (std::size_t i = 1; i < b + 1; ++i)
                 {
                     this->desired_positions[i] = this->actual_positions[0]
-                                               + numeric::fdiv((i-1) * (sum_of_weights(args) - this->actual_positions[0]), b);
+                                               + numeric::fdiv(i * (sum_of_weights(args) - this->actual_positions[0]), b);
                 }
 
                 // adjust heights of markers 2 to num_cells if necessary
-- 
2.43.0


From 4a3ccd100b8491bf07915b03db9d19e77761ebad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:33 +0000
Subject: [PATCH 09/20] fix: quadratic extended_p_square_quantile read before
 its arrays with two tracked probabilities

---
 .../accumulators/statistics/extended_p_square_quantile.hpp     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/accumulators/statistics/extended_p_square_quantile.hpp b/include/boost/accumulators/statistics/extended_p_square_quantile.hpp
index a4ac3cd..1952912 100644
--- a/include/boost/accumulators/statistics/extended_p_square_quantile.hpp
+++ b/include/boost/accumulators/statistics/extended_p_square_quantile.hpp
@@ -128,7 +128,8 @@ namespace impl
             {
                 result_type res;
 
-                if (is_same<Impl2, linear>::value)
+                // a quadratic needs three tracked quantiles
+                if (is_same<Impl2, linear>::value || this->probabilities.size() < 3)
                 {
                     /////////////////////////////////////////////////////////////////////////////////
                     // LINEAR INTERPOLATION
-- 
2.43.0


From 8f84504abd0abdc6779121cd6108a92a163d6fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:30 +0000
Subject: [PATCH 10/20] fix: density medians accumulated their running sum
 across queries and read past the overflow bin

---
 include/boost/accumulators/statistics/median.hpp          | 5 ++++-
 include/boost/accumulators/statistics/weighted_median.hpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/boost/accumulators/statistics/median.hpp b/include/boost/accumulators/statistics/median.hpp
index 4d4118d..419b0e9 100644
--- a/include/boost/accumulators/statistics/median.hpp
+++ b/include/boost/accumulators/statistics/median.hpp
@@ -96,6 +96,7 @@ namespace impl
                 std::size_t cnt = count(args);
                 range_type histogram = density(args);
                 typename range_type::iterator it = histogram.begin();
+                this->sum = 0.;
                 while (this->sum < 0.5 * cnt)
                 {
                     this->sum += it->second * cnt;
@@ -103,7 +104,9 @@ namespace impl
                 }
                 --it;
                 float_type over = numeric::fdiv(this->sum - 0.5 * cnt, it->second * cnt);
-                this->median = it->first * over + (it + 1)->first * (1. - over);
+                // the overflow bin extends to the largest sample
+                float_type upper = (it + 1 == histogram.end()) ? numeric::fdiv((max)(args), (std::size_t)1) : (it + 1)->first;
+                this->median = it->first * over + upper * (1. - over);
             }
 
             return this->median;
diff --git a/include/boost/accumulators/statistics/weighted_median.hpp b/include/boost/accumulators/statistics/weighted_median.hpp
index 22224a8..9c00496 100644
--- a/include/boost/accumulators/statistics/weighted_median.hpp
+++ b/include/boost/accumulators/statistics/weighted_median.hpp
@@ -93,6 +93,7 @@ namespace impl
                 std::size_t cnt = count(args);
                 range_type histogram = weighted_density(args);
                 typename range_type::iterator it = histogram.begin();
+                this->sum = 0.;
                 while (this->sum < 0.5 * cnt)
                 {
                     this->sum += it->second * cnt;
@@ -100,7 +101,9 @@ namespace impl
                 }
                 --it;
                 float_type over = numeric::fdiv(this->sum - 0.5 * cnt, it->second * cnt);
-                this->median = it->first * over + (it + 1)->first * ( 1. - over );
+                // the overflow bin extends to the largest sample
+                float_type upper = (it + 1 == histogram.end()) ? numeric::fdiv((max)(args), (std::size_t)1) : (it + 1)->first;
+                this->median = it->first * over + upper * (1. - over);
             }
 
             return this->median;
-- 
2.43.0


From d82b8a6fc6b2cabdc4900e622dbae3f5ade90782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:23 +0000
Subject: [PATCH 11/20] fix: cumulative-distribution medians interpolated one
 marker too far and read outside the histogram

---
 include/boost/accumulators/statistics/median.hpp      | 11 +++++++++--
 .../boost/accumulators/statistics/weighted_median.hpp | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/boost/accumulators/statistics/median.hpp b/include/boost/accumulators/statistics/median.hpp
index 419b0e9..a8bcd6f 100644
--- a/include/boost/accumulators/statistics/median.hpp
+++ b/include/boost/accumulators/statistics/median.hpp
@@ -171,8 +171,15 @@ namespace impl
                 {
                     ++it;
                 }
-                float_type over = numeric::fdiv(it->second - 0.5, it->second - (it - 1)->second);
-                this->median = it->first * over + (it + 1)->first * ( 1. - over );
+                if (it == histogram.begin())
+                {
+                    this->median = it->first;
+                }
+                else
+                {
+                    float_type over = numeric::fdiv(it->second - 0.5, it->second - (it - 1)->second);
+                    this->median = (it - 1)->first * over + it->first * ( 1. - over );
+                }
             }
 
             return this->median;
diff --git a/include/boost/accumulators/statistics/weighted_median.hpp b/include/boost/accumulators/statistics/weighted_median.hpp
index 9c00496..5b6072c 100644
--- a/include/boost/accumulators/statistics/weighted_median.hpp
+++ b/include/boost/accumulators/statistics/weighted_median.hpp
@@ -168,8 +168,15 @@ namespace impl
                 {
                     ++it;
                 }
-                float_type over = numeric::fdiv(it->second - 0.5, it->second - (it - 1)->second);
-                this->median = it->first * over + (it + 1)->first * ( 1. - over );
+                if (it == histogram.begin())
+                {
+                    this->median = it->first;
+                }
+                else
+                {
+                    float_type over = numeric::fdiv(it->second - 0.5, it->second - (it - 1)->second);
+                    this->median = (it - 1)->first * over + it->first * ( 1. - over );
+                }
             }
 
             return this->median;
-- 
2.43.0


From dcf3bc9b37e7cd1726fe7a4320cc21710235c94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:01 +0000
Subject: [PATCH 12/20] fix: peaks over threshold fit was corrupted by repeated
 queries and misread the ends of the tail

result() folded the mean and variance back into the running sums (and, for the
left tail, flipped the stored threshold probability), so every query after
further samples was wrong; the NaN answer was cached as (0,0,0); n == 0 read
before the tail and a cache of exactly n samples was rejected.
---
 .../statistics/peaks_over_threshold.hpp       | 49 +++++++++---------
 .../weighted_peaks_over_threshold.hpp         | 50 ++++++++++---------
 2 files changed, 52 insertions(+), 47 deletions(-)

diff --git a/include/boost/accumulators/statistics/peaks_over_threshold.hpp b/include/boost/accumulators/statistics/peaks_over_threshold.hpp
index de73c65..925c12f 100644
--- a/include/boost/accumulators/statistics/peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/peaks_over_threshold.hpp
@@ -164,15 +164,15 @@ namespace impl
 
                 std::size_t cnt = count(args);
 
-                this->mu_ = sign::value * numeric::fdiv(this->mu_, this->Nu_);
-                this->sigma2_ = numeric::fdiv(this->sigma2_, this->Nu_);
-                this->sigma2_ -= this->mu_ * this->mu_;
+                float_type mu = sign::value * numeric::fdiv(this->mu_, this->Nu_);
+                float_type sigma2 = numeric::fdiv(this->sigma2_, this->Nu_);
+                sigma2 -= mu * mu;
 
                 float_type threshold_probability = numeric::fdiv(cnt - this->Nu_, cnt);
 
-                float_type tmp = numeric::fdiv(( this->mu_ - this->threshold_ )*( this->mu_ - this->threshold_ ), this->sigma2_);
+                float_type tmp = numeric::fdiv(( mu - this->threshold_ )*( mu - this->threshold_ ), sigma2);
                 float_type xi_hat = 0.5 * ( 1. - tmp );
-                float_type beta_hat = 0.5 * ( this->mu_ - this->threshold_ ) * ( 1. + tmp );
+                float_type beta_hat = 0.5 * ( mu - this->threshold_ ) * ( 1. + tmp );
                 float_type beta_bar = beta_hat * std::pow(1. - threshold_probability, xi_hat);
                 float_type u_bar = this->threshold_ - beta_bar * ( std::pow(1. - threshold_probability, -xi_hat) - 1.)/xi_hat;
                 this->fit_parameters_ = boost::make_tuple(u_bar, beta_bar, xi_hat);
@@ -198,8 +198,8 @@ namespace impl
 
     private:
         std::size_t Nu_;                     // number of samples larger than threshold
-        mutable float_type mu_;              // mean of Nu_ largest samples
-        mutable float_type sigma2_;          // variance of Nu_ largest samples
+        float_type mu_;                      // mean of Nu_ largest samples
+        float_type sigma2_;                  // variance of Nu_ largest samples
         float_type threshold_;
         mutable result_type fit_parameters_; // boost::tuple that stores fit parameters
         mutable bool is_dirty_;
@@ -246,8 +246,6 @@ namespace impl
         {
             if (this->is_dirty_)
             {
-                this->is_dirty_ = false;
-
                 std::size_t cnt = count(args);
 
                 // the n'th cached sample provides an approximate threshold value u
@@ -258,7 +256,7 @@ namespace impl
                 );
 
                 // If n is in a valid range, return result, otherwise return NaN or throw exception
-                if ( n >= static_cast<std::size_t>(tail(args).size()))
+                if ( n == 0 || n > static_cast<std::size_t>(tail(args).size()))
                 {
                     if (std::numeric_limits<float_type>::has_quiet_NaN)
                     {
@@ -281,25 +279,30 @@ namespace impl
                     float_type u = *(tail(args).begin() + n - 1) * sign::value;
 
                     // compute mean and variance of samples above/under threshold value u
+                    float_type mu = this->mu_;
+                    float_type sigma2 = this->sigma2_;
+
                     for (std::size_t i = 0; i < n; ++i)
                     {
-                        mu_ += *(tail(args).begin() + i);
-                        sigma2_ += *(tail(args).begin() + i) * (*(tail(args).begin() + i));
+                        mu += *(tail(args).begin() + i);
+                        sigma2 += *(tail(args).begin() + i) * (*(tail(args).begin() + i));
                     }
 
-                    this->mu_ = sign::value * numeric::fdiv(this->mu_, n);
-                    this->sigma2_ = numeric::fdiv(this->sigma2_, n);
-                    this->sigma2_ -= this->mu_ * this->mu_;
+                    mu = sign::value * numeric::fdiv(mu, n);
+                    sigma2 = numeric::fdiv(sigma2, n);
+                    sigma2 -= mu * mu;
 
+                    float_type threshold_probability = this->threshold_probability_;
                     if (is_same<LeftRight, left>::value)
-                        this->threshold_probability_ = 1. - this->threshold_probability_;
+                        threshold_probability = 1. - threshold_probability;
 
-                    float_type tmp = numeric::fdiv(( this->mu_ - u )*( this->mu_ - u ), this->sigma2_);
+                    float_type tmp = numeric::fdiv(( mu - u )*( mu - u ), sigma2);
                     float_type xi_hat = 0.5 * ( 1. - tmp );
-                    float_type beta_hat = 0.5 * ( this->mu_ - u ) * ( 1. + tmp );
-                    float_type beta_bar = beta_hat * std::pow(1. - threshold_probability_, xi_hat);
-                    float_type u_bar = u - beta_bar * ( std::pow(1. - threshold_probability_, -xi_hat) - 1.)/xi_hat;
+                    float_type beta_hat = 0.5 * ( mu - u ) * ( 1. + tmp );
+                    float_type beta_bar = beta_hat * std::pow(1. - threshold_probability, xi_hat);
+                    float_type u_bar = u - beta_bar * ( std::pow(1. - threshold_probability, -xi_hat) - 1.)/xi_hat;
                     this->fit_parameters_ = boost::make_tuple(u_bar, beta_bar, xi_hat);
+                    this->is_dirty_ = false;
                 }
             }
 
@@ -321,9 +324,9 @@ namespace impl
         }
 
     private:
-        mutable float_type mu_;                     // mean of samples above threshold u
-        mutable float_type sigma2_;                 // variance of samples above threshold u
-        mutable float_type threshold_probability_;
+        float_type mu_;                             // mean of samples above threshold u
+        float_type sigma2_;                         // variance of samples above threshold u
+        float_type threshold_probability_;
         mutable result_type fit_parameters_;        // boost::tuple that stores fit parameters
         mutable bool is_dirty_;
     };
diff --git a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
index f3dc327..062429b 100644
--- a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
@@ -92,15 +92,15 @@ namespace impl
             {
                 this->is_dirty_ = false;
 
-                this->mu_ = this->sign_ * numeric::fdiv(this->mu_, this->w_sum_);
-                this->sigma2_ = numeric::fdiv(this->sigma2_, this->w_sum_);
-                this->sigma2_ -= this->mu_ * this->mu_;
+                float_type mu = this->sign_ * numeric::fdiv(this->mu_, this->w_sum_);
+                float_type sigma2 = numeric::fdiv(this->sigma2_, this->w_sum_);
+                sigma2 -= mu * mu;
 
                 float_type threshold_probability = numeric::fdiv(sum_of_weights(args) - this->w_sum_, sum_of_weights(args));
 
-                float_type tmp = numeric::fdiv(( this->mu_ - this->threshold_ )*( this->mu_ - this->threshold_ ), this->sigma2_);
+                float_type tmp = numeric::fdiv(( mu - this->threshold_ )*( mu - this->threshold_ ), sigma2);
                 float_type xi_hat = 0.5 * ( 1. - tmp );
-                float_type beta_hat = 0.5 * ( this->mu_ - this->threshold_ ) * ( 1. + tmp );
+                float_type beta_hat = 0.5 * ( mu - this->threshold_ ) * ( 1. + tmp );
                 float_type beta_bar = beta_hat * std::pow(1. - threshold_probability, xi_hat);
                 float_type u_bar = this->threshold_ - beta_bar * ( std::pow(1. - threshold_probability, -xi_hat) - 1.)/xi_hat;
                 this->fit_parameters_ = boost::make_tuple(u_bar, beta_bar, xi_hat);
@@ -124,9 +124,9 @@ namespace impl
 
     private:
         short sign_;                         // for left tail fitting, mirror the extreme values
-        mutable float_type mu_;              // mean of samples above threshold
-        mutable float_type sigma2_;          // variance of samples above threshold
-        mutable float_type w_sum_;           // sum of weights of samples above threshold
+        float_type mu_;                      // mean of samples above threshold
+        float_type sigma2_;                  // variance of samples above threshold
+        float_type w_sum_;                   // sum of weights of samples above threshold
         float_type threshold_;
         mutable result_type fit_parameters_; // boost::tuple that stores fit parameters
         mutable bool is_dirty_;
@@ -173,20 +173,20 @@ namespace impl
         {
             if (this->is_dirty_)
             {
-                this->is_dirty_ = false;
-
                 float_type threshold = sum_of_weights(args)
                              * ( ( is_same<LeftRight, left>::value ) ? this->threshold_probability_ : 1. - this->threshold_probability_ );
 
                 std::size_t n = 0;
                 Weight sum = Weight(0);
+                float_type mu = this->mu_;
+                float_type sigma2 = this->sigma2_;
 
-                while (sum < threshold)
+                while (sum < threshold || n == 0)
                 {
                     if (n < static_cast<std::size_t>(tail_weights(args).size()))
                     {
-                        mu_ += *(tail_weights(args).begin() + n) * *(tail(args).begin() + n);
-                        sigma2_ += *(tail_weights(args).begin() + n) * *(tail(args).begin() + n) * (*(tail(args).begin() + n));
+                        mu += *(tail_weights(args).begin() + n) * *(tail(args).begin() + n);
+                        sigma2 += *(tail_weights(args).begin() + n) * *(tail(args).begin() + n) * (*(tail(args).begin() + n));
                         sum += *(tail_weights(args).begin() + n);
                         n++;
                     }
@@ -213,19 +213,21 @@ namespace impl
                 float_type u = *(tail(args).begin() + n - 1) * this->sign_;
 
 
-                this->mu_ = this->sign_ * numeric::fdiv(this->mu_, sum);
-                this->sigma2_ = numeric::fdiv(this->sigma2_, sum);
-                this->sigma2_ -= this->mu_ * this->mu_;
+                mu = this->sign_ * numeric::fdiv(mu, sum);
+                sigma2 = numeric::fdiv(sigma2, sum);
+                sigma2 -= mu * mu;
 
+                float_type threshold_probability = this->threshold_probability_;
                 if (is_same<LeftRight, left>::value)
-                    this->threshold_probability_ = 1. - this->threshold_probability_;
+                    threshold_probability = 1. - threshold_probability;
 
-                float_type tmp = numeric::fdiv(( this->mu_ - u )*( this->mu_ - u ), this->sigma2_);
+                float_type tmp = numeric::fdiv(( mu - u )*( mu - u ), sigma2);
                 float_type xi_hat = 0.5 * ( 1. - tmp );
-                float_type beta_hat = 0.5 * ( this->mu_ - u ) * ( 1. + tmp );
-                float_type beta_bar = beta_hat * std::pow(1. - threshold_probability_, xi_hat);
-                float_type u_bar = u - beta_bar * ( std::pow(1. - threshold_probability_, -xi_hat) - 1.)/xi_hat;
+                float_type beta_hat = 0.5 * ( mu - u ) * ( 1. + tmp );
+                float_type beta_bar = beta_hat * std::pow(1. - threshold_probability, xi_hat);
+                float_type u_bar = u - beta_bar * ( std::pow(1. - threshold_probability, -xi_hat) - 1.)/xi_hat;
                 this->fit_parameters_ = boost::make_tuple(u_bar, beta_bar, xi_hat);
+                this->is_dirty_ = false;
 
             }
 
@@ -234,9 +236,9 @@ namespace impl
 
     private:
         short sign_;                                // for left tail fitting, mirror the extreme values
-        mutable float_type mu_;                     // mean of samples above threshold u
-        mutable float_type sigma2_;                 // variance of samples above threshold u
-        mutable float_type threshold_probability_;
+        float_type mu_;                             // mean of samples above threshold u
+        float_type sigma2_;                         // variance of samples above threshold u
+        float_type threshold_probability_;
         mutable result_type fit_parameters_;        // boost::tuple that stores fit parameters
         mutable bool is_dirty_;
     };
-- 
2.43.0


From 0920e4ac0de708cb00b217ed3f71fb3506d31777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:51 +0000
Subject: [PATCH 13/20] fix: order features after the dependencies of every
 rolling_mean implementation

immediate_rolling_variance uses rolling_mean while it is updated. With
lazy_rolling_mean listed after it, the feature order did not know that the
mean needs rolling_sum, so the variance was computed from a stale sum.
---
 .../boost/accumulators/statistics/rolling_mean.hpp  | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/boost/accumulators/statistics/rolling_mean.hpp b/include/boost/accumulators/statistics/rolling_mean.hpp
index bd5494c..0a731b1 100644
--- a/include/boost/accumulators/statistics/rolling_mean.hpp
+++ b/include/boost/accumulators/statistics/rolling_mean.hpp
@@ -177,18 +177,21 @@ namespace boost { namespace accumulators
    };
 
    // for the purposes of feature-based dependency resolution,
-   // immediate_rolling_mean provides the same feature as rolling_mean
+   // immediate_rolling_mean provides the same feature as lazy_rolling_mean.
+   // Note: lazy_rolling_mean stands for the feature as it has all the dependencies
+   // of the other implementations; whatever depends on rolling_mean must be
+   // ordered after them, whichever implementation is selected.
    template<>
    struct feature_of<tag::immediate_rolling_mean>
-      : feature_of<tag::rolling_mean>
+      : feature_of<tag::lazy_rolling_mean>
    {
    };
 
    // for the purposes of feature-based dependency resolution,
-   // lazy_rolling_mean provides the same feature as rolling_mean
+   // rolling_mean provides the same feature as lazy_rolling_mean
    template<>
-   struct feature_of<tag::lazy_rolling_mean>
-      : feature_of<tag::rolling_mean>
+   struct feature_of<tag::rolling_mean>
+      : feature_of<tag::lazy_rolling_mean>
    {
    };
 }} // namespace boost::accumulators
-- 
2.43.0


From 21df4d4aa52db23f6ba82f27cd827186f830730a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:35 +0000
Subject: [PATCH 14/20] fix: dropping a feature drops the dependencies of its
 actual accumulator

---
 include/boost/accumulators/framework/accumulator_set.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/boost/accumulators/framework/accumulator_set.hpp b/include/boost/accumulators/framework/accumulator_set.hpp
index e89e5e9..8a86c51 100644
--- a/include/boost/accumulators/framework/accumulator_set.hpp
+++ b/include/boost/accumulators/framework/accumulator_set.hpp
@@ -430,15 +430,12 @@ struct accumulator_set
         typedef typename apply<Feature>::type the_accumulator;
         BOOST_MPL_ASSERT((detail::contains_feature_of<Features, the_accumulator>));
 
-        typedef
-            typename feature_of<typename as_feature<Feature>::type>::type
-        the_feature;
-
         (*fusion::find_if<detail::matches_feature<Feature> >(this->accumulators))
             .drop(boost::accumulators::accumulator = *this);
 
-        // Also drop accumulators that this feature depends on
-        typedef typename the_feature::dependencies dependencies;
+        // Also drop accumulators that this feature depends on, i.e. the
+        // dependencies that were add_ref'ed, those of the actual accumulator
+        typedef typename the_accumulator::feature_tag::dependencies dependencies;
         this->template visit_if<detail::contains_feature_of_<dependencies> >(
             detail::make_drop_visitor(boost::accumulators::accumulator = *this)
         );
-- 
2.43.0


From 9eda1f623bcd28bb3a06f6d8486376ab80480f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:13 +0000
Subject: [PATCH 15/20] fix: with_cached_result must not read or destroy a
 cache that was never filled

---
 .../accumulators/droppable_accumulator.hpp          | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/boost/accumulators/framework/accumulators/droppable_accumulator.hpp b/include/boost/accumulators/framework/accumulators/droppable_accumulator.hpp
index 21fdb51..0f41693 100644
--- a/include/boost/accumulators/framework/accumulators/droppable_accumulator.hpp
+++ b/include/boost/accumulators/framework/accumulators/droppable_accumulator.hpp
@@ -192,12 +192,14 @@ namespace boost { namespace accumulators
         with_cached_result(Args const &args)
           : Accumulator(args)
           , cache()
+          , has_result_(false)
         {
         }
 
         with_cached_result(with_cached_result const &that)
           : Accumulator(*static_cast<Accumulator const *>(&that))
           , cache()
+          , has_result_(false)
         {
             if(that.has_result())
             {
@@ -207,10 +209,6 @@ namespace boost { namespace accumulators
 
         ~with_cached_result()
         {
-            // Since this is a base class of droppable_accumulator_base,
-            // this destructor is called before any of droppable_accumulator_base's
-            // members get cleaned up, including is_dropped, so the following
-            // call to has_result() is valid.
             if(this->has_result())
             {
                 this->get().~result_type();
@@ -237,6 +235,7 @@ namespace boost { namespace accumulators
         void set(result_type const &r)
         {
             ::new(this->cache.address()) result_type(r);
+            this->has_result_ = true;
         }
 
         result_type const &get() const
@@ -246,12 +245,12 @@ namespace boost { namespace accumulators
 
         bool has_result() const
         {
-            typedef with_cached_result<Accumulator> this_type;
-            typedef droppable_accumulator_base<this_type> derived_type;
-            return static_cast<derived_type const *>(this)->is_dropped();
+            // Not is_dropped(): the reference count is 0 also before the first add_ref()
+            return this->has_result_;
         }
 
         aligned_storage<sizeof(result_type)> cache;
+        bool has_result_;
     };
 
     namespace tag
-- 
2.43.0


From 226507c2b7b45cb0918fca43015b49053fbb5bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:15 +0000
Subject: [PATCH 16/20] fix: sum_kahan and weighted_sum_kahan compensation must
 have the dimension of the sample

---
 include/boost/accumulators/statistics/sum_kahan.hpp          | 2 +-
 include/boost/accumulators/statistics/weighted_sum_kahan.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/accumulators/statistics/sum_kahan.hpp b/include/boost/accumulators/statistics/sum_kahan.hpp
index b5e9092..b333eee 100644
--- a/include/boost/accumulators/statistics/sum_kahan.hpp
+++ b/include/boost/accumulators/statistics/sum_kahan.hpp
@@ -44,7 +44,7 @@ struct sum_kahan_impl
     template<typename Args>
     sum_kahan_impl(Args const & args)
       : sum(args[parameter::keyword<Tag>::get() | Sample()]),
-        compensation(boost::numeric_cast<Sample>(0.0))
+        compensation(numeric::as_zero(sum))
     {
     }
 
diff --git a/include/boost/accumulators/statistics/weighted_sum_kahan.hpp b/include/boost/accumulators/statistics/weighted_sum_kahan.hpp
index 5ee5250..0f258ff 100644
--- a/include/boost/accumulators/statistics/weighted_sum_kahan.hpp
+++ b/include/boost/accumulators/statistics/weighted_sum_kahan.hpp
@@ -45,7 +45,7 @@ namespace impl
         weighted_sum_kahan_impl(Args const &args)
           : weighted_sum_(
                 args[parameter::keyword<Tag>::get() | Sample()] * numeric::one<Weight>::value),
-                compensation(boost::numeric_cast<weighted_sample>(0.0))
+                compensation(numeric::as_zero(weighted_sum_))
         {
         }
 
-- 
2.43.0


From cc0800544e8e21b4a8dc891799f2e6b788fa2be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:35 +0000
Subject: [PATCH 17/20] fix: a rolling window that has wrapped around must be
 saved in the form load() reads

---
 .../boost/accumulators/statistics/rolling_window.hpp   | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/boost/accumulators/statistics/rolling_window.hpp b/include/boost/accumulators/statistics/rolling_window.hpp
index 63303b7..f0d83d5 100644
--- a/include/boost/accumulators/statistics/rolling_window.hpp
+++ b/include/boost/accumulators/statistics/rolling_window.hpp
@@ -8,6 +8,7 @@
 #ifndef BOOST_ACCUMULATORS_STATISTICS_ROLLING_WINDOW_HPP_EAN_26_12_2008
 #define BOOST_ACCUMULATORS_STATISTICS_ROLLING_WINDOW_HPP_EAN_26_12_2008
 
+#include <algorithm>
 #include <cstddef>
 #include <boost/version.hpp>
 #include <boost/assert.hpp>
@@ -32,10 +33,11 @@ void save(Archive& ar, const circular_buffer<T>& b, const unsigned int /* versio
     typename circular_buffer<T>::size_type size = b.size();
     ar << b.capacity();
     ar << size;
-    const typename circular_buffer<T>::const_array_range one = b.array_one();
-    const typename circular_buffer<T>::const_array_range two = b.array_two();
-    ar.save_binary(one.first, one.second*sizeof(T));
-    ar.save_binary(two.first, two.second*sizeof(T));
+    // written as one block, because load() reads it back as one block
+    T* const buff = new T[size];
+    std::copy(b.begin(), b.end(), buff);
+    ar.save_binary(buff, size*sizeof(T));
+    delete[] buff;
 }
 
 template <class Archive, class T>
-- 
2.43.0


From d6e13239074652d6568f1289a7632a53a9b7c185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:35 +0000
Subject: [PATCH 18/20] fix: tail_variate_impl::serialize must be accessible

---
 .../accumulators/statistics/tail_variate.hpp      | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/include/boost/accumulators/statistics/tail_variate.hpp b/include/boost/accumulators/statistics/tail_variate.hpp
index 6885ece..9897095 100644
--- a/include/boost/accumulators/statistics/tail_variate.hpp
+++ b/include/boost/accumulators/statistics/tail_variate.hpp
@@ -59,6 +59,13 @@ namespace impl
             return this->do_result(some_tail(args));
         }
 
+        // make this accumulator serializeable
+        template<class Archive>
+        void serialize(Archive & ar, const unsigned int file_version)
+        { 
+            ar & variates;
+        }
+
     private:
         template<typename TailRng>
         result_type do_result(TailRng const &rng) const
@@ -70,14 +77,6 @@ namespace impl
             );
         }
 
-        // make this accumulator serializeable
-        template<class Archive>
-        void serialize(Archive & ar, const unsigned int file_version)
-        { 
-            ar & variates;
-        }
-
-    private:
         std::vector<VariateType> variates;
     };
 
-- 
2.43.0


From 857894977401099fa15fd8ee1fef6cb03f88a089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:35 +0000
Subject: [PATCH 19/20] fix: weighted_peaks_over_threshold must serialize its
 sum of weights, and its fit parameters element by element

---
 .../statistics/weighted_peaks_over_threshold.hpp             | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
index 062429b..c7a3f76 100644
--- a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
@@ -117,8 +117,11 @@ namespace impl
             ar & sign_;
             ar & mu_;
             ar & sigma2_;
+            ar & w_sum_;
             ar & threshold_;
-            ar & fit_parameters_;
+            ar & get<0>(fit_parameters_);
+            ar & get<1>(fit_parameters_);
+            ar & get<2>(fit_parameters_);
             ar & is_dirty_;
         }
 
-- 
2.43.0


From c242939512c727e027e314cd9c75c0a65c066408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:37 +0000
Subject: [PATCH 20/20] fix: numeric::one of std::complex is 1, not 1+i

---
 include/boost/accumulators/numeric/functional/complex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/accumulators/numeric/functional/complex.hpp b/include/boost/accumulators/numeric/functional/complex.hpp
index ea8c033..40d2efb 100644
--- a/include/boost/accumulators/numeric/functional/complex.hpp
+++ b/include/boost/accumulators/numeric/functional/complex.hpp
@@ -60,7 +60,7 @@ namespace boost { namespace numeric
 
         template<typename T>
         std::complex<T> const one_complex<T>::value
-          = std::complex<T>(numeric::one<T>::value, numeric::one<T>::value);
+          = std::complex<T>(numeric::one<T>::value, T());
     }
 
     /// INTERNAL ONLY
-- 
2.43.0

