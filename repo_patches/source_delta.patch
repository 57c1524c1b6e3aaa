From 5b02bcd63285dc65a7562394ca312eb993c6fb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:02 +0000
Subject: [PATCH 01/61] fix: divide as double when computing linear wavelet
 scales

---
 src/dsp/wavelet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsp/wavelet.cpp b/src/dsp/wavelet.cpp
index 0962d16..1f7914b 100644
--- a/src/dsp/wavelet.cpp
+++ b/src/dsp/wavelet.cpp
@@ -92,7 +92,7 @@ void Wavelet::createScale(ScaleType type)
 
         case Linear :
         {
-            double k = max_lenght() / min_lenght();
+            double k = static_cast<double>(max_lenght()) / min_lenght();
             for (int i = 1; i <= count(); ++i)
             {
                 scale_.at(i-1) = i / (double)count() * k;
-- 
2.43.0


From 198d5cdf28cdb309e338388bccc43c3c5d2ee9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 02/61] fix: reject NaN in AkimaSpline::Value instead of
 reading before the coefficients

---
 src/dsp/akima_spline.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dsp/akima_spline.cpp b/src/dsp/akima_spline.cpp
index 1c5401d..c63586f 100644
--- a/src/dsp/akima_spline.cpp
+++ b/src/dsp/akima_spline.cpp
@@ -120,7 +120,8 @@ std::size_t AkimaSpline::ResolveInterval(double x) const
 {
     std::vector<double>::const_iterator upper_bound = std::upper_bound(train_x_.begin(), train_x_.end(), x);
 
-    if (upper_bound == train_x_.begin())
+    // A NaN does not compare to anything, so that the search finds the end for it
+    if (upper_bound == train_x_.begin() || x != x)
     {
         throw std::out_of_range("X value is out of range in Akima spline");
     }
-- 
2.43.0


From 5807dedeb136ff347c7f5e1ab47c43925187ae4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:37 +0000
Subject: [PATCH 03/61] fix: end the knots of a spline based wavelet exactly at
 4

---
 src/dsp/spline_based_wavelet_function.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dsp/spline_based_wavelet_function.cpp b/src/dsp/spline_based_wavelet_function.cpp
index 37f38e3..df93015 100644
--- a/src/dsp/spline_based_wavelet_function.cpp
+++ b/src/dsp/spline_based_wavelet_function.cpp
@@ -30,7 +30,8 @@ void SplineBased::Init(const std::vector<double> &real, const std::vector<double
     points[0] = points[1] - (points[2] - points[1]);
     values[0] = 0;
     int size(points.size());
-    points[size - 1] = points[size - 2] - (points[size - 3] - points[size - 2]);
+    // end of the effective part, exactly (the sum of steps can be rounded below it)
+    points[size - 1] = 4;
     values[size - 1] = 0;
 
     spline_->Initialize(points, values);
-- 
2.43.0


From 3282104818b1f456d73fed0969780235fd9f538b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:41 +0000
Subject: [PATCH 04/61] fix: reject an empty point list in SplineBased::Init
 instead of reading beyond it

---
 src/dsp/spline_based_wavelet_function.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dsp/spline_based_wavelet_function.cpp b/src/dsp/spline_based_wavelet_function.cpp
index df93015..0bf7f58 100644
--- a/src/dsp/spline_based_wavelet_function.cpp
+++ b/src/dsp/spline_based_wavelet_function.cpp
@@ -2,6 +2,7 @@
 
 // standart headers
 #include <algorithm>
+#include <stdexcept>
 #include <stdint.h>
 #include <vector>
 
@@ -17,6 +18,11 @@ std::complex<double> SplineBased::GetValue(double t)
 
 void SplineBased::Init(const std::vector<double> &real, const std::vector<double> &imaj)
 {
+    if (real.empty())
+    {
+        throw std::invalid_argument("Spline based wavelet requires at least one point");
+    }
+
     std::vector<double> points(real.size() + 2);
     double delta = 8. / real.size();
     for (size_t i = 0; i < real.size(); ++i)
-- 
2.43.0


From ff23cba126fdeb48f959d5c4cac77725e75b031c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 05/61] fix: do not insert empty records when looking up the
 cache

---
 include/k52/common/cache.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/k52/common/cache.h b/include/k52/common/cache.h
index bebf1ce..a556fd9 100644
--- a/include/k52/common/cache.h
+++ b/include/k52/common/cache.h
@@ -75,18 +75,18 @@ typename Cache<TKey, TValue>::shared_ptr Cache<TKey, TValue>::Create(double data
 template <typename TKey, typename TValue>
 bool Cache<TKey, TValue>::IsCached(const TKey& key)
 {
-    StoredValue<TValue> stored_value = cache_map_[key];
-    return stored_value.has_value();
+    typename Cache<TKey, TValue>::cache_map_type::iterator it = cache_map_.find(key);
+    return it != cache_map_.end() && it->second.has_value();
 }
 
 template <typename TKey, typename TValue>
 TValue Cache<TKey, TValue>::GetCachedValue(const TKey& key)
 {
-    StoredValue<TValue>& stored_value = cache_map_[key];
-    if (stored_value.has_value())
+    typename Cache<TKey, TValue>::cache_map_type::iterator it = cache_map_.find(key);
+    if (it != cache_map_.end() && it->second.has_value())
     {
-        stored_value.IncrementUsage();
-        return stored_value.get_value();
+        it->second.IncrementUsage();
+        return it->second.get_value();
     }
     else
     {
-- 
2.43.0


From c5294535dbb01796743bbd92bd53ca64273b370a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 06/61] fix: merge settings by key, not by path

---
 include/k52/common/settings_manager.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/k52/common/settings_manager.h b/include/k52/common/settings_manager.h
index a47208e..2ee8584 100644
--- a/include/k52/common/settings_manager.h
+++ b/include/k52/common/settings_manager.h
@@ -112,11 +112,11 @@ protected:
             if (merged_tree.end() != found)
             {
                 // Do not overload value of existed property, just add subtrees
-                merged_tree.get_child(it->first) = Merge(found->second, it->second);
+                found->second = Merge(found->second, it->second);
             }
             else
             {
-                merged_tree.put_child(it->first, it->second);
+                merged_tree.push_back(*it);
             }
         }
         return merged_tree;
-- 
2.43.0


From 05babf4cfd2b067efe17e4d127811d8f94df19d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 07/61] fix: use only the bits rand() provides for random
 booleans

---
 src/common/random.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common/random.cpp b/src/common/random.cpp
index e31dd0e..9883c21 100644
--- a/src/common/random.cpp
+++ b/src/common/random.cpp
@@ -77,11 +77,12 @@ Random::Random()
 
     for (std::size_t i = 0; i < sizeof(int) * 8; i++)
     {
-        max_bool_base_value *= 2;
-        if (max_bool_base_value > RAND_MAX)
+        // Compare before doubling, as the double of the last value does not fit into int
+        if (max_bool_base_value > RAND_MAX / 2)
         {
             break;
         }
+        max_bool_base_value *= 2;
         max_bit_in_bool_base_ ++;
     }
 }
-- 
2.43.0


From 49441b5441232067bb6c64c257884852695e1393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:04 +0000
Subject: [PATCH 08/61] fix: never let an event of probability 0 happen

---
 src/common/random.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/random.cpp b/src/common/random.cpp
index 9883c21..782843f 100644
--- a/src/common/random.cpp
+++ b/src/common/random.cpp
@@ -61,7 +61,9 @@ bool Random::CheckEventOutcome(double event_probability)
 {
     ValidateProbability(event_probability);
 
-    return GetBaseRandomQuantity() <= event_probability;
+    //The base quantity can be 0, which must not make an impossible event happen
+    double base = GetBaseRandomQuantity();
+    return event_probability > 0 && base <= event_probability;
 }
 
 Random::Random()
-- 
2.43.0


From cbe13ef0e1284d3a108d8bc91434e634522ea7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:07 +0000
Subject: [PATCH 09/61] fix: give discrete parameters enough bits for their
 largest value

---
 src/optimization/params/double_parameter.cpp | 3 ++-
 src/optimization/params/int_parameter.cpp    | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/optimization/params/double_parameter.cpp b/src/optimization/params/double_parameter.cpp
index cab781e..c26aa15 100644
--- a/src/optimization/params/double_parameter.cpp
+++ b/src/optimization/params/double_parameter.cpp
@@ -128,11 +128,12 @@ int DoubleParameter::GetMaxInt(double min_value, double max_value, double precis
 
 int DoubleParameter::CountBestMaxInt(int initial_max_int)
 {
+    //The largest int of some number of bits, so that each chromosome represents a value
     int best_max_int = 1;
 
     while(initial_max_int>best_max_int)
     {
-        best_max_int *= 2;
+        best_max_int = best_max_int * 2 + 1;
     }
 
     return best_max_int;
diff --git a/src/optimization/params/int_parameter.cpp b/src/optimization/params/int_parameter.cpp
index 50f83ee..decd7f4 100644
--- a/src/optimization/params/int_parameter.cpp
+++ b/src/optimization/params/int_parameter.cpp
@@ -87,12 +87,12 @@ void IntParameter::Initialize(int value, int min_value, int max_value)
 
 size_t IntParameter::CountChromosomeSize(int min_value, int max_value)
 {
-    int x = 1;
+    //Number of bits needed for the largest difference to be represented
     int target = max_value - min_value;
     size_t power = 0;
-    while(target>x)
+    while(target > 0)
     {
-        x*=2;
+        target /= 2;
         power++;
     }
     return power;
-- 
2.43.0


From f6cf681c4d63699b8f0087fa6081cee9fd18ce7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:23 +0000
Subject: [PATCH 10/61] fix: round to the nearest value in
 DoubleParameter::SetValue

---
 src/optimization/params/double_parameter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/optimization/params/double_parameter.cpp b/src/optimization/params/double_parameter.cpp
index c26aa15..c2c79e4 100644
--- a/src/optimization/params/double_parameter.cpp
+++ b/src/optimization/params/double_parameter.cpp
@@ -97,7 +97,8 @@ double DoubleParameter::GetValue() const
 
 void DoubleParameter::SetValue(double value)
 {
-    int int_value = (int)((value - min_value_)/precision_);
+    //Round to the nearest, as truncation turns a value gotten by GetValue into its neighbour
+    int int_value = (int)std::floor((value - min_value_)/precision_ + 0.5);
     base_int_parameter_->set_value(int_value);
 }
 
-- 
2.43.0


From 0aeac9e4823f7f403ea6e5cd9dfcb5631f7145ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:28 +0000
Subject: [PATCH 11/61] fix: return exactly the upper bound for the largest
 value of DoubleParameter

---
 src/optimization/params/double_parameter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/optimization/params/double_parameter.cpp b/src/optimization/params/double_parameter.cpp
index c2c79e4..aa67ee0 100644
--- a/src/optimization/params/double_parameter.cpp
+++ b/src/optimization/params/double_parameter.cpp
@@ -92,6 +92,12 @@ void DoubleParameter::SetFromChromosome(ChromosomeType::const_iterator from, Chr
 
 double DoubleParameter::GetValue() const
 {
+    if(base_int_parameter_->get_value() == base_int_parameter_->get_max_value())
+    {
+        //The sum below can be rounded beyond the upper bound
+        return max_value_;
+    }
+
     return  base_int_parameter_->get_value() * precision_ + min_value_;
 }
 
-- 
2.43.0


From 3010eab078f97514c741c7097910ac2af8743ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:04 +0000
Subject: [PATCH 12/61] fix: keep composite parameters as they were when
 initialized twice

---
 .../params/composite_discrete_parameters.cpp  | 26 ++++++++++++-------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/optimization/params/composite_discrete_parameters.cpp b/src/optimization/params/composite_discrete_parameters.cpp
index b117c77..e607c26 100644
--- a/src/optimization/params/composite_discrete_parameters.cpp
+++ b/src/optimization/params/composite_discrete_parameters.cpp
@@ -81,30 +81,36 @@ void CompositeDiscreteParameters::SetFromChromosome(ChromosomeType::const_iterat
 
 void CompositeDiscreteParameters::Initialize(const std::vector<IDiscreteParameters::shared_ptr>& parameters)
 {
-    parameters_set_ = std::vector<IDiscreteParameters::shared_ptr>(parameters.size());
+    std::vector<IDiscreteParameters::shared_ptr> parameters_set(parameters.size());
 
-    for(size_t i=0; i<parameters_set_.size(); i++)
+    for(size_t i=0; i<parameters_set.size(); i++)
     {
-        parameters_set_[i] = IDiscreteParameters::shared_ptr(parameters[i]->Clone());
+        parameters_set[i] = IDiscreteParameters::shared_ptr(parameters[i]->Clone());
     }
 
-    this->SetConstChromosomeSize( CountTotalChromosomeSize() );
-
+    //Throws if was already initialized, so nothing should be changed before
     initialization_checker_.SetInitialized();
+
+    parameters_set_ = parameters_set;
+
+    this->SetConstChromosomeSize( CountTotalChromosomeSize() );
 }
 
 void CompositeDiscreteParameters::Initialize(const IDiscreteParameters::shared_ptr& sample_parameter, size_t number_of_parameters)
 {
-    parameters_set_ = std::vector<IDiscreteParameters::shared_ptr>(number_of_parameters);
+    std::vector<IDiscreteParameters::shared_ptr> parameters_set(number_of_parameters);
 
-    for(size_t i=0; i<parameters_set_.size(); i++)
+    for(size_t i=0; i<parameters_set.size(); i++)
     {
-        parameters_set_[i] = IDiscreteParameters::shared_ptr(sample_parameter->Clone());
+        parameters_set[i] = IDiscreteParameters::shared_ptr(sample_parameter->Clone());
     }
 
-    this->SetConstChromosomeSize( CountTotalChromosomeSize() );
-
+    //Throws if was already initialized, so nothing should be changed before
     initialization_checker_.SetInitialized();
+
+    parameters_set_ = parameters_set;
+
+    this->SetConstChromosomeSize( CountTotalChromosomeSize() );
 }
 
 size_t CompositeDiscreteParameters::GetNumberOfParameters() const
-- 
2.43.0


From 0ac313536882d393da4bcd78823e1d59e138e725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 13/61] fix: check array values exactly and keep the old ones
 when rejecting

---
 src/optimization/params/double_parameters_array.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/optimization/params/double_parameters_array.cpp b/src/optimization/params/double_parameters_array.cpp
index 1e11e75..c67c215 100644
--- a/src/optimization/params/double_parameters_array.cpp
+++ b/src/optimization/params/double_parameters_array.cpp
@@ -46,8 +46,8 @@ bool DoubleParametersArray::CheckConstraints() const
 {
     for(size_t i=0; i<values_.size(); i++)
     {
-        sample_parameter_->SetValue(values_[i]);
-        if(!sample_parameter_->CheckConstraints())
+        //Negated so that NaN does not satisfy constraints
+        if(!(values_[i] >= get_min_value() && values_[i] <= get_max_value()))
         {
             return false;
         }
@@ -102,10 +102,12 @@ void DoubleParametersArray::SetValues(const std::vector<double>& values)
         throw std::invalid_argument("Values has incorrect size.");
     }
 
+    std::vector<double> previous_values = values_;
     values_ = values;
 
     if (!CheckConstraints())
     {
+        values_ = previous_values;
         throw std::invalid_argument("One of the values does not satisfy constraints.");
     }
 }
-- 
2.43.0


From 516271f0a26ea9eee69b028d10d2ea9035efac2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:34 +0000
Subject: [PATCH 14/61] fix: synchronize parameters of a new individual with
 its chromosome

---
 src/optimization/genetic_algorithm/individual.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/optimization/genetic_algorithm/individual.cpp b/src/optimization/genetic_algorithm/individual.cpp
index 70e0e24..81276ee 100644
--- a/src/optimization/genetic_algorithm/individual.cpp
+++ b/src/optimization/genetic_algorithm/individual.cpp
@@ -69,6 +69,9 @@ void Individual::Initialize(const IDiscreteParameters* const parameters)
     times_chosen_for_crossover_ = 0;
 
     initialization_checker_.SetInitialized();
+
+    //Values that are not exactly representable in chromosome must be synchronized with it
+    this->SetParametersAccordingToChromosome();
 }
 
 const IDiscreteParameters* const Individual::GetParametersAccordingToChromosome() const
-- 
2.43.0


From 88b6912bff100b25c4b115a692de8bc3ef52f954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:39 +0000
Subject: [PATCH 15/61] fix: keep an individual as it was when initialized
 twice

---
 src/optimization/genetic_algorithm/individual.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/optimization/genetic_algorithm/individual.cpp b/src/optimization/genetic_algorithm/individual.cpp
index 81276ee..57d1806 100644
--- a/src/optimization/genetic_algorithm/individual.cpp
+++ b/src/optimization/genetic_algorithm/individual.cpp
@@ -61,15 +61,18 @@ Individual& Individual::operator=(const Individual & a)
 
 void Individual::Initialize(const IDiscreteParameters* const parameters)
 {
-    parameters_ = IDiscreteParameters::shared_ptr(parameters->Clone());
+    IDiscreteParameters::shared_ptr parameters_clone(parameters->Clone());
+
+    //Throws if was already initialized, so nothing should be changed before
+    initialization_checker_.SetInitialized();
+
+    parameters_ = parameters_clone;
     chromosome_ = ChromosomeType ( parameters_->GetChromosomeSize() );
     parameters->SetChromosome(chromosome_.begin(), chromosome_.end());
 
     has_fitness_ = false;
     times_chosen_for_crossover_ = 0;
 
-    initialization_checker_.SetInitialized();
-
     //Values that are not exactly representable in chromosome must be synchronized with it
     this->SetParametersAccordingToChromosome();
 }
-- 
2.43.0


From d50e92c2e8dd19153e8c1642c8a6b6a9d1ec3486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:45 +0000
Subject: [PATCH 16/61] fix: reject an individual's text with invalid fitness
 before changing the individual

---
 src/optimization/genetic_algorithm/individual.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/optimization/genetic_algorithm/individual.cpp b/src/optimization/genetic_algorithm/individual.cpp
index 57d1806..b9bfa4a 100644
--- a/src/optimization/genetic_algorithm/individual.cpp
+++ b/src/optimization/genetic_algorithm/individual.cpp
@@ -303,8 +303,13 @@ std::istream& operator>> (std::istream& in, Individual& individual)
         }
     }
 
-    individual.chromosome_ = new_chromosome;
+    //Fitness is checked first, so that individual is not changed if it is invalid
+    if(!in)
+    {
+        throw std::logic_error("Attempt to read fitness with invalid format");
+    }
     individual.set_fitness(fitness);
+    individual.chromosome_ = new_chromosome;
     individual.SetParametersAccordingToChromosome();
 
     return in;
-- 
2.43.0


From bb3e4a83e754af27afaf9d01dd44f6095ff7bce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:50 +0000
Subject: [PATCH 17/61] fix: do not divide by zero in crossover of empty
 chromosomes

---
 src/optimization/genetic_algorithm/individual.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/optimization/genetic_algorithm/individual.cpp b/src/optimization/genetic_algorithm/individual.cpp
index b9bfa4a..031c23f 100644
--- a/src/optimization/genetic_algorithm/individual.cpp
+++ b/src/optimization/genetic_algorithm/individual.cpp
@@ -244,6 +244,12 @@ void Individual::BoolCrossover(ChromosomeType *first, ChromosomeType *second)
         throw std::invalid_argument("For crossover chromosomes must have same size");
     }
 
+    if(first->empty())
+    {
+        //There is nothing to exchange, and no crossover point to be chosen
+        return;
+    }
+
     int crossover_point = Random::Instance().GetUniformlyDistributedDiscreteRandomQuantity(0, first->size()-1);
 
     for(size_t i = crossover_point; i < first->size(); i++)
-- 
2.43.0


From 0087d026b6dbf23425ba002d26bff50ddfe15845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:54 +0000
Subject: [PATCH 18/61] fix: keep the linear mutator's probability valid in
 each generation

---
 src/optimization/genetic_algorithm/linear_mutator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/optimization/genetic_algorithm/linear_mutator.cpp b/src/optimization/genetic_algorithm/linear_mutator.cpp
index 8294f67..c34ff87 100644
--- a/src/optimization/genetic_algorithm/linear_mutator.cpp
+++ b/src/optimization/genetic_algorithm/linear_mutator.cpp
@@ -25,7 +25,10 @@ double LinearMutator::GetCurrentGenMutationProbability()
 {
     double current = get_mutation_context().current_generation;
     double max = get_mutation_context().max_number_of_generations - 1;
-    return (end_mutation_value_ - start_mutation_value_) * current / max + start_mutation_value_;
+    //With the only generation there is nothing to interpolate
+    double progress = max > 0 ? current / max : 0;
+    //Unlike start + (end - start) * progress, this can not be rounded out of [0, 1]
+    return start_mutation_value_ * (1 - progress) + end_mutation_value_ * progress;
 }
 }/* namespace optimization */
 }/* namespace k52 */
-- 
2.43.0


From c85d65e8a9e750945839da9443ee746fbc30b7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 19/61] fix: reject a flip bit mutator's probability too small
 for its gap to fit into int

---
 src/optimization/genetic_algorithm/flip_bit_mutator.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/optimization/genetic_algorithm/flip_bit_mutator.cpp b/src/optimization/genetic_algorithm/flip_bit_mutator.cpp
index 9819cde..f0c2aa9 100644
--- a/src/optimization/genetic_algorithm/flip_bit_mutator.cpp
+++ b/src/optimization/genetic_algorithm/flip_bit_mutator.cpp
@@ -2,6 +2,7 @@
 #include <k52/common/random.h>
 
 #include <cmath>
+#include <limits>
 #include <stdexcept>
 
 using ::k52::common::Random;
@@ -15,13 +16,16 @@ FlipBitMutator::FlipBitMutator(double gen_mutation_probability)
 {
     mutation_probability_ = gen_mutation_probability;
 
-    max_number_of_skipped_gens_ = (int)std::floor(1 / mutation_probability_) - 1;
+    double max_number_of_skipped_gens = std::floor(1 / mutation_probability_) - 1;
 
-    if (max_number_of_skipped_gens_ <= 0)
+    //Checked before the conversion, which is undefined for what does not fit into int
+    if (!(max_number_of_skipped_gens > 0 && max_number_of_skipped_gens < std::numeric_limits<int>::max()))
     {
         throw std::invalid_argument("gen_mutation_probability was set incorrectly");
     }
 
+    max_number_of_skipped_gens_ = (int)max_number_of_skipped_gens;
+
     SetGensToSkipNow();
 }
 
-- 
2.43.0


From 35a1b98b12a8e2c7031e6d820d9cb31e41af7262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 20/61] fix: write the fitness of an individual with all its
 digits

---
 src/optimization/genetic_algorithm/individual.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/optimization/genetic_algorithm/individual.cpp b/src/optimization/genetic_algorithm/individual.cpp
index 031c23f..0f170a4 100644
--- a/src/optimization/genetic_algorithm/individual.cpp
+++ b/src/optimization/genetic_algorithm/individual.cpp
@@ -6,6 +6,7 @@
 #include <string>
 #include <ostream>
 #include <istream>
+#include <limits>
 //TODO for in>>fitness; --???
 #include <iostream>
 #include <stdexcept>
@@ -271,7 +272,11 @@ std::ostream& operator<< (std::ostream& out, const Individual& individual)
     {
         out<< (chromosome[i] ? '1' : '0');
     }
-    out<<"\tFitness:\t"<<individual.get_fitness()<<std::endl;
+    double fitness = individual.get_fitness();
+    //All significant digits are needed to read exactly the same fitness back
+    std::streamsize precision = out.precision(std::numeric_limits<double>::digits10 + 2);
+    out<<"\tFitness:\t"<<fitness<<std::endl;
+    out.precision(precision);
     return out;
 }
 
-- 
2.43.0


From 5ba5d782beecc8b6b34c8a0ce6dfbc6a2dff8934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:04 +0000
Subject: [PATCH 21/61] fix: reject NaN as a probability

---
 src/common/random.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/random.cpp b/src/common/random.cpp
index 782843f..dd4db7d 100644
--- a/src/common/random.cpp
+++ b/src/common/random.cpp
@@ -19,7 +19,8 @@ Random& Random::Instance()
 
 void Random::ValidateProbability(double probability)
 {
-    if ( probability < 0 || probability > 1 )
+    //Written so that NaN is invalid, too
+    if ( !(probability >= 0 && probability <= 1) )
     {
         throw std::invalid_argument("Invalid probability value");
     }
-- 
2.43.0


From 08d3a3e4567d79fe10ddd5513b6f67778ed581ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:51 +0000
Subject: [PATCH 22/61] fix: pass an exception of a task on to the caller of a
 thread pool instead of waiting forever

---
 src/parallel/thread/thread_worker_pool.cpp     | 12 +++++++++++-
 .../thread/thread_worker_pool_task.cpp         | 18 ++++++++++++++----
 src/parallel/thread/thread_worker_pool_task.h  |  8 +++++++-
 3 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/parallel/thread/thread_worker_pool.cpp b/src/parallel/thread/thread_worker_pool.cpp
index 050ea44..44ba067 100644
--- a/src/parallel/thread/thread_worker_pool.cpp
+++ b/src/parallel/thread/thread_worker_pool.cpp
@@ -20,14 +20,24 @@ std::vector< ITaskResult::shared_ptr > ThreadWorkerPool::DoTasks (
     CheckAvailableWorkers();
 
     std::vector< ITaskResult::shared_ptr > results(tasks.size());
+    std::vector< boost::exception_ptr > errors(tasks.size());
     std::queue<ThreadWorkerPoolTask> tasks_queue;
 
     for(size_t i=0; i<tasks.size(); i++)
     {
-        tasks_queue.push( ThreadWorkerPoolTask(tasks[i], &(results[i])) );
+        tasks_queue.push( ThreadWorkerPoolTask(tasks[i], &(results[i]), &(errors[i])) );
     }
 
     worker_pool_.DoTasks(tasks_queue);
+
+    for(size_t i=0; i<errors.size(); i++)
+    {
+        if(errors[i])
+        {
+            boost::rethrow_exception(errors[i]);
+        }
+    }
+
     return results;
 }
 
diff --git a/src/parallel/thread/thread_worker_pool_task.cpp b/src/parallel/thread/thread_worker_pool_task.cpp
index 46174b3..0a57763 100644
--- a/src/parallel/thread/thread_worker_pool_task.cpp
+++ b/src/parallel/thread/thread_worker_pool_task.cpp
@@ -8,16 +8,26 @@ namespace thread
 {
 
 ThreadWorkerPoolTask::ThreadWorkerPoolTask()
-    :task_to_do_(NULL), result_to_be_written_(NULL) {}
+    :task_to_do_(NULL), result_to_be_written_(NULL), error_to_be_written_(NULL) {}
 
 ThreadWorkerPoolTask::ThreadWorkerPoolTask(
     const ITask* task_to_do,
-    ITaskResult::shared_ptr* result_to_be_written)
-        :task_to_do_(task_to_do), result_to_be_written_(result_to_be_written) {}
+    ITaskResult::shared_ptr* result_to_be_written,
+    boost::exception_ptr* error_to_be_written)
+        :task_to_do_(task_to_do),
+         result_to_be_written_(result_to_be_written),
+         error_to_be_written_(error_to_be_written) {}
 
 void ThreadWorkerPoolTask::DoTask()
 {
-    (*result_to_be_written_) = ITaskResult::shared_ptr ( task_to_do_->Perform() );
+    try
+    {
+        (*result_to_be_written_) = ITaskResult::shared_ptr ( task_to_do_->Perform() );
+    }
+    catch(...)
+    {
+        (*error_to_be_written_) = boost::current_exception();
+    }
 }
 
 } /* namespace thread */
diff --git a/src/parallel/thread/thread_worker_pool_task.h b/src/parallel/thread/thread_worker_pool_task.h
index 868dadf..863ce18 100644
--- a/src/parallel/thread/thread_worker_pool_task.h
+++ b/src/parallel/thread/thread_worker_pool_task.h
@@ -1,6 +1,8 @@
 #ifndef THREADWORKERPOOLTASK_H_
 #define THREADWORKERPOOLTASK_H_
 
+#include <boost/exception_ptr.hpp>
+
 #include <k52/parallel/i_worker_pool.h>
 
 namespace k52
@@ -17,13 +19,17 @@ public:
 
     ThreadWorkerPoolTask(
         const ITask* task_to_do,
-        ITaskResult::shared_ptr* result_to_be_written);
+        ITaskResult::shared_ptr* result_to_be_written,
+        boost::exception_ptr* error_to_be_written);
 
+    ///Writes the result of the task, or the exception thrown by it.
+    ///Must not throw, as the task would never be done otherwise
     void DoTask();
 
 private:
     const ITask* task_to_do_;
     ITaskResult::shared_ptr* result_to_be_written_;
+    boost::exception_ptr* error_to_be_written_;
 };
 
 } /* namespace thread */
-- 
2.43.0


From 9c5613f0d7e053ecb94943d5e3d740a07263c5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:17 +0000
Subject: [PATCH 23/61] fix: do not count invalid chromosomes of the previous
 run of GA

---
 src/optimization/genetic_algorithm/genetic_algorithm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/optimization/genetic_algorithm/genetic_algorithm.cpp b/src/optimization/genetic_algorithm/genetic_algorithm.cpp
index 3ac508a..a8b3584 100644
--- a/src/optimization/genetic_algorithm/genetic_algorithm.cpp
+++ b/src/optimization/genetic_algorithm/genetic_algorithm.cpp
@@ -185,6 +185,8 @@ void GeneticAlgorithm::Initialize(const IDiscreteParameters* parameters_to_optim
 {
     population_ = vector<Individual::shared_ptr>(population_size_);
     population_statistics_ = vector<IndividualStatistics>(population_size_);
+    //Some could be left from the last generation of the previous run
+    invalid_chromosomes_ = 0;
 
     if (were_initial_parameters_set_)
     {
-- 
2.43.0


From e74539cd9a7f9086941f2e3409e7dc42ab85cac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:52 +0000
Subject: [PATCH 24/61] fix: do not read beyond the initial parameters when
 they are fewer than the population

---
 src/optimization/genetic_algorithm/genetic_algorithm.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/optimization/genetic_algorithm/genetic_algorithm.cpp b/src/optimization/genetic_algorithm/genetic_algorithm.cpp
index a8b3584..0c3dbb2 100644
--- a/src/optimization/genetic_algorithm/genetic_algorithm.cpp
+++ b/src/optimization/genetic_algorithm/genetic_algorithm.cpp
@@ -144,9 +144,10 @@ void GeneticAlgorithm::Optimize(const DiscreteObjectiveFunction &function_to_opt
 
 void GeneticAlgorithm::SetInitialParameters(std::vector<IDiscreteParameters::shared_ptr> initial_parameters)
 {
-    initial_parameters_ = std::vector<IDiscreteParameters::shared_ptr>(population_size_);
+    //The size is validated when optimization starts
+    initial_parameters_ = std::vector<IDiscreteParameters::shared_ptr>(initial_parameters.size());
 
-    for (std::size_t i = 0; i < population_size_; ++i)
+    for (std::size_t i = 0; i < initial_parameters.size(); ++i)
     {
         initial_parameters_[i] = IDiscreteParameters::shared_ptr((initial_parameters[i])->Clone());
     }
-- 
2.43.0


From 101ad1342bbacec2f19bd8b02e800ad87ebd9d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:06 +0000
Subject: [PATCH 25/61] fix: do not use cached fitness of the previous run of
 GA, maybe of another function

---
 src/optimization/genetic_algorithm/genetic_algorithm.cpp | 2 ++
 src/optimization/objective_function_counter.cpp          | 7 +++++++
 src/optimization/objective_function_counter.h            | 5 +++++
 3 files changed, 14 insertions(+)

diff --git a/src/optimization/genetic_algorithm/genetic_algorithm.cpp b/src/optimization/genetic_algorithm/genetic_algorithm.cpp
index 0c3dbb2..e6ddab0 100644
--- a/src/optimization/genetic_algorithm/genetic_algorithm.cpp
+++ b/src/optimization/genetic_algorithm/genetic_algorithm.cpp
@@ -188,6 +188,8 @@ void GeneticAlgorithm::Initialize(const IDiscreteParameters* parameters_to_optim
     population_statistics_ = vector<IndividualStatistics>(population_size_);
     //Some could be left from the last generation of the previous run
     invalid_chromosomes_ = 0;
+    //The function to optimize can be another one now
+    fitness_counter_->ResetCache();
 
     if (were_initial_parameters_set_)
     {
diff --git a/src/optimization/objective_function_counter.cpp b/src/optimization/objective_function_counter.cpp
index 02f0abb..9935636 100644
--- a/src/optimization/objective_function_counter.cpp
+++ b/src/optimization/objective_function_counter.cpp
@@ -17,6 +17,7 @@ ObjectiveFunctionCounter::ObjectiveFunctionCounter(double cache_data_limit_in_me
 {
     cache_hits_ = 0;
     objective_function_counts_ = 0;
+    cache_data_limit_in_megabytes_ = cache_data_limit_in_megabytes;
     cache_ = FitnessCache::Create(cache_data_limit_in_megabytes);
 
 #ifdef BUILD_WITH_MPI
@@ -70,6 +71,12 @@ void ObjectiveFunctionCounter::ResetCacheHits()
     cache_hits_ = 0;
 }
 
+void ObjectiveFunctionCounter::ResetCache()
+{
+    cache_ = FitnessCache::Create(cache_data_limit_in_megabytes_);
+    ResetCacheHits();
+}
+
 int ObjectiveFunctionCounter::get_cache_hits() const
 {
     return cache_hits_;
diff --git a/src/optimization/objective_function_counter.h b/src/optimization/objective_function_counter.h
index 231687c..bfd8b2e 100644
--- a/src/optimization/objective_function_counter.h
+++ b/src/optimization/objective_function_counter.h
@@ -38,6 +38,10 @@ public:
         const IObjectiveFunction& objective_function);
 
     void ResetCacheHits();
+
+    ///Forgets all cached values and hits: they are only valid for a single objective function
+    void ResetCache();
+
     int get_cache_hits() const;
     int get_objective_function_counts() const;
 
@@ -64,6 +68,7 @@ protected:
 private:
     k52::parallel::IWorkerPool::shared_ptr fitness_worker_pool_;
     FitnessCache::shared_ptr cache_;
+    double cache_data_limit_in_megabytes_;
     boost::hash< ChromosomeType > chromosome_hash_function_;
     int objective_function_counts_;
     int cache_hits_;
-- 
2.43.0


From 2db495fad32651b92aebb716f15bc2762ceaa525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:11 +0000
Subject: [PATCH 26/61] fix: simulated annealing handles equal values at zero
 temperature

---
 src/optimization/simulated_annealing.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/optimization/simulated_annealing.cpp b/src/optimization/simulated_annealing.cpp
index b0ea560..9ff7764 100644
--- a/src/optimization/simulated_annealing.cpp
+++ b/src/optimization/simulated_annealing.cpp
@@ -77,13 +77,16 @@ double SimulatedAnnealing::CountAcceptanceProbability(double current_value, doub
         throw std::runtime_error("Negative temperature");
     }
 
-    if (new_value < current_value)
+    //Equal values are accepted here, as they would make 0/0 of the formula at zero temperature
+    if (new_value <= current_value)
     {
         return 1;
     }
     else
     {
-        return std::exp( (current_value - new_value) / temperature );
+        double probability = std::exp( (current_value - new_value) / temperature );
+        //Values that are not numbers are never accepted
+        return probability >= 0 ? probability : 0;
     }
 }
 
-- 
2.43.0


From 8c7f6cd80b8566a8224c8183c72ce5fb6b1ea207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:22 +0000
Subject: [PATCH 27/61] fix: random search with an inner optimizer rejects an
 empty set of points

---
 src/optimization/optimization_parameters_processor.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/optimization/optimization_parameters_processor.cpp b/src/optimization/optimization_parameters_processor.cpp
index 02aa245..8312f27 100644
--- a/src/optimization/optimization_parameters_processor.cpp
+++ b/src/optimization/optimization_parameters_processor.cpp
@@ -29,6 +29,11 @@ IParameters::shared_ptr OptimizationParametersProcessor::ProcessParameters(
     const std::vector< IParameters::shared_ptr >& parameters,
     bool maximize)
 {
+    if(parameters.size() < 1)
+    {
+        throw std::invalid_argument("parameters should contain at least one element in vector");
+    }
+
     std::vector< OptimizationTask::shared_ptr > tasks (parameters.size());
     std::vector< const parallel::ITask* > task_pointers (parameters.size());
     for(size_t i=0; i<parameters.size(); i++)
-- 
2.43.0


From 5b7574887f6ff64c5dfa482a3fb2e6d938137b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:33 +0000
Subject: [PATCH 28/61] fix: steepest descent compared integer parts of lengths
 with its precision

---
 src/optimization/steepest_descent_method.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optimization/steepest_descent_method.cpp b/src/optimization/steepest_descent_method.cpp
index ac7352b..172c49d 100644
--- a/src/optimization/steepest_descent_method.cpp
+++ b/src/optimization/steepest_descent_method.cpp
@@ -243,7 +243,7 @@ double SteepestDescentMethod::FindStepLength(
             break;
         }
 
-    } while ((abs(left_border - right_border) > precision_));
+    } while ((std::abs(left_border - right_border) > precision_));
 
     return (left_border + right_border) / 2;
 }
@@ -263,7 +263,7 @@ double SteepestDescentMethod::Localization(
             point[i] = init_parameters[i] + step*direction[i];
         }       		
     } while ((CountObjectiveFunctionValueToMinimize(point) > CountObjectiveFunctionValueToMinimize(init_parameters))
-        && (abs(step) > precision_));
+        && (std::abs(step) > precision_));
 
 
     vector<double> next_step_point(point);
-- 
2.43.0


From b3d46df320696d8d2735983b9e0d769379e62317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:38 +0000
Subject: [PATCH 29/61] fix: steepest descent returned the point before the
 last step

---
 src/optimization/steepest_descent_method.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimization/steepest_descent_method.cpp b/src/optimization/steepest_descent_method.cpp
index 172c49d..f441b81 100644
--- a/src/optimization/steepest_descent_method.cpp
+++ b/src/optimization/steepest_descent_method.cpp
@@ -91,7 +91,7 @@ vector<double> SteepestDescentMethod::FindOptimalParameters(const vector<double>
     } while (!IsExitCriteriaFulfilled(next_step_parameters) 
         && !(counter == max_iteration_number_));
 
-    return parameters;
+    return next_step_parameters;
 }
 
 bool SteepestDescentMethod::IsExitCriteriaFulfilled(
-- 
2.43.0


From 1a7c0a06fc3aa06ce1e7dbb3b2188254b20eb708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:42 +0000
Subject: [PATCH 30/61] fix: steepest descent localizes the minimum in steps,
 not in distances

---
 src/optimization/steepest_descent_method.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/optimization/steepest_descent_method.cpp b/src/optimization/steepest_descent_method.cpp
index f441b81..d4a360b 100644
--- a/src/optimization/steepest_descent_method.cpp
+++ b/src/optimization/steepest_descent_method.cpp
@@ -279,13 +279,7 @@ double SteepestDescentMethod::Localization(
         
     } while (CountObjectiveFunctionValueToMinimize(next_step_point) <= CountObjectiveFunctionValueToMinimize(point));
 
-    double final_step = 0;
-    for (size_t i = 0; i < next_step_point.size(); ++i)
-    {
-        final_step += (next_step_point[i] - init_parameters[i])*(next_step_point[i] - init_parameters[i]);
-    }
-
-    return sqrt(final_step);
+    return step;
 }
 
 }//optimization
-- 
2.43.0


From 6b11288c1aa9f99315641c898a8d5e19a5e4e10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:51 +0000
Subject: [PATCH 31/61] fix: Nelder-Mead returned the worst point of its last
 polygon

---
 src/optimization/bounded_nelder_mead.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimization/bounded_nelder_mead.cpp b/src/optimization/bounded_nelder_mead.cpp
index b49c05b..777628c 100644
--- a/src/optimization/bounded_nelder_mead.cpp
+++ b/src/optimization/bounded_nelder_mead.cpp
@@ -161,7 +161,7 @@ std::vector<double> BoundedNelderMead::FindOptimalParameters(const std::vector<d
     } while (GetTerminationCriteria(r, function_values, polygon));
 
 
-    size_t best_index = std::distance(function_values.begin(), std::max_element(function_values.begin(), function_values.end()));
+    size_t best_index = std::distance(function_values.begin(), std::min_element(function_values.begin(), function_values.end()));
     return polygon[best_index];
 }
 
-- 
2.43.0


From 76e877146d549c698ec84ef3485b6783f6e65b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:55 +0000
Subject: [PATCH 32/61] fix: Nelder-Mead recounts the values of a reduced
 polygon

---
 src/optimization/bounded_nelder_mead.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/optimization/bounded_nelder_mead.cpp b/src/optimization/bounded_nelder_mead.cpp
index 777628c..f382678 100644
--- a/src/optimization/bounded_nelder_mead.cpp
+++ b/src/optimization/bounded_nelder_mead.cpp
@@ -147,6 +147,7 @@ std::vector<double> BoundedNelderMead::FindOptimalParameters(const std::vector<d
                 if (contraction_point_value > highest_value)
                 {
                     Reduction(&polygon, min_index);
+                    function_values = CountObjectiveFunctionValues(polygon);
                     continue;
                 }
                 else
-- 
2.43.0


From 27b3606234ac883c572089fc2e31bb7bd1d26fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:00 +0000
Subject: [PATCH 33/61] fix: Nelder-Mead forgets the polygons of its previous
 run

---
 src/optimization/bounded_nelder_mead.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/optimization/bounded_nelder_mead.cpp b/src/optimization/bounded_nelder_mead.cpp
index f382678..c517a0f 100644
--- a/src/optimization/bounded_nelder_mead.cpp
+++ b/src/optimization/bounded_nelder_mead.cpp
@@ -74,6 +74,9 @@ std::vector<double> BoundedNelderMead::FindOptimalParameters(const std::vector<d
     //Iteration index
     size_t r = 0;
 
+    //Polygons of the previous run are not a loop
+    previous_polygons_.clear();
+
     //Build simplex based on initial_parameters
     vector< vector<double> > polygon = GetRegularSimplex(initial_parameters, l_);
 
-- 
2.43.0


From 9af833b8fe8d72651c3ea0cd111d4f0c536458ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:20 +0000
Subject: [PATCH 34/61] fix: conjugate gradient failed with an exception near
 the optimum

---
 src/optimization/conjugate_gradient_method.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/optimization/conjugate_gradient_method.cpp b/src/optimization/conjugate_gradient_method.cpp
index 0dee546..30d9460 100644
--- a/src/optimization/conjugate_gradient_method.cpp
+++ b/src/optimization/conjugate_gradient_method.cpp
@@ -11,11 +11,9 @@
 #include <stdexcept>
 #include <iostream>
 
-#include <k52/common/floating_point.h>
 #include <k52/optimization/params/i_continuous_parameters.h>
 
 using ::std::vector;
-using ::k52::common::FloatingPoint;
 
 namespace k52
 {
@@ -79,6 +77,16 @@ vector<double> ConjugateGradientMethod::FindOptimalParameters(
     double exit = 0;
     size_t iteration = 1;
 
+    //There is no direction to search in from a stationary point
+    for (size_t i = 0; i<parameters.size(); i++)
+    {
+        exit += pow(gradient[i], 2);
+    }
+    if (sqrt(exit) < precision_)
+    {
+        return parameters;
+    }
+
     //http://en.wikipedia.org/wiki/Nonlinear_conjugate_gradient_method
     do
     {
@@ -221,7 +229,7 @@ double ConjugateGradientMethod::CalculateWeightingCoefficient(
         previous_gradient_square += pow(previous_gradient[i], 2);
     }
 
-    if(FloatingPoint::IsZero(previous_gradient_square))
+    if(previous_gradient_square == 0)
     {
         throw std::runtime_error("previous_gradient_square == 0");
     }
-- 
2.43.0


From eb990120fb54dde4d418a3f57627fab52b664be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:24 +0000
Subject: [PATCH 35/61] fix: conjugate gradient ignored a limit of one
 iteration

---
 src/optimization/conjugate_gradient_method.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimization/conjugate_gradient_method.cpp b/src/optimization/conjugate_gradient_method.cpp
index 30d9460..5a52fb2 100644
--- a/src/optimization/conjugate_gradient_method.cpp
+++ b/src/optimization/conjugate_gradient_method.cpp
@@ -114,7 +114,7 @@ vector<double> ConjugateGradientMethod::FindOptimalParameters(
         exit = sqrt(exit);
 
         iteration++;
-        if (iteration == number_of_iterations_)
+        if (iteration >= number_of_iterations_)
         {
             std::cout << "Solution not found" << std::endl;
             break;
-- 
2.43.0


From 41a090c1cdbf03295a9e407e65d5c4aa3e2e5745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:47 +0000
Subject: [PATCH 36/61] fix: steepest descent from a stationary point returned
 NaN

---
 src/optimization/steepest_descent_method.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/optimization/steepest_descent_method.cpp b/src/optimization/steepest_descent_method.cpp
index d4a360b..e57a4d4 100644
--- a/src/optimization/steepest_descent_method.cpp
+++ b/src/optimization/steepest_descent_method.cpp
@@ -73,6 +73,12 @@ vector<double> SteepestDescentMethod::FindOptimalParameters(const vector<double>
     size_t counter = 0;
     double lambda = 1; 
 
+    // There is no direction to search in from a stationary point
+    if (IsExitCriteriaFulfilled(parameters))
+    {
+        return parameters;
+    }
+
     vector<double> next_step_parameters(parameters);
     do
     {
-- 
2.43.0


From 153be551c2bc7b652c237c5f52e18169d1f7b07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:17 +0000
Subject: [PATCH 37/61] fix: Nelder-Mead evaluated its initial simplex outside
 of the bounds

---
 .../k52/optimization/bounded_nelder_mead.h    |  3 ++
 src/optimization/bounded_nelder_mead.cpp      | 30 ++++++++++++++++++-
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/include/k52/optimization/bounded_nelder_mead.h b/include/k52/optimization/bounded_nelder_mead.h
index b979972..36487ce 100644
--- a/include/k52/optimization/bounded_nelder_mead.h
+++ b/include/k52/optimization/bounded_nelder_mead.h
@@ -40,6 +40,9 @@ protected:
 
     void CorrectByProjectingToBounds(std::vector<double>* point);
 
+    ///Builds regular simplex with a vertex in (the projection of) the initial point, inside of the bounds
+    std::vector< std::vector<double> > GetSimplexInBounds(const std::vector<double>& initial_parameters);
+
     std::vector<double> CountObjectiveFunctionValues(
         const std::vector< std::vector<double> >& parameters_values);
 
diff --git a/src/optimization/bounded_nelder_mead.cpp b/src/optimization/bounded_nelder_mead.cpp
index c517a0f..12ea5b1 100644
--- a/src/optimization/bounded_nelder_mead.cpp
+++ b/src/optimization/bounded_nelder_mead.cpp
@@ -78,7 +78,7 @@ std::vector<double> BoundedNelderMead::FindOptimalParameters(const std::vector<d
     previous_polygons_.clear();
 
     //Build simplex based on initial_parameters
-    vector< vector<double> > polygon = GetRegularSimplex(initial_parameters, l_);
+    vector< vector<double> > polygon = GetSimplexInBounds(initial_parameters);
 
     //count values
     vector<double> function_values = CountObjectiveFunctionValues(polygon);
@@ -184,6 +184,34 @@ void BoundedNelderMead::CorrectByProjectingToBounds(vector<double>* point)
     }
 }
 
+vector< vector<double> > BoundedNelderMead::GetSimplexInBounds(const vector<double>& initial_parameters)
+{
+    vector<double> base_point(initial_parameters);
+    CorrectByProjectingToBounds(&base_point);
+
+    //An edge of half of the bounds fits into them on one side of any point
+    vector< vector<double> > simplex =
+            GetRegularSimplex(base_point, std::min(l_, (upper_bound_ - lower_bound_) / 2));
+
+    for(size_t j = 0; j < base_point.size(); j++)
+    {
+        //The vertex with the greatest coordinate j is out of bounds - use the other side
+        if(simplex[j + 1][j] > upper_bound_)
+        {
+            for(size_t i = 1; i < simplex.size(); i++)
+            {
+                simplex[i][j] = 2 * base_point[j] - simplex[i][j];
+            }
+        }
+    }
+
+    for(size_t i = 0; i < simplex.size(); i++)
+    {
+        CorrectByProjectingToBounds(&simplex[i]);
+    }
+    return simplex;
+}
+
 vector<double> BoundedNelderMead::CountObjectiveFunctionValues(
     const vector< vector<double> >& parameters_values)
 {
-- 
2.43.0


From 3cdd213941eba75135b86017b8d25933443c0b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:56 +0000
Subject: [PATCH 38/61] fix: conjugate gradient divided rounding errors near
 the optimum and returned NaN

---
 .../conjugate_gradient_method.cpp             | 24 +++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/optimization/conjugate_gradient_method.cpp b/src/optimization/conjugate_gradient_method.cpp
index 5a52fb2..a53fbfa 100644
--- a/src/optimization/conjugate_gradient_method.cpp
+++ b/src/optimization/conjugate_gradient_method.cpp
@@ -184,6 +184,17 @@ double ConjugateGradientMethod::PerformOneDimensionalSearch(
 {
     double x = 0, previous_x=0;
 
+    //Near the optimum directions are short - the arguments still have to be changed by the increment,
+    //as otherwise there is nothing but rounding errors in the differences of function values
+    double direction_length = 0;
+    for (size_t i = 0; i<search_direction.size(); i++)
+    {
+        direction_length += pow(search_direction[i], 2);
+    }
+    direction_length = sqrt(direction_length);
+    double increment = direction_length > 0 && direction_length < 1 ?
+        increment_of_the_argument_ / direction_length : increment_of_the_argument_;
+
     //Using Newton method to find one-dim minimum
     do
     {
@@ -197,16 +208,21 @@ double ConjugateGradientMethod::PerformOneDimensionalSearch(
         for(size_t i=0; i<parameters.size(); i++)
         {
             point[i] += x*search_direction[i];
-            incremented[i] += (x + increment_of_the_argument_/2)*search_direction[i];
-            decremented[i] += (x - increment_of_the_argument_/2)*search_direction[i];
+            incremented[i] += (x + increment/2)*search_direction[i];
+            decremented[i] += (x - increment/2)*search_direction[i];
         }
 
         double f = CountCorrectedObjectiveFunctionValue(point);
         double f_incremented = CountCorrectedObjectiveFunctionValue(incremented);
         double f_decremented = CountCorrectedObjectiveFunctionValue(decremented);
 
-        double dirivative = (f_incremented - f_decremented)/increment_of_the_argument_;
-        double secound_derivative = (f_incremented - 2*f + f_decremented) / (increment_of_the_argument_*increment_of_the_argument_/4);
+        double dirivative = (f_incremented - f_decremented)/increment;
+        double secound_derivative = (f_incremented - 2*f + f_decremented) / (increment*increment/4);
+
+        if (secound_derivative == 0)
+        {
+            break;
+        }
 
         x = previous_x - dirivative/secound_derivative;
     } while(std::abs(previous_x - x) > precision_);
-- 
2.43.0


From 07d6f9c62194dcf313d5f59e8bb8292c5f2a841e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:46 +0000
Subject: [PATCH 39/61] fix: Hooke-Jeeves crept by rounding errors up to its
 iteration limit

---
 src/optimization/hooke_jeeves_method.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/optimization/hooke_jeeves_method.cpp b/src/optimization/hooke_jeeves_method.cpp
index 5d8b562..7639cb9 100644
--- a/src/optimization/hooke_jeeves_method.cpp
+++ b/src/optimization/hooke_jeeves_method.cpp
@@ -102,7 +102,9 @@ vector<double> HookeJeevesMethod::FindOptimalParameters(const vector<double>& in
             next_step_arguments_after_search = CoordinatewiseSearch(next_step_arguments, steps_array);
 
             arguments = arguments_after_search;
-            if (CountObjectiveFunctionValueToMinimize(arguments_after_search) <=
+            // Equal arguments are no progress, even if rounding makes them better
+            if (common::FloatingPoint::AreEqual(arguments_after_search, next_step_arguments_after_search) ||
+                    CountObjectiveFunctionValueToMinimize(arguments_after_search) <=
                     CountObjectiveFunctionValueToMinimize(next_step_arguments_after_search))
             {
                 break;
-- 
2.43.0


From fa40d9f95a6de6111bae4831952ca50a20b25b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:40 +0000
Subject: [PATCH 40/61] fix: the one-dimensional search of conjugate gradient
 did not have to end

---
 src/optimization/conjugate_gradient_method.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/optimization/conjugate_gradient_method.cpp b/src/optimization/conjugate_gradient_method.cpp
index a53fbfa..03a85dc 100644
--- a/src/optimization/conjugate_gradient_method.cpp
+++ b/src/optimization/conjugate_gradient_method.cpp
@@ -183,6 +183,7 @@ double ConjugateGradientMethod::PerformOneDimensionalSearch(
     const vector<double>& search_direction)
 {
     double x = 0, previous_x=0;
+    size_t iteration = 0;
 
     //Near the optimum directions are short - the arguments still have to be changed by the increment,
     //as otherwise there is nothing but rounding errors in the differences of function values
@@ -225,7 +226,9 @@ double ConjugateGradientMethod::PerformOneDimensionalSearch(
         }
 
         x = previous_x - dirivative/secound_derivative;
-    } while(std::abs(previous_x - x) > precision_);
+        iteration++;
+        //Newton method does not have to converge
+    } while(std::abs(previous_x - x) > precision_ && iteration < number_of_iterations_);
     return x;
 }
 
-- 
2.43.0


From 8f37ba1d3afec9b4291ea381f785a4099760a41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:38 +0000
Subject: [PATCH 41/61] fix: random search picks the first of equally good
 points in both directions

---
 src/optimization/optimization_parameters_processor.cpp | 3 +--
 src/optimization/simple_parameters_processor.cpp       | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/optimization/optimization_parameters_processor.cpp b/src/optimization/optimization_parameters_processor.cpp
index 8312f27..bc8c1cf 100644
--- a/src/optimization/optimization_parameters_processor.cpp
+++ b/src/optimization/optimization_parameters_processor.cpp
@@ -65,8 +65,7 @@ IParameters::shared_ptr OptimizationParametersProcessor::ProcessParameters(
 
     for(size_t i=1; i<values.size(); i++)
     {
-        bool condition = values[i] > value;
-        condition = maximize ? condition : (!condition);
+        bool condition = maximize ? values[i] > value : values[i] < value;
 
         if(condition)
         {
diff --git a/src/optimization/simple_parameters_processor.cpp b/src/optimization/simple_parameters_processor.cpp
index 954b664..8962da5 100644
--- a/src/optimization/simple_parameters_processor.cpp
+++ b/src/optimization/simple_parameters_processor.cpp
@@ -29,8 +29,7 @@ IParameters::shared_ptr SimpleParametersProcessor::ProcessParameters(
 
     for(size_t i=1; i<values.size(); i++)
     {
-        bool condition = values[i] > value;
-        condition = maximize ? condition : (!condition);
+        bool condition = maximize ? values[i] > value : values[i] < value;
 
         if(condition)
         {
-- 
2.43.0


From c0feb421768b72fdd27d733f317a504d3301d325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:58 +0000
Subject: [PATCH 42/61] fix: the MPI pool rejects a task of another kind before
 it sends anything

---
 src/parallel/mpi/mpi_worker_pool.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parallel/mpi/mpi_worker_pool.cpp b/src/parallel/mpi/mpi_worker_pool.cpp
index 2eaaae2..2fd54b8 100644
--- a/src/parallel/mpi/mpi_worker_pool.cpp
+++ b/src/parallel/mpi/mpi_worker_pool.cpp
@@ -56,6 +56,13 @@ std::vector< ITaskResult::shared_ptr > MpiWorkerPool::DoTasks (const std::vector
     CheckIfServer();
     CheckAvailableWorkers();
 
+    //Nothing can be sent unless everything can be: the workers do not forget what they have got
+    std::vector<const IMpiTask*> mpi_tasks(tasks.size());
+    for(size_t i = 0; i < tasks.size(); i++)
+    {
+        mpi_tasks[i] = GetMpiTask(tasks[i]);
+    }
+
     int current_worker_rank = 1;
     bool was_first_part_sent = false;
 
@@ -64,8 +71,7 @@ std::vector< ITaskResult::shared_ptr > MpiWorkerPool::DoTasks (const std::vector
 
     for(size_t i = 0; i < tasks.size(); i++)
     {
-        const IMpiTask* current_task = GetMpiTask(tasks[i]);
-        ResultExpectation task_expectation = SendTask(current_task, current_worker_rank, &(results[i]));
+        ResultExpectation task_expectation = SendTask(mpi_tasks[i], current_worker_rank, &(results[i]));
         result_expectations.push_back( task_expectation );
 
         if(!was_first_part_sent)
-- 
2.43.0


From 2349078f8029316abcc570287d7fd67fa093a809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:28 +0000
Subject: [PATCH 43/61] fix: discrete parameters can be sent over Boost.MPI,
 which cannot send std::vector<bool>

---
 src/optimization/params/discrete_parameters.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/optimization/params/discrete_parameters.cpp b/src/optimization/params/discrete_parameters.cpp
index ff4d7b5..3e872b3 100644
--- a/src/optimization/params/discrete_parameters.cpp
+++ b/src/optimization/params/discrete_parameters.cpp
@@ -17,14 +17,17 @@ void DiscreteParameters::Send(boost::mpi::communicator* communicator, int target
     //TODO to optimize performance do not create intermediate chromosome
     ChromosomeType intermediate_chromosome = ChromosomeType(this->GetChromosomeSize());
     this->SetChromosome(intermediate_chromosome.begin(), intermediate_chromosome.end());
-    communicator->send(target, k52::parallel::mpi::constants::kCommonTag, intermediate_chromosome);
+    //std::vector<bool> cannot be sent, as it has no elements to refer to
+    std::vector<char> bits(intermediate_chromosome.begin(), intermediate_chromosome.end());
+    communicator->send(target, k52::parallel::mpi::constants::kCommonTag, bits);
 }
 
 void DiscreteParameters::Receive(boost::mpi::communicator* communicator, int source)
 {
     //TODO to optimize performance do not create intermediate chromosome
-    ChromosomeType intermediate_chromosome;
-    communicator->recv(source, k52::parallel::mpi::constants::kCommonTag, intermediate_chromosome);
+    std::vector<char> bits;
+    communicator->recv(source, k52::parallel::mpi::constants::kCommonTag, bits);
+    ChromosomeType intermediate_chromosome(bits.begin(), bits.end());
     this->SetFromChromosome(intermediate_chromosome.begin(), intermediate_chromosome.end());
 }
 
-- 
2.43.0


From c3cd2cdf38daf2fb1c4c6dab47d9f852da4f95a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:53 +0000
Subject: [PATCH 44/61] fix: the default thread pool works if the number of
 processors is unknown

---
 src/parallel/thread/thread_worker_pool_templated.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parallel/thread/thread_worker_pool_templated.h b/src/parallel/thread/thread_worker_pool_templated.h
index 8be88ad..3bb83fd 100644
--- a/src/parallel/thread/thread_worker_pool_templated.h
+++ b/src/parallel/thread/thread_worker_pool_templated.h
@@ -3,6 +3,8 @@
 
 #ifdef BUILD_WITH_BOOST_THREAD
 
+#include <algorithm>
+
 #include <k52/common/disallow_copy_and_assign.h>
 #include "worker.h"
 
@@ -37,7 +39,8 @@ private:
 template <class TTask>
 ThreadWorkerPoolTemplated<TTask>::ThreadWorkerPoolTemplated()
 {
-    number_of_workers_ = boost::thread::hardware_concurrency();
+    //It is 0 if the number of processors is unknown
+    number_of_workers_ = std::max(boost::thread::hardware_concurrency(), 1u);
     Initialize();
 }
 
-- 
2.43.0


From dc73f29dbd9c84b81134bc8e8cd471472f9c4101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:43 +0000
Subject: [PATCH 45/61] fix: do not leak a clone of composite parameters when
 one of its parts cannot be cloned

---
 .../params/composite_discrete_parameters.cpp           | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/optimization/params/composite_discrete_parameters.cpp b/src/optimization/params/composite_discrete_parameters.cpp
index e607c26..136a4b6 100644
--- a/src/optimization/params/composite_discrete_parameters.cpp
+++ b/src/optimization/params/composite_discrete_parameters.cpp
@@ -12,7 +12,15 @@ CompositeDiscreteParameters* CompositeDiscreteParameters::Clone() const
     initialization_checker_.InitializationCheck();
 
     CompositeDiscreteParameters* clone = new CompositeDiscreteParameters();
-    clone->Initialize(parameters_set_);
+    try
+    {
+        clone->Initialize(parameters_set_);
+    }
+    catch(...)
+    {
+        delete clone;
+        throw;
+    }
     return clone;
 }
 
-- 
2.43.0


From 8dcdf2db63410e0eb6c4b063be4835282754706b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:08 +0000
Subject: [PATCH 46/61] fix: an individual whose initialization fails can still
 be initialized

---
 src/optimization/genetic_algorithm/individual.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/optimization/genetic_algorithm/individual.cpp b/src/optimization/genetic_algorithm/individual.cpp
index 0f170a4..04b56ff 100644
--- a/src/optimization/genetic_algorithm/individual.cpp
+++ b/src/optimization/genetic_algorithm/individual.cpp
@@ -63,19 +63,20 @@ Individual& Individual::operator=(const Individual & a)
 void Individual::Initialize(const IDiscreteParameters* const parameters)
 {
     IDiscreteParameters::shared_ptr parameters_clone(parameters->Clone());
+    ChromosomeType chromosome ( parameters_clone->GetChromosomeSize() );
+    parameters->SetChromosome(chromosome.begin(), chromosome.end());
+
+    //Values that are not exactly representable in chromosome must be synchronized with it
+    parameters_clone->SetFromChromosome(chromosome.begin(), chromosome.end());
 
     //Throws if was already initialized, so nothing should be changed before
     initialization_checker_.SetInitialized();
 
     parameters_ = parameters_clone;
-    chromosome_ = ChromosomeType ( parameters_->GetChromosomeSize() );
-    parameters->SetChromosome(chromosome_.begin(), chromosome_.end());
+    chromosome_ = chromosome;
 
     has_fitness_ = false;
     times_chosen_for_crossover_ = 0;
-
-    //Values that are not exactly representable in chromosome must be synchronized with it
-    this->SetParametersAccordingToChromosome();
 }
 
 const IDiscreteParameters* const Individual::GetParametersAccordingToChromosome() const
-- 
2.43.0


From f4602c0ac09493bf26f393a91a3837e72a109c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:48 +0000
Subject: [PATCH 47/61] fix: a refused crossover leaves the fitness of both
 individuals

---
 src/optimization/genetic_algorithm/individual.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/optimization/genetic_algorithm/individual.cpp b/src/optimization/genetic_algorithm/individual.cpp
index 04b56ff..56ae8e1 100644
--- a/src/optimization/genetic_algorithm/individual.cpp
+++ b/src/optimization/genetic_algorithm/individual.cpp
@@ -125,13 +125,15 @@ int Individual::SetRandomChromosome()
 bool Individual::Crossover(Individual* another)
 {
     initialization_checker_.InitializationCheck();
+    another->initialization_checker_.InitializationCheck();
+
+    //Throws if individuals do not fit, so nothing should be changed before
+    BoolCrossover(&(this->chromosome_), &(another->chromosome_));
 
     //TODO check if Individual has changed
     another->has_fitness_ = false;
     this->has_fitness_ = false;
 
-    BoolCrossover(&(this->chromosome_), &(another->chromosome_));
-
     this->SetParametersAccordingToChromosome();
     another->SetParametersAccordingToChromosome();
 
-- 
2.43.0


From 0d6d701c6c78975aef975ec5a06954c6e0c71ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:52 +0000
Subject: [PATCH 48/61] fix: nothing is written of an individual that has no
 fitness

---
 src/optimization/genetic_algorithm/individual.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/optimization/genetic_algorithm/individual.cpp b/src/optimization/genetic_algorithm/individual.cpp
index 56ae8e1..446696c 100644
--- a/src/optimization/genetic_algorithm/individual.cpp
+++ b/src/optimization/genetic_algorithm/individual.cpp
@@ -269,13 +269,14 @@ void Individual::BoolCrossover(ChromosomeType *first, ChromosomeType *second)
 
 std::ostream& operator<< (std::ostream& out, const Individual& individual)
 {
-    out<<"Chromosome:\t";
     const ChromosomeType& chromosome = individual.GetChromosome();
+    //Throws if there is no fitness, so nothing should be written before
+    double fitness = individual.get_fitness();
+    out<<"Chromosome:\t";
     for(size_t i=0; i<chromosome.size(); i++)
     {
         out<< (chromosome[i] ? '1' : '0');
     }
-    double fitness = individual.get_fitness();
     //All significant digits are needed to read exactly the same fitness back
     std::streamsize precision = out.precision(std::numeric_limits<double>::digits10 + 2);
     out<<"\tFitness:\t"<<fitness<<std::endl;
-- 
2.43.0


From c6d14146b92cac197af5b3f14c4911d742715869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:58 +0000
Subject: [PATCH 49/61] fix: grid search that fails leaves the parameters as
 they were

---
 src/optimization/grid_search.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/optimization/grid_search.cpp b/src/optimization/grid_search.cpp
index 90caa05..346054f 100644
--- a/src/optimization/grid_search.cpp
+++ b/src/optimization/grid_search.cpp
@@ -56,8 +56,9 @@ void GridSearch::Optimize(const IObjectiveFunction& function_to_optimize, IParam
             values[j] = (index % size_per_parameter) * precision_ + lower_bound_;
         }
 
-        continuous_parameters->SetValues(values);
+        //Parameters to optimize are only changed when the best ones are known
         parameters_storages[i] = IContinuousParameters::shared_ptr(continuous_parameters->Clone());
+        parameters_storages[i]->SetValues(values);
 
         //TODO FIX do not return local ptr
         parameters[i] = parameters_storages[i].get();
-- 
2.43.0


From f33bec536cf05dd7bbcfa6fb0135ce6e992481b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:15 +0000
Subject: [PATCH 50/61] fix: integer parameters of more than 2^31 values have a
 chromosome

---
 src/optimization/params/int_parameter.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/optimization/params/int_parameter.cpp b/src/optimization/params/int_parameter.cpp
index decd7f4..2baa003 100644
--- a/src/optimization/params/int_parameter.cpp
+++ b/src/optimization/params/int_parameter.cpp
@@ -65,7 +65,8 @@ void IntParameter::SetChromosome(ChromosomeType::iterator from, ChromosomeType::
     size_t chromosome_size = to - from;
     this->CheckForConstChromosomeSize(chromosome_size);
 
-    IntParameter::SetChromosomeFromInt(from, to, value_ - min_value_);
+    //Unsigned, as the difference of the bounds can be greater than the largest int
+    IntParameter::SetChromosomeFromInt(from, to, (int)((unsigned int)value_ - (unsigned int)min_value_));
 }
 
 void IntParameter::SetFromChromosome(ChromosomeType::const_iterator from, ChromosomeType::const_iterator to)
@@ -73,7 +74,7 @@ void IntParameter::SetFromChromosome(ChromosomeType::const_iterator from, Chromo
     size_t chromosome_size = to - from;
     this->CheckForConstChromosomeSize(chromosome_size);
 
-    value_ = IntParameter::GetIntFromChromosome(from, to) + min_value_;
+    value_ = (int)((unsigned int)IntParameter::GetIntFromChromosome(from, to) + (unsigned int)min_value_);
 }
 
 void IntParameter::Initialize(int value, int min_value, int max_value)
@@ -88,7 +89,7 @@ void IntParameter::Initialize(int value, int min_value, int max_value)
 size_t IntParameter::CountChromosomeSize(int min_value, int max_value)
 {
     //Number of bits needed for the largest difference to be represented
-    int target = max_value - min_value;
+    unsigned int target = max_value > min_value ? (unsigned int)max_value - (unsigned int)min_value : 0;
     size_t power = 0;
     while(target > 0)
     {
-- 
2.43.0


From f5b6a35b49797751339e88fddd8d3f55cd5afe12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:32 +0000
Subject: [PATCH 51/61] fix: discrete random quantities of more than RAND_MAX
 values, or of none

---
 src/common/random.cpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/common/random.cpp b/src/common/random.cpp
index dd4db7d..c2c7a28 100644
--- a/src/common/random.cpp
+++ b/src/common/random.cpp
@@ -55,6 +55,31 @@ bool Random::GetRandomBool()
 
 int Random::GetUniformlyDistributedDiscreteRandomQuantity(int min_value, int max_value)
 {
+    if (min_value > max_value)
+    {
+        throw std::invalid_argument("min_value > max_value");
+    }
+
+    //Unsigned, as the difference can be greater than the largest int
+    unsigned int difference = (unsigned int)max_value - (unsigned int)min_value;
+
+    if (difference >= (unsigned int)RAND_MAX)
+    {
+        //One output of the generator does not have as many values
+        unsigned int random_value = 0;
+        for (std::size_t i = 0; i < sizeof(unsigned int); i++)
+        {
+            random_value = (random_value << 8) ^ (unsigned int)rand();
+        }
+
+        //The number of all values of int does not fit into unsigned int
+        if (difference + 1 != 0)
+        {
+            random_value %= difference + 1;
+        }
+        return (int)((unsigned int)min_value + random_value);
+    }
+
     return rand() % (max_value-min_value+1) + min_value;
 }
 
-- 
2.43.0


From 2b3b14a0f0ca439823aa0b89341f131046484190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:10 +0000
Subject: [PATCH 52/61] fix: scales that are not a number or infinite are
 invalid

---
 src/dsp/transform/wavelet/fast_wavelet_transform.cpp | 3 ++-
 src/dsp/transform/wavelet/linear_scale.cpp           | 8 +++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/dsp/transform/wavelet/fast_wavelet_transform.cpp b/src/dsp/transform/wavelet/fast_wavelet_transform.cpp
index 82976f4..0a5603c 100644
--- a/src/dsp/transform/wavelet/fast_wavelet_transform.cpp
+++ b/src/dsp/transform/wavelet/fast_wavelet_transform.cpp
@@ -69,7 +69,8 @@ vector< vector< complex< double > > > FastWaveletTransform::Transform(
 std::vector< std::complex< double > > FastWaveletTransform::TransformOneScale(
         const std::vector< std::complex< double > > &sequence, IWavelet::shared_ptr wavelet, double scale) const
 {
-    if (scale <= 0)
+    //Negated so that NaN is invalid, too
+    if (!(scale > 0))
     {
         throw invalid_argument("scale <= 0");
     }
diff --git a/src/dsp/transform/wavelet/linear_scale.cpp b/src/dsp/transform/wavelet/linear_scale.cpp
index 45a3a41..0599c6d 100644
--- a/src/dsp/transform/wavelet/linear_scale.cpp
+++ b/src/dsp/transform/wavelet/linear_scale.cpp
@@ -1,4 +1,5 @@
 #include <k52/dsp/transform/wavelet/linear_scale.h>
+#include <limits>
 #include <stdexcept>
 
 using ::std::vector;
@@ -12,14 +13,15 @@ namespace dsp
 LinearScale::LinearScale(double min_scale, double max_scale, size_t scale_count)
         : min_scale_(min_scale), max_scale_(max_scale), scale_count_(scale_count)
 {
-    if(min_scale <= 0)
+    //Conditions are negated so that NaN is invalid, too
+    if(!(min_scale > 0))
     {
         throw invalid_argument("min_scale <= 0");
     }
 
-    if(max_scale <= 0)
+    if(!(max_scale > 0 && max_scale <= std::numeric_limits<double>::max()))
     {
-        throw invalid_argument("max_scale <= 0");
+        throw invalid_argument("max_scale <= 0 or is infinite");
     }
 
     if(min_scale >= max_scale)
-- 
2.43.0


From 0cfc77af22e25da9facd2cae1eb79262ae85828c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:10 +0000
Subject: [PATCH 53/61] fix: a fitness that is not a number is invalid

---
 src/optimization/genetic_algorithm/individual.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/optimization/genetic_algorithm/individual.cpp b/src/optimization/genetic_algorithm/individual.cpp
index 446696c..4bc4cde 100644
--- a/src/optimization/genetic_algorithm/individual.cpp
+++ b/src/optimization/genetic_algorithm/individual.cpp
@@ -200,7 +200,8 @@ double Individual::get_fitness() const
 
 void Individual::set_fitness(double fitness)
 {
-    if(fitness < 0)
+    //Negated so that NaN is invalid, too
+    if(!(fitness >= 0))
     {
         throw std::logic_error("Currently fitness must be >= 0!");
     }
-- 
2.43.0


From dfe7e9a0d98881869de08eb2a848fb51ac040886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:10 +0000
Subject: [PATCH 54/61] fix: training points of a spline must be in increasing
 order

---
 src/dsp/akima_spline.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/dsp/akima_spline.cpp b/src/dsp/akima_spline.cpp
index c63586f..47847ed 100644
--- a/src/dsp/akima_spline.cpp
+++ b/src/dsp/akima_spline.cpp
@@ -37,6 +37,15 @@ void AkimaSpline::Initialize(const std::vector<double>& train_x, const std::vect
         throw std::invalid_argument("The training points are inconsistent");
     }
 
+    for (std::size_t i = 0; i + 1 < train_x.size(); ++i)
+    {
+        // Negated so that NaN is invalid, too
+        if (!(train_x[i] < train_x[i + 1]))
+        {
+            throw std::invalid_argument("The abscissas of the training points must increase");
+        }
+    }
+
     train_x_ = train_x;
     train_y_ = train_y;
 
-- 
2.43.0


From 20ad845d79e8bf03df4381d0621e1f09962d6dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:10 +0000
Subject: [PATCH 55/61] fix: windowed wavelet transform with a step of zero did
 not end

---
 include/k52/dsp/cwt.h | 7 +++++++
 src/dsp/cwt.cpp       | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/include/k52/dsp/cwt.h b/include/k52/dsp/cwt.h
index c1689be..80ee9b0 100644
--- a/include/k52/dsp/cwt.h
+++ b/include/k52/dsp/cwt.h
@@ -1,6 +1,8 @@
 #ifndef K52_DSP_CONTINIOUS_WAVELET_TRANSFORMATION_H
 #define K52_DSP_CONTINIOUS_WAVELET_TRANSFORMATION_H
 
+#include <stdexcept>
+
 #include <k52/dsp/wavelet.h>
 
 namespace k52
@@ -14,6 +16,11 @@ std::vector<std::vector<double> > ContiniousWaveletTransformation(const std::vec
                                                                   int step,
                                                                   CallbackUnaryPredicat callback)
 {
+    if(step <= 0)
+    {
+        throw std::invalid_argument("step <= 0");
+    }
+
     std::vector<std::vector<double> > wavelet_result;
     wavelet_result.reserve(source_data.size());
 
diff --git a/src/dsp/cwt.cpp b/src/dsp/cwt.cpp
index 2717e94..f37ec63 100644
--- a/src/dsp/cwt.cpp
+++ b/src/dsp/cwt.cpp
@@ -1,5 +1,7 @@
 #include <k52/dsp/cwt.h>
 
+#include <stdexcept>
+
 namespace k52
 {
 namespace dsp
@@ -8,6 +10,11 @@ namespace dsp
 std::vector<std::vector<double> > ContiniousWaveletTransformation(const std::vector<double>& source_data,
                                                                   Wavelet::shared_ptr wavelet, int step)
 {
+    if(step <= 0)
+    {
+        throw std::invalid_argument("step <= 0");
+    }
+
     std::vector<std::vector<double> > wavelet_result;
     wavelet_result.reserve(source_data.size());
 
-- 
2.43.0


From a2b13e42b61b819728384054c5a32c4bbb61ad32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:31 +0000
Subject: [PATCH 56/61] fix: continuous random quantities of intervals wider
 than the largest double

---
 src/common/random.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/common/random.cpp b/src/common/random.cpp
index c2c7a28..3c75b0d 100644
--- a/src/common/random.cpp
+++ b/src/common/random.cpp
@@ -4,6 +4,7 @@
 #include <cstdlib>
 #include <time.h>
 #include <cmath>
+#include <limits>
 #include <stdexcept>
 
 namespace k52
@@ -34,6 +35,12 @@ double Random::GetBaseRandomQuantity()
 double Random::GetContinuousRandomQuantity(double min_value, double max_value)
 {
     double base = GetBaseRandomQuantity();
+    if (max_value - min_value > std::numeric_limits<double>::max())
+    {
+        //The width of the interval is not a double
+        return base * max_value + (1 - base) * min_value;
+    }
+
     return base * (max_value - min_value) + min_value;
 }
 
-- 
2.43.0


From e22817ca9510d6a8071df081baca695f8791b988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:06 +0000
Subject: [PATCH 57/61] fix: steepest descent did not end for functions that do
 not grow along a direction

---
 src/optimization/steepest_descent_method.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/optimization/steepest_descent_method.cpp b/src/optimization/steepest_descent_method.cpp
index e57a4d4..540eaa3 100644
--- a/src/optimization/steepest_descent_method.cpp
+++ b/src/optimization/steepest_descent_method.cpp
@@ -9,6 +9,7 @@
 
 #include <iostream>
 #include <cmath>
+#include <limits>
 
 #include <k52/optimization/params/i_continuous_parameters.h>
 
@@ -17,6 +18,9 @@ namespace
 /// @brief Golden ratio value for GoldenSectionSearch method
 /// @link https://en.wikipedia.org/wiki/Golden_ratio
 	const double kAlpha = (1.0 + sqrt(5.0)) / 2.0;
+
+/// @brief There are no borders to be found further away along a direction
+	const double kMaxStep = std::numeric_limits<double>::max() / 8;
 }
 
 using ::std::vector;
@@ -283,7 +287,8 @@ double SteepestDescentMethod::Localization(
         }
 
         
-    } while (CountObjectiveFunctionValueToMinimize(next_step_point) <= CountObjectiveFunctionValueToMinimize(point));
+    } while (CountObjectiveFunctionValueToMinimize(next_step_point) <= CountObjectiveFunctionValueToMinimize(point)
+        && step < kMaxStep);
 
     return step;
 }
-- 
2.43.0


From 9edfe2988320cb23ae0cbfadb01c30ad4d04cbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:06 +0000
Subject: [PATCH 58/61] fix: Hooke-Jeeves method did not count iterations
 without a further step

---
 src/optimization/hooke_jeeves_method.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/optimization/hooke_jeeves_method.cpp b/src/optimization/hooke_jeeves_method.cpp
index 7639cb9..6372947 100644
--- a/src/optimization/hooke_jeeves_method.cpp
+++ b/src/optimization/hooke_jeeves_method.cpp
@@ -102,6 +102,7 @@ vector<double> HookeJeevesMethod::FindOptimalParameters(const vector<double>& in
             next_step_arguments_after_search = CoordinatewiseSearch(next_step_arguments, steps_array);
 
             arguments = arguments_after_search;
+            iteration++;
             // Equal arguments are no progress, even if rounding makes them better
             if (common::FloatingPoint::AreEqual(arguments_after_search, next_step_arguments_after_search) ||
                     CountObjectiveFunctionValueToMinimize(arguments_after_search) <=
@@ -111,15 +112,14 @@ vector<double> HookeJeevesMethod::FindOptimalParameters(const vector<double>& in
             }
             arguments_after_search = next_step_arguments_after_search;
 
-            iteration++;
             // Check number of iterations
-            if (iteration == max_iteration_number_)
+            if (iteration >= max_iteration_number_)
             {
                 std::cout << "Solution not found" << std::endl;
                 return arguments_after_search;
             }
         }
-    } while (!IsExitCriteriaFulfilled(steps_array));
+    } while (!IsExitCriteriaFulfilled(steps_array) && iteration < max_iteration_number_);
     return arguments_after_search;
 }
 
-- 
2.43.0


From 512a46bc932f90bdb62d4aac927b298ab7c7a6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:09 +0000
Subject: [PATCH 59/61] fix: sampling optimizers took a value that is not a
 number for the best

---
 src/optimization/grid_search.cpp                      | 11 ++++++++++-
 .../optimization_parameters_processor.cpp             |  3 ++-
 src/optimization/simple_parameters_processor.cpp      |  3 ++-
 src/optimization/simulated_annealing.cpp              |  3 ++-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/optimization/grid_search.cpp b/src/optimization/grid_search.cpp
index 346054f..a493923 100644
--- a/src/optimization/grid_search.cpp
+++ b/src/optimization/grid_search.cpp
@@ -15,6 +15,15 @@ namespace k52
 namespace optimization
 {
 
+namespace
+{
+//Any number is better than a value that is not one
+bool IsWorse(double first, double second)
+{
+    return first < second || (first != first && second == second);
+}
+}
+
 GridSearch::GridSearch(double precision, double lower_bound, double upper_bound)
 {
     fitness_counter_ = ObjectiveFunctionCounter::shared_ptr(new ObjectiveFunctionCounter(-1));
@@ -65,7 +74,7 @@ void GridSearch::Optimize(const IObjectiveFunction& function_to_optimize, IParam
     }
 
     vector<double> counted_values = fitness_counter_->CountObjectiveFunctionValues(parameters, function_to_optimize);
-    size_t best_index = std::distance(counted_values.begin(), max_element(counted_values.begin(), counted_values.end()));
+    size_t best_index = std::distance(counted_values.begin(), max_element(counted_values.begin(), counted_values.end(), IsWorse));
 
     continuous_parameters->SetValues( parameters_storages[best_index]->GetValues() );
 }
diff --git a/src/optimization/optimization_parameters_processor.cpp b/src/optimization/optimization_parameters_processor.cpp
index bc8c1cf..604508a 100644
--- a/src/optimization/optimization_parameters_processor.cpp
+++ b/src/optimization/optimization_parameters_processor.cpp
@@ -65,7 +65,8 @@ IParameters::shared_ptr OptimizationParametersProcessor::ProcessParameters(
 
     for(size_t i=1; i<values.size(); i++)
     {
-        bool condition = maximize ? values[i] > value : values[i] < value;
+        //Any number is better than a value that is not one
+        bool condition = value != value || (maximize ? values[i] > value : values[i] < value);
 
         if(condition)
         {
diff --git a/src/optimization/simple_parameters_processor.cpp b/src/optimization/simple_parameters_processor.cpp
index 8962da5..0ce9f05 100644
--- a/src/optimization/simple_parameters_processor.cpp
+++ b/src/optimization/simple_parameters_processor.cpp
@@ -29,7 +29,8 @@ IParameters::shared_ptr SimpleParametersProcessor::ProcessParameters(
 
     for(size_t i=1; i<values.size(); i++)
     {
-        bool condition = maximize ? values[i] > value : values[i] < value;
+        //Any number is better than a value that is not one
+        bool condition = value != value || (maximize ? values[i] > value : values[i] < value);
 
         if(condition)
         {
diff --git a/src/optimization/simulated_annealing.cpp b/src/optimization/simulated_annealing.cpp
index 9ff7764..6a8e530 100644
--- a/src/optimization/simulated_annealing.cpp
+++ b/src/optimization/simulated_annealing.cpp
@@ -78,7 +78,8 @@ double SimulatedAnnealing::CountAcceptanceProbability(double current_value, doub
     }
 
     //Equal values are accepted here, as they would make 0/0 of the formula at zero temperature
-    if (new_value <= current_value)
+    //Any number is better than a value that is not one
+    if (new_value <= current_value || (current_value != current_value && new_value == new_value))
     {
         return 1;
     }
-- 
2.43.0


From 6cc67ecf5c777bbc391aae35dc70f07dd46e3c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:09 +0000
Subject: [PATCH 60/61] fix: Hooke-Jeeves method went on from a point whose
 value is not a number

---
 src/optimization/hooke_jeeves_method.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/optimization/hooke_jeeves_method.cpp b/src/optimization/hooke_jeeves_method.cpp
index 6372947..20a45b0 100644
--- a/src/optimization/hooke_jeeves_method.cpp
+++ b/src/optimization/hooke_jeeves_method.cpp
@@ -104,9 +104,10 @@ vector<double> HookeJeevesMethod::FindOptimalParameters(const vector<double>& in
             arguments = arguments_after_search;
             iteration++;
             // Equal arguments are no progress, even if rounding makes them better
+            // Negated, so that a value that is not a number is no progress, too
             if (common::FloatingPoint::AreEqual(arguments_after_search, next_step_arguments_after_search) ||
-                    CountObjectiveFunctionValueToMinimize(arguments_after_search) <=
-                    CountObjectiveFunctionValueToMinimize(next_step_arguments_after_search))
+                    !(CountObjectiveFunctionValueToMinimize(arguments_after_search) >
+                    CountObjectiveFunctionValueToMinimize(next_step_arguments_after_search)))
             {
                 break;
             }
-- 
2.43.0


From 9feae58ee84c7af752278382da54269590c65eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:53 +0000
Subject: [PATCH 61/61] fix: Nelder-Mead method took values that are not
 numbers for good ones

---
 src/optimization/bounded_nelder_mead.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/optimization/bounded_nelder_mead.cpp b/src/optimization/bounded_nelder_mead.cpp
index 12ea5b1..bb945c5 100644
--- a/src/optimization/bounded_nelder_mead.cpp
+++ b/src/optimization/bounded_nelder_mead.cpp
@@ -8,6 +8,7 @@
 #endif
 
 #include <cmath>
+#include <limits>
 #include <stdexcept>
 #include <algorithm>
 #include <fstream>
@@ -222,6 +223,12 @@ vector<double> BoundedNelderMead::CountObjectiveFunctionValues(
     {
         //As Nelder-Mead tends to minimize function we need to reverse it to find max
         counted_values[i] = CountObjectiveFunctionValueToMinimize(parameters_values[i]);
+
+        //Any number is better than a value that is not one
+        if(counted_values[i] != counted_values[i])
+        {
+            counted_values[i] = std::numeric_limits<double>::infinity();
+        }
     }
 
     return counted_values;
-- 
2.43.0

