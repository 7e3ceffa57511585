From b7b3d2567916d9b76f77f57f52727cabadeed00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 01/36] fix: IntParameter chromosome holds every value of the
 interval

CountChromosomeSize computed the bits for max-min values instead of max-min+1,
so the maximum was encoded as the minimum when the width was a power of two,
and it overflowed (or never returned) for intervals wider than 2^30.
---
 src/optimization/params/int_parameter.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/optimization/params/int_parameter.cpp b/src/optimization/params/int_parameter.cpp
index 50f83ee..47b69d4 100644
--- a/src/optimization/params/int_parameter.cpp
+++ b/src/optimization/params/int_parameter.cpp
@@ -65,7 +65,7 @@ void IntParameter::SetChromosome(ChromosomeType::iterator from, ChromosomeType::
     size_t chromosome_size = to - from;
     this->CheckForConstChromosomeSize(chromosome_size);
 
-    IntParameter::SetChromosomeFromInt(from, to, value_ - min_value_);
+    IntParameter::SetChromosomeFromInt(from, to, (int)((unsigned int)value_ - (unsigned int)min_value_));
 }
 
 void IntParameter::SetFromChromosome(ChromosomeType::const_iterator from, ChromosomeType::const_iterator to)
@@ -73,7 +73,7 @@ void IntParameter::SetFromChromosome(ChromosomeType::const_iterator from, Chromo
     size_t chromosome_size = to - from;
     this->CheckForConstChromosomeSize(chromosome_size);
 
-    value_ = IntParameter::GetIntFromChromosome(from, to) + min_value_;
+    value_ = (int)((unsigned int)IntParameter::GetIntFromChromosome(from, to) + (unsigned int)min_value_);
 }
 
 void IntParameter::Initialize(int value, int min_value, int max_value)
@@ -87,12 +87,12 @@ void IntParameter::Initialize(int value, int min_value, int max_value)
 
 size_t IntParameter::CountChromosomeSize(int min_value, int max_value)
 {
-    int x = 1;
-    int target = max_value - min_value;
+    //Number of bits required to store any offset from min_value, max_value included
+    unsigned int target = (unsigned int)max_value - (unsigned int)min_value;
     size_t power = 0;
-    while(target>x)
+    while(target>0)
     {
-        x*=2;
+        target/=2;
         power++;
     }
     return power;
@@ -108,11 +108,11 @@ int IntParameter::GetIntFromChromosome(ChromosomeType::const_iterator from, Chro
     {
         if (*it)
         {
-            result |= (1 << bit_number);
+            result |= (1u << bit_number);
         }
         else
         {
-            result &= ~(1 << bit_number);
+            result &= ~(1u << bit_number);
         }
 
         bit_number++;
-- 
2.43.0


From eab9a7563715bf1da053e7da06e994c256ddb0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:28 +0000
Subject: [PATCH 02/36] fix: DoubleParameter grid has 2^n-1 steps, bounds
 exact, values rounded to nodes

With 2^n steps the maximum had no chromosome of its own (it was encoded as the
minimum), the last node could exceed max_value by rounding, truncation moved
grid nodes on read/write back, and extreme precisions overflowed the int cast.
---
 src/optimization/params/double_parameter.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/optimization/params/double_parameter.cpp b/src/optimization/params/double_parameter.cpp
index cab781e..d4b5cdd 100644
--- a/src/optimization/params/double_parameter.cpp
+++ b/src/optimization/params/double_parameter.cpp
@@ -2,6 +2,7 @@
 #include <k52/optimization/params/double_parameter.h>
 
 #include <cmath>
+#include <limits>
 #include <stdexcept>
 
 namespace k52
@@ -92,12 +93,18 @@ void DoubleParameter::SetFromChromosome(ChromosomeType::const_iterator from, Chr
 
 double DoubleParameter::GetValue() const
 {
+    //The last grid node is max_value_ itself, whatever the rounding of the product
+    if(base_int_parameter_->get_value() == base_int_parameter_->get_max_value())
+    {
+        return max_value_;
+    }
     return  base_int_parameter_->get_value() * precision_ + min_value_;
 }
 
 void DoubleParameter::SetValue(double value)
 {
-    int int_value = (int)((value - min_value_)/precision_);
+    //Nearest grid node; truncation would move grid nodes themselves because of rounding errors
+    int int_value = (int)std::floor((value - min_value_)/precision_ + 0.5);
     base_int_parameter_->set_value(int_value);
 }
 
@@ -118,21 +125,22 @@ double DoubleParameter::get_actual_precision() const
 
 int DoubleParameter::GetMaxInt(double min_value, double max_value, double precision)
 {
-    int max_int = (int)std::ceil((max_value - min_value)/precision);
-    if(max_int < 1)
+    double max_int = std::ceil((max_value - min_value)/precision);
+    if(!(max_int >= 1 && max_int <= std::numeric_limits<int>::max()))
     {
         throw std::invalid_argument("minValue maxValue or precision were set incorrect");
     }
-    return max_int;
+    return (int)max_int;
 }
 
 int DoubleParameter::CountBestMaxInt(int initial_max_int)
 {
+    //2^n - 1, so that every chromosome of n bits is a grid node and vice versa
     int best_max_int = 1;
 
     while(initial_max_int>best_max_int)
     {
-        best_max_int *= 2;
+        best_max_int = best_max_int * 2 + 1;
     }
 
     return best_max_int;
-- 
2.43.0


From 98c635ea0b88b921866c75b56f629cad9b98b7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:46 +0000
Subject: [PATCH 03/36] fix: DoubleParametersArray rejects out-of-bounds values
 before storing them

---
 .../params/double_parameters_array.h          |  3 ++
 .../params/double_parameters_array.cpp        | 29 +++++++++++--------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/include/k52/optimization/params/double_parameters_array.h b/include/k52/optimization/params/double_parameters_array.h
index 1f4362d..57910ff 100644
--- a/include/k52/optimization/params/double_parameters_array.h
+++ b/include/k52/optimization/params/double_parameters_array.h
@@ -40,6 +40,9 @@ private:
     DoubleParametersArray();
     size_t CountTotalChromosomeSize() const;
 
+    ///@return TRUE if each of the values lies within the bounds of the parameters
+    bool SatisfyConstraints(const std::vector<double>& values) const;
+
     DoubleParameter::shared_ptr sample_parameter_;
     std::vector<double> values_;
 };
diff --git a/src/optimization/params/double_parameters_array.cpp b/src/optimization/params/double_parameters_array.cpp
index 1e11e75..7d4db10 100644
--- a/src/optimization/params/double_parameters_array.cpp
+++ b/src/optimization/params/double_parameters_array.cpp
@@ -44,15 +44,7 @@ bool DoubleParametersArray::HasSameMetaParameters(const IDiscreteParameters* par
 
 bool DoubleParametersArray::CheckConstraints() const
 {
-    for(size_t i=0; i<values_.size(); i++)
-    {
-        sample_parameter_->SetValue(values_[i]);
-        if(!sample_parameter_->CheckConstraints())
-        {
-            return false;
-        }
-    }
-    return true;
+    return SatisfyConstraints(values_);
 }
 
 void DoubleParametersArray::SetChromosome(ChromosomeType::iterator from, ChromosomeType::iterator to) const
@@ -102,12 +94,12 @@ void DoubleParametersArray::SetValues(const std::vector<double>& values)
         throw std::invalid_argument("Values has incorrect size.");
     }
 
-    values_ = values;
-
-    if (!CheckConstraints())
+    if (!SatisfyConstraints(values))
     {
         throw std::invalid_argument("One of the values does not satisfy constraints.");
     }
+
+    values_ = values;
 }
 
 std::vector<double> DoubleParametersArray::get_values() const
@@ -137,6 +129,19 @@ double DoubleParametersArray::get_actual_precision() const
 
 DoubleParametersArray::DoubleParametersArray() {}
 
+bool DoubleParametersArray::SatisfyConstraints(const std::vector<double>& values) const
+{
+    for(size_t i=0; i<values.size(); i++)
+    {
+        if(!(values[i] >= get_min_value() && values[i] <= get_max_value()))
+        {
+            return false;
+        }
+    }
+
+    return true;
+}
+
 size_t DoubleParametersArray::CountTotalChromosomeSize() const
 {
     return sample_parameter_->GetChromosomeSize() * values_.size();
-- 
2.43.0


From df790da9543e673499115ab5ba264cd7b06ee9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:50 +0000
Subject: [PATCH 04/36] fix: re-initialising CompositeDiscreteParameters no
 longer replaces its parts before throwing

---
 .../params/composite_discrete_parameters.h    |  2 +-
 .../params/composite_discrete_parameters.cpp  | 26 +++++++++++--------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/include/k52/optimization/params/composite_discrete_parameters.h b/include/k52/optimization/params/composite_discrete_parameters.h
index 198a9a6..67dbaf8 100644
--- a/include/k52/optimization/params/composite_discrete_parameters.h
+++ b/include/k52/optimization/params/composite_discrete_parameters.h
@@ -35,7 +35,7 @@ public:
     const IDiscreteParameters::shared_ptr GetParameter(size_t index) const;
 
 private:
-    size_t CountTotalChromosomeSize() const;
+    static size_t CountTotalChromosomeSize(const std::vector<IDiscreteParameters::shared_ptr>& parameters_set);
 
     std::vector<IDiscreteParameters::shared_ptr> parameters_set_;
     InitializationChecker initialization_checker_;
diff --git a/src/optimization/params/composite_discrete_parameters.cpp b/src/optimization/params/composite_discrete_parameters.cpp
index b117c77..e75046a 100644
--- a/src/optimization/params/composite_discrete_parameters.cpp
+++ b/src/optimization/params/composite_discrete_parameters.cpp
@@ -81,28 +81,32 @@ void CompositeDiscreteParameters::SetFromChromosome(ChromosomeType::const_iterat
 
 void CompositeDiscreteParameters::Initialize(const std::vector<IDiscreteParameters::shared_ptr>& parameters)
 {
-    parameters_set_ = std::vector<IDiscreteParameters::shared_ptr>(parameters.size());
+    std::vector<IDiscreteParameters::shared_ptr> parameters_set(parameters.size());
 
-    for(size_t i=0; i<parameters_set_.size(); i++)
+    for(size_t i=0; i<parameters_set.size(); i++)
     {
-        parameters_set_[i] = IDiscreteParameters::shared_ptr(parameters[i]->Clone());
+        parameters_set[i] = IDiscreteParameters::shared_ptr(parameters[i]->Clone());
     }
 
-    this->SetConstChromosomeSize( CountTotalChromosomeSize() );
+    //Throws on another initialization, so must precede the assignment
+    this->SetConstChromosomeSize( CountTotalChromosomeSize(parameters_set) );
+    parameters_set_ = parameters_set;
 
     initialization_checker_.SetInitialized();
 }
 
 void CompositeDiscreteParameters::Initialize(const IDiscreteParameters::shared_ptr& sample_parameter, size_t number_of_parameters)
 {
-    parameters_set_ = std::vector<IDiscreteParameters::shared_ptr>(number_of_parameters);
+    std::vector<IDiscreteParameters::shared_ptr> parameters_set(number_of_parameters);
 
-    for(size_t i=0; i<parameters_set_.size(); i++)
+    for(size_t i=0; i<parameters_set.size(); i++)
     {
-        parameters_set_[i] = IDiscreteParameters::shared_ptr(sample_parameter->Clone());
+        parameters_set[i] = IDiscreteParameters::shared_ptr(sample_parameter->Clone());
     }
 
-    this->SetConstChromosomeSize( CountTotalChromosomeSize() );
+    //Throws on another initialization, so must precede the assignment
+    this->SetConstChromosomeSize( CountTotalChromosomeSize(parameters_set) );
+    parameters_set_ = parameters_set;
 
     initialization_checker_.SetInitialized();
 }
@@ -126,12 +130,12 @@ const IDiscreteParameters::shared_ptr CompositeDiscreteParameters::GetParameter(
     return parameters_set_[index];
 }
 
-size_t CompositeDiscreteParameters::CountTotalChromosomeSize() const
+size_t CompositeDiscreteParameters::CountTotalChromosomeSize(const std::vector<IDiscreteParameters::shared_ptr>& parameters_set)
 {
     size_t total_chromosome_size = 0;
-    for(size_t i=0; i<parameters_set_.size(); i++)
+    for(size_t i=0; i<parameters_set.size(); i++)
     {
-        total_chromosome_size += parameters_set_[i]->GetChromosomeSize();
+        total_chromosome_size += parameters_set[i]->GetChromosomeSize();
     }
     return total_chromosome_size;
 }
-- 
2.43.0


From 6e16d04c45262886b181dc6e85ee9a735c71cbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:59 +0000
Subject: [PATCH 05/36] fix: Random uses only the bits of rand() that are
 random for boolean draws

---
 src/common/random.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/common/random.cpp b/src/common/random.cpp
index e31dd0e..2ad6da0 100644
--- a/src/common/random.cpp
+++ b/src/common/random.cpp
@@ -73,15 +73,9 @@ Random::Random()
     next_bit_in_bool_base_ = 0;
 
     max_bit_in_bool_base_ = 0;
-    int max_bool_base_value = 1;
-
-    for (std::size_t i = 0; i < sizeof(int) * 8; i++)
+    //The highest bit that rand() can set
+    for (int max_bool_base_value = RAND_MAX; max_bool_base_value > 1; max_bool_base_value /= 2)
     {
-        max_bool_base_value *= 2;
-        if (max_bool_base_value > RAND_MAX)
-        {
-            break;
-        }
         max_bit_in_bool_base_ ++;
     }
 }
-- 
2.43.0


From 2e068a59b83f78eecfb74ecd9a6692939a210fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 06/36] fix: an event of probability 0 never happens, NaN is no
 probability

---
 src/common/random.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common/random.cpp b/src/common/random.cpp
index 2ad6da0..17f3a98 100644
--- a/src/common/random.cpp
+++ b/src/common/random.cpp
@@ -19,7 +19,7 @@ Random& Random::Instance()
 
 void Random::ValidateProbability(double probability)
 {
-    if ( probability < 0 || probability > 1 )
+    if ( !(probability >= 0 && probability <= 1) )
     {
         throw std::invalid_argument("Invalid probability value");
     }
@@ -61,7 +61,9 @@ bool Random::CheckEventOutcome(double event_probability)
 {
     ValidateProbability(event_probability);
 
-    return GetBaseRandomQuantity() <= event_probability;
+    //The base quantity may be 0 as well as 1
+    double base = GetBaseRandomQuantity();
+    return base < event_probability || event_probability == 1;
 }
 
 Random::Random()
-- 
2.43.0


From 2d093373f7241538f2dcb84896595939ce27be3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:07 +0000
Subject: [PATCH 07/36] fix: continuous random quantity never exceeds max_value
 through rounding

---
 src/common/random.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/random.cpp b/src/common/random.cpp
index 17f3a98..685208d 100644
--- a/src/common/random.cpp
+++ b/src/common/random.cpp
@@ -33,7 +33,9 @@ double Random::GetBaseRandomQuantity()
 double Random::GetContinuousRandomQuantity(double min_value, double max_value)
 {
     double base = GetBaseRandomQuantity();
-    return base * (max_value - min_value) + min_value;
+    double quantity = base * (max_value - min_value) + min_value;
+    //Rounding must not leave the interval
+    return quantity > max_value ? max_value : quantity;
 }
 
 std::vector<double> Random::GenerateRandomVector(size_t vector_size, double min_value, double max_value)
-- 
2.43.0


From 30d326267eed43e31bf7b03f9c8cabe5acf54788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:33 +0000
Subject: [PATCH 08/36] fix: uniform discrete random quantity of intervals
 wider than int

---
 src/common/random.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/common/random.cpp b/src/common/random.cpp
index 685208d..9b05176 100644
--- a/src/common/random.cpp
+++ b/src/common/random.cpp
@@ -56,7 +56,19 @@ bool Random::GetRandomBool()
 
 int Random::GetUniformlyDistributedDiscreteRandomQuantity(int min_value, int max_value)
 {
-    return rand() % (max_value-min_value+1) + min_value;
+    //Unsigned arithmetic, as the interval may be wider than int
+    unsigned int width = (unsigned int)max_value - (unsigned int)min_value;
+    unsigned int base = rand();
+    if (width >= RAND_MAX)
+    {
+        //A single call does not reach every value
+        base = (base << 16) ^ (unsigned int)rand();
+        if (width + 1 == 0)
+        {
+            return (int)base;
+        }
+    }
+    return (int)(base % (width + 1) + (unsigned int)min_value);
 }
 
 bool Random::CheckEventOutcome(double event_probability)
-- 
2.43.0


From 37d8b0eeb9e4d7b4cccc4d3818ab00225093d8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:37 +0000
Subject: [PATCH 09/36] fix: LinearMutator probability for a single generation
 and under rounding

---
 .../genetic_algorithm/linear_mutator.cpp       | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/optimization/genetic_algorithm/linear_mutator.cpp b/src/optimization/genetic_algorithm/linear_mutator.cpp
index 8294f67..d3711ce 100644
--- a/src/optimization/genetic_algorithm/linear_mutator.cpp
+++ b/src/optimization/genetic_algorithm/linear_mutator.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <stdexcept>
 #include <k52/common/random.h>
 #include <k52/optimization/linear_mutator.h>
@@ -25,7 +26,22 @@ double LinearMutator::GetCurrentGenMutationProbability()
 {
     double current = get_mutation_context().current_generation;
     double max = get_mutation_context().max_number_of_generations - 1;
-    return (end_mutation_value_ - start_mutation_value_) * current / max + start_mutation_value_;
+
+    if (max <= 0)
+    {
+        //The first generation is the last one
+        return start_mutation_value_;
+    }
+    if (current >= max)
+    {
+        return end_mutation_value_;
+    }
+
+    double probability = (end_mutation_value_ - start_mutation_value_) * current / max + start_mutation_value_;
+
+    //Rounding must not leave the interval
+    probability = std::max(probability, std::min(start_mutation_value_, end_mutation_value_));
+    return std::min(probability, std::max(start_mutation_value_, end_mutation_value_));
 }
 }/* namespace optimization */
 }/* namespace k52 */
-- 
2.43.0


From 7d24cc0538e0478e7769e7e7e738c2719973f7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:41 +0000
Subject: [PATCH 10/36] fix: FlipBitMutator rejects probabilities whose skip
 count does not fit an int

---
 src/optimization/genetic_algorithm/flip_bit_mutator.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/optimization/genetic_algorithm/flip_bit_mutator.cpp b/src/optimization/genetic_algorithm/flip_bit_mutator.cpp
index 9819cde..351b143 100644
--- a/src/optimization/genetic_algorithm/flip_bit_mutator.cpp
+++ b/src/optimization/genetic_algorithm/flip_bit_mutator.cpp
@@ -2,6 +2,7 @@
 #include <k52/common/random.h>
 
 #include <cmath>
+#include <limits>
 #include <stdexcept>
 
 using ::k52::common::Random;
@@ -15,12 +16,12 @@ FlipBitMutator::FlipBitMutator(double gen_mutation_probability)
 {
     mutation_probability_ = gen_mutation_probability;
 
-    max_number_of_skipped_gens_ = (int)std::floor(1 / mutation_probability_) - 1;
-
-    if (max_number_of_skipped_gens_ <= 0)
+    double max_number_of_skipped_gens = std::floor(1 / mutation_probability_) - 1;
+    if (!(max_number_of_skipped_gens > 0 && max_number_of_skipped_gens < std::numeric_limits<int>::max()))
     {
         throw std::invalid_argument("gen_mutation_probability was set incorrectly");
     }
+    max_number_of_skipped_gens_ = (int)max_number_of_skipped_gens;
 
     SetGensToSkipNow();
 }
-- 
2.43.0


From 7d9bc4056cd0fdee7fef3e62b2335d0eb11c3549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:58 +0000
Subject: [PATCH 11/36] fix: crossover of empty chromosomes no longer divides
 by zero

---
 src/optimization/genetic_algorithm/individual.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/optimization/genetic_algorithm/individual.cpp b/src/optimization/genetic_algorithm/individual.cpp
index 70e0e24..d3c7280 100644
--- a/src/optimization/genetic_algorithm/individual.cpp
+++ b/src/optimization/genetic_algorithm/individual.cpp
@@ -238,6 +238,12 @@ void Individual::BoolCrossover(ChromosomeType *first, ChromosomeType *second)
         throw std::invalid_argument("For crossover chromosomes must have same size");
     }
 
+    if(first->empty())
+    {
+        //Nothing to exchange
+        return;
+    }
+
     int crossover_point = Random::Instance().GetUniformlyDistributedDiscreteRandomQuantity(0, first->size()-1);
 
     for(size_t i = crossover_point; i < first->size(); i++)
-- 
2.43.0


From e4624c737cf12530740c91c10c505b2c17695d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:02 +0000
Subject: [PATCH 12/36] fix: individual synchronises adopted parameters with
 their chromosome

---
 src/optimization/genetic_algorithm/individual.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/optimization/genetic_algorithm/individual.cpp b/src/optimization/genetic_algorithm/individual.cpp
index d3c7280..64d426f 100644
--- a/src/optimization/genetic_algorithm/individual.cpp
+++ b/src/optimization/genetic_algorithm/individual.cpp
@@ -69,6 +69,9 @@ void Individual::Initialize(const IDiscreteParameters* const parameters)
     times_chosen_for_crossover_ = 0;
 
     initialization_checker_.SetInitialized();
+
+    //Parameters may have been set to values between the ones chromosome represents
+    this->SetParametersAccordingToChromosome();
 }
 
 const IDiscreteParameters* const Individual::GetParametersAccordingToChromosome() const
-- 
2.43.0


From 3e366d2802b98261a27ec43377f1cbe758fa1415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:09 +0000
Subject: [PATCH 13/36] fix: GA validates number and constraints of initial
 parameters

---
 .../genetic_algorithm/genetic_algorithm.cpp            | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/optimization/genetic_algorithm/genetic_algorithm.cpp b/src/optimization/genetic_algorithm/genetic_algorithm.cpp
index 3ac508a..f47525c 100644
--- a/src/optimization/genetic_algorithm/genetic_algorithm.cpp
+++ b/src/optimization/genetic_algorithm/genetic_algorithm.cpp
@@ -144,9 +144,8 @@ void GeneticAlgorithm::Optimize(const DiscreteObjectiveFunction &function_to_opt
 
 void GeneticAlgorithm::SetInitialParameters(std::vector<IDiscreteParameters::shared_ptr> initial_parameters)
 {
-    initial_parameters_ = std::vector<IDiscreteParameters::shared_ptr>(population_size_);
-
-    for (std::size_t i = 0; i < population_size_; ++i)
+    initial_parameters_ = std::vector<IDiscreteParameters::shared_ptr>(initial_parameters.size());
+    for (std::size_t i = 0; i < initial_parameters.size(); ++i)
     {
         initial_parameters_[i] = IDiscreteParameters::shared_ptr((initial_parameters[i])->Clone());
     }
@@ -233,6 +232,11 @@ void GeneticAlgorithm::ValidateInitialParameters(const IDiscreteParameters* para
             throw std::invalid_argument("Initial parameters have defferent chromosome representation. "
                 "Check if their meta-parameters are equal to parameters_to_optimeze's.");
         }
+
+        if (!initial_parameters_[i]->CheckConstraints())
+        {
+            throw std::invalid_argument("Initial parameters must satisfy constraints.");
+        }
     }
 }
 
-- 
2.43.0


From 78879760dd692592d00217ce5a9553303453172a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:40 +0000
Subject: [PATCH 14/36] fix: a cache full of used values is emptied instead of
 aborting the caller

---
 include/k52/common/cache.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/k52/common/cache.h b/include/k52/common/cache.h
index bebf1ce..cedf3cc 100644
--- a/include/k52/common/cache.h
+++ b/include/k52/common/cache.h
@@ -129,7 +129,8 @@ void Cache<TKey, TValue>::ClearCacheUpToLimit()
 
     if (IsSizeLimitExceeded())
     {
-        throw std::runtime_error("Unable to clear cache up to limit");
+        //All the values are in use, so start over rather than fail
+        cache_map_.clear();
     }
 }
 
-- 
2.43.0


From cc885938f4cac7ed3229b5391c2a5150754e3801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:48 +0000
Subject: [PATCH 15/36] fix: fitness cache is keyed by the chromosome itself,
 not by its hash

---
 src/optimization/objective_function_counter.cpp | 9 ++++-----
 src/optimization/objective_function_counter.h   | 4 ++--
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/optimization/objective_function_counter.cpp b/src/optimization/objective_function_counter.cpp
index 02f0abb..c17c8a7 100644
--- a/src/optimization/objective_function_counter.cpp
+++ b/src/optimization/objective_function_counter.cpp
@@ -92,11 +92,11 @@ void ObjectiveFunctionCounter::ProcessPopulation(
     {
         if (cache_)
         {
-            size_t chromosome_hash_value = chromosome_hash_function_( ((*population)[i])->GetChromosome() );
+            const ChromosomeType& chromosome = ((*population)[i])->GetChromosome();
 
-            if (cache_->IsCached(chromosome_hash_value))
+            if (cache_->IsCached(chromosome))
             {
-                ((*population)[i])->set_fitness(cache_->GetCachedValue(chromosome_hash_value));
+                ((*population)[i])->set_fitness(cache_->GetCachedValue(chromosome));
                 cache_hits_ ++;
                 continue;
             }
@@ -162,8 +162,7 @@ void ObjectiveFunctionCounter::AddNewCacheValues(
     {
         Individual::shared_ptr current_individ = (*population)[ new_cache_indexes[i] ];
         double fitness_value = current_individ->get_fitness();
-        size_t chromosome_hash_value = chromosome_hash_function_( current_individ->GetChromosome() );
-        value_records.push_back(FitnessCache::CacheRecord(chromosome_hash_value, fitness_value));
+        value_records.push_back(FitnessCache::CacheRecord(current_individ->GetChromosome(), fitness_value));
     }
 
     cache_->AddValues(value_records);
diff --git a/src/optimization/objective_function_counter.h b/src/optimization/objective_function_counter.h
index 231687c..1bf85a8 100644
--- a/src/optimization/objective_function_counter.h
+++ b/src/optimization/objective_function_counter.h
@@ -25,7 +25,7 @@ class ObjectiveFunctionCounter
 {
 public:
     typedef boost::shared_ptr<ObjectiveFunctionCounter> shared_ptr;
-    typedef k52::common::Cache<std::size_t, double> FitnessCache;
+    typedef k52::common::Cache<ChromosomeType, double> FitnessCache;
 
     explicit ObjectiveFunctionCounter(double cache_data_limit_in_megabytes);
 
@@ -64,7 +64,7 @@ protected:
 private:
     k52::parallel::IWorkerPool::shared_ptr fitness_worker_pool_;
     FitnessCache::shared_ptr cache_;
-    boost::hash< ChromosomeType > chromosome_hash_function_;
+
     int objective_function_counts_;
     int cache_hits_;
 
-- 
2.43.0


From 3f4ddbf27cb50bf48effcc1e1742eb083e9c141d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:55 +0000
Subject: [PATCH 16/36] fix: GA forgets cached fitness values of previous runs

---
 include/k52/common/cache.h                               | 9 +++++++++
 src/optimization/genetic_algorithm/genetic_algorithm.cpp | 3 +++
 src/optimization/objective_function_counter.cpp          | 8 ++++++++
 src/optimization/objective_function_counter.h            | 3 +++
 4 files changed, 23 insertions(+)

diff --git a/include/k52/common/cache.h b/include/k52/common/cache.h
index cedf3cc..5c55d4b 100644
--- a/include/k52/common/cache.h
+++ b/include/k52/common/cache.h
@@ -43,6 +43,9 @@ public:
 
     void AddValues(const std::vector<CacheRecord>& value_records);
 
+    ///Forgets all the values
+    void Clear();
+
 protected:
     void ClearCacheUpToLimit();
     bool IsSizeLimitExceeded();
@@ -117,6 +120,12 @@ void Cache<TKey, TValue>::AddValues(const std::vector<CacheRecord>& value_record
     }
 }
 
+template <typename TKey, typename TValue>
+void Cache<TKey, TValue>::Clear()
+{
+    cache_map_.clear();
+}
+
 template <typename TKey, typename TValue>
 void Cache<TKey, TValue>::ClearCacheUpToLimit()
 {
diff --git a/src/optimization/genetic_algorithm/genetic_algorithm.cpp b/src/optimization/genetic_algorithm/genetic_algorithm.cpp
index f47525c..e4d73f3 100644
--- a/src/optimization/genetic_algorithm/genetic_algorithm.cpp
+++ b/src/optimization/genetic_algorithm/genetic_algorithm.cpp
@@ -128,6 +128,9 @@ void GeneticAlgorithm::Optimize(const DiscreteObjectiveFunction &function_to_opt
         throw std::invalid_argument("GeneticAlgorithm currently can only maximize function.");
     }
 
+    //Cached values belong to the function and parameters of the previous run
+    fitness_counter_->ResetCache();
+
     Initialize(parameters_to_optimize);
 
     if(!population_file_name_.empty())
diff --git a/src/optimization/objective_function_counter.cpp b/src/optimization/objective_function_counter.cpp
index c17c8a7..431cf44 100644
--- a/src/optimization/objective_function_counter.cpp
+++ b/src/optimization/objective_function_counter.cpp
@@ -65,6 +65,14 @@ vector<double> ObjectiveFunctionCounter::CountObjectiveFunctionValues(
     return counted_values;
 }
 
+void ObjectiveFunctionCounter::ResetCache()
+{
+    if (cache_)
+    {
+        cache_->Clear();
+    }
+}
+
 void ObjectiveFunctionCounter::ResetCacheHits()
 {
     cache_hits_ = 0;
diff --git a/src/optimization/objective_function_counter.h b/src/optimization/objective_function_counter.h
index 1bf85a8..573855f 100644
--- a/src/optimization/objective_function_counter.h
+++ b/src/optimization/objective_function_counter.h
@@ -37,6 +37,9 @@ public:
         const std::vector<const IParameters*>& parameters_to_count,
         const IObjectiveFunction& objective_function);
 
+    ///Forgets all cached values, MUST be called before another objective function is used
+    void ResetCache();
+
     void ResetCacheHits();
     int get_cache_hits() const;
     int get_objective_function_counts() const;
-- 
2.43.0


From 3ea41622a16a6621ca6c51b17d2440d3c5a50283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:37 +0000
Subject: [PATCH 17/36] fix: merging settings keeps nodes whose names contain
 dots

---
 include/k52/common/settings_manager.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/k52/common/settings_manager.h b/include/k52/common/settings_manager.h
index a47208e..b2f4eae 100644
--- a/include/k52/common/settings_manager.h
+++ b/include/k52/common/settings_manager.h
@@ -112,11 +112,12 @@ protected:
             if (merged_tree.end() != found)
             {
                 // Do not overload value of existed property, just add subtrees
-                merged_tree.get_child(it->first) = Merge(found->second, it->second);
+                found->second = Merge(found->second, it->second);
             }
             else
             {
-                merged_tree.put_child(it->first, it->second);
+                // The name is no path: it may contain dots
+                merged_tree.push_back(*it);
             }
         }
         return merged_tree;
-- 
2.43.0


From 76d176d6e1564dd9c783eb35fa32e5307ab6474c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:24 +0000
Subject: [PATCH 18/36] fix: thread pool can be created when the number of
 hardware threads is unknown

---
 src/parallel/thread/thread_worker_pool_templated.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parallel/thread/thread_worker_pool_templated.h b/src/parallel/thread/thread_worker_pool_templated.h
index 8be88ad..c6bc3cf 100644
--- a/src/parallel/thread/thread_worker_pool_templated.h
+++ b/src/parallel/thread/thread_worker_pool_templated.h
@@ -38,6 +38,13 @@ template <class TTask>
 ThreadWorkerPoolTemplated<TTask>::ThreadWorkerPoolTemplated()
 {
     number_of_workers_ = boost::thread::hardware_concurrency();
+
+    //0 means that the number of hardware threads is not known
+    if(number_of_workers_ <= 0)
+    {
+        number_of_workers_ = 1;
+    }
+
     Initialize();
 }
 
-- 
2.43.0


From 946e205b1906f398bda4977b7c128b33397eeeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:33 +0000
Subject: [PATCH 19/36] fix: a throwing task makes ThreadWorkerPool::DoTasks
 throw instead of hang

---
 src/parallel/thread/thread_worker_pool.cpp    | 15 +++++++-
 .../thread/thread_worker_pool_task.cpp        | 34 ++++++++++++++++---
 src/parallel/thread/thread_worker_pool_task.h |  8 ++++-
 3 files changed, 51 insertions(+), 6 deletions(-)

diff --git a/src/parallel/thread/thread_worker_pool.cpp b/src/parallel/thread/thread_worker_pool.cpp
index 050ea44..853e78c 100644
--- a/src/parallel/thread/thread_worker_pool.cpp
+++ b/src/parallel/thread/thread_worker_pool.cpp
@@ -2,6 +2,9 @@
 
 #include "thread_worker_pool.h"
 
+#include <stdexcept>
+#include <string>
+
 namespace k52
 {
 namespace parallel
@@ -20,14 +23,24 @@ std::vector< ITaskResult::shared_ptr > ThreadWorkerPool::DoTasks (
     CheckAvailableWorkers();
 
     std::vector< ITaskResult::shared_ptr > results(tasks.size());
+    std::vector< boost::shared_ptr<std::string> > errors(tasks.size());
     std::queue<ThreadWorkerPoolTask> tasks_queue;
 
     for(size_t i=0; i<tasks.size(); i++)
     {
-        tasks_queue.push( ThreadWorkerPoolTask(tasks[i], &(results[i])) );
+        tasks_queue.push( ThreadWorkerPoolTask(tasks[i], &(results[i]), &(errors[i])) );
     }
 
     worker_pool_.DoTasks(tasks_queue);
+
+    for(size_t i=0; i<errors.size(); i++)
+    {
+        if(errors[i])
+        {
+            throw std::runtime_error("Task failed: " + *errors[i]);
+        }
+    }
+
     return results;
 }
 
diff --git a/src/parallel/thread/thread_worker_pool_task.cpp b/src/parallel/thread/thread_worker_pool_task.cpp
index 46174b3..5c45eca 100644
--- a/src/parallel/thread/thread_worker_pool_task.cpp
+++ b/src/parallel/thread/thread_worker_pool_task.cpp
@@ -1,5 +1,11 @@
 #include "thread_worker_pool_task.h"
 
+#include <exception>
+
+#ifdef BUILD_WITH_BOOST_THREAD
+#include <boost/thread.hpp>
+#endif
+
 namespace k52
 {
 namespace parallel
@@ -8,16 +14,36 @@ namespace thread
 {
 
 ThreadWorkerPoolTask::ThreadWorkerPoolTask()
-    :task_to_do_(NULL), result_to_be_written_(NULL) {}
+    :task_to_do_(NULL), result_to_be_written_(NULL), error_to_be_written_(NULL) {}
 
 ThreadWorkerPoolTask::ThreadWorkerPoolTask(
     const ITask* task_to_do,
-    ITaskResult::shared_ptr* result_to_be_written)
-        :task_to_do_(task_to_do), result_to_be_written_(result_to_be_written) {}
+    ITaskResult::shared_ptr* result_to_be_written,
+    boost::shared_ptr<std::string>* error_to_be_written)
+        :task_to_do_(task_to_do),
+         result_to_be_written_(result_to_be_written),
+         error_to_be_written_(error_to_be_written) {}
 
 void ThreadWorkerPoolTask::DoTask()
 {
-    (*result_to_be_written_) = ITaskResult::shared_ptr ( task_to_do_->Perform() );
+    try
+    {
+        (*result_to_be_written_) = ITaskResult::shared_ptr ( task_to_do_->Perform() );
+    }
+#ifdef BUILD_WITH_BOOST_THREAD
+    catch(boost::thread_interrupted&)
+    {
+        throw;
+    }
+#endif
+    catch(const std::exception& ex)
+    {
+        error_to_be_written_->reset( new std::string(ex.what()) );
+    }
+    catch(...)
+    {
+        error_to_be_written_->reset( new std::string("unknown exception") );
+    }
 }
 
 } /* namespace thread */
diff --git a/src/parallel/thread/thread_worker_pool_task.h b/src/parallel/thread/thread_worker_pool_task.h
index 868dadf..0ab7383 100644
--- a/src/parallel/thread/thread_worker_pool_task.h
+++ b/src/parallel/thread/thread_worker_pool_task.h
@@ -1,6 +1,8 @@
 #ifndef THREADWORKERPOOLTASK_H_
 #define THREADWORKERPOOLTASK_H_
 
+#include <string>
+
 #include <k52/parallel/i_worker_pool.h>
 
 namespace k52
@@ -17,13 +19,17 @@ public:
 
     ThreadWorkerPoolTask(
         const ITask* task_to_do,
-        ITaskResult::shared_ptr* result_to_be_written);
+        ITaskResult::shared_ptr* result_to_be_written,
+        boost::shared_ptr<std::string>* error_to_be_written);
 
+    ///Performs the task and writes its result,
+    ///or the description of the error if the task throws
     void DoTask();
 
 private:
     const ITask* task_to_do_;
     ITaskResult::shared_ptr* result_to_be_written_;
+    boost::shared_ptr<std::string>* error_to_be_written_;
 };
 
 } /* namespace thread */
-- 
2.43.0


From a831cb1010b37cc3eff0e2719d6c8ee7bd51d602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:00 +0000
Subject: [PATCH 20/36] fix: LinearScale rejects NaN and infinite bounds

---
 src/dsp/transform/wavelet/linear_scale.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dsp/transform/wavelet/linear_scale.cpp b/src/dsp/transform/wavelet/linear_scale.cpp
index 45a3a41..990b70d 100644
--- a/src/dsp/transform/wavelet/linear_scale.cpp
+++ b/src/dsp/transform/wavelet/linear_scale.cpp
@@ -1,4 +1,5 @@
 #include <k52/dsp/transform/wavelet/linear_scale.h>
+#include <limits>
 #include <stdexcept>
 
 using ::std::vector;
@@ -27,6 +28,10 @@ LinearScale::LinearScale(double min_scale, double max_scale, size_t scale_count)
         throw invalid_argument("min_scale >= max_scale");
     }
 
+    if(!(min_scale < max_scale) || max_scale > std::numeric_limits< double >::max())
+    {
+        throw invalid_argument("min_scale and max_scale must be finite numbers");
+    }
     if(scale_count < 2)
     {
         //At least 2 scales - min and max - must be used
-- 
2.43.0


From 69df6392c530d901170f32a25df469534d3c64bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:04 +0000
Subject: [PATCH 21/36] fix: LogarithmicScale rejects exponents whose powers of
 two are not representable

---
 src/dsp/transform/wavelet/logarithmic_scale.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/dsp/transform/wavelet/logarithmic_scale.cpp b/src/dsp/transform/wavelet/logarithmic_scale.cpp
index 3e8ae07..1d201b0 100644
--- a/src/dsp/transform/wavelet/logarithmic_scale.cpp
+++ b/src/dsp/transform/wavelet/logarithmic_scale.cpp
@@ -1,10 +1,18 @@
 #include <k52/dsp/transform/wavelet/logarithmic_scale.h>
+#include <limits>
 #include <stdexcept>
 #include <math.h>
 
 using ::std::vector;
 using ::std::invalid_argument;
 
+namespace
+{
+//The smallest and the largest power of two representable as a double
+const int kMinExponent = std::numeric_limits< double >::min_exponent - std::numeric_limits< double >::digits;
+const int kMaxExponent = std::numeric_limits< double >::max_exponent - 1;
+}
+
 namespace k52
 {
 namespace dsp
@@ -17,6 +25,11 @@ LogarithmicScale::LogarithmicScale(int min_exponent, int max_exponent)
         throw invalid_argument("min_exponent >= max_exponent");
     }
 
+    if(min_exponent < kMinExponent || max_exponent > kMaxExponent)
+    {
+        throw invalid_argument("2 to the power of the exponents is not representable");
+    }
+
     scales_ = CalculateScales(min_exponent, max_exponent);
 }
 
-- 
2.43.0


From f0656daa3efdd50f6b8ab13b785645d1d6fb5efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:12 +0000
Subject: [PATCH 22/36] fix: Akima spline refuses NaN instead of reading before
 its nodes

---
 src/dsp/akima_spline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsp/akima_spline.cpp b/src/dsp/akima_spline.cpp
index 1c5401d..c5906aa 100644
--- a/src/dsp/akima_spline.cpp
+++ b/src/dsp/akima_spline.cpp
@@ -120,7 +120,7 @@ std::size_t AkimaSpline::ResolveInterval(double x) const
 {
     std::vector<double>::const_iterator upper_bound = std::upper_bound(train_x_.begin(), train_x_.end(), x);
 
-    if (upper_bound == train_x_.begin())
+    if (upper_bound == train_x_.begin() || x != x)
     {
         throw std::out_of_range("X value is out of range in Akima spline");
     }
-- 
2.43.0


From b3d8616917cc72f82d061b80a87de4869b749a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:16 +0000
Subject: [PATCH 23/36] fix: spline based wavelets are defined at the end of
 their support

---
 src/dsp/spline_based_wavelet_function.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dsp/spline_based_wavelet_function.cpp b/src/dsp/spline_based_wavelet_function.cpp
index 37f38e3..f55642a 100644
--- a/src/dsp/spline_based_wavelet_function.cpp
+++ b/src/dsp/spline_based_wavelet_function.cpp
@@ -30,7 +30,8 @@ void SplineBased::Init(const std::vector<double> &real, const std::vector<double
     points[0] = points[1] - (points[2] - points[1]);
     values[0] = 0;
     int size(points.size());
-    points[size - 1] = points[size - 2] - (points[size - 3] - points[size - 2]);
+    // the end of the support, exactly: GetValue evaluates the spline up to it
+    points[size - 1] = 4;
     values[size - 1] = 0;
 
     spline_->Initialize(points, values);
-- 
2.43.0


From 6bc4cafd397ffc9074e6a78eab0b957b9d8281b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:20 +0000
Subject: [PATCH 24/36] fix: spline based wavelets without samples are rejected

---
 src/dsp/spline_based_wavelet_function.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dsp/spline_based_wavelet_function.cpp b/src/dsp/spline_based_wavelet_function.cpp
index f55642a..4732dea 100644
--- a/src/dsp/spline_based_wavelet_function.cpp
+++ b/src/dsp/spline_based_wavelet_function.cpp
@@ -2,6 +2,7 @@
 
 // standart headers
 #include <algorithm>
+#include <stdexcept>
 #include <stdint.h>
 #include <vector>
 
@@ -17,6 +18,11 @@ std::complex<double> SplineBased::GetValue(double t)
 
 void SplineBased::Init(const std::vector<double> &real, const std::vector<double> &imaj)
 {
+    if (real.empty())
+    {
+        throw std::invalid_argument("A spline based wavelet requires samples");
+    }
+
     std::vector<double> points(real.size() + 2);
     double delta = 8. / real.size();
     for (size_t i = 0; i < real.size(); ++i)
-- 
2.43.0


From eefe55c0f57e59489471cb720036f41a26d3583e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:03 +0000
Subject: [PATCH 25/36] fix: OptimizationParametersProcessor rejects an empty
 set of parameters

---
 src/optimization/optimization_parameters_processor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/optimization/optimization_parameters_processor.cpp b/src/optimization/optimization_parameters_processor.cpp
index 02aa245..f7b5d16 100644
--- a/src/optimization/optimization_parameters_processor.cpp
+++ b/src/optimization/optimization_parameters_processor.cpp
@@ -29,6 +29,10 @@ IParameters::shared_ptr OptimizationParametersProcessor::ProcessParameters(
     const std::vector< IParameters::shared_ptr >& parameters,
     bool maximize)
 {
+    if(parameters.size() < 1)
+    {
+        throw std::invalid_argument("parameters should contain at least one element in vector");
+    }
     std::vector< OptimizationTask::shared_ptr > tasks (parameters.size());
     std::vector< const parallel::ITask* > task_pointers (parameters.size());
     for(size_t i=0; i<parameters.size(); i++)
-- 
2.43.0


From 82475c7cafbce1bb2b1cc9a42f4ab8f72e8cf463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:03 +0000
Subject: [PATCH 26/36] fix: Parameters processors pick the same point when
 minimizing as when maximizing the negated function

---
 src/optimization/optimization_parameters_processor.cpp | 3 +--
 src/optimization/simple_parameters_processor.cpp       | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/optimization/optimization_parameters_processor.cpp b/src/optimization/optimization_parameters_processor.cpp
index f7b5d16..430519c 100644
--- a/src/optimization/optimization_parameters_processor.cpp
+++ b/src/optimization/optimization_parameters_processor.cpp
@@ -64,8 +64,7 @@ IParameters::shared_ptr OptimizationParametersProcessor::ProcessParameters(
 
     for(size_t i=1; i<values.size(); i++)
     {
-        bool condition = values[i] > value;
-        condition = maximize ? condition : (!condition);
+        bool condition = maximize ? values[i] > value : values[i] < value;
 
         if(condition)
         {
diff --git a/src/optimization/simple_parameters_processor.cpp b/src/optimization/simple_parameters_processor.cpp
index 954b664..8962da5 100644
--- a/src/optimization/simple_parameters_processor.cpp
+++ b/src/optimization/simple_parameters_processor.cpp
@@ -29,8 +29,7 @@ IParameters::shared_ptr SimpleParametersProcessor::ProcessParameters(
 
     for(size_t i=1; i<values.size(); i++)
     {
-        bool condition = values[i] > value;
-        condition = maximize ? condition : (!condition);
+        bool condition = maximize ? values[i] > value : values[i] < value;
 
         if(condition)
         {
-- 
2.43.0


From ca48f9f4506ee35f425ecf87d42b0b48314ef08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:23 +0000
Subject: [PATCH 27/36] fix: GridSearch implements the IOptimizer interface and
 can be created

---
 include/k52/optimization/grid_search.h | 5 +++--
 src/optimization/grid_search.cpp       | 9 ++++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/k52/optimization/grid_search.h b/include/k52/optimization/grid_search.h
index 5f052b6..3a9c57d 100644
--- a/include/k52/optimization/grid_search.h
+++ b/include/k52/optimization/grid_search.h
@@ -20,7 +20,8 @@ public:
 
     virtual void Optimize(
         const IObjectiveFunction& function_to_optimize,
-        IParameters* parameters_to_optimize);
+        IParameters* parameters_to_optimize,
+        bool maximize);
 
     ///Creates deep clone of an object with resource allocation. See ICloneable
     ///@return deep clone of an object
@@ -31,7 +32,7 @@ public:
 #ifdef BUILD_WITH_MPI
     virtual void Send(boost::mpi::communicator* communicator, int target) const;
 
-    virtual void Receive(boost::mpi::communicator* communicator);
+    virtual void Receive(boost::mpi::communicator* communicator, int source);
 #endif
 
 protected:
diff --git a/src/optimization/grid_search.cpp b/src/optimization/grid_search.cpp
index 90caa05..9e459b5 100644
--- a/src/optimization/grid_search.cpp
+++ b/src/optimization/grid_search.cpp
@@ -23,7 +23,7 @@ GridSearch::GridSearch(double precision, double lower_bound, double upper_bound)
     precision_ = precision;
 }
 
-void GridSearch::Optimize(const IObjectiveFunction& function_to_optimize, IParameters* parameters_to_optimize)
+void GridSearch::Optimize(const IObjectiveFunction& function_to_optimize, IParameters* parameters_to_optimize, bool maximize)
 {
     IContinuousParameters* continuous_parameters = dynamic_cast<IContinuousParameters*> (parameters_to_optimize);
     if(!continuous_parameters)
@@ -64,7 +64,10 @@ void GridSearch::Optimize(const IObjectiveFunction& function_to_optimize, IParam
     }
 
     vector<double> counted_values = fitness_counter_->CountObjectiveFunctionValues(parameters, function_to_optimize);
-    size_t best_index = std::distance(counted_values.begin(), max_element(counted_values.begin(), counted_values.end()));
+    vector<double>::iterator best_value = maximize ?
+        std::max_element(counted_values.begin(), counted_values.end()) :
+        std::min_element(counted_values.begin(), counted_values.end());
+    size_t best_index = std::distance(counted_values.begin(), best_value);
 
     continuous_parameters->SetValues( parameters_storages[best_index]->GetValues() );
 }
@@ -85,7 +88,7 @@ void GridSearch::Send(boost::mpi::communicator* communicator, int target) const
     throw std::logic_error("Send is not implemented for GridSearch");
 }
 
-void GridSearch::Receive(boost::mpi::communicator* communicator)
+void GridSearch::Receive(boost::mpi::communicator* communicator, int source)
 {
     throw std::logic_error("Receive is not implemented for GridSearch");
 }
-- 
2.43.0


From 61c6f38384f1e612694274cef1926430145b48cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:16 +0000
Subject: [PATCH 28/36] fix: SimulatedAnnealing does not fail when the last
 neighbour is as good as the current point

---
 src/optimization/simulated_annealing.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/optimization/simulated_annealing.cpp b/src/optimization/simulated_annealing.cpp
index b0ea560..008cdaa 100644
--- a/src/optimization/simulated_annealing.cpp
+++ b/src/optimization/simulated_annealing.cpp
@@ -77,7 +77,8 @@ double SimulatedAnnealing::CountAcceptanceProbability(double current_value, doub
         throw std::runtime_error("Negative temperature");
     }
 
-    if (new_value < current_value)
+    //Equal values as well: the temperature is 0 in the last iteration
+    if (new_value <= current_value)
     {
         return 1;
     }
-- 
2.43.0


From f70f16546a94cc140070b1c0a20892bfaf774260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:51 +0000
Subject: [PATCH 29/36] fix: BoundedNelderMead returns its best vertex, not the
 worst

---
 src/optimization/bounded_nelder_mead.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimization/bounded_nelder_mead.cpp b/src/optimization/bounded_nelder_mead.cpp
index b49c05b..777628c 100644
--- a/src/optimization/bounded_nelder_mead.cpp
+++ b/src/optimization/bounded_nelder_mead.cpp
@@ -161,7 +161,7 @@ std::vector<double> BoundedNelderMead::FindOptimalParameters(const std::vector<d
     } while (GetTerminationCriteria(r, function_values, polygon));
 
 
-    size_t best_index = std::distance(function_values.begin(), std::max_element(function_values.begin(), function_values.end()));
+    size_t best_index = std::distance(function_values.begin(), std::min_element(function_values.begin(), function_values.end()));
     return polygon[best_index];
 }
 
-- 
2.43.0


From 4e7151e6c7c54be622e4405fbcbd18345c172cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:14 +0000
Subject: [PATCH 30/36] fix: A run of BoundedNelderMead does not depend on
 polygons of earlier runs

---
 src/optimization/bounded_nelder_mead.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/optimization/bounded_nelder_mead.cpp b/src/optimization/bounded_nelder_mead.cpp
index 777628c..d42d0ba 100644
--- a/src/optimization/bounded_nelder_mead.cpp
+++ b/src/optimization/bounded_nelder_mead.cpp
@@ -74,6 +74,8 @@ std::vector<double> BoundedNelderMead::FindOptimalParameters(const std::vector<d
     //Iteration index
     size_t r = 0;
 
+    //Polygons of previous runs do not matter
+    previous_polygons_.clear();
     //Build simplex based on initial_parameters
     vector< vector<double> > polygon = GetRegularSimplex(initial_parameters, l_);
 
-- 
2.43.0


From a87738d8eeed3cc0a0a5993d7802056c15b33f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:15 +0000
Subject: [PATCH 31/36] fix: HleborodovRosenbrockMethod returns the best point
 it reached

---
 src/optimization/hleborodov_rosenbrock_method.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/optimization/hleborodov_rosenbrock_method.cpp b/src/optimization/hleborodov_rosenbrock_method.cpp
index b21294d..299db20 100644
--- a/src/optimization/hleborodov_rosenbrock_method.cpp
+++ b/src/optimization/hleborodov_rosenbrock_method.cpp
@@ -76,11 +76,22 @@ vector<double> HleborodovRosenbrockMethod::FindOptimalParameters(const vector<do
 
     InitializeBasisAndSteps();
 
+    // A step may also lead to a worse point
+    vector<double> best_arguments(arguments);
+    double best_value = CountObjectiveFunctionValueToMinimize(best_arguments);
+
     for (size_t i = 1; i <= max_iteration_number_; i++)
     {
         // Research of next arguments, that minimize function
         MakeStep(next_step_arguments);
 
+        double counted_value = CountObjectiveFunctionValueToMinimize(next_step_arguments);
+        if (counted_value < best_value)
+        {
+            best_value = counted_value;
+            best_arguments = next_step_arguments;
+        }
+
         if (IsExitCriteriaFulfilled(next_step_arguments, arguments))
         {
             break;
@@ -97,7 +108,7 @@ vector<double> HleborodovRosenbrockMethod::FindOptimalParameters(const vector<do
         arguments = next_step_arguments;
     }
 
-    return next_step_arguments;
+    return best_arguments;
 }
 
 void HleborodovRosenbrockMethod::InitializeBasisAndSteps()
-- 
2.43.0


From edc127ec3cb31c3418a65bd1f13cdeebd5357c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:30 +0000
Subject: [PATCH 32/36] fix: SteepestDescentMethod returns the last point it
 reached

---
 src/optimization/steepest_descent_method.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimization/steepest_descent_method.cpp b/src/optimization/steepest_descent_method.cpp
index ac7352b..11cc77d 100644
--- a/src/optimization/steepest_descent_method.cpp
+++ b/src/optimization/steepest_descent_method.cpp
@@ -91,7 +91,7 @@ vector<double> SteepestDescentMethod::FindOptimalParameters(const vector<double>
     } while (!IsExitCriteriaFulfilled(next_step_parameters) 
         && !(counter == max_iteration_number_));
 
-    return parameters;
+    return next_step_parameters;
 }
 
 bool SteepestDescentMethod::IsExitCriteriaFulfilled(
-- 
2.43.0


From 339b326e1021c4b7c9c3d2fca5540adb258f2084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:30 +0000
Subject: [PATCH 33/36] fix: SteepestDescentMethod compares step lengths
 without truncating them to integers

---
 src/optimization/steepest_descent_method.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optimization/steepest_descent_method.cpp b/src/optimization/steepest_descent_method.cpp
index 11cc77d..f441b81 100644
--- a/src/optimization/steepest_descent_method.cpp
+++ b/src/optimization/steepest_descent_method.cpp
@@ -243,7 +243,7 @@ double SteepestDescentMethod::FindStepLength(
             break;
         }
 
-    } while ((abs(left_border - right_border) > precision_));
+    } while ((std::abs(left_border - right_border) > precision_));
 
     return (left_border + right_border) / 2;
 }
@@ -263,7 +263,7 @@ double SteepestDescentMethod::Localization(
             point[i] = init_parameters[i] + step*direction[i];
         }       		
     } while ((CountObjectiveFunctionValueToMinimize(point) > CountObjectiveFunctionValueToMinimize(init_parameters))
-        && (abs(step) > precision_));
+        && (std::abs(step) > precision_));
 
 
     vector<double> next_step_point(point);
-- 
2.43.0


From 821e7dbd9478ccdde1b0f0b2e0c644299c5bc72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:30 +0000
Subject: [PATCH 34/36] fix: SteepestDescentMethod started at a minimum returns
 it

---
 src/optimization/steepest_descent_method.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/optimization/steepest_descent_method.cpp b/src/optimization/steepest_descent_method.cpp
index f441b81..3ef8821 100644
--- a/src/optimization/steepest_descent_method.cpp
+++ b/src/optimization/steepest_descent_method.cpp
@@ -74,6 +74,12 @@ vector<double> SteepestDescentMethod::FindOptimalParameters(const vector<double>
     double lambda = 1; 
 
     vector<double> next_step_parameters(parameters);
+    if (IsExitCriteriaFulfilled(next_step_parameters))
+    {
+        //There may be no direction to search along
+        return next_step_parameters;
+    }
+
     do
     {
         parameters = next_step_parameters;
-- 
2.43.0


From 21ed9aa31a3064bf16bf8e3aa81acab256df80da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:47 +0000
Subject: [PATCH 35/36] fix: ConjugateGradientMethod started at a minimum
 returns it

---
 .../conjugate_gradient_method.cpp             | 28 ++++++++++++-------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/optimization/conjugate_gradient_method.cpp b/src/optimization/conjugate_gradient_method.cpp
index 0dee546..d82b500 100644
--- a/src/optimization/conjugate_gradient_method.cpp
+++ b/src/optimization/conjugate_gradient_method.cpp
@@ -17,6 +17,19 @@
 using ::std::vector;
 using ::k52::common::FloatingPoint;
 
+namespace
+{
+double CalculateNorm(const vector<double>& values)
+{
+    double norm = 0;
+    for (size_t i = 0; i<values.size(); i++)
+    {
+        norm += pow(values[i], 2);
+    }
+    return sqrt(norm);
+}
+}
+
 namespace k52
 {
 namespace optimization
@@ -76,11 +89,12 @@ vector<double> ConjugateGradientMethod::FindOptimalParameters(
     vector<double> previous_search_direction(parameters.size());
 
     double weighting_coefficient = 0;
-    double exit = 0;
+    //There is no direction to search along at a minimum
+    double exit = CalculateNorm(gradient);
     size_t iteration = 1;
 
     //http://en.wikipedia.org/wiki/Nonlinear_conjugate_gradient_method
-    do
+    while (exit >= precision_)
     {
         previous_search_direction = search_direction;
         search_direction = FindNextSearchDirection(gradient, previous_search_direction, weighting_coefficient, iteration);
@@ -97,13 +111,7 @@ vector<double> ConjugateGradientMethod::FindOptimalParameters(
 
         weighting_coefficient = CalculateWeightingCoefficient(gradient, previous_gradient);
 
-        //TODO use vector math
-        exit = 0;
-        for (size_t i = 0; i<parameters.size(); i++)
-        {
-            exit += pow(gradient[i], 2);
-        }
-        exit = sqrt(exit);
+        exit = CalculateNorm(gradient);
 
         iteration++;
         if (iteration == number_of_iterations_)
@@ -111,7 +119,7 @@ vector<double> ConjugateGradientMethod::FindOptimalParameters(
             std::cout << "Solution not found" << std::endl;
             break;
         }
-    } while (exit >= precision_);
+    }
 
     return parameters;
 }
-- 
2.43.0


From eb92d259dce8fc0cb54a699d5fbefb308324e38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:47 +0000
Subject: [PATCH 36/36] fix: ConjugateGradientMethod does not fail for small
 gradients

---
 src/optimization/conjugate_gradient_method.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/optimization/conjugate_gradient_method.cpp b/src/optimization/conjugate_gradient_method.cpp
index d82b500..7feb4ba 100644
--- a/src/optimization/conjugate_gradient_method.cpp
+++ b/src/optimization/conjugate_gradient_method.cpp
@@ -11,11 +11,11 @@
 #include <stdexcept>
 #include <iostream>
 
-#include <k52/common/floating_point.h>
+
 #include <k52/optimization/params/i_continuous_parameters.h>
 
 using ::std::vector;
-using ::k52::common::FloatingPoint;
+
 
 namespace
 {
@@ -229,7 +229,7 @@ double ConjugateGradientMethod::CalculateWeightingCoefficient(
         previous_gradient_square += pow(previous_gradient[i], 2);
     }
 
-    if(FloatingPoint::IsZero(previous_gradient_square))
+    if(previous_gradient_square == 0)
     {
         throw std::runtime_error("previous_gradient_square == 0");
     }
-- 
2.43.0

