From 5c2c1231215754534b418fa7331a30e0fb1da154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:57 +0000
Subject: [PATCH 01/36] fix: w_to_f loses the frequency of small evidence and
 reports 0 instead of 0.5 for none

---
 NAL/Functions/include/UncertaintyMappingFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NAL/Functions/include/UncertaintyMappingFunctions.h b/NAL/Functions/include/UncertaintyMappingFunctions.h
index b278bac..6ac2362 100644
--- a/NAL/Functions/include/UncertaintyMappingFunctions.h
+++ b/NAL/Functions/include/UncertaintyMappingFunctions.h
@@ -9,7 +9,7 @@ namespace UNCERTAINTY_MAPPING_FUNCTIONS
     inline float fc_to_w_plus(float f, float c, float k) { return k * f * c / (1 - c); }
     inline float fc_to_w(float f, float c, float k) { return k * c / (1 - c); }
     inline float fc_to_w_minus(float f, float c, float k) { return k * (1 - f) * c / (1 - c); }
-    inline float w_to_f(float w_plus, float w) { return w > 1e-8 ? w_plus / w : 0.0; }
+    inline float w_to_f(float w_plus, float w) { return w > 0 ? w_plus / w : 0.5; }
     inline float w_to_c(float w, float k) { return w / (w + k); }
 
     // Truth truth_from_w(float w_plus, float w, float k=1.0);
-- 
2.43.0


From f0923df4c0610869bc6b948f4bb34a06a3133063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:12 +0000
Subject: [PATCH 02/36] fix: confidence computed from evidence amounts no
 longer rounds up to 1

---
 NAL/Functions/include/UncertaintyMappingFunctions.h | 3 ++-
 Narsese/include/Truth.h                             | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/NAL/Functions/include/UncertaintyMappingFunctions.h b/NAL/Functions/include/UncertaintyMappingFunctions.h
index 6ac2362..8082b31 100644
--- a/NAL/Functions/include/UncertaintyMappingFunctions.h
+++ b/NAL/Functions/include/UncertaintyMappingFunctions.h
@@ -2,6 +2,7 @@
 #define _UNCERTAINTY_MAPPING_FUNCTIONS_H
 
 #include "Narsese/include/Truth.h"
+#include <algorithm>
 namespace UNCERTAINTY_MAPPING_FUNCTIONS
 {
     using TRUTH::Truth;
@@ -10,7 +11,7 @@ namespace UNCERTAINTY_MAPPING_FUNCTIONS
     inline float fc_to_w(float f, float c, float k) { return k * c / (1 - c); }
     inline float fc_to_w_minus(float f, float c, float k) { return k * (1 - f) * c / (1 - c); }
     inline float w_to_f(float w_plus, float w) { return w > 0 ? w_plus / w : 0.5; }
-    inline float w_to_c(float w, float k) { return w / (w + k); }
+    inline float w_to_c(float w, float k) { return std::min(w / (w + k), TRUTH::CONFIDENCE_MAX); }
 
     // Truth truth_from_w(float w_plus, float w, float k=1.0);
     inline Truth truth_from_w(float w_plus, float w, float k = 1.0)
diff --git a/Narsese/include/Truth.h b/Narsese/include/Truth.h
index 4c1a4b3..4bad1df 100755
--- a/Narsese/include/Truth.h
+++ b/Narsese/include/Truth.h
@@ -1,6 +1,7 @@
 #ifndef _TRUTH_H
 #define _TRUTH_H
 
+#include <algorithm>
 #include <memory>
 #include <pybind11/pybind11.h>
 #include "Config.h"
@@ -10,6 +11,9 @@ namespace TRUTH
 {
     namespace py = pybind11;
 
+    // confidence is below 1: the largest float that is
+    constexpr float CONFIDENCE_MAX = 0x1.fffffep-1f;
+
     class Truth;
     typedef std::shared_ptr<Truth> pTruth;
 
@@ -46,7 +50,7 @@ namespace TRUTH
         inline void set_w(double w_p, double w)
         {
             this->f = w > 0 ? w_p / w : 0.5;
-            this->c = w / (w + k);
+            this->c = std::min((float)(w / (w + k)), CONFIDENCE_MAX);
         }
 
         inline static pTruth create(float f, float c, float k = 1.0)
-- 
2.43.0


From 1b6d9e6b2c9ea33540326d15227b0ffaf38693d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:08 +0000
Subject: [PATCH 03/36] fix: projection divides times as integers, so
 confidence never decays

---
 NAL/Functions/include/TemporalFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NAL/Functions/include/TemporalFunctions.h b/NAL/Functions/include/TemporalFunctions.h
index 86b2529..88543b4 100644
--- a/NAL/Functions/include/TemporalFunctions.h
+++ b/NAL/Functions/include/TemporalFunctions.h
@@ -11,7 +11,7 @@ namespace TEMPORAL_FUNCTIONS
     inline auto project(pTruth truth, int64_t t_source, int64_t t_current, int64_t t_target, size_t decay_duration = 1000)
     {
         auto d = (abs(t_source - t_current) + abs(t_target - t_current)) + decay_duration;
-        auto k_c = d > 0 ? abs(t_source - t_target) / d : 0;
+        auto k_c = d > 0 ? (double)abs(t_source - t_target) / d : 0.0;
         auto c_new = (1 - k_c) * truth->c;
         return Truth::create(truth->f, c_new, truth->k);
     }
-- 
2.43.0


From b19e167b7de4d1c0f343ce8b1e6c470f47d869c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:29 +0000
Subject: [PATCH 04/36] fix: symmetrize and reverse of a copula return the
 copula, not a bool

---
 Narsese/include/Copula.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Narsese/include/Copula.h b/Narsese/include/Copula.h
index f6bf5d3..e32dfcc 100755
--- a/Narsese/include/Copula.h
+++ b/Narsese/include/Copula.h
@@ -48,8 +48,8 @@ namespace COPULA
     inline bool is_commutative(Copula copula) { return _commutative[copula]; }
     inline bool is_higher_order(Copula copula) { return _higher_order[copula]; }
     inline bool is_temporal(Copula copula) { return _temporal[copula]; }
-    inline bool symmetrize(Copula copula) { return _symmetrize[copula]; }
-    inline bool reverse(Copula copula) { return _reverse[copula]; }
+    inline Copula symmetrize(Copula copula) { return _symmetrize[copula]; }
+    inline Copula reverse(Copula copula) { return _reverse[copula]; }
 
     void pybind_copula(py::module &m);
 
-- 
2.43.0


From b5055d9635aa6b480eb92508052ada5edd98991f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:29 +0000
Subject: [PATCH 05/36] fix: Python name ExtensionalDifference denoted
 ParallelEvents

---
 Narsese/src/Connector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Narsese/src/Connector.cpp b/Narsese/src/Connector.cpp
index 6ce8f9f..52a2d97 100755
--- a/Narsese/src/Connector.cpp
+++ b/Narsese/src/Connector.cpp
@@ -15,7 +15,7 @@ namespace CONNECTOR
             .value("SequentialEvents", CONNECTOR::Connector::SequentialEvents, "&/")
             .value("IntensionalIntersection", CONNECTOR::Connector::IntensionalIntersection, "|")
             .value("ExtensionalIntersection", CONNECTOR::Connector::ExtensionalIntersection, "&")
-            .value("ExtensionalDifference", CONNECTOR::Connector::ParallelEvents, "-")
+            .value("ExtensionalDifference", CONNECTOR::Connector::ExtensionalDifference, "-")
             .value("IntensionalDifference", CONNECTOR::Connector::IntensionalDifference, "~")
             .value("Negation", CONNECTOR::Connector::Negation, "--")
             .value("IntensionalSet", CONNECTOR::Connector::IntensionalSet, "[")
-- 
2.43.0


From cd7976756703f5fc3172e92fa89bd9b383027715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:44 +0000
Subject: [PATCH 06/36] fix: clock and evidence counter were private to each
 source file, so inputs could share evidence

---
 Global.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Global.h b/Global.h
index ec26c8a..26f84c2 100755
--- a/Global.h
+++ b/Global.h
@@ -3,8 +3,8 @@
 
 namespace GLOBAL
 {
-    static unsigned long time = 0;
-    static unsigned long _input_id = 0;
+    inline unsigned long time = 0;
+    inline unsigned long _input_id = 0;
 
     inline unsigned long get_input_id()
     {
-- 
2.43.0


From 5a58e2bb1e13b4e14774d09207aa96bb089f465a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:44 +0000
Subject: [PATCH 07/36] fix: a stamp created without evidence stayed without
 evidential base

---
 Narsese/include/Sentence.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Narsese/include/Sentence.h b/Narsese/include/Sentence.h
index c8f6933..af58c0f 100755
--- a/Narsese/include/Sentence.h
+++ b/Narsese/include/Sentence.h
@@ -62,7 +62,7 @@ namespace SENTENCE
         Stamp(signed int t_occurrence, signed int t_creation, signed int t_put, pBase evidential_base, bool is_eternal = true) : t_occurrence(t_occurrence), t_creation(t_creation), t_put(t_put), evidential_base(evidential_base), is_eternal(is_eternal)
         {
             if (evidential_base == nullptr)
-                evidential_base = pBase(new Base());
+                this->evidential_base = pBase(new Base());
         }
 
         static pStamp create(bool is_eternal = false)
-- 
2.43.0


From f006584d67916ab4c4303fed54a3a5a71e87f660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:11 +0000
Subject: [PATCH 08/36] fix: pooling evidence lost the base's own evidence,
 invented identifiers and overshot the maximum

---
 Narsese/include/Evidence.h | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/Narsese/include/Evidence.h b/Narsese/include/Evidence.h
index b96dd73..77ce7ad 100755
--- a/Narsese/include/Evidence.h
+++ b/Narsese/include/Evidence.h
@@ -32,38 +32,36 @@ namespace EVIDENCE
 
         void extend(const Base &other)
         {
-            auto base1 = Base(*this);
-            auto &base2 = other;
-            this->_set->clear();
-            Base::interleave(*this, base1, base2);
+            Base base{set<size_t>()};
+            Base::interleave(base, *this, other);
+            this->_set->swap(*base._set);
+            this->_is_hashed = false;
         }
 
         static void interleave(Base &base, const Base &base1, const Base &base2)
         {
-            auto base_length = std::min(base1.size() + base2.size(), (size_t)CONFIG::maximum_evidential_base_length);
-            size_t i = 0;
+            size_t max_length = CONFIG::maximum_evidential_base_length;
             auto it1 = base1._set->begin();
             auto it2 = base2._set->begin();
-            while (i < base_length)
+            while (base.size() < max_length && (it1 != base1._set->end() || it2 != base2._set->end()))
             {
                 if (it2 != base2._set->end())
                 {
                     base._set->insert(*it2);
                     it2++;
-                    i++;
                 }
-                if (it1 != base1._set->end())
+                if (it1 != base1._set->end() && base.size() < max_length)
                 {
                     base._set->insert(*it1);
                     it1++;
-                    i++;
                 }
             }
+            base._is_hashed = false;
         }
 
         static auto interleave(const Base &base1, const Base &base2)
         {
-            auto base = pBase(new Base());
+            auto base = pBase(new Base(set<size_t>()));
             Base::interleave(*base, base1, base2);
             return base;
         }
-- 
2.43.0


From ace4fae744a76976d49c3b2a400d73e1225fd2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:36 +0000
Subject: [PATCH 09/36] fix: the name dictionary truncated 64-bit term keys to
 int, so distinct terms could share an entry

---
 Interpreter/include/Interpreter.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/Interpreter/include/Interpreter.hpp b/Interpreter/include/Interpreter.hpp
index d179b37..4f23977 100644
--- a/Interpreter/include/Interpreter.hpp
+++ b/Interpreter/include/Interpreter.hpp
@@ -38,7 +38,7 @@ namespace INTERPRETER
         map<string, size_t> dictionary_inv;
         map<size_t, int> count;
 
-        inline void put(int key, string name, void *object)
+        inline void put(size_t key, string name, void *object)
         {
             dictionary[key] = name;
             objects[key] = (pTerm *)object;
@@ -46,12 +46,12 @@ namespace INTERPRETER
             count[key] = (check_count(key) == 0) ? 1 : (count[key] + 1);
         }
 
-        inline string &get(int key) { return dictionary[key]; }
-        inline pTerm *get_object(int key) { return objects[key]; }
-        inline int get_by_name(string &name) { return dictionary_inv[name]; }
-        inline bool check(int key) { return dictionary.count(key) == 1; }
+        inline string &get(size_t key) { return dictionary[key]; }
+        inline pTerm *get_object(size_t key) { return objects[key]; }
+        inline size_t get_by_name(string &name) { return dictionary_inv[name]; }
+        inline bool check(size_t key) { return dictionary.count(key) == 1; }
         inline bool check_by_name(string &name) { return dictionary_inv.count(name) == 1; }
-        inline int check_count(int key)
+        inline int check_count(size_t key)
         {
             if (count.count(key) == 0)
             {
@@ -68,7 +68,7 @@ namespace INTERPRETER
             }
         }
 
-        inline bool remove(int key)
+        inline bool remove(size_t key)
         {
             if (check(key))
             {
@@ -118,7 +118,7 @@ namespace INTERPRETER
             }
         }
 
-        inline bool erase(int key)
+        inline bool erase(size_t key)
         {
             if (check_count(key) > 0)
             {
-- 
2.43.0


From 08596c440f0007dea0dbe984625bd6d92e892165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:11 +0000
Subject: [PATCH 10/36] fix: tenses were taken relative to time zero instead of
 the present

---
 Narsese/Parser/NarseseParser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Narsese/Parser/NarseseParser.cpp b/Narsese/Parser/NarseseParser.cpp
index a90e80c..e91669f 100644
--- a/Narsese/Parser/NarseseParser.cpp
+++ b/Narsese/Parser/NarseseParser.cpp
@@ -773,20 +773,20 @@ void *NARSESEPARSER::tense_time(Parser *self, const Args &args)
 void *NARSESEPARSER::tense_future(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new std::tuple(0, (new (signed int)(CONFIG::temporal_duration)));
+	ret = new std::tuple(0, (new (signed int)(GLOBAL::time + CONFIG::temporal_duration)));
 	return ret;
 }
 void *NARSESEPARSER::tense_present(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new std::tuple(0, (new (signed int)(0)));
+	ret = new std::tuple(0, (new (signed int)(GLOBAL::time)));
 
 	return ret;
 }
 void *NARSESEPARSER::tense_past(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new std::tuple(0, (new (signed int)(-CONFIG::temporal_duration)));
+	ret = new std::tuple(0, (new (signed int)(GLOBAL::time - CONFIG::temporal_duration)));
 	return ret;
 }
 void *NARSESEPARSER::truth(Parser *self, const Args &args)
-- 
2.43.0


From e8dd2894fb6ebe8609112a3483a518976aa8fdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:42 +0000
Subject: [PATCH 11/36] fix: judgements and goals without a truth value ignored
 their configured default confidence

---
 Narsese/Parser/NarseseParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Narsese/Parser/NarseseParser.cpp b/Narsese/Parser/NarseseParser.cpp
index e91669f..1f6ad78 100644
--- a/Narsese/Parser/NarseseParser.cpp
+++ b/Narsese/Parser/NarseseParser.cpp
@@ -151,7 +151,7 @@ void *NARSESEPARSER::judgement(Parser *self, const Args &args)
 
 	if (truth == nullptr)
 	{
-		truth = new Truth(CONFIG::f, CONFIG::c, CONFIG::k);
+		truth = new Truth(CONFIG::f, CONFIG::c_judgement, CONFIG::k);
 	}
 	else
 	{
@@ -234,7 +234,7 @@ void *NARSESEPARSER::goal(Parser *self, const Args &args)
 
 	if (desire == nullptr)
 	{
-		desire = new Truth(CONFIG::f, CONFIG::c, CONFIG::k);
+		desire = new Truth(CONFIG::f, CONFIG::c_goal, CONFIG::k);
 	}
 	else
 	{
-- 
2.43.0


From f07a7af5586cf9d4edc37979e109fd17191aec93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:41 +0000
Subject: [PATCH 12/36] fix: dependent and query occurrence indices were built
 from independent variables

---
 Narsese/include/Term.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Narsese/include/Term.inl b/Narsese/include/Term.inl
index 0660714..5a0a840 100644
--- a/Narsese/include/Term.inl
+++ b/Narsese/include/Term.inl
@@ -23,6 +23,7 @@ namespace TERM
             {
                 auto indexvar2 = *it;
                 IndexVar::connect(indexvar1, indexvar2, false);
+                ++it;
             }
         }
     }
@@ -37,6 +38,7 @@ namespace TERM
             {
                 auto indexvar2 = *it;
                 IndexVar::connect(indexvar1, indexvar2, false);
+                ++it;
             }
         }
     }
-- 
2.43.0


From da87b8a3f5fdefdbf19247b19e6d0596f6550056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:41 +0000
Subject: [PATCH 13/36] fix: normalised variable indices were kept after the
 indices changed

---
 utils/IndexVar.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/utils/IndexVar.cpp b/utils/IndexVar.cpp
index c9f7293..398a591 100755
--- a/utils/IndexVar.cpp
+++ b/utils/IndexVar.cpp
@@ -114,6 +114,8 @@ void IndexVar::build(bool rebuild)
     }
 
     this->_is_built = true;
+    this->_is_hashed = false;
+    this->_indices_normalized = nullptr;
     this->_hash_value = hash(*this);
 }
 
@@ -135,6 +137,8 @@ pInt IndexVar::add(int idx, const std::vector<int> &position)
     {
         idxvar = idxvar->successors[pos].get();
     }
+    idxvar->_is_hashed = false;
+    idxvar->_indices_normalized = nullptr;
     idxvar->positions.push_back(std::vector<int>());
     idxvar->indices.push_back(iv);
 
@@ -151,6 +155,8 @@ void IndexVar::remove(const std::vector<int> &position)
     {
         index = index->successors[pos].get();
     }
+    index->_is_hashed = false;
+    index->_indices_normalized = nullptr;
     index->indices.clear();
     index->positions.clear();
 }
\ No newline at end of file
-- 
2.43.0


From a2c76918c68c2f0df697305d2cac7b913ba5535b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:41 +0000
Subject: [PATCH 14/36] fix: connecting with positions duplicated the
 successor's indices

---
 utils/IndexVar.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/utils/IndexVar.cpp b/utils/IndexVar.cpp
index 398a591..c7fcb44 100755
--- a/utils/IndexVar.cpp
+++ b/utils/IndexVar.cpp
@@ -81,8 +81,6 @@ void IndexVar::connect(pIndexVar father, pIndexVar son, bool generate_pos)
         position.insert(position.end(), pos.begin(), pos.end());
         positions.push_back(position);
     }
-    indices.insert(indices.end(), son->indices.begin(), son->indices.end());
-    positions.insert(positions.end(), son->positions.begin(), son->positions.end());
     father->indices.insert(father->indices.end(), indices.begin(), indices.end());
     father->positions.insert(father->positions.end(), positions.begin(), positions.end());
 }
-- 
2.43.0


From dc585df4907763ef3c4a33ba662c2a521497d6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:41 +0000
Subject: [PATCH 15/36] fix: comparing dependent or query variables read a
 missing independent index

---
 Narsese/include/Term.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Narsese/include/Term.inl b/Narsese/include/Term.inl
index 5a0a840..fa3a588 100644
--- a/Narsese/include/Term.inl
+++ b/Narsese/include/Term.inl
@@ -71,9 +71,9 @@ namespace TERM
             if (this->is_var || other.is_var)
             {
                 if (this->is_qvar && other.is_qvar)
-                    return *(this->_vars_independent->indices[0]) == *(other._vars_query->indices[0]);
+                    return *(this->_vars_query->indices[0]) == *(other._vars_query->indices[0]);
                 else if (this->is_dvar && other.is_dvar)
-                    return *(this->_vars_independent->indices[0]) == *(other._vars_dependent->indices[0]);
+                    return *(this->_vars_dependent->indices[0]) == *(other._vars_dependent->indices[0]);
                 else if (this->is_ivar && other.is_ivar)
                     return *(this->_vars_independent->indices[0]) == *(other._vars_independent->indices[0]);
             }
-- 
2.43.0


From 42b85f4decef2e08459c3e4baeb4be621d3b279c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:41 +0000
Subject: [PATCH 16/36] fix: the order of statements and compounds with
 variables was not a strict weak order

---
 Narsese/include/Term.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Narsese/include/Term.inl b/Narsese/include/Term.inl
index fa3a588..52a2511 100644
--- a/Narsese/include/Term.inl
+++ b/Narsese/include/Term.inl
@@ -153,8 +153,12 @@ namespace TERM
 
             if (*(term1.subject) < *(term2.subject))
                 return true;
+            if (*(term2.subject) < *(term1.subject))
+                return false;
             if (*(term1.predicate) < *(term2.predicate))
                 return true;
+            if (*(term2.predicate) < *(term1.predicate))
+                return false;
             if (term1.copula < term2.copula)
                 return true;
             return false;
@@ -173,6 +177,8 @@ namespace TERM
                 auto &term2 = **it2;
                 if ((term1 < term2))
                     return true;
+                if ((term2 < term1))
+                    return false;
             }
             return false;
             // throw std::logic_error("TODO");
-- 
2.43.0


From 6b892dabced41c82087110a1a19223ff251aca09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:41 +0000
Subject: [PATCH 17/36] fix: deep copies of statements and compounds lost the
 closed flag

---
 Narsese/include/Compound.inl  | 2 ++
 Narsese/include/Statement.inl | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/Narsese/include/Compound.inl b/Narsese/include/Compound.inl
index 751bc64..ca5e6b0 100644
--- a/Narsese/include/Compound.inl
+++ b/Narsese/include/Compound.inl
@@ -32,6 +32,8 @@ namespace COMPOUND
 
         this->is_higher_order = other.is_higher_order;
         this->is_operation = other.is_operation;
+        this->is_closed = other.is_closed;
+        this->is_interval = other.is_interval;
 
         this->has_var = other.has_var;
         this->has_dvar = other.has_dvar;
diff --git a/Narsese/include/Statement.inl b/Narsese/include/Statement.inl
index f559a38..f15848d 100644
--- a/Narsese/include/Statement.inl
+++ b/Narsese/include/Statement.inl
@@ -56,6 +56,8 @@ namespace STATEMENT
 
         this->is_higher_order = other.is_higher_order;
         this->is_operation = other.is_operation;
+        this->is_closed = other.is_closed;
+        this->is_interval = other.is_interval;
 
         this->has_var = other.has_var;
         this->has_dvar = other.has_dvar;
-- 
2.43.0


From ba26d3939d3ac3bb3860432219f0efaaaf477483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:41 +0000
Subject: [PATCH 18/36] fix: assigning a component iterator shared and then
 double-freed its position

---
 Narsese/include/Term.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/Narsese/include/Term.h b/Narsese/include/Term.h
index 336ee18..c187bf9 100755
--- a/Narsese/include/Term.h
+++ b/Narsese/include/Term.h
@@ -211,14 +211,19 @@ namespace TERM
         using iterator_category = std::input_iterator_tag;
 
     public:
-        Iterator(const Iterator &iterator)
+        Iterator(const Iterator &iterator) : _is_commutative(iterator._is_commutative)
         {
-            *this = iterator;
             if (this->_is_commutative)
                 it_ = new auto(*(std::set<pTerm>::iterator *)(iterator.it_));
             else
                 it_ = new auto(*(std::vector<pTerm>::iterator *)(iterator.it_));
         }
+        Iterator &operator=(Iterator iterator)
+        {
+            std::swap(this->_is_commutative, iterator._is_commutative);
+            std::swap(this->it_, iterator.it_);
+            return *this;
+        }
         Iterator(std::vector<pTerm>::const_iterator it) : it_((void *)new auto(it)), _is_commutative(false) {}
         Iterator(std::set<pTerm>::iterator it) : it_((void *)new auto(it)), _is_commutative(true) {}
 
@@ -227,9 +232,9 @@ namespace TERM
             if (it_ == nullptr)
                 return;
             if (this->_is_commutative)
-                delete ((std::vector<pTerm>::iterator *)it_);
-            else
                 delete ((std::set<pTerm>::iterator *)it_);
+            else
+                delete ((std::vector<pTerm>::iterator *)it_);
             it_ = nullptr;
         }
 
@@ -250,9 +255,11 @@ namespace TERM
             return *this;
         }
 
-        Iterator &operator++(int)
+        Iterator operator++(int)
         {
-            return ++(*this);
+            Iterator old(*this);
+            ++(*this);
+            return old;
         }
 
         bool operator!=(const Iterator &other) const
-- 
2.43.0


From 8119ac8a7fc3d2adfc636854aeeee0336f2e5dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:29 +0000
Subject: [PATCH 19/36] fix: any statement about an operator or operation was
 taken for an operation

---
 Narsese/include/Statement.inl | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Narsese/include/Statement.inl b/Narsese/include/Statement.inl
index f15848d..1cf5326 100644
--- a/Narsese/include/Statement.inl
+++ b/Narsese/include/Statement.inl
@@ -23,9 +23,8 @@ namespace STATEMENT
         // components = unordered_set<Term*>{&subject, &predicate};
 
         this->is_higher_order = COPULA::is_higher_order(copula);
-        this->is_operation = _predicate->is_operation;
 
-        if (this->predicate->is_atom() && this->predicate->is_operation && this->subject->is_compound() && this->subject->connector == CONNECTOR::PRODUCT)
+        if (copula == COPULA::INHERITANCE && this->predicate->is_atom() && this->predicate->is_operation && this->subject->is_compound() && this->subject->connector == CONNECTOR::PRODUCT)
             this->is_operation = true;
 
         // is_operation = predicate.is_operation;
-- 
2.43.0


From 2f2c1f6cf666184eae303b1380ef84ddce9c2d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:47 +0000
Subject: [PATCH 20/36] fix: compound normalisation dropped or unwrapped
 components it could not merge

---
 Narsese/src/Compound.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Narsese/src/Compound.cpp b/Narsese/src/Compound.cpp
index a99f6ff..9a1e361 100755
--- a/Narsese/src/Compound.cpp
+++ b/Narsese/src/Compound.cpp
@@ -185,10 +185,11 @@ std::tuple<Connector, pTerms> prepocess_terms(Compound &self, Connector connecto
 
             /* Now, `connector` is not `None`. */
             auto terms_merged = _merge_compounds(connector_parent, connector, compounds);
-            if (terms_merged == nullptr)
+            if (terms_merged == nullptr || terms_merged->size() == 0)
             {
+                /* nothing to merge, or no element in common: keep the compounds as they are */
                 for (auto &compound : compounds)
-                    terms_norm.push_back({connector, compound->terms});
+                    terms_norm.push_back({Connector::None, Terms::create(std::vector{compound}, true)});
                 continue;
             }
 
@@ -250,9 +251,9 @@ std::tuple<Connector, pTerms> prepocess_terms(Compound &self, Connector connecto
                 if `connector_parent` is `&` and `connector` is `{`, the return `connector`;
                 if `connector_parent` is `|` and `connector` is `{`, the return `connector`;
                 if `connector_parent` is `&` and `connector` is `&`, it makes no difference returning either `connector` or `connector_parent`;
+                if `connector` is `None`, the term is just a component, return `connector_parent`;
             */
-            if ((_connector == Connector::ExtensionalSet && connector_parent == Connector::IntensionalIntersection) ||
-                (_connector == Connector::IntensionalSet && connector_parent == Connector::ExtensionalIntersection))
+            if (_connector != Connector::None)
             {
                 return {_connector, Terms::create(*_terms, true)};
             }
-- 
2.43.0


From 5deb9bfdf11fae942893a95d76692626344ca681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:46 +0000
Subject: [PATCH 21/36] fix: an interval extended in place kept the hash of its
 old length

---
 Narsese/include/Interval.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Narsese/include/Interval.h b/Narsese/include/Interval.h
index 3dd0cc7..551af32 100755
--- a/Narsese/include/Interval.h
+++ b/Narsese/include/Interval.h
@@ -40,6 +40,7 @@ namespace INTERVAL
         Interval &operator+=(const Interval &other)
         {
             interval += other.interval;
+            this->hash_value = Hash{}(std::initializer_list<signed int>{TermType::INTERVAL, this->interval});
             return *this;
         }
     };
-- 
2.43.0


From df415402a8dc575b230ced5b991d2a2c42f058d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:36 +0000
Subject: [PATCH 22/36] fix: an operator is looked up under its own name, not
 under that of the atom of the same spelling

---
 Narsese/Parser/NarseseParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Narsese/Parser/NarseseParser.cpp b/Narsese/Parser/NarseseParser.cpp
index 1f6ad78..e9393c5 100644
--- a/Narsese/Parser/NarseseParser.cpp
+++ b/Narsese/Parser/NarseseParser.cpp
@@ -458,7 +458,7 @@ void *NARSESEPARSER::operation(Parser *self, const Args &args)
 	auto &str = *((std::string *)args[0]);
 	auto str_op = "^" + str;
 	pTerm *term;
-	if (INTERPRETER::interpreter.check_by_name(str) > 0)
+	if (INTERPRETER::interpreter.check_by_name(str_op) > 0)
 	{
 		auto key = INTERPRETER::interpreter.get_by_name(str_op);
 		term = (pTerm *)INTERPRETER::interpreter.get_object(key);
-- 
2.43.0


From 8027792bf97356843427eae77e4c88ebdfd84685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:21 +0000
Subject: [PATCH 23/36] fix: parser actions were looked up by the address of
 their name, not by the name

---
 Narsese/Parser/Parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Narsese/Parser/Parser.h b/Narsese/Parser/Parser.h
index 5ba51b6..fa3117b 100644
--- a/Narsese/Parser/Parser.h
+++ b/Narsese/Parser/Parser.h
@@ -25,7 +25,7 @@ namespace PARSER
     {
     public:
         /* function mappings from name to pointer */
-        std::unordered_map<const char *, long> _map;
+        std::unordered_map<std::string, long> _map;
 
         /* variable mappings from name to index */
         std::unordered_map<std::string, long> names_ivar;
-- 
2.43.0


From aeb2cd3e72b55c7815d75580e7c79c38c2a5d576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:21 +0000
Subject: [PATCH 24/36] fix: the parser stack was outgrown by deep nesting

---
 Narsese/Parser/narsese.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Narsese/Parser/narsese.cpp b/Narsese/Parser/narsese.cpp
index 24d113f..a5a3e2f 100644
--- a/Narsese/Parser/narsese.cpp
+++ b/Narsese/Parser/narsese.cpp
@@ -178,7 +178,7 @@ bool _parser::alloc_stack( void )
 
 		this->stacksize = UNICC_MALLOCSTEP;
 	}
-	else if( ( this->tos - this->stack ) == this->stacksize )
+	else if( ( this->tos - this->stack ) + 1 >= this->stacksize )
 	{
 		size_t			size = ( this->tos - this->stack );
 		_tok*	ptr;
@@ -798,6 +798,9 @@ int _parser::parse( void )
 
 			this->get_go();
 
+			if( !this->alloc_stack() )
+				return (int)NULL;
+
 			this->tos++;
 			this->tos->node = NULL;
 
-- 
2.43.0


From daf98f0b19879592fa01967276166711b60761a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:21 +0000
Subject: [PATCH 25/36] fix: clearing parsed input read beyond the input buffer

---
 Narsese/Parser/narsese.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Narsese/Parser/narsese.cpp b/Narsese/Parser/narsese.cpp
index a5a3e2f..c95be50 100644
--- a/Narsese/Parser/narsese.cpp
+++ b/Narsese/Parser/narsese.cpp
@@ -323,7 +323,7 @@ void _parser::clear_input( void )
 #endif
 
 			memmove( this->buf, this->buf + this->len,
-						( ( this->bufend - ( this->buf + this->len ) ) + 1 + 1 )
+						( ( this->bufend - ( this->buf + this->len ) ) + 1 )
 							* sizeof( UNICC_CHAR ) );
 			this->bufend = this->buf + ( this->bufend - ( this->buf + this->len ) );
 
-- 
2.43.0


From f619d6041c3d97c2857e76ce59a57681e106936c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:21 +0000
Subject: [PATCH 26/36] fix: reporting a syntax error read beyond the input and
 the lexeme

---
 Narsese/Parser/narsese.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Narsese/Parser/narsese.cpp b/Narsese/Parser/narsese.cpp
index c95be50..a7b4364 100644
--- a/Narsese/Parser/narsese.cpp
+++ b/Narsese/Parser/narsese.cpp
@@ -23,6 +23,8 @@ UNICC_SCHAR* _parser::get_lexem( void )
 	size_t		size;
 
 	size = wcstombs( (char*)NULL, this->buf, 0 );
+	if( size == (size_t)-1 )
+		size = 0; /* not representable */
 
 	free( this->lexem );
 
@@ -33,7 +35,8 @@ UNICC_SCHAR* _parser::get_lexem( void )
 		return NULL;
 	}
 
-	wcstombs( this->lexem, this->buf, size + 1 );
+	wcstombs( this->lexem, this->buf, size );
+	this->lexem[ size ] = 0;
 #endif
 
 #if UNICC_DEBUG	> 2
@@ -262,6 +265,7 @@ UNICC_CHAR _parser::get_input( size_t offset )
 			fprintf( stderr, "%s: get input: can't get more input, "
 						"end-of-file reached\n", UNICC_PARSER );
 #endif
+			*( this->bufend ) = 0;
 			this->is_eof = true;
 			return this->eof;
 		}
-- 
2.43.0


From e4e40e4c0fe59c62e471b002af77e48dc4f39d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:35 +0000
Subject: [PATCH 27/36] fix: the parser started with uninitialised state

---
 Narsese/Parser/Parser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Narsese/Parser/Parser.cpp b/Narsese/Parser/Parser.cpp
index fcb41a8..841bd5e 100644
--- a/Narsese/Parser/Parser.cpp
+++ b/Narsese/Parser/Parser.cpp
@@ -7,7 +7,11 @@ Parser::Parser()
 {
     this->eof = '\n';
     this->stacksize = 0;
-    this->buf = NULL;
+    this->stack = this->tos = NULL;
+    this->buf = this->bufend = NULL;
+    this->lexem = NULL;
+    this->ast = NULL;
+    this->error_delay = this->error_count = 0;
     // const char *empty = "";
     // const char* start = "start";
     // auto len = sizeof(this->productions)/sizeof(this->productions[0]);
-- 
2.43.0


From 56e23eeeeacc2bdaa942958c18a732ca1bbb90a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:35 +0000
Subject: [PATCH 28/36] fix: a text that fails to parse yielded the syntax tree
 of an earlier one

---
 Narsese/Parser/Parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Narsese/Parser/Parser.cpp b/Narsese/Parser/Parser.cpp
index 841bd5e..a567ad3 100644
--- a/Narsese/Parser/Parser.cpp
+++ b/Narsese/Parser/Parser.cpp
@@ -31,6 +31,12 @@ Parser::Parser()
 
 void *Parser::parse_string(std::string &input)
 {
+    /* nothing of an earlier text may be left over */
+    this->ast = this->ast_free(this->ast);
+    this->len = 0;
+    this->clear_input();
+    char_fetcher.clear();
+
     char_fetcher.switch_string_mode();
     char_fetcher.fill(input);
 
-- 
2.43.0


From 0465f70f54d5c57108b5ae43e9cb29d9863fb715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:36 +0000
Subject: [PATCH 29/36] fix: actions of nodes without children got a null
 reference

---
 Narsese/Parser/Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Narsese/Parser/Parser.cpp b/Narsese/Parser/Parser.cpp
index a567ad3..cf4f47e 100644
--- a/Narsese/Parser/Parser.cpp
+++ b/Narsese/Parser/Parser.cpp
@@ -105,7 +105,7 @@ Args *Parser::transform(_ast *node)
             auto fptr = this->get_function(name);
             if (fptr != 0)
             {
-                ret = ((METHOD)fptr)(this, *ret_args);
+                ret = ((METHOD)fptr)(this, ret_args != nullptr ? *ret_args : Args());
             }
             if (ret_args != nullptr)
             {
-- 
2.43.0


From d79316929f0ffd7e97fa249f735736d25086848b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:46 +0000
Subject: [PATCH 30/36] fix: terms were destroyed without the destructor of
 their own class

---
 Narsese/include/Term.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Narsese/include/Term.h b/Narsese/include/Term.h
index c187bf9..e596900 100755
--- a/Narsese/include/Term.h
+++ b/Narsese/include/Term.h
@@ -124,6 +124,7 @@ namespace TERM
         // string word;
         Term() : hash_value(Hash{}(std::initializer_list<size_t>{(size_t)TermType::ATOM, (size_t)this})), is_hashed(true){};
         Term(const TermType _type) : type(_type) {}
+        virtual ~Term() = default; // terms are deleted through `Term *`
         // ~Term()
         // {
         //     std::cout << (size_t)this << " Term freed" << std::endl;
-- 
2.43.0


From 902bfde87ec7cc1a71da08d38eeeba0c09b1c7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:10 +0000
Subject: [PATCH 31/36] fix: sentences were destroyed without the destructor of
 their own class

---
 Narsese/include/Sentence.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Narsese/include/Sentence.h b/Narsese/include/Sentence.h
index af58c0f..bd8fd6c 100755
--- a/Narsese/include/Sentence.h
+++ b/Narsese/include/Sentence.h
@@ -130,6 +130,8 @@ namespace SENTENCE
                 stamp = pStamp(new Stamp(true));
         }
 
+        virtual ~Sentence() = default; // sentences are deleted through `Sentence *`
+
         inline bool is_judgement() { return punct == PUNCTUATION::Judgement; }
         inline bool is_question() { return punct == PUNCTUATION::Question; }
         inline bool is_goal() { return punct == PUNCTUATION::Goal; }
-- 
2.43.0


From 71d1d394e453eefa7093dd991c7dfa7320fb7627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:21 +0000
Subject: [PATCH 32/36] fix: coloured rendering of a sentence threw: more
 placeholders than parts

---
 Interpreter/src/Interpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index 3c44eba..e3f4257 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -268,7 +268,7 @@ string Interpreter::interpret(Sentence &sentence, bool colored)
         str_punct = fmt::format(color_punct, SENTENCE::PUNCTUATION::Repr[(int)(sentence.punct)]);
         str_stamp = sentence.stamp->is_eternal ? "" : fmt::format(color_tense, "{} ", TENSE::Repr[sentence.stamp->tense()]);
 
-        return fmt::format("{}{} {}{} {}{}", str_term, str_punct, str_stamp, str_truth);
+        return fmt::format("{}{} {}{}", str_term, str_punct, str_stamp, str_truth);
     }
     else
     {
-- 
2.43.0


From 45fb4818c9e12e69abcb2a9f353687351856c336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:21 +0000
Subject: [PATCH 33/36] fix: coloured rendering used names as format strings

---
 Interpreter/src/Interpreter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index e3f4257..b68443a 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -68,9 +68,9 @@ string Interpreter::interpret(Term &term, bool colored)
         if (term.type == TermType::ATOM && colored)
         {
             if (!term.is_operation)
-                return fmt::format(color_term, this->get(key));
+                return fmt::format(color_term, "{}", this->get(key));
             else
-                return fmt::format(color_operation, this->get(key));
+                return fmt::format(color_operation, "{}", this->get(key));
         }
         return this->get(key);
     }
-- 
2.43.0


From b73de1924166b8213c9af9b4a52ef417758afdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:21 +0000
Subject: [PATCH 34/36] fix: coloured rendering used the copula as a format
 string

---
 Interpreter/src/Interpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index b68443a..dc71435 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -127,7 +127,7 @@ string Interpreter::interpret(Term &term, bool colored)
                 auto str1 = fmt::format(color_angle, "<");
                 // auto str2 = fmt::format(color_term, str_subject);
                 auto str2 = fmt::format(fmt::format(color_term, "{{}}"), str_subject);
-                auto str3 = fmt::format(color_copula, str_copula);
+                auto str3 = fmt::format(color_copula, "{}", str_copula);
                 // auto str4 = fmt::format(color_term, str_predicate);
                 auto str4 = fmt::format(fmt::format(color_term, "{{}}"), str_predicate);
                 auto str5 = fmt::format(color_angle, ">");
-- 
2.43.0


From e093a2bdf18fcd53f9a3cb10a2399b818f10a3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:21 +0000
Subject: [PATCH 35/36] fix: coloured rendering of a task left its sentence
 uncoloured

---
 Interpreter/src/Interpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index dc71435..ec7e363 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -230,7 +230,7 @@ string Interpreter::interpret(Task &task, bool colored)
     auto color_durability = fmt::bg(fmt::rgb(10, std::min(255, int(255 * d / 2 + 10)), 10));
     auto color_quality = fmt::bg(fmt::rgb(10, 10, std::min(255, int(255 * q / 1.5 + 10))));
 
-    auto str_sentence = interpret(*task.sentence);
+    auto str_sentence = interpret(*task.sentence, colored);
 
     if (colored)
     {
-- 
2.43.0


From a7029f6bbc88a10f376d1b480641baa3292e0fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:21 +0000
Subject: [PATCH 36/36] fix: an operation without arguments was rendered with a
 dangling separator

---
 Interpreter/src/Interpreter.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index ec7e363..6898bf1 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -142,13 +142,17 @@ string Interpreter::interpret(Term &term, bool colored)
             auto &cmpd = (Compound &)*stat.subject;
             if (colored)
             {
-                ss << fmt::format(color_parenthesis, "(") << str_op << fmt::format(color_seperator, ", ");
+                ss << fmt::format(color_parenthesis, "(") << str_op;
+                if (cmpd.components().begin() != cmpd.components().end())
+                    ss << fmt::format(color_seperator, ", ");
                 append_strs(ss, cmpd.components());
                 ss << fmt::format(color_parenthesis, ")");
             }
             else
             {
-                ss << "(" << str_op << ", ";
+                ss << "(" << str_op;
+                if (cmpd.components().begin() != cmpd.components().end())
+                    ss << ", ";
                 append_strs(ss, cmpd.components());
                 ss << ")";
             }
-- 
2.43.0

