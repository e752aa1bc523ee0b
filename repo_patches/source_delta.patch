From 9f74b6fe98bbc54cc249f52354f5b8f4a4a92e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:25 +0000
Subject: [PATCH 01/56] fix: conversion to log OpenFst kept neither source
 states nor symbol numbers

hfst_basic_transducer_to_log_ofst never advanced source_state, so every
transition was added to the initial state, and it numbered symbols by order
of occurrence, so two harmonized transducers had different encodings.  Use the
same scheme as the tropical conversion.
---
 .../ConvertLogWeightTransducer.cc             | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/libhfst/src/implementations/ConvertLogWeightTransducer.cc b/libhfst/src/implementations/ConvertLogWeightTransducer.cc
index 2441430..d73fed0 100644
--- a/libhfst/src/implementations/ConvertLogWeightTransducer.cc
+++ b/libhfst/src/implementations/ConvertLogWeightTransducer.cc
@@ -249,6 +249,14 @@ ConversionFunctions::hfst_basic_transducer_to_log_ofst(
     st.AddSymbol(internal_unknown, 1);
     st.AddSymbol(internal_identity, 2);
 
+    // Copy the alphabet, using the same symbol numbers in all transducers
+    for (HfstBasicTransducer::HfstAlphabet::const_iterator it
+         = net->alphabet.begin();
+         it != net->alphabet.end(); it++)
+    {
+        st.AddSymbol(*it, net->get_symbol_number(*it));
+    }
+
     // Go through all states
     unsigned int source_state = 0;
     for (HfstBasicTransducer::const_iterator it = net->begin();
@@ -261,12 +269,13 @@ ConversionFunctions::hfst_basic_transducer_to_log_ofst(
             // Copy the transition
             t->AddArc(
                 hfst_state_to_state_id(source_state, state_map, t),
-                fst::LogArc(st.AddSymbol(tr_it->get_input_symbol()),
-                            st.AddSymbol(tr_it->get_output_symbol()),
+                fst::LogArc(tr_it->get_input_number(),
+                            tr_it->get_output_number(),
                             tr_it->get_weight(),
                             hfst_state_to_state_id(tr_it->get_target_state(),
                                                    state_map, t)));
         }
+        source_state++;
     }
 
     // Go through the final states
@@ -278,14 +287,6 @@ ConversionFunctions::hfst_basic_transducer_to_log_ofst(
                     it->second);
     }
 
-    // Add also symbols that do not occur in transitions
-    for (HfstBasicTransducer::HfstAlphabet::const_iterator it
-         = net->alphabet.begin();
-         it != net->alphabet.end(); it++)
-    {
-        st.AddSymbol(*it);
-    }
-
     t->SetInputSymbols(&st);
     return t;
 }
-- 
2.43.0


From ebe692319767e8742ac491032f2ef1625aba6461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:31 +0000
Subject: [PATCH 02/56] fix: optionalize and repetition aborted on log OpenFst
 transducers

Union and Concat require matching symbol tables; set them before the
operation, as the tropical implementation does.
---
 libhfst/src/implementations/LogWeightTransducer.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libhfst/src/implementations/LogWeightTransducer.cc b/libhfst/src/implementations/LogWeightTransducer.cc
index d2ec0fd..a20ca9f 100644
--- a/libhfst/src/implementations/LogWeightTransducer.cc
+++ b/libhfst/src/implementations/LogWeightTransducer.cc
@@ -1503,11 +1503,12 @@ LogWeightTransducer::repeat_n(LogFst *t, unsigned int n)
     }
 
     LogFst *repetition = create_epsilon_transducer();
+    repetition->SetInputSymbols(t->InputSymbols());
+    repetition->SetOutputSymbols(t->OutputSymbols());
     for (unsigned int i = 0; i < n; ++i)
     {
         Concat(repetition, *t);
     }
-    repetition->SetInputSymbols(t->InputSymbols());
     return repetition;
 }
 
@@ -1520,13 +1521,14 @@ LogWeightTransducer::repeat_le_n(LogFst *t, unsigned int n)
     }
 
     LogFst *repetition = create_epsilon_transducer();
+    repetition->SetInputSymbols(t->InputSymbols());
+    repetition->SetOutputSymbols(t->OutputSymbols());
     for (unsigned int i = 0; i < n; ++i)
     {
         LogFst *optional_t = optionalize(t);
         Concat(repetition, *optional_t);
         delete optional_t;
     }
-    repetition->SetInputSymbols(t->InputSymbols());
     return repetition;
 }
 
@@ -1534,8 +1536,9 @@ LogFst *
 LogWeightTransducer::optionalize(LogFst *t)
 {
     LogFst *eps = create_epsilon_transducer();
-    Union(eps, *t);
     eps->SetInputSymbols(t->InputSymbols());
+    eps->SetOutputSymbols(t->OutputSymbols());
+    Union(eps, *t);
     return eps;
 }
 
-- 
2.43.0


From 9dfc38d437ee616e9bc1831de4618caa141a2927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:29 +0000
Subject: [PATCH 03/56] fix: shuffle forgot symbols that occur only in the
 alphabet

An identity transition of the result then also matched those symbols.
---
 libhfst/src/HfstTransducer.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index 62f5245..174ba15 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -4732,6 +4732,8 @@ HfstTransducer::shuffle(const HfstTransducer &another, bool)
     // Find out the original alphabets of both transducers
     StringSet this_alphabet = this_basic.get_alphabet();
     StringSet another_alphabet = another_basic.get_alphabet();
+    StringSet original_alphabet = this_alphabet;
+    original_alphabet.insert(another_alphabet.begin(), another_alphabet.end());
 
     // Encode first transducer, i.e. prefix each symbol with "@1"
     shuffle_coding_case = ENCODE_FIRST_SHUFFLE_ARGUMENT;
@@ -4793,6 +4795,8 @@ HfstTransducer::shuffle(const HfstTransducer &another, bool)
     // also remember to remove the prefixed symbols from the alphabet
     this1_basic.remove_symbols_from_alphabet(this_alphabet);
     this1_basic.remove_symbols_from_alphabet(another_alphabet);
+    // and to keep the symbols that occur only in the original alphabets
+    this1_basic.add_symbols_to_alphabet(original_alphabet);
 
     // Convert once again to HfstTransducer
     HfstTransducer this_finally(this1_basic, this->get_type());
-- 
2.43.0


From 88e180bb1ca1213eb3dd728ba745b23eb5c9f00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:11 +0000
Subject: [PATCH 04/56] fix: prune dropped every path but the best ones and
 changed the back end

---
 libhfst/src/HfstTransducer.cc                          |  2 ++
 .../src/implementations/TropicalWeightTransducer.cc    | 10 ++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index 174ba15..adc13fe 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -2186,6 +2186,7 @@ HfstTransducer::prune()
 {
 #if HAVE_OPENFST
     // slow for xfsm type...
+    ImplementationType original_type = this->type;
     this->convert(TROPICAL_OPENFST_TYPE);
     fst::StdVectorFst *temp
         = hfst::implementations::TropicalWeightTransducer::prune(
@@ -2193,6 +2194,7 @@ HfstTransducer::prune()
     this->tropical_ofst_interface.delete_transducer(
         this->implementation.tropical_ofst);
     this->implementation.tropical_ofst = temp;
+    this->convert(original_type);
     return *this;
 #endif
     HFST_THROW(FunctionNotImplementedException);
diff --git a/libhfst/src/implementations/TropicalWeightTransducer.cc b/libhfst/src/implementations/TropicalWeightTransducer.cc
index 00f067f..9448a7b 100644
--- a/libhfst/src/implementations/TropicalWeightTransducer.cc
+++ b/libhfst/src/implementations/TropicalWeightTransducer.cc
@@ -2042,8 +2042,14 @@ TropicalWeightTransducer::remove_epsilons(StdVectorFst *t)
 StdVectorFst *
 TropicalWeightTransducer::prune(StdVectorFst *t)
 {
-    StdVectorFst *retval = new StdVectorFst();
-    fst::Prune(*t, retval, TropicalWeight::One());
+    // remove the states that are not on a path to a final state; fst::Prune
+    // would also remove the paths that are not among the best ones
+    StdVectorFst *retval = t->Copy();
+    fst::Connect(retval);
+    if (retval->Start() == fst::kNoStateId)
+    {
+        retval->SetStart(retval->AddState());
+    }
     return retval;
 }
 
-- 
2.43.0


From 5765f449018d19b92027c930adc5906faa6d8c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:47 +0000
Subject: [PATCH 05/56] fix: inverted compose_intersect with a single rule
 returned the inverse relation

---
 libhfst/src/HfstTransducer.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index adc13fe..d4d2944 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -5011,14 +5011,14 @@ HfstTransducer::compose_intersect(const HfstTransducerVector &v, bool invert,
         res.prune_alphabet();
         *this = HfstTransducer(res, type);
 
-        if (invert)
-        {
-            this->invert();
-        }
-
         delete rules;
     }
 
+    if (invert)
+    {
+        this->invert();
+    }
+
     delete harmonized_lexicon;
 
     this->substitute("||_IDENTITY_SYMBOL_||", internal_identity);
-- 
2.43.0


From 8a5c542873d677c962b30edeedc8b1255bd48aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:47 +0000
Subject: [PATCH 06/56] fix: compose_intersect with no rules read past the end
 of the rule vector

---
 libhfst/src/HfstTransducer.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index d4d2944..6a2e1ef 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -4863,6 +4863,11 @@ HfstTransducer::compose_intersect(const HfstTransducerVector &v, bool invert,
     if (v.empty())
     {
         *this = HfstTransducer(type);
+        if (convert_to_openfst)
+        {
+            this->convert(FOMA_TYPE);
+        }
+        return *this;
     }
 
     const HfstTransducer &first = *v.begin();
-- 
2.43.0


From aa56dd1c1113bd90716eab216d64fb3fe384f58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:48 +0000
Subject: [PATCH 07/56] fix: identities in compose_intersect results covered
 symbols known to the rules

---
 libhfst/src/HfstTransducer.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index 6a2e1ef..0685389 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -4916,6 +4916,8 @@ HfstTransducer::compose_intersect(const HfstTransducerVector &v, bool invert,
                                        StringPair(internal_epsilon, "@#@"));
     }
 
+    StringSet known_symbols = harmonized_lexicon->get_alphabet();
+
     harmonized_lexicon->substitute(internal_identity, "||_IDENTITY_SYMBOL_||");
     harmonized_lexicon->substitute(internal_unknown, "||_UNKNOWN_SYMBOL_||");
 
@@ -5029,6 +5031,15 @@ HfstTransducer::compose_intersect(const HfstTransducerVector &v, bool invert,
     this->substitute("||_IDENTITY_SYMBOL_||", internal_identity);
     this->substitute("||_UNKNOWN_SYMBOL_||", internal_unknown);
 
+    // Identities and unknowns of the result do not cover the symbols that
+    // the lexicon and the rules know.
+    StringSet symbols_used = HfstBasicTransducer(*this).symbols_used();
+    if (symbols_used.count(internal_identity) > 0
+        || symbols_used.count(internal_unknown) > 0)
+    {
+        this->insert_to_alphabet(known_symbols);
+    }
+
     if (convert_to_openfst)
     {
         this->convert(FOMA_TYPE);
-- 
2.43.0


From 64f853729a15afab7719c4b4671b2846d3ec27f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:10 +0000
Subject: [PATCH 08/56] fix: is_automaton accepted unknown-to-unknown
 transitions of SFST transducers

---
 libhfst/src/implementations/SfstTransducer.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/libhfst/src/implementations/SfstTransducer.cc b/libhfst/src/implementations/SfstTransducer.cc
index fc1c0e3..b93d8c9 100644
--- a/libhfst/src/implementations/SfstTransducer.cc
+++ b/libhfst/src/implementations/SfstTransducer.cc
@@ -1056,7 +1056,21 @@ namespace hfst { namespace implementations {
 
   bool SfstTransducer::is_automaton(Transducer * t)
   {
-    return t->is_automaton();
+    if (! t->is_automaton())
+      return false;
+    // an unknown:unknown transition never maps a symbol to itself
+    bool unknown_found = false;
+    Transducer & tc = t->copy();
+    tc.alphabet.clear_char_pairs();
+    tc.complete_alphabet();
+    for (SFST::Alphabet::const_iterator it = tc.alphabet.begin();
+         it != tc.alphabet.end(); it++)
+      {
+        if (it->lower_char() == 1)
+          unknown_found = true;
+      }
+    delete &tc;
+    return ! unknown_found;
   }
 
 
-- 
2.43.0


From 6cee7569026ec921b0309288e31b1abc12c0f215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:55 +0000
Subject: [PATCH 09/56] fix: converting an SFST transducer twice could lose
 transitions

---
 .../implementations/ConvertSfstTransducer.cc   | 18 +++++++++---------
 .../implementations/ConvertTransducerFormat.h  |  4 +++-
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/libhfst/src/implementations/ConvertSfstTransducer.cc b/libhfst/src/implementations/ConvertSfstTransducer.cc
index bfe4b58..d5bff97 100644
--- a/libhfst/src/implementations/ConvertSfstTransducer.cc
+++ b/libhfst/src/implementations/ConvertSfstTransducer.cc
@@ -35,23 +35,25 @@ namespace hfst { namespace implementations
 
      ----------------------------------------------------------- */
 
-  SFST::VType VMARK = 10000;
-
   /* Recursively copy all transitions of \a node to \a net.
      Used by function sfst_to_hfst_basic_transducer(SFST::Transducer * t).
 
      @param node  The current node in the SFST transducer
      @param net   The HfstBasicTransducer that is being created
      @harmonization_vector A vector that defines how symbol numbers are recoded
+     @visited Which nodes have been copied. (The visited marks of the nodes
+              are not used because they may be left over from other
+              traversals.)
   */
 
   void ConversionFunctions::sfst_to_hfst_basic_transducer
   ( SFST::Node *node,
     HfstBasicTransducer *net,
-    std::vector<unsigned int> &harmonization_vector) {
+    std::vector<unsigned int> &harmonization_vector,
+    std::set<SFST::Node *> &visited) {
     
     // If node has not been visited before
-    if (not node->was_visited(VMARK)) {
+    if (visited.insert(node).second) {
       SFST::Arcs *arcs=node->arcs();
       
       // Count the number of transitions in the current state
@@ -84,7 +86,7 @@ namespace hfst { namespace implementations
       for( SFST::ArcsIter p(arcs); p; p++ ) {
         SFST::Arc *arc=p;
         sfst_to_hfst_basic_transducer
-          (arc->target_node(), net, harmonization_vector);
+          (arc->target_node(), net, harmonization_vector, visited);
       }
     }
   }
@@ -125,13 +127,11 @@ namespace hfst { namespace implementations
     t->nodeindexing(&indexing);
     unsigned int number_of_nodes = (unsigned int)indexing.size();
     net->initialize_state_vector(number_of_nodes);
-    
-    if (t->root_node()->check_visited(VMARK))
-      VMARK++;
+    std::set<SFST::Node *> visited;
     
     // Recursively copy the transitions in each node to the basic transducer
     sfst_to_hfst_basic_transducer
-      (t->root_node(), net, harmonization_vector);
+      (t->root_node(), net, harmonization_vector, visited);
     
     // Copy the alphabet
     SFST::Alphabet::CharMap cm = t->alphabet.get_char_map();
diff --git a/libhfst/src/implementations/ConvertTransducerFormat.h b/libhfst/src/implementations/ConvertTransducerFormat.h
index 653a1e5..688b457 100644
--- a/libhfst/src/implementations/ConvertTransducerFormat.h
+++ b/libhfst/src/implementations/ConvertTransducerFormat.h
@@ -15,6 +15,7 @@
 #endif // HAVE_CONFIG_H
 
 #include <map>
+#include <set>
 #include <iosfwd>
 #include <vector>
 
@@ -91,7 +92,8 @@ namespace implementations {
   static void sfst_to_hfst_basic_transducer
     ( SFST::Node *node,
       HfstBasicTransducer *net,
-      std::vector<unsigned int> &harmonization_vector);
+      std::vector<unsigned int> &harmonization_vector,
+      std::set<SFST::Node *> &visited);
 
   static HfstBasicTransducer * sfst_to_hfst_basic_transducer
     (SFST::Transducer * t);
-- 
2.43.0


From 8b213fa785a282e5d4102a714b2b30fee6b410c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:50 +0000
Subject: [PATCH 10/56] fix: HfstBasicTransducer::remove_transitions skipped
 the arc after a removed one

---
 libhfst/src/implementations/HfstBasicTransducer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index 428312b..0e4574b 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -2087,6 +2087,7 @@ HfstBasicTransducer::remove_transitions(const HfstSymbolPair &sp)
             if (in_tr == in_match && out_tr == out_match)
             {
                 it.erase(it.begin() + i);
+                i--; // the next transition is now at this position
             }
             else
             {
-- 
2.43.0


From 75eeee206c348f122baf99d2295e6a6a528d29da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:50 +0000
Subject: [PATCH 11/56] fix: HfstBasicTransducer::intersect: weight of the
 empty string is the sum of the final weights

---
 libhfst/src/implementations/HfstBasicTransducer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index 0e4574b..5b8f726 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -4326,7 +4326,7 @@ HfstBasicTransducer::intersect(HfstBasicTransducer &graph1,
     if (graph1.is_final_state(0) && graph2.is_final_state(0))
     {
         float final_weight
-            = std::min(graph1.get_final_weight(0), graph2.get_final_weight(0));
+            = graph1.get_final_weight(0) + graph2.get_final_weight(0);
         retval.set_final_weight(0, final_weight);
     }
 
-- 
2.43.0


From 20a82754ec6469f2f741400540a8fb0938df5dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:50 +0000
Subject: [PATCH 12/56] fix: HfstBasicTransducer::sort_arcs must sort by input
 and output symbols, not by target state

---
 libhfst/src/implementations/HfstBasicTransducer.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index 5b8f726..bfed949 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -562,8 +562,18 @@ HfstBasicTransducer::sort_arcs(void)
 {
     for (auto &transitions : state_vector)
     {
-        std::sort<HfstBasicTransitions::iterator>(transitions.begin(),
-                                                  transitions.end());
+        // HfstBasicTransition::operator< compares target states first
+        std::sort(transitions.begin(), transitions.end(),
+                  [](const HfstBasicTransition &tr1,
+                     const HfstBasicTransition &tr2) {
+                      if (tr1.get_transition_data()
+                          < tr2.get_transition_data())
+                          return true;
+                      if (tr2.get_transition_data()
+                          < tr1.get_transition_data())
+                          return false;
+                      return tr1.get_target_state() < tr2.get_target_state();
+                  });
     }
     return *this;
 }
-- 
2.43.0


From ddb1d5b1e86646681eb4f0f9e429a40b542e0f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:50 +0000
Subject: [PATCH 13/56] fix: HfstBasicTransducer::substitute(pair, graph) used
 invalidated iterators when several arcs of a state match

---
 libhfst/src/implementations/HfstBasicTransducer.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index bfed949..7ff2ae9 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -2539,7 +2539,9 @@ HfstBasicTransducer::substitute(const HfstSymbolPair &sp,
     {
 
         // The transitions that are substituted, i.e. removed
-        std::vector<HfstBasicTransitions::iterator> old_transitions;
+        // (they must be removed in reverse order so that iterators
+        // are not invalidated)
+        std::stack<HfstBasicTransitions::iterator> old_transitions;
 
         // Go through all transitions
         for (HfstBasicTransitions::iterator tr_it = it.begin();
@@ -2557,16 +2559,17 @@ HfstBasicTransducer::substitute(const HfstSymbolPair &sp,
                     source_state, tr_it->get_target_state(), data.get_weight(),
                     const_cast<HfstBasicTransducer *>(&graph)));
                 // schedule the old transition to be deleted
-                old_transitions.push_back(tr_it);
+                old_transitions.push(tr_it);
             }
             // (one transition gone through)
         }
         // (all transitions in a state gone through)
 
         // Remove the substituted transitions
-        for (auto &old_transition : old_transitions)
+        while (!old_transitions.empty())
         {
-            it.erase(old_transition);
+            it.erase(old_transitions.top());
+            old_transitions.pop();
         }
 
         source_state++;
-- 
2.43.0


From 46f39843042cd4f4a91385e7e9cc87812116b7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:59 +0000
Subject: [PATCH 14/56] fix: extract_paths added the empty path after the
 requested number of paths

---
 libhfst/src/implementations/FomaTransducer.cc           | 2 +-
 libhfst/src/implementations/SfstTransducer.cc           | 4 ++--
 libhfst/src/implementations/TropicalWeightTransducer.cc | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/libhfst/src/implementations/FomaTransducer.cc b/libhfst/src/implementations/FomaTransducer.cc
index 2afc03d..f8aef0d 100644
--- a/libhfst/src/implementations/FomaTransducer.cc
+++ b/libhfst/src/implementations/FomaTransducer.cc
@@ -699,7 +699,7 @@ namespace hfst { namespace implementations {
     }
     // add epsilon path, if needed
     for (std::set<int>::const_iterator it = initial_states.begin();
-         it != initial_states.end(); it++)
+         res && it != initial_states.end(); it++)
       {
         bool final_initial = false;
         for(int i=0; ((t->states)+i)->state_no != -1; i++)
diff --git a/libhfst/src/implementations/SfstTransducer.cc b/libhfst/src/implementations/SfstTransducer.cc
index b93d8c9..d18e962 100644
--- a/libhfst/src/implementations/SfstTransducer.cc
+++ b/libhfst/src/implementations/SfstTransducer.cc
@@ -764,13 +764,13 @@ namespace hfst { namespace implementations {
       (1, hfst::FdState<Character>(*fd));
     
     StringPairVector spv;
-    hfst::implementations::extract_paths
+    bool res = hfst::implementations::extract_paths
       (t, t->root_node(), all_visitations, path_visitations,
        callback, cycles, fd_state_stack, filter_fd,
        spv);
 
     // add epsilon path, if needed
-    if (t->root_node() && t->root_node()->is_final()) {
+    if (res && t->root_node() && t->root_node()->is_final()) {
       StringPairVector empty_spv;
       HfstTwoLevelPath epsilon_path(0, empty_spv);
       callback(epsilon_path, true /* final*/);
diff --git a/libhfst/src/implementations/TropicalWeightTransducer.cc b/libhfst/src/implementations/TropicalWeightTransducer.cc
index 9448a7b..cf53ece 100644
--- a/libhfst/src/implementations/TropicalWeightTransducer.cc
+++ b/libhfst/src/implementations/TropicalWeightTransducer.cc
@@ -2953,12 +2953,12 @@ TropicalWeightTransducer::extract_paths(StdVectorFst *t,
                              1, hfst::FdState<int64>(*fd));
 
     StringPairVector spv;
-    hfst::implementations::extract_paths(
+    bool res = hfst::implementations::extract_paths(
         t, t->Start(), all_visitations, path_visitations, 0.0f, callback,
         cycles, fd_state_stack, filter_fd, spv);
 
     // add epsilon path, if needed
-    if (t->Start() != -1 && t->Final(t->Start()) != TropicalWeight::Zero())
+    if (res && t->Start() != -1 && t->Final(t->Start()) != TropicalWeight::Zero())
     {
         StringPairVector empty_spv;
         HfstTwoLevelPath epsilon_path(t->Final(t->Start()).Value(), empty_spv);
-- 
2.43.0


From cbcae0bf4770a73827aeedba64c8a8d3724b6677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:59 +0000
Subject: [PATCH 15/56] fix: random paths cut at a dead end had a wrong weight

---
 libhfst/src/implementations/TropicalWeightTransducer.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libhfst/src/implementations/TropicalWeightTransducer.cc b/libhfst/src/implementations/TropicalWeightTransducer.cc
index cf53ece..f5fd40e 100644
--- a/libhfst/src/implementations/TropicalWeightTransducer.cc
+++ b/libhfst/src/implementations/TropicalWeightTransducer.cc
@@ -3007,6 +3007,9 @@ random_path_(StdVectorFst *t)
        that \a last_index constitute the longest path that is recognized by
        transducer \a t so far. */
     int last_index = 0;
+    float last_weight = is_epsilon_path_accepted
+                            ? t->Final(t->Start()).Value()
+                            : 0; // the weight of that path
 
     unsigned int num_states = t->NumStates();
 
@@ -3046,6 +3049,7 @@ random_path_(StdVectorFst *t)
             {
                 path.second.pop_back();
             }
+            path.first = last_weight;
             if (!is_epsilon_path_accepted && path.second.size() == 0)
                 throw "cannot extract random path";
             return path;
@@ -3077,6 +3081,7 @@ random_path_(StdVectorFst *t)
                     return path;
                 } // or continue.
                 last_index = (int)path.second.size();
+                last_weight = path.first + t->Final(t_target).Value();
             }
 
             /* Give more probability for shorter paths. */
-- 
2.43.0


From ce0a9b80414c84a144b56a04b35c9c881675d392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:00 +0000
Subject: [PATCH 16/56] fix: extract_paths of log transducers lost the empty
 path

---
 libhfst/src/implementations/LogWeightTransducer.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libhfst/src/implementations/LogWeightTransducer.cc b/libhfst/src/implementations/LogWeightTransducer.cc
index a20ca9f..66e7524 100644
--- a/libhfst/src/implementations/LogWeightTransducer.cc
+++ b/libhfst/src/implementations/LogWeightTransducer.cc
@@ -2300,11 +2300,19 @@ LogWeightTransducer::extract_paths(LogFst *t, hfst::ExtractStringsCb &callback,
                              1, hfst::FdState<int64>(*fd));
 
     StringPairVector spv;
-    hfst::implementations::extract_paths(
+    bool res = hfst::implementations::extract_paths(
         t, t->Start(), all_visitations, path_visitations,
         /*lbuffer,0,ubuffer,0,*/ 0.0f, callback, cycles, fd_state_stack,
         filter_fd,
         /*include_spv,*/ spv);
+
+    // add epsilon path, if needed
+    if (res && t->Final(t->Start()) != LogWeight::Zero())
+    {
+        StringPairVector empty_spv;
+        HfstTwoLevelPath epsilon_path(t->Final(t->Start()).Value(), empty_spv);
+        callback(epsilon_path, true /* final*/);
+    }
 }
 
 void
-- 
2.43.0


From 81c8836d3a9df5a7f703736db46599aff5a68e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:00 +0000
Subject: [PATCH 17/56] fix: HfstBasicTransducer::path_sizes could miss the
 longest paths

---
 .../implementations/HfstBasicTransducer.cc    | 45 +++++++++++--------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index 7ff2ae9..4472079 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -9,6 +9,7 @@
 // information.
 
 #include "HfstBasicTransducer.h"
+#include <algorithm>
 
 #ifndef MAIN_TEST
 
@@ -3412,31 +3413,37 @@ std::vector<unsigned int>
 HfstBasicTransducer::path_sizes()
 {
     std::vector<unsigned int> result;
-    // get topological maximum distance sort
-    std::vector<std::set<HfstState> > states_sorted
-        = this->topsort(MinimumDistance);
-    // go through all sets of states in descending order
-    size_t st = states_sorted.size();
-    if (st > 0)
+    // the states that can be reached with exactly 'distance' transitions;
+    // the same state can be reached at several distances
+    std::set<HfstState> states;
+    if (!state_vector.empty())
     {
-        for (int distance = hfst::size_t_to_int(st - 1); distance >= 0;
-             distance--)
+        states.insert(0);
+    }
+    // no path of an acyclic graph has more transitions than there are states
+    for (unsigned int distance = 0;
+         !states.empty() && distance < state_vector.size(); distance++)
+    {
+        bool final_state_found = false;
+        std::set<HfstState> new_states;
+        for (unsigned int state : states)
         {
-            const std::set<HfstState> &states
-                = states_sorted.at((unsigned int)distance);
-            // go through all states in a set
-            for (unsigned int state : states)
+            if (is_final_state(state))
             {
-                // if a final state is encountered, add its distance
-                // to result
-                if (is_final_state(state))
-                {
-                    result.push_back((unsigned int)distance);
-                    break; // go to next set of states
-                }
+                final_state_found = true;
             }
+            for (const auto &transition : state_vector.at(state))
+            {
+                new_states.insert(transition.get_target_state());
+            }
+        }
+        if (final_state_found)
+        {
+            result.push_back(distance);
         }
+        states.swap(new_states);
     }
+    std::reverse(result.begin(), result.end());
     return result;
 }
 
-- 
2.43.0


From 077e9453009f54d84a2b63133e1361e95a21a70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:00 +0000
Subject: [PATCH 18/56] fix: flag elimination lost paths of U flags after N and
 D flags, of lone R flags and of other features

---
 libhfst/src/HfstTransducer.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index 0685389..471e893 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -1858,6 +1858,8 @@ flag_build(int ftype, char *fname, char *fvalue, int fftype, char *ffname,
         return FLAG_SUCCEED;
     if ((ftype == FLAG_UNIFY) && (fftype == FLAG_CLEAR))
         return FLAG_SUCCEED;
+    if ((ftype == FLAG_UNIFY) && (fftype == FLAG_NEGATIVE) && (eq != 0))
+        return FLAG_SUCCEED;
     if ((ftype == FLAG_UNIFY) && (fftype == FLAG_UNIFY) && (eq != 0))
         return FLAG_FAIL;
     if ((ftype == FLAG_UNIFY) && (fftype == FLAG_POSITIVE) && (eq != 0))
@@ -1907,6 +1909,9 @@ flag_build(int ftype, char *fname, char *fvalue, int fftype, char *ffname,
     if ((ftype == FLAG_DISALLOW) && (fftype == FLAG_POSITIVE) && (eq != 0)
         && !selfnull)
         return FLAG_SUCCEED;
+    if ((ftype == FLAG_DISALLOW) && (fftype == FLAG_UNIFY) && (eq != 0)
+        && !selfnull)
+        return FLAG_SUCCEED;
     if ((ftype == FLAG_DISALLOW) && (fftype == FLAG_CLEAR) && !selfnull)
         return FLAG_SUCCEED;
     if ((ftype == FLAG_DISALLOW) && (fftype == FLAG_NEGATIVE) && (eq == 0)
@@ -1989,8 +1994,16 @@ get_flag_filter(const HfstTransducer *transducer, const StringSet &flags,
         if ((flag.empty() || FdOperation::get_feature(f) == flag)
             && (op == 'U' || op == 'R' || op == 'D')) // Equal flag?
         {
+            // an R flag fails also if no other flag concerns its feature
+            if (op == 'R')
+                flag_found = true;
+
             for (const auto &flag : flags)
             {
+                // '?' in the filter must also stand for the flags that do
+                // not concern this flag
+                fail_flags.insert_to_alphabet("_" + flag);
+
                 int fstatus = is_valid_flag_combination(f, flag);
 
                 if (fstatus == 1)
-- 
2.43.0


From f6b9b6e3716ad580643534521367d993f06a653b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:00 +0000
Subject: [PATCH 19/56] fix: twosided_flag_diacritics and
 harmonize_flag_diacritics lost alphabet symbols

---
 libhfst/src/HfstTransducer.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index 471e893..4a5f73f 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -3189,6 +3189,17 @@ rename_flag_diacritics(HfstTransducer &fst, const std::string &suffix)
 
         ++s;
     }
+
+    // copy alphabet, rename all flags
+    StringSet alpha = basic_fst.get_alphabet();
+    for (const auto &it : alpha)
+    {
+        basic_fst_copy.add_symbol_to_alphabet(
+            FdOperation::is_diacritic(it)
+                ? add_suffix_to_feature_name(it, suffix)
+                : it);
+    }
+
     fst = HfstTransducer(basic_fst_copy, fst.get_type());
 }
 
@@ -3198,6 +3209,7 @@ HfstTransducer::twosided_flag_diacritics()
     HfstBasicTransducer basic_fst(*this);
     HfstBasicTransducer basic_fst_copy;
     (void)basic_fst_copy.add_state(basic_fst.get_max_state());
+    basic_fst_copy.add_symbols_to_alphabet(basic_fst.get_alphabet());
 
     hfst::implementations::HfstState s = 0;
 
-- 
2.43.0


From 59adeaf955fc946e14eb3801cbf03dbc83172d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:00 +0000
Subject: [PATCH 20/56] fix: remove_illegal_flag_paths leaked marker symbols
 and missed valueless flags

---
 libhfst/src/HfstTransducer.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index 4a5f73f..18da260 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -4509,12 +4509,16 @@ HfstTransducer::remove_illegal_flag_paths(void)
             continue;
         }
 
-        if (it.find("_1.") != std::string::npos)
+        // the flag may have no value, e.g. @D.FEATURE_1@
+        if (it.find("_1.") != std::string::npos
+            || it.find("_1@") != std::string::npos)
         {
             _1_flags.insert(it);
         }
 
-        if (it.find("_2.") != std::string::npos)
+        // the flag may have no value, e.g. @D.FEATURE_2@
+        if (it.find("_2.") != std::string::npos
+            || it.find("_2@") != std::string::npos)
         {
             _2_flags.insert(it);
         }
@@ -4554,6 +4558,11 @@ HfstTransducer::remove_illegal_flag_paths(void)
     }
 
     this->substitute(subst);
+    for (const auto &it : subst)
+    {
+        // also flags that do not occur in transitions must be known
+        this->insert_to_alphabet(it.second);
+    }
 
     HfstTransducer restriction
         = get_flag_path_restriction(_1_flags, _2_flags, this->type);
@@ -4563,6 +4572,10 @@ HfstTransducer::remove_illegal_flag_paths(void)
 
     // Rename $...$ flags back to @...@ flags.
     this->substitute(back_subst);
+    for (const auto &it : back_subst)
+    {
+        this->remove_from_alphabet(it.first);
+    }
 
     return *this;
 }
-- 
2.43.0


From d1b902191ea1b64feeb93d957f32da4bc6cba79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:34 +0000
Subject: [PATCH 21/56] fix: infinite ambiguity in optimized lookup missed
 unknown symbols and could recurse for ever

---
 .../optimized-lookup/find_epsilon_loops.cc    | 33 +++++++++++++++++--
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc b/libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc
index e759db9..dde5995 100644
--- a/libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc
+++ b/libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc
@@ -109,8 +109,11 @@ void Transducer::find_loop_transitions(SymbolNumber input,
     while (tables->get_transition_input(i) != NO_SYMBOL_NUMBER) {
         if (tables->get_transition_input(i) == input) {
             // We're not going to find an epsilon / flag loop
-            traversal_states.clear();
+            // that includes the states seen before this transition
+            TraversalStates states_before_input;
+            states_before_input.swap(traversal_states);
             find_loop(input_pos, tables->get_transition_target(i));
+            traversal_states.swap(states_before_input);
             found_transition = true;
         } else {
             return;
@@ -155,7 +158,19 @@ void Transducer::find_loop(unsigned int input_pos,
         SymbolNumber input = input_tape[input_pos];
         ++input_pos;
 
-        find_loop_transitions(input, input_pos, i+1);
+        if (input < alphabet->get_orig_symbol_count()) {
+            // Input is in the alphabet
+            find_loop_transitions(input, input_pos, i+1);
+        } else {
+            if (alphabet->get_identity_symbol() != NO_SYMBOL_NUMBER) {
+                find_loop_transitions(alphabet->get_identity_symbol(),
+                                      input_pos, i+1);
+            }
+            if (alphabet->get_unknown_symbol() != NO_SYMBOL_NUMBER) {
+                find_loop_transitions(alphabet->get_unknown_symbol(),
+                                      input_pos, i+1);
+            }
+        }
         if (alphabet->get_default_symbol() != NO_SYMBOL_NUMBER &&
             !found_transition) {
             find_loop_transitions(alphabet->get_default_symbol(),
@@ -174,7 +189,19 @@ void Transducer::find_loop(unsigned int input_pos,
         SymbolNumber input = input_tape[input_pos];
         ++input_pos;
 
-        find_loop_index(input, input_pos, i+1);
+        if (input < alphabet->get_orig_symbol_count()) {
+            // Input is in the alphabet
+            find_loop_index(input, input_pos, i+1);
+        } else {
+            if (alphabet->get_identity_symbol() != NO_SYMBOL_NUMBER) {
+                find_loop_index(alphabet->get_identity_symbol(),
+                                input_pos, i+1);
+            }
+            if (alphabet->get_unknown_symbol() != NO_SYMBOL_NUMBER) {
+                find_loop_index(alphabet->get_unknown_symbol(),
+                                input_pos, i+1);
+            }
+        }
         // If we have a default symbol defined and we didn't find an index,
         // check for that
         if (alphabet->get_default_symbol() != NO_SYMBOL_NUMBER && !found_transition) {
-- 
2.43.0


From e8289c4ab6103708c28d072527fa0644376b629d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:34 +0000
Subject: [PATCH 22/56] fix: lookup_pairs gave the identity symbol instead of
 the symbol that was read

---
 libhfst/src/implementations/optimized-lookup/transducer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libhfst/src/implementations/optimized-lookup/transducer.cc b/libhfst/src/implementations/optimized-lookup/transducer.cc
index 7919015..0c2479e 100644
--- a/libhfst/src/implementations/optimized-lookup/transducer.cc
+++ b/libhfst/src/implementations/optimized-lookup/transducer.cc
@@ -542,7 +542,8 @@ void Transducer::find_transitions(SymbolNumber input,
                 // back in the input tape to find the symbol we want to write
                 output = input_tape[input_pos - 1];
             }
-            output_tape.write(output_pos, input, output);
+            // likewise, the input side is the symbol that was read
+            output_tape.write(output_pos, input_tape[input_pos - 1], output);
             current_weight += tables->get_weight(i);
             get_analyses(input_pos,
                          output_pos + 1,
-- 
2.43.0


From d09b92088f140b51f2f8b46f1144ff2d04a52eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:34 +0000
Subject: [PATCH 23/56] fix: symbols seen in optimized lookup became a part of
 the transducer when it was converted or stored

---
 .../src/implementations/ConvertOlTransducer.cc    |  8 +++++---
 .../optimized-lookup/transducer.cc                |  1 +
 .../implementations/optimized-lookup/transducer.h | 15 ++++++++++++---
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/libhfst/src/implementations/ConvertOlTransducer.cc b/libhfst/src/implementations/ConvertOlTransducer.cc
index 00bd4f7..ace7967 100644
--- a/libhfst/src/implementations/ConvertOlTransducer.cc
+++ b/libhfst/src/implementations/ConvertOlTransducer.cc
@@ -83,9 +83,11 @@ unsigned int hfst_ol_to_hfst_basic_add_state
       bool weighted = t->get_header().probe_flag(hfst_ol::Weighted);
       const hfst_ol::SymbolTable& symbols
         = t->get_alphabet().get_symbol_table();
-      for (hfst_ol::SymbolTable::const_iterator it = symbols.begin();
-           it != symbols.end(); ++it) {
-          basic->add_symbol_to_alphabet(*it);
+      for (size_t i = 0; i < symbols.size(); ++i) {
+          if (t->get_alphabet().is_lookup_symbol((hfst_ol::SymbolNumber) i)) {
+              continue; // not a symbol of the transducer
+          }
+          basic->add_symbol_to_alphabet(symbols[i]);
       }
       
       /* This contains indices to either (1) the start of a set of entries
diff --git a/libhfst/src/implementations/optimized-lookup/transducer.cc b/libhfst/src/implementations/optimized-lookup/transducer.cc
index 0c2479e..073dcf6 100644
--- a/libhfst/src/implementations/optimized-lookup/transducer.cc
+++ b/libhfst/src/implementations/optimized-lookup/transducer.cc
@@ -332,6 +332,7 @@ bool Transducer::initialize_input(const char * input)
             (*input_str_ptr) += bytes_to_tokenize;
             alphabet->add_symbol(new_symbol);
             k = hfst::size_t_to_uint(alphabet->get_symbol_table().size() - 1);
+            alphabet->note_lookup_symbol(k);
             encoder->read_input_symbol(new_symbol, k);
             delete [] new_symbol;
         }
diff --git a/libhfst/src/implementations/optimized-lookup/transducer.h b/libhfst/src/implementations/optimized-lookup/transducer.h
index 0df910f..95829ef 100644
--- a/libhfst/src/implementations/optimized-lookup/transducer.h
+++ b/libhfst/src/implementations/optimized-lookup/transducer.h
@@ -381,6 +381,7 @@ protected:
     SymbolNumber default_symbol;
     SymbolNumber identity_symbol;
     SymbolNumber orig_symbol_count;
+    std::set<SymbolNumber> lookup_symbols;
 
     enum UnicodeClassCacheValue { upperalpha, loweralpha, whitespace, no_value, other };
     std::vector<UnicodeClassCacheValue> unicode_cache;
@@ -407,10 +408,12 @@ public:
   
     void write(std::ostream& os) const
         {
-            for(SymbolTable::const_iterator i = symbol_table.begin();
-                i != symbol_table.end(); i++)
+            // the header tells how many symbols there are, so symbols that
+            // have been added later must not be written
+            for(SymbolNumber i = 0;
+                i < symbol_table.size() && i < orig_symbol_count; i++)
             {
-                os << *i;
+                os << symbol_table[i];
                 os.put('\0');
             }
         }
@@ -452,6 +455,12 @@ public:
         { return identity_symbol; }
     SymbolNumber get_orig_symbol_count(void) const
         { return orig_symbol_count; }
+    // Symbols that have only been seen in the input of a lookup do not belong
+    // to the alphabet of the transducer
+    void note_lookup_symbol(SymbolNumber symbol)
+        { lookup_symbols.insert(symbol); }
+    bool is_lookup_symbol(SymbolNumber symbol) const
+        { return lookup_symbols.count(symbol) != 0; }
     virtual void add_symbol(char * symbol);
     virtual void add_symbol(const std::string & symbol);
 
-- 
2.43.0


From f4740110c9ff4fb82e5d439954d74581a636a47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:44 +0000
Subject: [PATCH 24/56] fix: name and properties of a transducer leaked into
 the next one in the stream

---
 libhfst/src/HfstInputStream.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libhfst/src/HfstInputStream.cc b/libhfst/src/HfstInputStream.cc
index e262f77..dcada24 100644
--- a/libhfst/src/HfstInputStream.cc
+++ b/libhfst/src/HfstInputStream.cc
@@ -727,6 +727,10 @@ namespace hfst
      Throw a TransducerHeaderException if the header data cannot be parsed. */
   bool HfstInputStream::read_hfst_header(int &bytes_read)
   {
+    // forget the header of the previous transducer in the stream
+    name = "";
+    props.clear();
+
     char c =stream_peek();
 
     if (c != 'H') {
-- 
2.43.0


From 79d1760287aee701f25f87ffd3912f1cb60b8237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:44 +0000
Subject: [PATCH 25/56] fix: reading a truncated foma transducer crashed or
 never returned

---
 libhfst/src/implementations/FomaTransducer.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/libhfst/src/implementations/FomaTransducer.cc b/libhfst/src/implementations/FomaTransducer.cc
index f8aef0d..7cd351a 100644
--- a/libhfst/src/implementations/FomaTransducer.cc
+++ b/libhfst/src/implementations/FomaTransducer.cc
@@ -875,7 +875,7 @@ namespace hfst { namespace implementations {
     int i, items, new_symbol_number, laststate, lineint[5], *cm;
     char last_final = 0;
 
-    if (io_gets(infile, buf) == 0) {
+    if (io_gets(infile, buf) <= 0) {
         return NULL;
     }
 
@@ -920,9 +920,10 @@ namespace hfst { namespace implementations {
         return NULL;
     }
     for (;;) {
-      io_gets(infile, buf);
+      if (io_gets(infile, buf) < 0) return NULL;
         if (buf[0] == '#') break;
         new_symbol = strstr(buf, " ");
+        if (new_symbol == NULL) return NULL;
         new_symbol[0] = '\0';
         new_symbol++;
         sscanf(buf,"%i", &new_symbol_number);
@@ -939,8 +940,9 @@ namespace hfst { namespace implementations {
     fsm_ = net->states;
     laststate = -1;
     for (i=0; ;i++) {
-      io_gets(infile, buf);
+      if (io_gets(infile, buf) < 0) return NULL;
         if (buf[0] == '#') break;
+        if (i >= net->linecount) return NULL;
 
         /* scanf is just too slow here */
         //items = sscanf(buf, "%i %i %i %i %i",&lineint[0],
@@ -998,7 +1000,7 @@ namespace hfst { namespace implementations {
         cmatrix_init(net);
         cm = net->medlookup->confusion_matrix;
         for (;;) {
-      io_gets(infile, buf);
+      if (io_gets(infile, buf) < 0) return NULL;
             if (buf[0] == '#') break;
             sscanf(buf,"%i", &i);
             *cm = i;
@@ -1012,17 +1014,22 @@ namespace hfst { namespace implementations {
     return(net);
 }
 
+/* Read a line into \a target. Return its length or -1 if the file ended. */
 static int io_gets(FILE *infile, char *target) {
     int i;
     int c = getc(infile);
     for (i = 0; c != '\n' && c != '\0'; i++) {
+        if (c == EOF) {
+          *target = '\0';
+          return -1;
+        }
         *(target+i) = c;
         c = getc(infile);
     }
     *(target+i) = '\0';
 
     // Windows...
-    if (*(target+i-1) == '\r')
+    if (i > 0 && *(target+i-1) == '\r')
       *(target+i-1) = '\0';
 
     if (c == '\0')
-- 
2.43.0


From dab5e68b970eba79b5c6cf5dfa30c32214567155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:44 +0000
Subject: [PATCH 26/56] fix: assigning a transducer kept the properties of the
 old value

---
 libhfst/src/HfstTransducer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index 18da260..c517610 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -6026,6 +6026,7 @@ HfstTransducer::operator=(const HfstTransducer &another)
     // set some features
     anonymous = another.anonymous;
     is_trie = another.is_trie;
+    this->props = another.props;
     this->set_name(another.get_name());
 
     // Delete old transducer.
-- 
2.43.0


From 72dee7d48a2585371b7dfad7b247c833fb5fec3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:45 +0000
Subject: [PATCH 27/56] fix: conversion from optimized lookup read past the end
 of the index table for output-only symbols

---
 libhfst/src/implementations/optimized-lookup/transducer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libhfst/src/implementations/optimized-lookup/transducer.cc b/libhfst/src/implementations/optimized-lookup/transducer.cc
index 073dcf6..8d1864c 100644
--- a/libhfst/src/implementations/optimized-lookup/transducer.cc
+++ b/libhfst/src/implementations/optimized-lookup/transducer.cc
@@ -921,7 +921,7 @@ TransitionTableIndexSet Transducer::get_transitions_from_state(
                     }
                     ++transition_i;
                 }
-            } else { // not a flag
+            } else if (symbol < header->input_symbol_count()) { // not a flag
                 const TransitionIndex& test_transition_index =
                     get_index(state_index+1+symbol);
                 if(test_transition_index.matches(symbol)) {
-- 
2.43.0


From 683953ab14a439cad480cd0b8935b1466ce1ed21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:24 +0000
Subject: [PATCH 28/56] fix: AT&T format with numbers repeated final states or
 left them out

---
 .../src/implementations/HfstBasicTransducer.cc    | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index 4472079..cde201c 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -1715,14 +1715,13 @@ HfstBasicTransducer::write_in_att_format_number(FILE *file,
             if (write_weights)
                 fprintf(file, "\t%f", data.get_weight());
             fprintf(file, "\n");
-
-            if (is_final_state(source_state))
-            {
-                fprintf(file, "%i", source_state);
-                if (write_weights)
-                    fprintf(file, "\t%f", get_final_weight(source_state));
-                fprintf(file, "\n");
-            }
+        }
+        if (is_final_state(source_state))
+        {
+            fprintf(file, "%i", source_state);
+            if (write_weights)
+                fprintf(file, "\t%f", get_final_weight(source_state));
+            fprintf(file, "\n");
         }
         source_state++;
     }
-- 
2.43.0


From 6b654070241368b2fb57ad513c321e9ca50d41de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:24 +0000
Subject: [PATCH 29/56] fix: AT&T format written to a buffer without weights
 had gaps

---
 libhfst/src/implementations/HfstBasicTransducer.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index cde201c..255a7b2 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -1674,8 +1674,10 @@ HfstBasicTransducer::write_in_att_format(char *ptr,
             cwt = cwt + cw;
 
             if (write_weights)
+            {
                 cw = sprintf(ptr + cwt, "\t%f", data.get_weight());
-            cwt = cwt + cw;
+                cwt = cwt + cw;
+            }
             cw = sprintf(ptr + cwt, "\n");
             cwt = cwt + cw;
         }
@@ -1684,9 +1686,11 @@ HfstBasicTransducer::write_in_att_format(char *ptr,
             cw = sprintf(ptr + cwt, "%i", source_state);
             cwt = cwt + cw;
             if (write_weights)
+            {
                 cw = sprintf(ptr + cwt, "\t%f",
                              get_final_weight(source_state));
-            cwt = cwt + cw;
+                cwt = cwt + cw;
+            }
             cw = sprintf(ptr + cwt, "\n");
             cwt = cwt + cw;
         }
-- 
2.43.0


From 151b69b9aaf562d3ec0a692e36da749f60adc015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:24 +0000
Subject: [PATCH 30/56] fix: reading AT&T and prolog text from an istream, and
 long lines and symbols in it

---
 .../implementations/HfstBasicTransducer.cc    | 79 +++++++++++--------
 1 file changed, 45 insertions(+), 34 deletions(-)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index 255a7b2..b4b6635 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -10,6 +10,7 @@
 
 #include "HfstBasicTransducer.h"
 #include <algorithm>
+#include <cstring>
 
 #ifndef MAIN_TEST
 
@@ -1359,9 +1360,10 @@ HfstBasicTransducer::parse_prolog_symbol_line(const std::string &line,
                                               HfstBasicTransducer &graph)
 {
     // 'symbol(NAME, "foo").'
-    char namearr[100];
-    char symbolarr[100];
-    int n = sscanf(line.c_str(), "symbol(%[^,], %s", namearr, symbolarr);
+    std::vector<char> fields(2 * (line.length() + 1));
+    char *namearr = &fields[0];
+    char *symbolarr = namearr + line.length() + 1;
+    int n = sscanf(line.c_str(), "symbol(%[^,], %[^\n]", namearr, symbolarr);
 
     if (n != 2)
         return false;
@@ -1396,6 +1398,31 @@ HfstBasicTransducer::strip_newlines(std::string &str)
     return str;
 }
 
+// Read a line of any length, with its newline (if there is one), from \a is
+// (if \a file == NULL) or from \a file. Return false at the end of the file.
+static bool
+read_text_line(std::istream &is, FILE *file, std::string &line)
+{
+    line.clear();
+    if (file == NULL)
+    { /* we use streams */
+        if (!std::getline(is, line))
+            return false;
+        if (!is.eof())
+            line.append("\n");
+        return true;
+    }
+    /* we use FILEs */
+    char buffer[255];
+    while (NULL != fgets(buffer, 255, file))
+    {
+        line.append(buffer);
+        if (line[line.length() - 1] == '\n')
+            break;
+    }
+    return !line.empty();
+}
+
 // Try to get a line from \a is (if \a file == NULL)
 // or from \a file. If successfull, strip the line from newlines,
 // increment \a linecount by one and return the line.
@@ -1404,21 +1431,12 @@ std::string
 HfstBasicTransducer::get_stripped_line(std::istream &is, FILE *file,
                                        unsigned int &linecount)
 {
-    char line[255];
+    std::string linestr;
 
-    if (file == NULL)
-    { /* we use streams */
-        if (!is.getline(line, 255).eof())
-            HFST_THROW(EndOfStreamException);
-    }
-    else
-    { /* we use FILEs */
-        if (NULL == fgets(line, 255, file))
-            HFST_THROW(EndOfStreamException);
-    }
+    if (!read_text_line(is, file, linestr))
+        HFST_THROW(EndOfStreamException);
     linecount++;
 
-    std::string linestr(line);
     return strip_newlines(linestr);
 }
 
@@ -1737,11 +1755,13 @@ HfstBasicTransducer::add_att_line(char *line,
                                   bool warn_negs)
 {
     // scan one line that can have a maximum of five fields
-    char a1[100];
-    char a2[100];
-    char a3[100];
-    char a4[100];
-    char a5[100];
+    const size_t field_size = strlen(line) + 1;
+    std::vector<char> fields(5 * field_size);
+    char *a1 = &fields[0];
+    char *a2 = a1 + field_size;
+    char *a3 = a2 + field_size;
+    char *a4 = a3 + field_size;
+    char *a5 = a4 + field_size;
     // how many fields could be parsed
     int n = sscanf(line, "%s%s%s%s%s", a1, a2, a3, a4, a5);
 
@@ -1830,24 +1850,15 @@ HfstBasicTransducer::read_in_att_format(std::istream &is, FILE *file,
     }
 
     HfstBasicTransducer retval;
-    char line[255];
+    std::string linestr;
     while (true)
     {
 
-        if (file == NULL)
-        { /* we use streams */
-            if (!is.getline(line, 255).eof())
-            {
-                break;
-            }
-        }
-        else
-        { /* we use FILEs */
-            if (NULL == fgets(line, 255, file))
-            {
-                break;
-            }
+        if (!read_text_line(is, file, linestr))
+        {
+            break;
         }
+        char *line = &linestr[0];
 
         linecount++;
 
-- 
2.43.0


From c4ca460eeba8270c4ba73a5bcf01c0be509a3493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:50 +0000
Subject: [PATCH 31/56] fix: prolog text with spaces in network names and
 symbols, long lines or symbols that end in a backslash

---
 .../implementations/HfstBasicTransducer.cc    | 47 +++++++++----------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index b4b6635..099b3e4 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -1109,12 +1109,11 @@ HfstBasicTransducer::parse_prolog_network_line(const std::string &line,
                                                HfstBasicTransducer &graph)
 {
     // 'network(NAME).'
-    char namearr[100];
-    int n = sscanf(line.c_str(), "network(%s", namearr);
-    if (n != 1)
+    const std::string prefix("network(");
+    if (line.compare(0, prefix.length(), prefix) != 0)
         return false;
 
-    std::string namestr(namearr);
+    std::string namestr(line, prefix.length());
     // strip the ending ")." from namestr
     if (!strip_ending_parenthesis_and_comma(namestr))
         return false;
@@ -1132,15 +1131,10 @@ HfstBasicTransducer::get_positions_of_unescaped_char(const std::string &str,
     std::vector<unsigned int> retval;
     for (unsigned int i = 0; i < (unsigned int)str.length(); i++)
     {
-        if (str[i] == c)
-        {
-            if (i == 0)
-                retval.push_back(i);
-            else if (str[i - 1] == esc)
-                ; // skip escaped chars
-            else
-                retval.push_back(i);
-        }
+        if (str[i] == esc)
+            i++; // skip escaped chars
+        else if (str[i] == c)
+            retval.push_back(i);
     }
     return retval;
 }
@@ -1255,14 +1249,20 @@ HfstBasicTransducer::parse_prolog_arc_line(const std::string &line,
                                            HfstBasicTransducer &graph)
 {
     // symbolstr can also contain the weight
-    char namestr[100];
-    char sourcestr[100];
-    char targetstr[100];
-    char symbolstr[100];
+    std::vector<char> fields(4 * (line.length() + 1));
+    char *namestr = &fields[0];
+    char *sourcestr = namestr + line.length() + 1;
+    char *targetstr = sourcestr + line.length() + 1;
+    char *symbolstr = targetstr + line.length() + 1;
 
-    int n = sscanf(line.c_str(), "arc(%[^,], %[^,], %[^,], %[^\t\n]", namestr,
+    int n = sscanf(line.c_str(), "arc(%[^,], %[^,], %[^,], %[^\n]", namestr,
                    sourcestr, targetstr, symbolstr);
 
+    if (n != 4)
+    {
+        return false;
+    }
+
     std::string symbol(symbolstr);
 
     // strip the ending ")." from symbolstr
@@ -1271,10 +1271,6 @@ HfstBasicTransducer::parse_prolog_arc_line(const std::string &line,
         return false;
     }
 
-    if (n != 4)
-    {
-        return false;
-    }
     if (std::string(namestr) != graph.name)
     {
         return false;
@@ -1306,9 +1302,10 @@ HfstBasicTransducer::parse_prolog_final_line(const std::string &line,
                                              HfstBasicTransducer &graph)
 {
     // 'final(NAME, number).' or 'final(NAME, number, weight).'
-    char namestr[100];
-    char finalstr[100];
-    char weightstr[100];
+    std::vector<char> fields(3 * (line.length() + 1));
+    char *namestr = &fields[0];
+    char *finalstr = namestr + line.length() + 1;
+    char *weightstr = finalstr + line.length() + 1;
     float weight = 0;
 
     unsigned int number_of_commas = 0;
-- 
2.43.0


From 62f41900409ae18d77f44e7327a87c13fd4c0547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:01 +0000
Subject: [PATCH 32/56] fix: a pair of the unknown symbol and another symbol
 also matched the other symbol with itself on the foma back end

---
 libhfst/src/implementations/FomaTransducer.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libhfst/src/implementations/FomaTransducer.cc b/libhfst/src/implementations/FomaTransducer.cc
index 7cd351a..6c4a19e 100644
--- a/libhfst/src/implementations/FomaTransducer.cc
+++ b/libhfst/src/implementations/FomaTransducer.cc
@@ -251,13 +251,13 @@ namespace hfst { namespace implementations {
   fsm * FomaTransducer::define_transducer
     (const std::string &isymbol, const std::string &osymbol)
   {
-    // identity-to-identity gives wrong result if cross product is used
+    // identity-to-identity gives wrong result if cross product is used,
+    // as does a pair of the unknown symbol and another symbol
     if (isymbol == osymbol && isymbol == hfst::internal_identity) {
       return define_transducer(isymbol);
     }
-    return fsm_cross_product( fsm_symbol(const_cast<char*>(isymbol.c_str())),
-                              fsm_symbol(const_cast<char*>(osymbol.c_str())) );
-    // should either argument be deleted?
+    return define_transducer
+      (StringPairVector(1, StringPair(isymbol, osymbol)));
   }
 
   fsm * FomaTransducer::define_transducer(const StringPairVector &spv)
-- 
2.43.0


From fef366f5985b482effd86384fd259fa412ae4c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:20 +0000
Subject: [PATCH 33/56] fix: any symbol in a restriction does not match the
 word boundary

---
 libhfst/src/HfstXeroxRules.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libhfst/src/HfstXeroxRules.cc b/libhfst/src/HfstXeroxRules.cc
index 3e26d33..5fa8ef9 100644
--- a/libhfst/src/HfstXeroxRules.cc
+++ b/libhfst/src/HfstXeroxRules.cc
@@ -2872,6 +2872,8 @@ namespace hfst
         // [ U* %<D%> CENTER %<D%> U* ]
         HfstTransducer center(_center);
         center.insert_to_alphabet(restrictionMark);
+        // "any symbol" does not include the boundary
+        center.insert_to_alphabet(".#.");
 
         HfstTransducer centerMarked(universalWithoutDStar);
         centerMarked.concatenate(mark)
@@ -2887,9 +2889,11 @@ namespace hfst
         {
             HfstTransducer lefContext(context[i].first);
             lefContext.insert_to_alphabet(restrictionMark);
+            lefContext.insert_to_alphabet(".#.");
 
             HfstTransducer rightContext(context[i].second);
             rightContext.insert_to_alphabet(restrictionMark);
+            rightContext.insert_to_alphabet(".#.");
 
             HfstTransducer RES(universalWithoutDStar);
             RES.concatenate(lefContext)
-- 
2.43.0


From b82bb6c583844a91eeaab3a77c35eb107118c0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:21 +0000
Subject: [PATCH 34/56] fix: restriction with an empty context (A => _) allows
 every context

---
 libhfst/src/parsers/xre_parse.yy | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/parsers/xre_parse.yy b/libhfst/src/parsers/xre_parse.yy
index 6a5d1c3..e846cc2 100644
--- a/libhfst/src/parsers/xre_parse.yy
+++ b/libhfst/src/parsers/xre_parse.yy
@@ -801,8 +801,8 @@ RESTR_CONTEXT: REGEXP4 CENTER_MARKER REGEXP4
       }
       | CENTER_MARKER
       {
-            HfstTransducer empty(hfst::xre::format);
-            $$ = new HfstTransducerPair(empty, empty);
+            HfstTransducer epsilon(hfst::internal_epsilon, hfst::xre::format);
+            $$ = new HfstTransducerPair(epsilon, epsilon);
       }
       ;
 
-- 
2.43.0


From 793992720b33665805332dab011d7fb674b7438d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:21 +0000
Subject: [PATCH 35/56] fix: {foo}:[bar] was compiled as [bar]:{foo}

---
 libhfst/src/parsers/xre_parse.yy | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/parsers/xre_parse.yy b/libhfst/src/parsers/xre_parse.yy
index e846cc2..4adb779 100644
--- a/libhfst/src/parsers/xre_parse.yy
+++ b/libhfst/src/parsers/xre_parse.yy
@@ -1002,8 +1002,8 @@ REGEXP11: REGEXP12 { $$ = $1; }
             HfstTransducer * tmp =
                 hfst::xre::xfst_curly_label_to_transducer($1,$1);
             free($1);
-            $$ = & $4->cross_product(*tmp);
-            delete tmp;
+            $$ = & tmp->cross_product(*$4);
+            delete $4;
         }
         // [foo]:bar
         | LEFT_BRACKET REGEXP2 RIGHT_BRACKET PAIR_SEPARATOR HALFARC {
-- 
2.43.0


From dfa0233e262f5aa4a86838a58e26159af4e87fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:21 +0000
Subject: [PATCH 36/56] fix: ?:0 and 0:? accepted the empty string

---
 libhfst/src/parsers/xre_utils.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/libhfst/src/parsers/xre_utils.cc b/libhfst/src/parsers/xre_utils.cc
index aafc469..c0d1499 100644
--- a/libhfst/src/parsers/xre_utils.cc
+++ b/libhfst/src/parsers/xre_utils.cc
@@ -936,16 +936,23 @@ xfst_label_to_transducer(const char *input, const char *output)
     {
         retval = new HfstTransducer(hfst::internal_unknown, output,
                                     hfst::xre::format);
-        HfstTransducer output_tr(output, output, hfst::xre::format);
-        retval->disjunct(output_tr)
-            .minimize(); // it should be safe to minimize
+        if (strcmp(output, hfst::internal_epsilon.c_str()) != 0)
+        {
+            HfstTransducer output_tr(output, output, hfst::xre::format);
+            retval->disjunct(output_tr)
+                .minimize(); // it should be safe to minimize
+        }
     }
     else if (output_is_unknown)
     {
         retval = new HfstTransducer(input, hfst::internal_unknown,
                                     hfst::xre::format);
-        HfstTransducer input_tr(input, input, hfst::xre::format);
-        retval->disjunct(input_tr).minimize(); // it should be safe to minimize
+        if (strcmp(input, hfst::internal_epsilon.c_str()) != 0)
+        {
+            HfstTransducer input_tr(input, input, hfst::xre::format);
+            retval->disjunct(input_tr)
+                .minimize(); // it should be safe to minimize
+        }
     }
     else
     {
-- 
2.43.0


From c97f6f1179e86b6919a38fa047d2fbe01a6aa0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:21 +0000
Subject: [PATCH 37/56] fix: cross product of ? and a bracketed or curly
 expression threw an exception

---
 libhfst/src/parsers/xre_parse.yy | 8 ++++----
 libhfst/src/parsers/xre_utils.cc | 8 ++++++++
 libhfst/src/parsers/xre_utils.h  | 2 ++
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/libhfst/src/parsers/xre_parse.yy b/libhfst/src/parsers/xre_parse.yy
index 4adb779..3ca26c1 100644
--- a/libhfst/src/parsers/xre_parse.yy
+++ b/libhfst/src/parsers/xre_parse.yy
@@ -1007,14 +1007,14 @@ REGEXP11: REGEXP12 { $$ = $1; }
         }
         // [foo]:bar
         | LEFT_BRACKET REGEXP2 RIGHT_BRACKET PAIR_SEPARATOR HALFARC {
-            HfstTransducer * tmp = hfst::xre::expand_definition($5);
+            HfstTransducer * tmp = hfst::xre::half_arc_to_transducer($5);
             free($5);
             $$ = & $2->cross_product(*tmp);
             delete tmp;
         }
         // foo:[bar]
         | HALFARC PAIR_SEPARATOR LEFT_BRACKET REGEXP2 RIGHT_BRACKET {
-            $$ = hfst::xre::expand_definition($1);
+            $$ = hfst::xre::half_arc_to_transducer($1);
             free($1);
             $$ = & $$->cross_product(*$4);
             delete $4;
@@ -1222,7 +1222,7 @@ LABEL: HALFARC {
         free($3);
      }
      | HALFARC PAIR_SEPARATOR CURLY_BRACKETS {
-        $$ = hfst::xre::xfst_label_to_transducer($1,$1);
+        $$ = hfst::xre::half_arc_to_transducer($1);
         free($1);
         HfstTransducer * tmp = hfst::xre::xfst_curly_label_to_transducer($3,$3);
         free($3);
@@ -1230,7 +1230,7 @@ LABEL: HALFARC {
         delete tmp;
      }
      | CURLY_BRACKETS PAIR_SEPARATOR HALFARC {
-        HfstTransducer * tmp = hfst::xre::xfst_label_to_transducer($3,$3);
+        HfstTransducer * tmp = hfst::xre::half_arc_to_transducer($3);
         free($3);
         $$ = hfst::xre::xfst_curly_label_to_transducer($1,$1);
         free($1);
diff --git a/libhfst/src/parsers/xre_utils.cc b/libhfst/src/parsers/xre_utils.cc
index c0d1499..da36154 100644
--- a/libhfst/src/parsers/xre_utils.cc
+++ b/libhfst/src/parsers/xre_utils.cc
@@ -768,6 +768,14 @@ is_definition(const char *symbol)
     return true;
 }
 
+HfstTransducer *
+half_arc_to_transducer(const char *symbol)
+{
+    if (strcmp(symbol, hfst::internal_unknown.c_str()) == 0)
+        return new HfstTransducer(hfst::internal_identity, hfst::xre::format);
+    return expand_definition(symbol);
+}
+
 HfstTransducer *
 expand_definition(const char *symbol)
 {
diff --git a/libhfst/src/parsers/xre_utils.h b/libhfst/src/parsers/xre_utils.h
index aa45a50..d7c5a7f 100644
--- a/libhfst/src/parsers/xre_utils.h
+++ b/libhfst/src/parsers/xre_utils.h
@@ -113,6 +113,8 @@ HfstTransducer* expand_definition(HfstTransducer* tr, const char* symbol);
 
 // the same but simpler..
 HfstTransducer* expand_definition(const char* symbol);
+// The same, but the any symbol (?) is the identity of any symbol.
+HfstTransducer* half_arc_to_transducer(const char* symbol);
 
  bool define_function_args(const char * name, const std::vector<HfstTransducer> * args);
  void undefine_function_args(const char * name);
-- 
2.43.0


From c275ffb72e4ad77647af7ac48ead47fb3c644bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:18 +0000
Subject: [PATCH 38/56] fix: keep deleted symbols inside the word boundaries
 when compiling replace rules

---
 libhfst/src/HfstXeroxRules.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libhfst/src/HfstXeroxRules.cc b/libhfst/src/HfstXeroxRules.cc
index 5fa8ef9..f3f8537 100644
--- a/libhfst/src/HfstXeroxRules.cc
+++ b/libhfst/src/HfstXeroxRules.cc
@@ -2193,6 +2193,8 @@ namespace hfst
       /*
        * [0:.#. | ? - .#.]*
        *         .o.
+       *     .#. (? - .#.)* .#.
+       *         .o.
        *     tr., ie. a -> b || .#. _ ;
        *         .o.
        *     .#. (? - .#.)* .#.
@@ -2257,6 +2259,9 @@ namespace hfst
             //printf("----first: ----\n");
             //tr.write_in_att_format(stdout, 1);
 
+            // the boundaries surround the upper string, too: without this, a
+            // symbol that is deleted could stand outside of them
+            retval.compose(boundaryAnythingBoundary).optimize();
             retval.compose(tr).optimize();
 
 
-- 
2.43.0


From 3567d785a4b91252431d3845b5f9e2cbf390a9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:21 +0000
Subject: [PATCH 39/56] fix: markup rules among parallel replace rules

---
 libhfst/src/HfstXeroxRules.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/HfstXeroxRules.cc b/libhfst/src/HfstXeroxRules.cc
index f3f8537..c427197 100644
--- a/libhfst/src/HfstXeroxRules.cc
+++ b/libhfst/src/HfstXeroxRules.cc
@@ -965,8 +965,16 @@ namespace hfst
               oneMappingPair.insert_to_alphabet(marker_symbols);
               HfstTransducer foo(mappingPairVector[j].second);
               foo.insert_to_alphabet(marker_symbols);
-              oneMappingPair.cross_product
-                (foo.concatenate(marker));
+              if ( mappingPairVector[j].first.get_property("isMarkup") != "yes" )
+                {
+                  oneMappingPair.cross_product
+                    (foo.concatenate(marker));
+                }
+              else // the first transducer is already the whole mapping
+                {
+                  oneMappingPair.concatenate
+                    (HfstTransducer(hfst::internal_epsilon, marker_string, type));
+                }
               //oneMappingPair.cross_product(mappingPairVector[j].second);
               
               //printf("oneMappingPair \n");
-- 
2.43.0


From 930c0cca99e8f5c3320e5346f2acbbf7ad4b762a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:21 +0000
Subject: [PATCH 40/56] fix: parallel replace rules that have several contexts

---
 libhfst/src/HfstXeroxRules.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libhfst/src/HfstXeroxRules.cc b/libhfst/src/HfstXeroxRules.cc
index c427197..9adab81 100644
--- a/libhfst/src/HfstXeroxRules.cc
+++ b/libhfst/src/HfstXeroxRules.cc
@@ -1011,6 +1011,10 @@ namespace hfst
                   noContexts = false;
                 }
             }
+          else if ( contextVector.size() > 1 )
+            {
+              noContexts = false;
+            }
 
           //////////////////////////////////////////////////////////////////
           // In case of ? -> x replacement
-- 
2.43.0


From f8e5eb3afdc43ae676eb3b3d532797b0ef553cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:47 +0000
Subject: [PATCH 41/56] fix: the rightmost longest match when one symbol
 precedes it

---
 libhfst/src/HfstXeroxRules.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/libhfst/src/HfstXeroxRules.cc b/libhfst/src/HfstXeroxRules.cc
index 9adab81..491492a 100644
--- a/libhfst/src/HfstXeroxRules.cc
+++ b/libhfst/src/HfstXeroxRules.cc
@@ -1672,20 +1672,23 @@ namespace hfst
           HfstTransducer epsilonToLeftBracket("@_EPSILON_SYMBOL_@", leftMarker, TOK, type);
 
 
-          //[ ? | 0:< | >:0 | 0:> | B ]
-          HfstTransducer nonClosingBracketInsertion(identityPair);
-          nonClosingBracketInsertion.disjunct(epsilonToLeftBracket).
+          // the mirror image of the constraint for the leftmost longest match
+          // [?-B]+ [ 0:< | >:0 | 0:> | B ]
+          HfstTransducer nonClosingBracketInsertion(epsilonToLeftBracket);
+          nonClosingBracketInsertion.
                   disjunct(RightBracketToEpsilon).
                   disjunct(epsilonToRightBracket).
                   disjunct(B).
                   optimize();
+          HfstTransducer middlePart(identityPairMinusBracketsPlus);
+          middlePart.concatenate(nonClosingBracketInsertion).
+                  disjunct(identityPairMinusBrackets).
+                  optimize();
 
-
-          // [ B:0 | 0:B | ?-B ]* [?-B]+ [ ? | 0:< | <:0 | 0:> | B ] 0:< [?-B]+ > ?*
+          // [ B:0 | 0:B | ?-B ]* [ [?-B]+ [ 0:< | >:0 | 0:> | B ] | ?-B ] 0:< [?-B]+ > ?*
 
           HfstTransducer Constraint(rightPart);
-          Constraint.concatenate(identityPairMinusBracketsPlus).
-                  concatenate(nonClosingBracketInsertion).optimize().
+          Constraint.concatenate(middlePart).optimize().
                   concatenate(epsilonToLeftBracket).
                   concatenate(identityPairMinusBracketsPlus).
                   concatenate(rightBracket).
-- 
2.43.0


From 0014ece8868c9e5020e36cc375448c5d220c6415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:10 +0000
Subject: [PATCH 42/56] fix: any symbol in the center of a replace rule matched
 the word boundary

---
 libhfst/src/HfstXeroxRules.cc | 39 +++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/libhfst/src/HfstXeroxRules.cc b/libhfst/src/HfstXeroxRules.cc
index 491492a..e65052f 100644
--- a/libhfst/src/HfstXeroxRules.cc
+++ b/libhfst/src/HfstXeroxRules.cc
@@ -587,6 +587,37 @@ namespace hfst
        *         (same for left context, (.* Cl))
       */
 
+      // a center does not contain word boundaries, not even as unknown symbols
+      // [ ? - B - .#. | .#. | <1 (? - B - .#.)* >1 | <2 (? - B - .#.)* >2 ]* .o. t
+      static HfstTransducer excludeBoundariesFromCenters( const HfstTransducer &t )
+      {
+          HfstTokenizer TOK;
+          ImplementationType type = t.get_type();
+          const char * symbols[] = { "@LM@", "@RM@", "@LM2@", "@RM2@", ".#." };
+
+          HfstTransducer other = HfstTransducer::identity_pair( type );
+          for ( unsigned int i = 0; i < 5; i++ )
+            {
+              TOK.add_multichar_symbol(symbols[i]);
+              other.insert_to_alphabet(symbols[i]);
+            }
+          HfstTransducer inside(other);
+          inside.repeat_star().optimize();
+
+          HfstTransducer retval(other);
+          retval.disjunct(HfstTransducer(".#.", TOK, type));
+          for ( unsigned int i = 0; i < 4; i += 2 )
+            {
+              HfstTransducer center(symbols[i], TOK, type);
+              center.concatenate(inside)
+                .concatenate(HfstTransducer(symbols[i+1], TOK, type));
+              retval.disjunct(center);
+            }
+          retval.optimize().repeat_star().optimize();
+          retval.compose(t).optimize();
+          return retval;
+      }
+
       HfstTransducer bracketedReplace(const Rule &rule, bool optional)
       {
         //printf("bracketedReplace function..... \n");
@@ -785,7 +816,7 @@ namespace hfst
               identityExpanded.remove_from_alphabet(tmpMarker);
               //printf("identityExpanded: \n");
               //identityExpanded.optimize().write_in_att_format(stdout, 1);
-              return identityExpanded;
+              return excludeBoundariesFromCenters(identityExpanded);
           }
         }
 
@@ -837,7 +868,7 @@ namespace hfst
         HfstTransducer uncondidtionalTr(identityExpanded);
         uncondidtionalTr.subtract(replaceWithoutContexts).optimize();
 
-        return uncondidtionalTr;
+        return excludeBoundariesFromCenters(uncondidtionalTr);
 
   }
 
@@ -1097,7 +1128,7 @@ namespace hfst
             // substitute markers with epsilons
             identityExpanded.substitute(marker_substitutions);
             identityExpanded.remove_from_alphabet(marker_symbols);
-            return identityExpanded;
+            return excludeBoundariesFromCenters(identityExpanded);
           }
         
         // if they have contexts, process them
@@ -1265,7 +1296,7 @@ namespace hfst
         uncondidtionalTr.substitute(marker_substitutions);
         uncondidtionalTr.remove_from_alphabet(marker_symbols);
         
-        return uncondidtionalTr;
+        return excludeBoundariesFromCenters(uncondidtionalTr);
         
     } 
     
-- 
2.43.0


From 89b7a2b938a187e17fbc52932c6d573df033730e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:57 +0000
Subject: [PATCH 43/56] fix: destroying an uninitialized transducer terminated
 the program

---
 libhfst/src/HfstTransducer.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index c517610..3b7d905 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -1407,10 +1407,8 @@ HfstTransducer::~HfstTransducer(void)
     case HFST_OLW_TYPE:
         delete implementation.hfst_ol;
         break;
-    case ERROR_TYPE:
-        HFST_THROW(TransducerHasWrongTypeException);
-    default:
-        HFST_THROW(FunctionNotImplementedException);
+    default: // an uninitialized transducer owns nothing; never throw here
+        break;
     }
 }
 
-- 
2.43.0


From 72a9d3b64330dd9df49483c2cd742d8b7506d6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:36 +0000
Subject: [PATCH 44/56] fix: every lexc file after one with a syntax error was
 refused

---
 libhfst/src/parsers/LexcCompiler.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libhfst/src/parsers/LexcCompiler.cc b/libhfst/src/parsers/LexcCompiler.cc
index 64168ba..dbef9ac 100644
--- a/libhfst/src/parsers/LexcCompiler.cc
+++ b/libhfst/src/parsers/LexcCompiler.cc
@@ -279,6 +279,7 @@ LexcCompiler::parse(FILE *infile)
     }
     hlexclex_destroy();
     hlexcin = infile;
+    hlexcnerrs = 0;
     hlexcparse();
     xre_.remove_defined_multichar_symbols();
     if (hlexcnerrs > 0)
@@ -307,6 +308,7 @@ LexcCompiler::parse(const char *filename)
         parseErrors_ = true;
         return *this;
     }
+    hlexcnerrs = 0;
     hlexcparse();
     xre_.remove_defined_multichar_symbols();
     if (hlexcnerrs > 0)
-- 
2.43.0


From 1ecb56fe766dbd24ba8adf1564a5874db301bfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:36 +0000
Subject: [PATCH 45/56] fix: the initial lexicon depended on lexicon files
 compiled earlier in the process

---
 libhfst/src/parsers/LexcCompiler.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libhfst/src/parsers/LexcCompiler.cc b/libhfst/src/parsers/LexcCompiler.cc
index dbef9ac..bac70db 100644
--- a/libhfst/src/parsers/LexcCompiler.cc
+++ b/libhfst/src/parsers/LexcCompiler.cc
@@ -1158,7 +1158,7 @@ LexcCompiler::addXreDefinition(const string &definition_name,
 LexcCompiler &
 LexcCompiler::setCurrentLexiconName(const string &lexiconName)
 {
-    static bool firstLexicon = true;
+    bool firstLexicon = (currentLexiconName_ == "");
     currentLexiconName_ = lexiconName;
 
     if (lexiconNames_.find(lexiconName) != lexiconNames_.end())
@@ -1234,7 +1234,6 @@ LexcCompiler::setCurrentLexiconName(const string &lexiconName)
     }
     if (!quiet_)
         *err << lexiconName << "...";
-    firstLexicon = false;
 
     flush(err);
 
-- 
2.43.0


From 1e4fc1aa9bc124fff3d87df61c0009501ee611c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:36 +0000
Subject: [PATCH 46/56] fix: lexc files with an ill-formed definition were
 accepted

---
 libhfst/src/parsers/LexcCompiler.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libhfst/src/parsers/LexcCompiler.cc b/libhfst/src/parsers/LexcCompiler.cc
index bac70db..f434b54 100644
--- a/libhfst/src/parsers/LexcCompiler.cc
+++ b/libhfst/src/parsers/LexcCompiler.cc
@@ -1144,7 +1144,12 @@ LexcCompiler::addXreDefinition(const string &definition_name,
                                const string &xre)
 {
     // FIXME: collect implicit characters
-    xre_.define(definition_name, xre);
+    if (!xre_.define(definition_name, xre))
+    {
+        error_at_current_token(0, 0, "Unable to parse regular expression");
+        parseErrors_ = true;
+        return *this;
+    }
     if (!quiet_)
     {
         std::ostream *err = get_stream(error_);
-- 
2.43.0


From 82d7c68fae2a9ff36d4eb352dc42ac01350ebbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:36 +0000
Subject: [PATCH 47/56] fix: lexc regular expressions of a lexicon shared the
 least of their weights, and those of similarly named lexicons their paths

---
 libhfst/src/parsers/LexcCompiler.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/parsers/LexcCompiler.cc b/libhfst/src/parsers/LexcCompiler.cc
index f434b54..c31d717 100644
--- a/libhfst/src/parsers/LexcCompiler.cc
+++ b/libhfst/src/parsers/LexcCompiler.cc
@@ -1034,6 +1034,9 @@ LexcCompiler::addXreEntry(const string &regexp, const string &continuation,
         return *this;
     }
 
+    // the weight of the entry belongs to its own paths, as regexps with the same
+    // lexicon and continuation share one key in the trie
+    newPaths->set_final_weights(hfst::double_to_float(weight), true);
     newPaths->optimize();
     auto newAlphabets = newPaths->get_alphabet();
     for (const auto &newAlpha : newAlphabets)
@@ -1090,7 +1093,8 @@ LexcCompiler::addXreEntry(const string &regexp, const string &continuation,
 
     // encode key
     // keep regexps with different continuations separate
-    string regex_key = currentLexiconName_ + "_" + continuation;
+    // (an unescaped colon is not possible in their names)
+    string regex_key = currentLexiconName_ + ":" + continuation;
 
     regExpresionEncode(regex_key);
     tokenizer_.add_multichar_symbol(regex_key);
@@ -1134,7 +1138,7 @@ LexcCompiler::addXreEntry(const string &regexp, const string &continuation,
     tokenizer_.add_multichar_symbol(joinerEnc);
     StringPairVector newVector(
         tokenizer_.tokenize(joinerEnc + regex_key + encodedCont, false));
-    stringsTrie_.disjunct(newVector, hfst::double_to_float(weight));
+    stringsTrie_.disjunct(newVector, 0);
 
     return *this;
 }
-- 
2.43.0


From 1189fa58500a9e9c870dbd42dd0109050e388003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:08 +0000
Subject: [PATCH 48/56] fix: a multicharacter symbol ending in $ swallowed the
 end of a lexc entry

---
 libhfst/src/parsers/LexcCompiler.cc | 31 ++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/libhfst/src/parsers/LexcCompiler.cc b/libhfst/src/parsers/LexcCompiler.cc
index c31d717..9a852fd 100644
--- a/libhfst/src/parsers/LexcCompiler.cc
+++ b/libhfst/src/parsers/LexcCompiler.cc
@@ -617,6 +617,16 @@ LexcCompiler::unicodeCheck_(const string &data)
     return *this;
 }
 
+// Surround the tokens of an entry with the symbols of its lexicon and
+// continuation. (If they were tokenized together, a multicharacter symbol
+// could take the beginning of the latter.)
+static void
+add_joiners(StringPairVector &tokens, const string &name, const string &cont)
+{
+    tokens.insert(tokens.begin(), StringPair(name, name));
+    tokens.push_back(StringPair(cont, cont));
+}
+
 // Construct vector nameJoiner data contJoiner and add to trie
 LexcCompiler &
 LexcCompiler::addStringEntry(const string &data, const string &continuation,
@@ -665,8 +675,8 @@ LexcCompiler::addStringEntry(const string &data, const string &continuation,
     tokenizer_.add_multichar_symbol(joinerEnc);
     tokenizer_.add_multichar_symbol("0");      // epsilon
     tokenizer_.add_multichar_symbol("@ZERO@"); // literal zero
-    StringPairVector newVector(tokenizer_.tokenize(
-        joinerEnc + data + encodedCont, split_characters_));
+    StringPairVector newVector(tokenizer_.tokenize(data, split_characters_));
+    add_joiners(newVector, joinerEnc, encodedCont);
     // "0"      -> "@0@"  (single symbols)
     // "@ZERO@" -> "0"    (everywhere)
     std::string zero("@ZERO@");
@@ -866,8 +876,7 @@ LexcCompiler::addStringPairEntry(const string &upper, const string &lower,
         std::string as2 = ss2.str();
 
         newVector = tokenizer_.tokenize(
-            joinerEnc + as1 + encodedCont, joinerEnc + as2 + encodedCont,
-            split_characters_,
+            as1, as2, split_characters_,
             &hfst::lexc::LexcCompiler::warn_about_one_sided_flags);
     }
     else
@@ -889,8 +898,7 @@ LexcCompiler::addStringPairEntry(const string &upper, const string &lower,
                 epsilons = epsilons + string("@@ANOTHER_EPSILON@@");
             }
             newVector = tokenizer_.tokenize(
-                joinerEnc + upper + encodedCont,
-                joinerEnc + lower + epsilons + encodedCont, split_characters_,
+                upper, lower + epsilons, split_characters_,
                 &hfst::lexc::LexcCompiler::warn_about_one_sided_flags);
         }
         else if (upperSize < lowerSize)
@@ -901,18 +909,17 @@ LexcCompiler::addStringPairEntry(const string &upper, const string &lower,
                 epsilons = epsilons + string("@@ANOTHER_EPSILON@@");
             }
             newVector = tokenizer_.tokenize(
-                joinerEnc + upper + epsilons + encodedCont,
-                joinerEnc + lower + encodedCont, split_characters_,
+                upper + epsilons, lower, split_characters_,
                 &hfst::lexc::LexcCompiler::warn_about_one_sided_flags);
         }
         else
         {
             newVector = tokenizer_.tokenize(
-                joinerEnc + upper + encodedCont,
-                joinerEnc + lower + encodedCont, split_characters_,
+                upper, lower, split_characters_,
                 &hfst::lexc::LexcCompiler::warn_about_one_sided_flags);
         }
     }
+    add_joiners(newVector, joinerEnc, encodedCont);
     std::string zero("@ZERO@");
     size_t start_pos = 0;
     for (StringPairVector::iterator it = newVector.begin();
@@ -1136,8 +1143,8 @@ LexcCompiler::addXreEntry(const string &regexp, const string &continuation,
         joinerEncode(joinerEnc);
     }
     tokenizer_.add_multichar_symbol(joinerEnc);
-    StringPairVector newVector(
-        tokenizer_.tokenize(joinerEnc + regex_key + encodedCont, false));
+    StringPairVector newVector(1, StringPair(regex_key, regex_key));
+    add_joiners(newVector, joinerEnc, encodedCont);
     stringsTrie_.disjunct(newVector, 0);
 
     return *this;
-- 
2.43.0


From b8a729d024e1104a81839c3b8b48251fddac7b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:08 +0000
Subject: [PATCH 49/56] fix: graphs substituted together were not harmonized
 with each other

---
 libhfst/src/implementations/HfstBasicTransducer.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index 099b3e4..9c08579 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -2840,9 +2840,14 @@ HfstBasicTransducer::substitute(SubstMap &substitution_map, bool harmonize)
     // Harmonize the resulting and the substituting graphs, if needed
     if (harmonize)
     {
-        for (const auto &sym_it : substitutions_performed_for_symbols)
+        // Twice, so that the substituting graphs are also harmonized with
+        // each other.
+        for (int round = 0; round < 2; round++)
         {
-            this->harmonize(substitution_map.at(sym_it));
+            for (const auto &sym_it : substitutions_performed_for_symbols)
+            {
+                this->harmonize(substitution_map.at(sym_it));
+            }
         }
     }
 
-- 
2.43.0


From 40dda84ad93c52091cb651884bac350a15154fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:22 +0000
Subject: [PATCH 50/56] fix: compiling a lexc file without any words with flags
 crashed

---
 libhfst/src/parsers/LexcCompiler.cc | 91 +++++++++++++++--------------
 1 file changed, 48 insertions(+), 43 deletions(-)

diff --git a/libhfst/src/parsers/LexcCompiler.cc b/libhfst/src/parsers/LexcCompiler.cc
index 9a852fd..be8b83e 100644
--- a/libhfst/src/parsers/LexcCompiler.cc
+++ b/libhfst/src/parsers/LexcCompiler.cc
@@ -1611,54 +1611,59 @@ LexcCompiler::compileLexical()
             }
         }
 
-        // Construct a rule for consecutive flag removal:
-        // [FLAG1 | FLAG2 ... FLAGN] -> 0 || [FLAG1 | FLAG2 ... FLAGN] _
-        // and also an inverted rule
-        std::string flag_remover_regexp("[ ");
-        bool first_flag = true;
-
-        for (StringSet::const_iterator it = flagD.begin(); it != flagD.end();
-             ++it)
+        // (without any flags, i.e. in an empty transducer, there is nothing to
+        // remove)
+        if (!flagD.empty())
         {
-            if (!first_flag)
+            // Construct a rule for consecutive flag removal:
+            // [FLAG1 | FLAG2 ... FLAGN] -> 0 || [FLAG1 | FLAG2 ... FLAGN] _
+            // and also an inverted rule
+            std::string flag_remover_regexp("[ ");
+            bool first_flag = true;
+
+            for (StringSet::const_iterator it = flagD.begin(); it != flagD.end();
+                 ++it)
             {
-                flag_remover_regexp.append("| ");
+                if (!first_flag)
+                {
+                    flag_remover_regexp.append("| ");
+                }
+                flag_remover_regexp.append("\"").append(*it).append("\" ");
+                first_flag = false;
             }
-            flag_remover_regexp.append("\"").append(*it).append("\" ");
-            first_flag = false;
-        }
-        flag_remover_regexp.append("]");
-        std::string context_regexp(flag_remover_regexp);
-        flag_remover_regexp.append(" -> 0 || ")
-            .append(context_regexp)
-            .append(" _ ");
+            flag_remover_regexp.append("]");
+            std::string context_regexp(flag_remover_regexp);
+            flag_remover_regexp.append(" -> 0 || ")
+                .append(context_regexp)
+                .append(" _ ");
 
-        if (debug)
-        {
-            fprintf(stderr, "flag_remover_regexp: %s\n",
-                    flag_remover_regexp.c_str());
-        }
+            if (debug)
+            {
+                fprintf(stderr, "flag_remover_regexp: %s\n",
+                        flag_remover_regexp.c_str());
+            }
 
-        hfst::xre::XreCompiler xre_comp(format_);
-
-        HfstTransducer *flag_filter = xre_comp.compile(flag_remover_regexp);
-        flag_filter->optimize();
-        HfstTransducer *inverted_flag_filter
-            = new HfstTransducer(*flag_filter);
-        inverted_flag_filter->invert().optimize();
-
-        // [ [FLAG1 | FLAG2 ... FLAGN] -> 0 || [FLAG1 | FLAG2 ... FLAGN] _
-        // ].inv
-        //                        .o.
-        //                       RESULT
-        //                        .o.
-        // [FLAG1 | FLAG2 ... FLAGN] -> 0 || [FLAG1 | FLAG2 ... FLAGN] _
-        HfstTransducer filtered_lexicons(*inverted_flag_filter);
-        filtered_lexicons.compose(*rv, true);
-        filtered_lexicons.compose(*flag_filter, true).optimize();
-        delete inverted_flag_filter;
-
-        rv->assign(filtered_lexicons);
+            hfst::xre::XreCompiler xre_comp(format_);
+
+            HfstTransducer *flag_filter = xre_comp.compile(flag_remover_regexp);
+            flag_filter->optimize();
+            HfstTransducer *inverted_flag_filter
+                = new HfstTransducer(*flag_filter);
+            inverted_flag_filter->invert().optimize();
+
+            // [ [FLAG1 | FLAG2 ... FLAGN] -> 0 || [FLAG1 | FLAG2 ... FLAGN] _
+            // ].inv
+            //                        .o.
+            //                       RESULT
+            //                        .o.
+            // [FLAG1 | FLAG2 ... FLAGN] -> 0 || [FLAG1 | FLAG2 ... FLAGN] _
+            HfstTransducer filtered_lexicons(*inverted_flag_filter);
+            filtered_lexicons.compose(*rv, true);
+            filtered_lexicons.compose(*flag_filter, true).optimize();
+            delete inverted_flag_filter;
+
+            rv->assign(filtered_lexicons);
+        }
     }
 
     rv->optimize();
-- 
2.43.0


From af1688bb9c5614a40d27fea7005f7b29173f5a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:43 +0000
Subject: [PATCH 51/56] fix: symbols excluded by ? in lexc regular expressions
 were forgotten

---
 libhfst/src/parsers/LexcCompiler.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libhfst/src/parsers/LexcCompiler.cc b/libhfst/src/parsers/LexcCompiler.cc
index be8b83e..7aa7412 100644
--- a/libhfst/src/parsers/LexcCompiler.cc
+++ b/libhfst/src/parsers/LexcCompiler.cc
@@ -1576,7 +1576,8 @@ LexcCompiler::compileLexical()
     HfstBasicTransducer lexicons_basic(lexicons);
     lexicons_basic.substitute(regMarkToTr, true);
 
-    lexicons_basic.prune_alphabet();
+    // not by force, as ? in regexps excludes the symbols of the alphabet
+    lexicons_basic.prune_alphabet(false);
 
     if (debug)
     {
-- 
2.43.0


From ee34d1db2f164c382a26bd69b7503df091921709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:07 +0000
Subject: [PATCH 52/56] fix: test lower-universal and upper-universal of the
 xfst shell answered wrongly

---
 libhfst/src/parsers/XfstCompiler.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/libhfst/src/parsers/XfstCompiler.cc b/libhfst/src/parsers/XfstCompiler.cc
index 52b364a..d679602 100644
--- a/libhfst/src/parsers/XfstCompiler.cc
+++ b/libhfst/src/parsers/XfstCompiler.cc
@@ -2413,14 +2413,20 @@ XfstCompiler::test_uni(Level level, bool assertion)
     }
 
     HfstTransducer tmp(*temp);
-    tmp.input_project();
-    HfstTransducer id(hfst::internal_identity, tmp.get_type());
+    HfstTransducer universal(hfst::internal_identity, tmp.get_type());
+    universal.repeat_star();
     bool value = false;
 
     if (level == UPPER_LEVEL)
-        value = id.compare(tmp, false);
+    {
+        tmp.input_project();
+        value = universal.compare(tmp);
+    }
     else if (level == LOWER_LEVEL)
-        value = !id.compare(tmp, false);
+    {
+        tmp.output_project();
+        value = universal.compare(tmp);
+    }
     else
     {
         error()
-- 
2.43.0


From ff2f8b7283ec09842a5ffc1b2a22286031e1f15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:07 +0000
Subject: [PATCH 53/56] fix: complete net on a transducer terminated the xfst
 shell

---
 libhfst/src/parsers/XfstCompiler.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/libhfst/src/parsers/XfstCompiler.cc b/libhfst/src/parsers/XfstCompiler.cc
index d679602..16f1868 100644
--- a/libhfst/src/parsers/XfstCompiler.cc
+++ b/libhfst/src/parsers/XfstCompiler.cc
@@ -4216,7 +4216,19 @@ XfstCompiler::complete_net()
     GET_TOP(topmost);
 
     HfstBasicTransducer fsm(*topmost);
-    fsm.complete();
+    try
+    {
+        fsm.complete();
+    }
+    catch (const TransducersAreNotAutomataException &e)
+    {
+        (void)e;
+        error() << "Error: Complete net is defined only for automata."
+                << std::endl;
+        flush(&error());
+        xfst_lesser_fail();
+        PROMPT_AND_RETURN_THIS;
+    }
     HfstTransducer *result = new HfstTransducer(fsm, topmost->get_type());
     stack_.pop();
     delete topmost;
-- 
2.43.0


From 05f0ba3bfb1eb38cddb8385e921c5b37439354fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:07 +0000
Subject: [PATCH 54/56] fix: label net of the xfst shell forgot which symbols ?
 excludes

---
 libhfst/src/parsers/XfstCompiler.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libhfst/src/parsers/XfstCompiler.cc b/libhfst/src/parsers/XfstCompiler.cc
index 16f1868..fdabafe 100644
--- a/libhfst/src/parsers/XfstCompiler.cc
+++ b/libhfst/src/parsers/XfstCompiler.cc
@@ -4530,6 +4530,8 @@ XfstCompiler::label_net()
     for (const auto &it : label_set)
     {
         HfstTransducer label_tr(it.first, it.second, result->get_type());
+        // symbols that ? does not stand for in the network
+        label_tr.insert_to_alphabet(fsm.get_alphabet());
         result->disjunct(label_tr);
     }
 
-- 
2.43.0


From da33ccf2f6e2425edb8fb4681c86b6e2d41cefbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:07 +0000
Subject: [PATCH 55/56] fix: sigma net of a network without symbols gave the
 empty string

---
 libhfst/src/parsers/XfstCompiler.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libhfst/src/parsers/XfstCompiler.cc b/libhfst/src/parsers/XfstCompiler.cc
index fdabafe..5c0eb11 100644
--- a/libhfst/src/parsers/XfstCompiler.cc
+++ b/libhfst/src/parsers/XfstCompiler.cc
@@ -4648,7 +4648,10 @@ XfstCompiler::sigma_net()
     alpha.erase("@_IDENTITY_SYMBOL_@");
     alpha.erase("@_EPSILON_SYMBOL_@");
     StringPairSet alpha_ = hfst::symbols::to_string_pair_set(alpha);
-    HfstTransducer *sigma = new HfstTransducer(alpha_, format_);
+    // (an empty set of symbol pairs would give the empty string)
+    HfstTransducer *sigma = alpha_.empty()
+                                ? new HfstTransducer(format_)
+                                : new HfstTransducer(alpha_, format_);
 
     MAYBE_MINIMIZE(sigma);
     stack_.push(sigma);
-- 
2.43.0


From b0774be017373f0238dc6ba559826fe41586298e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:07 +0000
Subject: [PATCH 56/56] fix: xfst apply and apropos commands after blanks lost
 the start of the string

---
 libhfst/src/parsers/xfst-lexer.ll | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libhfst/src/parsers/xfst-lexer.ll b/libhfst/src/parsers/xfst-lexer.ll
index fd493e1..73eda92 100644
--- a/libhfst/src/parsers/xfst-lexer.ll
+++ b/libhfst/src/parsers/xfst-lexer.ll
@@ -115,12 +115,12 @@ LWSP [\t ]*
 }
 
 ^{LWSP}("apply up"){WSP}.* {
-    hxfstlval.text = hfst::xfst::strstrip(hxfsttext + strlen("apply up "));
+    hxfstlval.text = hfst::xfst::strstrip(strstr(hxfsttext, "apply up") + strlen("apply up "));
     return APPLY_UP_SINGLE;
 }
 
 ^{LWSP}("up"){WSP}.* {
-    hxfstlval.text = hfst::xfst::strstrip(hxfsttext + strlen("up "));
+    hxfstlval.text = hfst::xfst::strstrip(strstr(hxfsttext, "up") + strlen("up "));
     return APPLY_UP_SINGLE;
 }
 
@@ -139,12 +139,12 @@ LWSP [\t ]*
 }
 
 ^{LWSP}("apply down"){WSP}.* {
-    hxfstlval.text = hfst::xfst::strstrip(hxfsttext + strlen("apply down "));
+    hxfstlval.text = hfst::xfst::strstrip(strstr(hxfsttext, "apply down") + strlen("apply down "));
     return APPLY_DOWN_SINGLE;
 }
 
 ^{LWSP}("down"){WSP}.* {
-    hxfstlval.text = hfst::xfst::strstrip(hxfsttext + strlen("down "));
+    hxfstlval.text = hfst::xfst::strstrip(strstr(hxfsttext, "down") + strlen("down "));
     return APPLY_DOWN_SINGLE;
 }
 
@@ -161,7 +161,7 @@ LWSP [\t ]*
 }
 
 ^{LWSP}"apropos"{WSP}+.* {
-    hxfstlval.text = hfst::xfst::strstrip(hxfsttext + strlen("apropos "));
+    hxfstlval.text = hfst::xfst::strstrip(strstr(hxfsttext, "apropos") + strlen("apropos "));
     return APROPOS;
 }
 
-- 
2.43.0

