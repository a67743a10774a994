From fc0d00739c6beea8768f20302648f9b43f436150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:49 +0000
Subject: [PATCH 01/17] fix: tokenizer leaked placeholders when a protected
 text contains another one

---
 scrappybara/preprocessing/tokenizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scrappybara/preprocessing/tokenizer.py b/scrappybara/preprocessing/tokenizer.py
index bd6fb52..3e44bd9 100644
--- a/scrappybara/preprocessing/tokenizer.py
+++ b/scrappybara/preprocessing/tokenizer.py
@@ -194,7 +194,8 @@ class Tokenizer(object):
         for replace in self.__re_reattach:
             text = re.sub(replace[0], replace[1], text)
         # Re-establish protected patterns
-        for key, value in protected.items():
+        # (in reverse order, since a protected text can include the key of another one protected before it)
+        for key, value in reversed(list(protected.items())):
             text = text.replace(key, value)
         return text.split()
 
-- 
2.43.0


From 7587ab46523cb7e0b322876349b50b8ace288164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:49 +0000
Subject: [PATCH 02/17] fix: tokenizer protected only the common prefix of two
 web addresses

---
 scrappybara/preprocessing/tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/preprocessing/tokenizer.py b/scrappybara/preprocessing/tokenizer.py
index 3e44bd9..cfe4f00 100644
--- a/scrappybara/preprocessing/tokenizer.py
+++ b/scrappybara/preprocessing/tokenizer.py
@@ -209,7 +209,7 @@ class Tokenizer(object):
                 token = match.group()
                 key = '_PROTECTED_%d_' % index
                 protected[key] = token
-                text = text.replace(token, key)
+                text = text[:match.start()] + key + text[match.end():]
                 match = re.search(pattern, text)
                 index += 1
         return protected, text
-- 
2.43.0


From a509f0309d45bc1dc08f2a783194a043fb291deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:49 +0000
Subject: [PATCH 03/17] fix: sentencizer leaked its end-of-quote mark into
 tokens

---
 scrappybara/preprocessing/sentencizer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scrappybara/preprocessing/sentencizer.py b/scrappybara/preprocessing/sentencizer.py
index f27a723..72d4c34 100644
--- a/scrappybara/preprocessing/sentencizer.py
+++ b/scrappybara/preprocessing/sentencizer.py
@@ -17,7 +17,7 @@ class Sentencizer(object):
     __re_bracket_block_end = '⦆'
     __re_sent_enders = re.compile(r'([.?!:]+|¶)')
     __re_sanitization = [
-        (re.compile(r'\."'), '."¶'),  # The end dot of a sentence can be in quote
+        (re.compile(r'\."'), '." ¶ '),  # The end dot of a sentence can be in quote
     ]
 
     def __init__(self, tokenizer=Tokenizer()):
@@ -30,7 +30,8 @@ class Sentencizer(object):
 
         def _insert_quote_block(_token, _ctr):
             _ctr.append('"')
-            _ctr.extend(self.__tokenize(quotes[int(_token[1:-1])]))
+            _quote_tokens = self.__tokenize(quotes[int(_token[1:-1])])
+            _ctr.extend([_quote_token for _quote_token in _quote_tokens if _quote_token != '¶'])
             _ctr.append('"')
 
         blocks = re.split(self.__re_newline, text)
@@ -54,7 +55,7 @@ class Sentencizer(object):
                         for nested_token in self.__tokenize(brackets[idx]):
                             if nested_token.startswith(self.__re_quote_block_start):
                                 _insert_quote_block(nested_token, sent_tokens_with_blocks)
-                            else:
+                            elif nested_token != '¶':
                                 sent_tokens_with_blocks.append(nested_token)
                         sent_tokens_with_blocks.append(')')
                     else:
-- 
2.43.0


From 66662174997354059da17517688fa7d7ee25f9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:49 +0000
Subject: [PATCH 04/17] fix: context windows were lost when the left context is
 short

---
 scrappybara/langmodel/token_context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/langmodel/token_context.py b/scrappybara/langmodel/token_context.py
index 4b1b1ac..c4ac122 100644
--- a/scrappybara/langmodel/token_context.py
+++ b/scrappybara/langmodel/token_context.py
@@ -22,7 +22,7 @@ class TokenContext(object):
         """Given an order n, returns all combinations of ngram: before/token/after"""
         assert order > 1
         exploring_range = order - 1
-        tokens_before = self.__tokens_before[len(self.__tokens_before) - exploring_range:]
+        tokens_before = self.__tokens_before[max(0, len(self.__tokens_before) - exploring_range):]
         tokens_after = self.__tokens_after[:exploring_range]
         tokens = tokens_before + [self.token] + tokens_after
         return [' '.join(items) for items in self.__slide_window(tokens, order)]
-- 
2.43.0


From c758d668bd8b6953ae82b8f33e50d9aad5c53bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:49 +0000
Subject: [PATCH 05/17] fix: past participles of lemmas ending in a vowel + e

---
 scrappybara/normalization/inflector.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/scrappybara/normalization/inflector.py b/scrappybara/normalization/inflector.py
index 82bcadc..aab2597 100644
--- a/scrappybara/normalization/inflector.py
+++ b/scrappybara/normalization/inflector.py
@@ -13,14 +13,11 @@ class Inflector(object):
             return self.__lemma_pp[lemma]
         except KeyError:
             # Special endings
-            if len(lemma) > 2:
-                if lemma[-3] in CONSONANTS and lemma.endswith('ie'):
-                    return lemma + 'd'
+            if lemma.endswith('e'):
+                return lemma + 'd'
             if len(lemma) > 1:
                 if lemma[-2] in CONSONANTS and lemma[-1] == 'y':
                     return lemma[:-1] + 'ied'
-                if lemma[-2] in CONSONANTS and lemma.endswith('e'):
-                    return lemma + 'd'
                 if lemma[-2] in VOWELS and lemma[-1] in CONSONANTS:
                     best = self.__lm.best_token(lemma + 'ed', lemma + lemma[-1] + 'ed')
                     if best:
-- 
2.43.0


From 0d7c3996ddfffeccac225e18d40d2d2dd0b691f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:49 +0000
Subject: [PATCH 06/17] fix: tagger returned tags of the padding

---
 scrappybara/syntax/tagger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/syntax/tagger.py b/scrappybara/syntax/tagger.py
index 1ba77ea..6fbed11 100644
--- a/scrappybara/syntax/tagger.py
+++ b/scrappybara/syntax/tagger.py
@@ -21,4 +21,4 @@ class Tagger(object):
         data_per_sentence = [vectorize_sentence(tokens, self.__charset, self.__wordset) for tokens in token_lists]
         seq_lengths, char_codes, word_vectors = zip(*data_per_sentence)
         tag_codes = self.__ptags_model.predict(char_codes, word_vectors)
-        return [[Tag(code) for code in tag_codes[idx][1:sl + 1]] for idx, sl in enumerate(seq_lengths)]
+        return [[Tag(code) for code in tag_codes[idx][1:sl - 1]] for idx, sl in enumerate(seq_lengths)]
-- 
2.43.0


From 9fb0ecb1bbe1db32737550e8a82aabb8e48b9587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:58 +0000
Subject: [PATCH 07/17] fix: run_multithreads silently dropped the results of a
 failing thread

---
 scrappybara/utils/multithreading.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/scrappybara/utils/multithreading.py b/scrappybara/utils/multithreading.py
index 648d954..72b587f 100644
--- a/scrappybara/utils/multithreading.py
+++ b/scrappybara/utils/multithreading.py
@@ -11,9 +11,13 @@ class _Thread(threading.Thread):
         self.__input_items = input_items
         self.__process = process
         self.output_items = []
+        self.error = None
 
     def run(self):
-        self.output_items = [self.__process(item) for item in self.__input_items]
+        try:
+            self.output_items = [self.__process(item) for item in self.__input_items]
+        except Exception as error:
+            self.error = error
 
 
 def run_multithreads(items, process, nb_threads):
@@ -26,4 +30,7 @@ def run_multithreads(items, process, nb_threads):
     for idx, _ in enumerate(items_lists):
         nb_threads[idx].join()
         output_items.extend(nb_threads[idx].output_items)
+    for thread in nb_threads:
+        if thread.error is not None:
+            raise thread.error
     return output_items
-- 
2.43.0


From 717e3b5146186e8ac452648be45a59b10950c9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:58 +0000
Subject: [PATCH 08/17] fix: parser could give two parents to a token

---
 scrappybara/syntax/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scrappybara/syntax/parser.py b/scrappybara/syntax/parser.py
index d8e72b2..6395f41 100644
--- a/scrappybara/syntax/parser.py
+++ b/scrappybara/syntax/parser.py
@@ -32,6 +32,7 @@ class _Parse(object):
         if self.__buffer:
             self.__shift()
         self.arcs = []  # Tuples (dep, parent_idx, child_idx)
+        self.__attached = set()  # Indices of tokens attached by a right arc that can still be on the stack
 
     def __pdep(self, child_idx):
         pdep = self.__deps[child_idx]
@@ -71,10 +72,12 @@ class _Parse(object):
 
     def register_transition(self, trans):
         if trans == Trans.LEFT:
-            self.arcs.append((self.__pdep(self.__stack[-1]), self.__buffer[0], self.__stack[-1]))
+            if self.__stack[-1] not in self.__attached:  # A token can only have one parent
+                self.arcs.append((self.__pdep(self.__stack[-1]), self.__buffer[0], self.__stack[-1]))
             self.__reduce()
         elif trans == Trans.RIGHT:
             self.arcs.append((self.__pdep(self.__buffer[0]), self.__stack[-1], self.__buffer[0]))
+            self.__attached.add(self.__buffer[0])
             self.__shift()
         elif trans == Trans.REDUCE:
             self.__reduce()
-- 
2.43.0


From 4ac0b17e187675c6260f22e9f8a8ad9683a6ad54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:58 +0000
Subject: [PATCH 09/17] fix: tiny probabilities were written as zero and made
 the language model fail to load

---
 scrappybara/langmodel/language_model_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/langmodel/language_model_builder.py b/scrappybara/langmodel/language_model_builder.py
index 42030ef..5a0aad1 100644
--- a/scrappybara/langmodel/language_model_builder.py
+++ b/scrappybara/langmodel/language_model_builder.py
@@ -70,5 +70,5 @@ class LanguageModelBuilder(object):
         with open(filepath, 'w', encoding='utf-8') as writer:
             for ngram in sorted(ngrams, reverse=True):
                 if ngram.proba > 0.0:
-                    writer.write('%s\t%d\t%.17f\n' % (ngram.text, ngram.count, ngram.proba))
+                    writer.write('%s\t%d\t%.17g\n' % (ngram.text, ngram.count, ngram.proba))
         print('Wrote {:,} {}-grams'.format(len(ngrams), order))
-- 
2.43.0


From 3f2f06bbe1c076e2dd57ed4801f1893b2249dd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:02 +0000
Subject: [PATCH 10/17] fix: maximum likelihood smoothing failed when an order
 has no n-gram

---
 scrappybara/langmodel/mle_smoother.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/langmodel/mle_smoother.py b/scrappybara/langmodel/mle_smoother.py
index faa2e36..6a922d2 100644
--- a/scrappybara/langmodel/mle_smoother.py
+++ b/scrappybara/langmodel/mle_smoother.py
@@ -34,7 +34,7 @@ class MLESmoother(Smoother):
     def __call__(self):
         for order in range(1, self._last_order + 1):
             data_slices = []
-            ngrams = self._ngrams[order]
+            ngrams = self._ngrams.get(order, [])
             for process_range in self._process_ranges(len(self._ngrams.get(order, []))):
                 np_counts = np.array([ngrams[i].count for i in process_range])
                 data_slices.append(_DataSlice(np_counts, self.__total_counts[order]))
-- 
2.43.0


From 6eb5bec178adeeda8c87ac6f7a2ce6ab5bdc502b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:44 +0000
Subject: [PATCH 11/17] fix: active form of a negated passive was extracted as
 affirmative

---
 scrappybara/semantics/semantic_tuple_extractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/semantics/semantic_tuple_extractor.py b/scrappybara/semantics/semantic_tuple_extractor.py
index 625f559..7bdd47a 100644
--- a/scrappybara/semantics/semantic_tuple_extractor.py
+++ b/scrappybara/semantics/semantic_tuple_extractor.py
@@ -187,7 +187,7 @@ class SemanticTupleExtractor(object):
             # Active forms
             if prop.tag == Tag.ADJ and prop.active_verb:
                 for agent in [a for a in prop.agents if a.tag in NOUN_TAGS]:
-                    is_aff = xnor(agent.is_aff, prop.is_aff, noun.is_aff)
+                    is_aff = xnor(agent.is_aff, copula.is_aff, prop.is_aff, noun.is_aff)
                     verb_arg = Argument(prop.active_verb, ArgCode.TRANS.value, is_aff)
                     agent_arg = Argument(agent.canon, _noun_arg_code(agent))
                     stuples.append(SemanticTuple(agent_arg, verb_arg, noun_arg))
-- 
2.43.0


From a2bfb15df4759f75efe6ab19836ab7d25b8856f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:51 +0000
Subject: [PATCH 12/17] fix: adverbs and verbs were extracted as nouns in
 copula quintuples

---
 scrappybara/semantics/semantic_tuple_extractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/semantics/semantic_tuple_extractor.py b/scrappybara/semantics/semantic_tuple_extractor.py
index 7bdd47a..3d2f0d3 100644
--- a/scrappybara/semantics/semantic_tuple_extractor.py
+++ b/scrappybara/semantics/semantic_tuple_extractor.py
@@ -90,7 +90,7 @@ class SemanticTupleExtractor(object):
                             obj_1_arg = Argument(obj_1.canon, ArgCode.TRANS.value)
                             obj_2_arg = Argument(obj_2.canon, _noun_arg_code(obj_2))
                             stuples.append(SemanticTuple(subj_1_arg, verb_arg, subj_2_arg, obj_1_arg, obj_2_arg))
-                    for prop in obj_1.props:
+                    for prop in [p for p in obj_1.props if p.tag in PROP_TAGS]:
                         is_aff = xnor(subj_1.is_aff, verb.is_aff, subj_2.is_aff, obj_1.is_aff, prop.is_aff)
                         verb_arg = Argument(verb.canon, ArgCode.TRANS.value, is_aff)
                         obj_1_arg = Argument(obj_1.canon, ArgCode.COP.value)
-- 
2.43.0


From 57446d3488d2c9d12d4dad07946ca636b882925c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:53 +0000
Subject: [PATCH 13/17] fix: the negation of a word found twice in a tuple
 cancelled itself

---
 .../semantics/semantic_tuple_extractor.py      | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/scrappybara/semantics/semantic_tuple_extractor.py b/scrappybara/semantics/semantic_tuple_extractor.py
index 3d2f0d3..aaf172c 100644
--- a/scrappybara/semantics/semantic_tuple_extractor.py
+++ b/scrappybara/semantics/semantic_tuple_extractor.py
@@ -33,6 +33,11 @@ def _prop_arg_code(prop):
     return _noun_arg_code(prop)
 
 
+def _are_aff(*nodes):
+    """A node found at several places of a tuple is negated only once"""
+    return xnor(True, *[node.is_aff for node in dict.fromkeys(nodes)])
+
+
 class SemanticTupleExtractor(object):
     __not_passive = {'have', 'get'}
     __not_intransitive = {'have', 'get', 'be', 'do'}
@@ -80,18 +85,18 @@ class SemanticTupleExtractor(object):
                     subj_2_arg = Argument(subj_2.canon, _noun_arg_code(subj_2))
                     if not obj_1.cannot_be_transitive:
                         if not obj_1.objs and obj_1.canon not in self.__not_intransitive:
-                            is_aff = xnor(subj_1.is_aff, verb.is_aff, subj_2.is_aff, obj_1.is_aff)
+                            is_aff = _are_aff(subj_1, verb, subj_2, obj_1)
                             verb_arg = Argument(verb.canon, ArgCode.TRANS.value, is_aff)
                             obj_1_arg = Argument(obj_1.canon, ArgCode.INTR.value)
                             stuples.append(SemanticTuple(subj_1_arg, verb_arg, subj_2_arg, obj_1_arg))
                         for obj_2 in [o for o in obj_1.objs if o.tag in NOUN_TAGS]:
-                            is_aff = xnor(subj_1.is_aff, verb.is_aff, subj_2.is_aff, obj_1.is_aff, obj_2.is_aff)
+                            is_aff = _are_aff(subj_1, verb, subj_2, obj_1, obj_2)
                             verb_arg = Argument(verb.canon, ArgCode.TRANS.value, is_aff)
                             obj_1_arg = Argument(obj_1.canon, ArgCode.TRANS.value)
                             obj_2_arg = Argument(obj_2.canon, _noun_arg_code(obj_2))
                             stuples.append(SemanticTuple(subj_1_arg, verb_arg, subj_2_arg, obj_1_arg, obj_2_arg))
                     for prop in [p for p in obj_1.props if p.tag in PROP_TAGS]:
-                        is_aff = xnor(subj_1.is_aff, verb.is_aff, subj_2.is_aff, obj_1.is_aff, prop.is_aff)
+                        is_aff = _are_aff(subj_1, verb, subj_2, obj_1, prop)
                         verb_arg = Argument(verb.canon, ArgCode.TRANS.value, is_aff)
                         obj_1_arg = Argument(obj_1.canon, ArgCode.COP.value)
                         prop_arg = Argument(prop.canon, _prop_arg_code(prop))
@@ -112,7 +117,7 @@ class SemanticTupleExtractor(object):
             # Transitive forms
             for subj in [s for s in verb.subjs if s.tag in NOUN_TAGS]:
                 subj_arg = Argument(subj.canon, _noun_arg_code(subj))
-                verb_arg = Argument(verb.canon, ArgCode.TRANS.value, xnor(subj.is_aff, verb.is_aff, obj.is_aff))
+                verb_arg = Argument(verb.canon, ArgCode.TRANS.value, _are_aff(subj, verb, obj))
                 stuples.append(SemanticTuple(subj_arg, verb_arg, obj_arg))
         return stuples
 
@@ -122,10 +127,11 @@ class SemanticTupleExtractor(object):
         if verb.canon not in self.__not_passive:
             for obj in [o for o in verb.objs if o.tag in NOUN_TAGS]:
                 obj_arg = Argument(obj.canon, _noun_arg_code(obj))
-                if not verb.subjs:
+                subjs = [subj for subj in verb.subjs if subj is not obj]
+                if not subjs:
                     is_aff = xnor(verb.is_aff, obj.is_aff)
                 else:
-                    is_aff = xnor(any([subj.is_aff for subj in verb.subjs]), verb.is_aff, obj.is_aff)
+                    is_aff = xnor(any([subj.is_aff for subj in subjs]), verb.is_aff, obj.is_aff)
                 copula_arg = Argument('be', ArgCode.COP.value, is_aff)
                 pp = self.__inflector.past_participle(verb.lemma)
                 if verb.particles:
-- 
2.43.0


From 30ce33e3c7400809f1e5678b68534f2681d2de93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:08 +0000
Subject: [PATCH 14/17] fix: subjects taken over from a relative clause stayed
 relative pronouns

---
 scrappybara/syntax/arg_finder.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/scrappybara/syntax/arg_finder.py b/scrappybara/syntax/arg_finder.py
index b9c86a1..bd81e42 100644
--- a/scrappybara/syntax/arg_finder.py
+++ b/scrappybara/syntax/arg_finder.py
@@ -155,7 +155,7 @@ class ArgFinder(object):
                 dep, parent = dep_parent
                 if all([node in marked_cpls, node.tag == Tag.VERB, not tree.has_child_via(node, Dep.SUBJ),
                           parent.tag == Tag.VERB]):
-                    subj = tree.child_via(parent, Dep.SUBJ)
+                    subj = self.__find_subj(parent, tree)
                     if subj:
                         # Subject to marked complement: e.g. "I ate but didn't drink"
                         _register_subjs(node, subj, tree)
@@ -168,6 +168,13 @@ class ArgFinder(object):
     # PRONOUN RESOLUTION
     # -------------------------------------------------------------------------->
 
+    def __find_subj(self, verb, tree):
+        """Returns the subject of a verb, or its referent when the subject is a relative pronoun"""
+        subj = tree.child_via(verb, Dep.SUBJ)
+        if subj:
+            return self.__resolve_relative_pron(verb, subj, tree) or subj
+        return None
+
     def __resolve_relative_pron(self, verb, pron, tree):
         """Tries to find the referent node of a relative pronoun"""
         dep_parent = tree.parent(verb)
@@ -184,9 +191,7 @@ class ArgFinder(object):
         e.g. 'You treat [yourself]'
         """
         if pron.canon in self.__reflexive_pronouns:
-            subj = tree.child_via(verb, Dep.SUBJ)
-            if subj:
-                return subj
+            return self.__find_subj(verb, tree)
         return None
 
     def __resolve_subj_reflexive_pron(self, verb, pron, tree):
@@ -198,7 +203,5 @@ class ArgFinder(object):
             if dep_parent:
                 dep, parent = dep_parent
                 if dep == Dep.OBJ and parent.tag == Tag.VERB:
-                    subj = tree.child_via(parent, Dep.SUBJ)
-                    if subj:
-                        return subj
+                    return self.__find_subj(parent, tree)
         return None
-- 
2.43.0


From e6dc50e80c1f60e40b8c44555c25d6892447d281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:34 +0000
Subject: [PATCH 15/17] fix: has_only_lowercase_letters accepted uppercase
 letters

---
 scrappybara/utils/text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scrappybara/utils/text.py b/scrappybara/utils/text.py
index 31568d0..6f798dc 100644
--- a/scrappybara/utils/text.py
+++ b/scrappybara/utils/text.py
@@ -8,6 +8,7 @@ DIGITS = set('0123456789')
 UPPERCASE_LETTERS = set('ABCDEFGHIJKLMNOPQRSTUVWXYZ')
 
 _RE_ONLY_LETTERS = re.compile(r'[a-zA-Z]+')
+_RE_ONLY_LOWERCASE_LETTERS = re.compile(r'[a-z]+')
 
 
 # ###############################################################################
@@ -28,7 +29,7 @@ def has_only_letters(token: str) -> bool:
 
 
 def has_only_lowercase_letters(token: str) -> bool:
-    return bool(re.fullmatch(_RE_ONLY_LETTERS, token))
+    return bool(re.fullmatch(_RE_ONLY_LOWERCASE_LETTERS, token))
 
 
 def token_start(token, ending, start_min_length):
-- 
2.43.0


From 2ea0e450deb794db8ec8276e171c17a95cb1b33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:17 +0000
Subject: [PATCH 16/17] fix: give indirect properties to the referent of a
 relative or reflexive pronoun object

---
 scrappybara/syntax/arg_finder.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/scrappybara/syntax/arg_finder.py b/scrappybara/syntax/arg_finder.py
index bd81e42..c5fa4a7 100644
--- a/scrappybara/syntax/arg_finder.py
+++ b/scrappybara/syntax/arg_finder.py
@@ -50,11 +50,9 @@ def _register_iprops(verb, iprop, tree):
     # Register to verb
     verb.iprops.extend(iprop.aggreg)
     # Register to owner
-    obj = tree.child_via(verb, Dep.OBJ)
     subj = tree.child_via(verb, Dep.SUBJ)
-    if obj is not None:
-        for o, ip in [(o, ip) for o in obj.aggreg for ip in iprop.aggreg]:
-            o.subjs_verbs_iprops.append((subj, verb, ip))
+    for o, ip in [(o, ip) for o in verb.objs for ip in iprop.aggreg]:
+        o.subjs_verbs_iprops.append((subj, verb, ip))
 
 
 def _register_agents(describee, cpl, marker, tree):
@@ -117,8 +115,6 @@ class ArgFinder(object):
                             _register_props_via_copula(ref, parent, node, tree)
                         else:
                             _register_props_via_copula(subj, parent, node, tree)
-                elif dep == Dep.IPROP:
-                    _register_iprops(parent, node, tree)
                 elif dep == Dep.CPL:
                     is_cpl = True
             # Analyze children
@@ -164,6 +160,11 @@ class ArgFinder(object):
                     if subj and subj.canon not in self.__relative_pronouns:
                         # Object of complement verb: e.g. "the apple I ate"
                         _register_objs(node, parent, tree)
+        # Indirect properties (they belong to objects, that have to be all registered before)
+        for node in nodes:
+            dep_parent = tree.parent(node)
+            if dep_parent is not None and dep_parent[0] == Dep.IPROP:
+                _register_iprops(dep_parent[1], node, tree)
 
     # PRONOUN RESOLUTION
     # -------------------------------------------------------------------------->
-- 
2.43.0


From 6545974ecd38a8eb19684c7a5d4d4dd06bba5c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:17 +0000
Subject: [PATCH 17/17] fix: negate an indirect property by its subjects as in
 the passive form

---
 scrappybara/semantics/semantic_tuple_extractor.py | 7 ++++---
 scrappybara/syntax/arg_finder.py                  | 9 ++++-----
 scrappybara/syntax/node.py                        | 2 +-
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/scrappybara/semantics/semantic_tuple_extractor.py b/scrappybara/semantics/semantic_tuple_extractor.py
index aaf172c..29a177c 100644
--- a/scrappybara/semantics/semantic_tuple_extractor.py
+++ b/scrappybara/semantics/semantic_tuple_extractor.py
@@ -202,11 +202,12 @@ class SemanticTupleExtractor(object):
     def __make_stuples_from_iprops(self, noun):
         stuples = []
         noun_arg = Argument(noun.canon, _noun_arg_code(noun))
-        for subj, verb, iprop in [(s, v, i) for s, v, i in noun.subjs_verbs_iprops if i.tag in PROP_TAGS]:
-            if subj is None:
+        for subjs, verb, iprop in [(s, v, i) for s, v, i in noun.subjs_verbs_iprops if i.tag in PROP_TAGS]:
+            subjs = [subj for subj in subjs if subj is not noun]
+            if not subjs:
                 is_aff = xnor(verb.is_aff, noun.is_aff, iprop.is_aff)
             else:
-                is_aff = xnor(subj.is_aff, verb.is_aff, noun.is_aff, iprop.is_aff)
+                is_aff = xnor(any([subj.is_aff for subj in subjs]), verb.is_aff, noun.is_aff, iprop.is_aff)
             pp = self.__inflector.past_participle(verb.lemma)
             if verb.particles:
                 pp = cfg.COMPOUND_JOIN.join([pp] + verb.particles)
diff --git a/scrappybara/syntax/arg_finder.py b/scrappybara/syntax/arg_finder.py
index c5fa4a7..dd9be1a 100644
--- a/scrappybara/syntax/arg_finder.py
+++ b/scrappybara/syntax/arg_finder.py
@@ -46,13 +46,12 @@ def _register_props_via_copula(subj, copula, prop, tree):
         s.copulas_props.append((copula, p))
 
 
-def _register_iprops(verb, iprop, tree):
+def _register_iprops(verb, iprop):
     # Register to verb
     verb.iprops.extend(iprop.aggreg)
     # Register to owner
-    subj = tree.child_via(verb, Dep.SUBJ)
     for o, ip in [(o, ip) for o in verb.objs for ip in iprop.aggreg]:
-        o.subjs_verbs_iprops.append((subj, verb, ip))
+        o.subjs_verbs_iprops.append((verb.subjs, verb, ip))
 
 
 def _register_agents(describee, cpl, marker, tree):
@@ -160,11 +159,11 @@ class ArgFinder(object):
                     if subj and subj.canon not in self.__relative_pronouns:
                         # Object of complement verb: e.g. "the apple I ate"
                         _register_objs(node, parent, tree)
-        # Indirect properties (they belong to objects, that have to be all registered before)
+        # Indirect properties (subjects & objects have to be all registered before)
         for node in nodes:
             dep_parent = tree.parent(node)
             if dep_parent is not None and dep_parent[0] == Dep.IPROP:
-                _register_iprops(dep_parent[1], node, tree)
+                _register_iprops(dep_parent[1], node)
 
     # PRONOUN RESOLUTION
     # -------------------------------------------------------------------------->
diff --git a/scrappybara/syntax/node.py b/scrappybara/syntax/node.py
index 9b1b982..e3ba8c6 100644
--- a/scrappybara/syntax/node.py
+++ b/scrappybara/syntax/node.py
@@ -35,7 +35,7 @@ class Node(object):
         self.iobjs = []  # 3rd arguments (indirect objects)
         # Attached to nouns
         self.adjs = []  # Adjectives
-        self.subjs_verbs_iprops = []  # List of tuples (subj, verb, indirect property) where subj can be None
+        self.subjs_verbs_iprops = []  # List of tuples (subjs, verb, indirect property)
         self.copulas_props = []  # List of tuples (copula, property)
         self.pps_props = []  # List of tuples (past participle, property)
         # Attached to adjectives
-- 
2.43.0

