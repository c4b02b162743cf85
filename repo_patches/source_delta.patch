From 3bd04d9aeaf5658f005ef47b8dbf1d247ef5db6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:19 +0000
Subject: [PATCH 01/52] fix: linear interpolation lost precision with subnormal
 probabilities

---
 theanolm/backend/probfunctions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/theanolm/backend/probfunctions.py b/theanolm/backend/probfunctions.py
index a89eaf8..6d1834f 100644
--- a/theanolm/backend/probfunctions.py
+++ b/theanolm/backend/probfunctions.py
@@ -34,7 +34,10 @@ def interpolate_linear(logprob1, logprob2, weight1):
 
     prob1 = numpy.exp(numpy.float64(logprob1))
     prob2 = numpy.exp(numpy.float64(logprob2))
-    if (prob1 > 0) and (prob2 > 0):
+    # Subnormal numbers have lost precision, and could be rounded to zero when
+    # multiplied by the weight.
+    smallest = numpy.finfo(numpy.float64).tiny
+    if (prob1 >= smallest) and (prob2 >= smallest):
         weight2 = 1.0 - weight1
         prob = weight1 * prob1
         prob += weight2 * prob2
-- 
2.43.0


From 237c57d99eb417b20d99d2e688d046ec4c23c581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:19 +0000
Subject: [PATCH 02/52] fix: normalizing a word class whose probabilities are
 all zero

---
 theanolm/vocabulary/wordclass.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/theanolm/vocabulary/wordclass.py b/theanolm/vocabulary/wordclass.py
index fcb69af..115ff35 100644
--- a/theanolm/vocabulary/wordclass.py
+++ b/theanolm/vocabulary/wordclass.py
@@ -76,11 +76,16 @@ class WordClass(object):
 
     def normalize_probs(self):
         """Normalizes the class membership probabilities to sum to one.
+
+        If all the probabilities are zero, the words will be equally probable.
         """
 
         prob_sum = sum(self._probs.values())
         for word_id in self._probs:
-            self._probs[word_id] /= prob_sum
+            if prob_sum > 0:
+                self._probs[word_id] /= prob_sum
+            else:
+                self._probs[word_id] = 1.0 / len(self._probs)
 
     def sample(self):
         """Samples a word from the membership probability distribution.
-- 
2.43.0


From c0f2a56db730a41138537359f94890d612596cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:01 +0000
Subject: [PATCH 03/52] fix: file IDs overflowed with more than 128 training
 files

---
 theanolm/parsing/batchiterator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/theanolm/parsing/batchiterator.py b/theanolm/parsing/batchiterator.py
index 9e1810b..87eebce 100644
--- a/theanolm/parsing/batchiterator.py
+++ b/theanolm/parsing/batchiterator.py
@@ -209,13 +209,13 @@ class BatchIterator(object, metaclass=ABCMeta):
         shape = (batch_length, num_sequences)
         word_ids = numpy.ones(shape, numpy.int64) * unk_id
         mask = numpy.zeros(shape, numpy.int8)
-        file_ids = numpy.zeros(shape, numpy.int8)
+        file_ids = numpy.zeros(shape, numpy.int32)
 
         for i, sequence in enumerate(sequences):
             length = len(sequence)
 
             sequence_word_ids = numpy.ones(length, numpy.int64) * unk_id
-            sequence_file_ids = numpy.zeros(length, numpy.int8)
+            sequence_file_ids = numpy.zeros(length, numpy.int32)
             for index, (word, file_id) in enumerate(sequence):
                 if word in self._vocabulary:
                     word_id = self._vocabulary.word_to_id[word]
-- 
2.43.0


From 2a14a4890bc4ee659b74ca0aad27384a02074a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:52 +0000
Subject: [PATCH 04/52] fix: bidirectional layers saw padding as input in
 shorter sequences of a mini-batch

---
 theanolm/network/grulayer.py  | 5 ++++-
 theanolm/network/lstmlayer.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/theanolm/network/grulayer.py b/theanolm/network/grulayer.py
index 61d3320..e53db4f 100644
--- a/theanolm/network/grulayer.py
+++ b/theanolm/network/grulayer.py
@@ -76,7 +76,10 @@ class GRULayer(BasicLayer):
         if self._reverse_time:
             # Shift the input left by two time steps in the backward layer of a
             # bidirectional layer. The target word is the next input word, so
-            # otherwise predicting it will be trivial.
+            # otherwise predicting it will be trivial. The masked time steps of
+            # sequences that are shorter than the longest sequence have to be
+            # seen as zeros, similar to what is past the last time step.
+            layer_input_preact *= self._network.mask[:, :, None]
             preact_dim = layer_input_preact.shape[2]
             padding = tensor.zeros([2, num_sequences, preact_dim])
             layer_input_preact = tensor.concatenate(
diff --git a/theanolm/network/lstmlayer.py b/theanolm/network/lstmlayer.py
index 73c3016..70e1889 100644
--- a/theanolm/network/lstmlayer.py
+++ b/theanolm/network/lstmlayer.py
@@ -81,7 +81,10 @@ class LSTMLayer(BasicLayer):
         if self._reverse_time:
             # Shift the input left by two time steps in the backward layer of a
             # bidirectional layer. The target word is the next input word, so
-            # otherwise predicting it will be trivial.
+            # otherwise predicting it will be trivial. The masked time steps of
+            # sequences that are shorter than the longest sequence have to be
+            # seen as zeros, similar to what is past the last time step.
+            layer_input_preact *= self._network.mask[:, :, None]
             preact_dim = layer_input_preact.shape[2]
             padding = tensor.zeros([2, num_sequences, preact_dim])
             layer_input_preact = tensor.concatenate(
-- 
2.43.0


From dfa8feb535c20fcd797e2e4d5a8d970fee38dbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:06 +0000
Subject: [PATCH 05/52] fix: hierarchical softmax ignored the request to
 exclude <unk>

---
 theanolm/network/hsoftmaxlayer.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/theanolm/network/hsoftmaxlayer.py b/theanolm/network/hsoftmaxlayer.py
index 4087688..73a1b6c 100644
--- a/theanolm/network/hsoftmaxlayer.py
+++ b/theanolm/network/hsoftmaxlayer.py
@@ -6,6 +6,7 @@
 import logging
 
 import numpy
+import theano
 import theano.tensor as tensor
 
 from theanolm.network.basiclayer import BasicLayer
@@ -81,6 +82,21 @@ class HSoftmaxLayer(BasicLayer):
         level1_weight = self._params[self._param_path('level1/W')]
         level1_bias = self._params[self._param_path('level1/b')]
 
+        # If <unk> is excluded, set those activations to -inf before
+        # normalization.
+        # NOTE: We're checking the class ID so this will fail if there are other
+        # words in the same class with <unk> word!
+        if self._network.exclude_unk:
+            vocabulary = self._network.vocabulary
+            unk_id = vocabulary.word_to_id['<unk>']
+            unk_class_id = vocabulary.word_id_to_class_id[unk_id]
+            float_type = numpy.dtype(theano.config.floatX).type
+            log_zero = float_type('-inf')
+            level1_bias = tensor.set_subtensor(
+                level1_bias[unk_class_id // self._level2_size,
+                            unk_class_id % self._level2_size],
+                log_zero)
+
         # First create the output for the whole probability distribution.
         # Combine the first two dimensions so that softmax is taken
         # independently for each location, over the output classes.
-- 
2.43.0


From c0711872d1220b136523e7d09d73d5429b166b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:43 +0000
Subject: [PATCH 06/52] fix: scoring a line that contains out-of-shortlist
 words

---
 theanolm/scoring/textscorer.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/theanolm/scoring/textscorer.py b/theanolm/scoring/textscorer.py
index 1b36d0a..08d1118 100644
--- a/theanolm/scoring/textscorer.py
+++ b/theanolm/scoring/textscorer.py
@@ -336,10 +336,7 @@ class TextScorer(object):
         self.num_words += word_ids.size
         self.num_unks += numpy.count_nonzero(word_ids == unk_id)
 
-        class_ids = [vocabulary.word_id_to_class_id[word_id]
-                     for word_id in word_ids]
-        probs = [vocabulary.get_word_prob(word_id)
-                 for word_id in word_ids]
+        class_ids, probs = vocabulary.get_class_memberships(word_ids)
 
         return self.score_sequence(word_ids, class_ids, probs)
 
-- 
2.43.0


From 28b75eb40cee7db4ad2ae985223d4c59744a7925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:53 +0000
Subject: [PATCH 07/52] fix: out-of-shortlist words were not excluded when
 using a shortlist and excluding unknown words

---
 theanolm/scoring/textscorer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/theanolm/scoring/textscorer.py b/theanolm/scoring/textscorer.py
index 08d1118..3a41450 100644
--- a/theanolm/scoring/textscorer.py
+++ b/theanolm/scoring/textscorer.py
@@ -102,6 +102,9 @@ class TextScorer(object):
             # Always exclude OOV words when using a shortlist - No probability
             # mass is left for them.
             mask *= tensor.neq(target_word_ids, self._unk_id)
+            if exclude_unk:
+                # If requested, ignore also OOS probabilities.
+                mask *= tensor.lt(target_word_ids, shortlist_size)
         elif exclude_unk:
             # If requested, ignore OOS and OOV probabilities.
             mask *= tensor.neq(target_word_ids, self._unk_id)
-- 
2.43.0


From 58a4d61e0a8272b3cdd441cadbcf01c8aa7e8da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:46 +0000
Subject: [PATCH 08/52] fix: lattice decoder used the class membership
 probability of the previous word

---
 theanolm/scoring/latticedecoder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/theanolm/scoring/latticedecoder.py b/theanolm/scoring/latticedecoder.py
index 1a29dde..be2febe 100644
--- a/theanolm/scoring/latticedecoder.py
+++ b/theanolm/scoring/latticedecoder.py
@@ -629,7 +629,7 @@ class LatticeDecoder(object):
         input_word_ids = [[limit_to_shortlist(self, token.history[-1])
                            for token in tokens]]
         input_word_ids = numpy.asarray(input_word_ids).astype('int64')
-        input_class_ids, membership_probs = \
+        input_class_ids, _ = \
             self._vocabulary.get_class_memberships(input_word_ids)
         recurrent_state = [token.state for token in tokens]
         recurrent_state = RecurrentState.combine_sequences(recurrent_state)
@@ -641,8 +641,8 @@ class LatticeDecoder(object):
                                           target_class_ids,
                                           *recurrent_state.get())
         logprobs = step_result[0]
-        # Add logprobs from the class membership of the predicted words.
-        logprobs += numpy.log(membership_probs)
+        # Add logprob from the class membership of the predicted word.
+        logprobs += numpy.log(self._vocabulary.get_word_prob(target_word_id))
         output_state = step_result[1:]
 
         for index, token in enumerate(tokens):
-- 
2.43.0


From 8b8c91f2a9583992c7ee241524fc8dc50a8c3ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:11 +0000
Subject: [PATCH 09/52] fix: decode command failed when Theano has not loaded
 GPU support

---
 theanolm/backend/gpu.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/theanolm/backend/gpu.py b/theanolm/backend/gpu.py
index 7cd0728..3bd8fc9 100644
--- a/theanolm/backend/gpu.py
+++ b/theanolm/backend/gpu.py
@@ -77,6 +77,10 @@ def log_free_mem():
     """Writes the available GPU memory to the debug log.
     """
 
+    if not hasattr(theano, 'gpuarray'):
+        # No GPU support.
+        return
+
     for name in theano.gpuarray.type.list_contexts():
         context = theano.gpuarray.type.get_context(name)
         free_mbytes = context.free_gmem / (1024 * 1024)
-- 
2.43.0


From 7ac1f7023f27551490ed1b289fa97e6d8d35565c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:11 +0000
Subject: [PATCH 10/52] fix: beam pruning used scores from a previous decoding
 of the same lattice

---
 theanolm/scoring/latticedecoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/theanolm/scoring/latticedecoder.py b/theanolm/scoring/latticedecoder.py
index be2febe..8af29c4 100644
--- a/theanolm/scoring/latticedecoder.py
+++ b/theanolm/scoring/latticedecoder.py
@@ -370,6 +370,8 @@ class LatticeDecoder(object):
         initial_token.recompute_total(self._nnlm_weight, lm_scale, wi_penalty,
                                       self._linear_interpolation)
         tokens[lattice.initial_node.id].append(initial_token)
+        for node in lattice.nodes:
+            node.best_logprob = None
         lattice.initial_node.best_logprob = initial_token.total_logprob
 
         sorted_nodes = lattice.sorted_nodes()
-- 
2.43.0


From 16cd3221f1e30aee646c4956faa15cfa5d69d27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:11 +0000
Subject: [PATCH 11/52] fix: adaptive token limit pruned all the tokens of a
 node

---
 theanolm/scoring/latticedecoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theanolm/scoring/latticedecoder.py b/theanolm/scoring/latticedecoder.py
index 8af29c4..c7d8607 100644
--- a/theanolm/scoring/latticedecoder.py
+++ b/theanolm/scoring/latticedecoder.py
@@ -554,7 +554,7 @@ class LatticeDecoder(object):
         # Enforce limit on number of tokens at each node.
         if self._max_tokens_per_node is not None:
             max_tokens = self._max_tokens_per_node // limit_divider
-            max_tokens = max(max_tokens, self._abs_min_max_tokens)
+            max_tokens = max(max_tokens, self._abs_min_max_tokens, 1)
             new_tokens = new_tokens[:max_tokens]
         stats['after-max'] = len(new_tokens)
 
-- 
2.43.0


From 4d22952a468c0548c12dd59ba7bf176c8257fd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:11 +0000
Subject: [PATCH 12/52] fix: decode command ignored --prune-relative

---
 theanolm/commands/decode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/theanolm/commands/decode.py b/theanolm/commands/decode.py
index b2a3ee1..f8ddd0b 100644
--- a/theanolm/commands/decode.py
+++ b/theanolm/commands/decode.py
@@ -135,7 +135,7 @@ def add_arguments(parser):
              "linearly in the number of tokens in a node; those parameters "
              "will be divided by the number of tokens and multiplied by R")
     argument_group.add_argument(
-        '--abs-min-max-tokens', metavar='T', type=float, default=30,
+        '--abs-min-max-tokens', metavar='T', type=int, default=30,
         help="if prune-extra-limit is used, do not tighten max-tokens-per-node "
              "further than this (default is 30)")
     argument_group.add_argument(
@@ -219,7 +219,7 @@ def decode(args):
         'max_tokens_per_node': args.max_tokens_per_node,
         'beam': args.beam,
         'recombination_order': args.recombination_order,
-        'prune_relative': args.prune_relative,
+        'prune_extra_limit': args.prune_relative,
         'abs_min_max_tokens': args.abs_min_max_tokens,
         'abs_min_beam': args.abs_min_beam
     }
-- 
2.43.0


From 7dc9ec47bb56983aeca2b2039a892be4e3d97d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:31 +0000
Subject: [PATCH 13/52] fix: score command failed when a sentence has no words
 to be scored

---
 theanolm/commands/score.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/theanolm/commands/score.py b/theanolm/commands/score.py
index 00da3f2..04e9a48 100644
--- a/theanolm/commands/score.py
+++ b/theanolm/commands/score.py
@@ -215,8 +215,10 @@ def _score_text(input_file, vocabulary, scorer, output_file,
                 output_file.write("# Sentence {0}\n".format(num_sentences))
                 _write_word_scores(vocabulary, merged_words, merged_logprobs,
                                    output_file, log_scale)
-                output_file.write("Sentence perplexity: {0}\n\n".format(
-                    numpy.exp(-seq_logprob / num_seq_probs)))
+                if num_seq_probs > 0:
+                    output_file.write("Sentence perplexity: {0}\n".format(
+                        numpy.exp(-seq_logprob / num_seq_probs)))
+                output_file.write("\n")
 
     output_file.write("Number of sentences: {0}\n".format(num_sentences))
     output_file.write("Number of words: {0}\n".format(num_words))
@@ -227,7 +229,7 @@ def _score_text(input_file, vocabulary, scorer, output_file,
                       .format(num_unks))
     output_file.write("Number of zero probabilities: {0}\n"
                       .format(num_zeroprobs))
-    if num_words > 0:
+    if num_probs > 0:
         cross_entropy = -total_logprob / num_probs
         perplexity = numpy.exp(cross_entropy)
         output_file.write("Cross entropy (base e): {0}\n".format(cross_entropy))
-- 
2.43.0


From ce2963120e25771c613b6b634a8f6dfc3782e99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:00 +0000
Subject: [PATCH 14/52] fix: SLF lattice reader dropped the rest of a line
 after a # character

---
 theanolm/scoring/slflattice.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/theanolm/scoring/slflattice.py b/theanolm/scoring/slflattice.py
index f2264c6..3c06de3 100644
--- a/theanolm/scoring/slflattice.py
+++ b/theanolm/scoring/slflattice.py
@@ -28,7 +28,12 @@ def _split_slf_line(line):
               marks removed
     """
 
+    if line.lstrip().startswith('#'):
+        # a comment line
+        return []
+
     lex = shlex(line, posix=True)
+    lex.commenters = ''
     lex.quotes = '"'
     lex.wordchars += "'"
     lex.whitespace_split = True
-- 
2.43.0


From 06cb8c972d5862c0d48c50d0d3e47b2a6dd6abc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:05 +0000
Subject: [PATCH 15/52] fix: malformed SLF lattices were misread or failed with
 other than InputError

---
 theanolm/scoring/slflattice.py | 76 ++++++++++++++++++++++++++--------
 1 file changed, 59 insertions(+), 17 deletions(-)

diff --git a/theanolm/scoring/slflattice.py b/theanolm/scoring/slflattice.py
index 3c06de3..b298db1 100644
--- a/theanolm/scoring/slflattice.py
+++ b/theanolm/scoring/slflattice.py
@@ -37,7 +37,11 @@ def _split_slf_line(line):
     lex.quotes = '"'
     lex.wordchars += "'"
     lex.whitespace_split = True
-    return list(lex)
+    try:
+        return list(lex)
+    except ValueError as e:
+        raise InputError("Invalid quotation on SLF lattice line: '{}' ({})"
+                         .format(line.strip(), e))
 
 def _split_slf_field(field):
     """Parses the name and value from an SLF lattice field.
@@ -57,6 +61,25 @@ def _split_slf_field(field):
     value = name_value[1]
     return name, value
 
+def _parse_slf_number(number_type, value):
+    """Converts the value of an SLF lattice field to a number.
+
+    :type number_type: type
+    :param number_type: the type of the number
+
+    :type value: str
+    :param value: value of an SLF lattice field
+
+    :rtype: number_type
+    :returns: the value converted to ``number_type``
+    """
+
+    try:
+        return number_type(value)
+    except ValueError:
+        raise InputError("Expected a number in SLF lattice field: '{}'"
+                         .format(value))
+
 class SLFLattice(Lattice):
     """SLF Format Word Lattice
 
@@ -113,16 +136,16 @@ class SLFLattice(Lattice):
                 continue
             name, value = _split_slf_field(fields[0])
             if name == 'I':
-                self._read_slf_node(int(value), fields[1:])
+                self._read_slf_node(_parse_slf_number(int, value), fields[1:])
             elif name == 'J':
-                self._read_slf_link(int(value), fields[1:])
+                self._read_slf_link(_parse_slf_number(int, value), fields[1:])
 
         if len(self.links) != self._num_links:
             raise InputError("Number of links in SLF lattice doesn't match the "
                              "LINKS field.")
 
         if self._initial_node_id is not None:
-            self.initial_node = self.nodes[self._initial_node_id]
+            self.initial_node = self._get_node(self._initial_node_id)
         else:
             # Find the node with no incoming links.
             self.initial_node = None
@@ -133,6 +156,8 @@ class SLFLattice(Lattice):
             if self.initial_node is None:
                 raise InputError("Could not find initial node in SLF lattice.")
 
+        for node_id in self._final_node_ids:
+            self._get_node(node_id)
         final_nodes_found = 0
         for node in self.nodes:
             if node.id in self._final_node_ids or len(node.out_links) == 0:
@@ -150,6 +175,21 @@ class SLFLattice(Lattice):
         # it must appear in link definitions.
         self._move_words_to_links()
 
+    def _get_node(self, node_id):
+        """Returns the node with given ID.
+
+        :type node_id: int
+        :param node_id: ID of a node
+
+        :rtype: Lattice.Node
+        :returns: the node
+        """
+
+        if (node_id < 0) or (node_id >= len(self.nodes)):
+            raise InputError("Node {} does not exist in SLF lattice."
+                             .format(node_id))
+        return self.nodes[node_id]
+
     def _read_slf_header(self, fields):
         """Reads SLF lattice header fields and saves them in member variables.
 
@@ -164,23 +204,23 @@ class SLFLattice(Lattice):
             elif (name == 'SUBLAT') or (name == 'S'):
                 raise InputError("Sub-lattices are not supported.")
             elif name == 'base':
-                value = numpy.float64(value)
+                value = _parse_slf_number(numpy.float64, value)
                 if value == 0.0:
                     self._log_scale = None
                 else:
                     self._log_scale = logprob_type(numpy.log(value))
             elif name == 'lmscale':
-                self.lm_scale = logprob_type(value)
+                self.lm_scale = _parse_slf_number(logprob_type, value)
             elif name == 'wdpenalty':
-                self.wi_penalty = logprob_type(value)
+                self.wi_penalty = _parse_slf_number(logprob_type, value)
             elif name == 'start':
-                self._initial_node_id = int(value)
+                self._initial_node_id = _parse_slf_number(int, value)
             elif name == 'end':
-                self._final_node_ids.append(int(value))
+                self._final_node_ids.append(_parse_slf_number(int, value))
             elif (name == 'NODES') or (name == 'N'):
-                self._num_nodes = int(value)
+                self._num_nodes = _parse_slf_number(int, value)
             elif (name == 'LINKS') or (name == 'L'):
-                self._num_links = int(value)
+                self._num_links = _parse_slf_number(int, value)
 
     def _read_slf_node(self, node_id, fields):
         """Reads SLF lattice node fields and saves the information in the given
@@ -196,11 +236,11 @@ class SLFLattice(Lattice):
         :param fields: the rest of the node fields after ID
         """
 
-        node = self.nodes[node_id]
+        node = self._get_node(node_id)
         for field in fields:
             name, value = _split_slf_field(field)
             if (name == 'time') or (name == 't'):
-                node.time = float(value)
+                node.time = _parse_slf_number(float, value)
             elif (name == 'WORD') or (name == 'W'):
                 node.word = value
 
@@ -227,19 +267,21 @@ class SLFLattice(Lattice):
         for field in fields:
             name, value = _split_slf_field(field)
             if (name == 'START') or (name == 'S'):
-                start_node = self.nodes[int(value)]
+                start_node = self._get_node(_parse_slf_number(int, value))
             elif (name == 'END') or (name == 'E'):
-                end_node = self.nodes[int(value)]
+                end_node = self._get_node(_parse_slf_number(int, value))
             elif (name == 'WORD') or (name == 'W'):
                 word = value
             elif (name == 'acoustic') or (name == 'a'):
+                value = _parse_slf_number(numpy.float64, value)
                 if self._log_scale is None:
-                    ac_logprob = logprob_type(numpy.log(numpy.float64(value)))
+                    ac_logprob = logprob_type(numpy.log(value))
                 else:
                     ac_logprob = logprob_type(value) * self._log_scale
             elif (name == 'language') or (name == 'l'):
+                value = _parse_slf_number(numpy.float64, value)
                 if self._log_scale is None:
-                    lm_logprob = logprob_type(numpy.log(numpy.float64(value)))
+                    lm_logprob = logprob_type(numpy.log(value))
                 else:
                     lm_logprob = logprob_type(value) * self._log_scale
 
-- 
2.43.0


From 1cca4ac2b9fa47b8be478fd72ba9425dbad11eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:05 +0000
Subject: [PATCH 16/52] fix: malformed Kaldi lattices were misread or failed
 with other than InputError

---
 theanolm/scoring/kaldilattice.py | 70 ++++++++++++++++++++------------
 1 file changed, 44 insertions(+), 26 deletions(-)

diff --git a/theanolm/scoring/kaldilattice.py b/theanolm/scoring/kaldilattice.py
index 35e1363..77db9ae 100644
--- a/theanolm/scoring/kaldilattice.py
+++ b/theanolm/scoring/kaldilattice.py
@@ -28,7 +28,11 @@ def read_kaldi_vocabulary(input_file):
         if len(parts) != 2:
             raise InputError("Invalid Kaldi vocabulary file.")
         word = parts[0]
-        word_id = int(parts[1])
+        try:
+            word_id = int(parts[1])
+        except ValueError:
+            raise InputError("Invalid word ID in Kaldi vocabulary file: {}"
+                             .format(parts[1]))
         result[word] = word_id
     return result
 
@@ -73,31 +77,39 @@ class KaldiLattice(Lattice):
             parts = line.split()
             if not parts:
                 continue
-            if len(parts) == 1:
-                state_to = kaldi_word_id = None
-                str_weight = ""
-            elif len(parts) == 2:
-                state_to = kaldi_word_id = None
-                str_weight = parts[1]
-            elif len(parts) == 4:
-                state_to = int(parts[1])
-                kaldi_word_id = int(parts[2])
-                str_weight = parts[3]
-            else:
-                raise InputError("Invalid number of fields in lattice `{}´ "
-                                 "line `{}´.".format(self.utterance_id, line))
-            state_from = int(parts[0])
-
-            weight_parts = str_weight.split(',')
-            graph_logprob = logprob_type(weight_parts[0]) \
-                            if len(weight_parts) > 0 and weight_parts[0] \
-                            else logprob_type(0.0)
-            graph_logprob = -graph_logprob * self._log_scale
-            ac_logprob = logprob_type(weight_parts[1]) \
-                         if len(weight_parts) > 1 and weight_parts[1] \
-                         else logprob_type(0.0)
-            ac_logprob = -ac_logprob * self._log_scale
-            transitions = weight_parts[2] if len(weight_parts) > 2 else ""
+            try:
+                if len(parts) == 1:
+                    state_to = kaldi_word_id = None
+                    str_weight = ""
+                elif len(parts) == 2:
+                    state_to = kaldi_word_id = None
+                    str_weight = parts[1]
+                elif len(parts) == 4:
+                    state_to = int(parts[1])
+                    kaldi_word_id = int(parts[2])
+                    str_weight = parts[3]
+                else:
+                    raise InputError("Invalid number of fields in lattice `{}´ "
+                                     "line `{}´.".format(self.utterance_id, line))
+                state_from = int(parts[0])
+
+                weight_parts = str_weight.split(',')
+                graph_logprob = logprob_type(weight_parts[0]) \
+                                if len(weight_parts) > 0 and weight_parts[0] \
+                                else logprob_type(0.0)
+                graph_logprob = -graph_logprob * self._log_scale
+                ac_logprob = logprob_type(weight_parts[1]) \
+                             if len(weight_parts) > 1 and weight_parts[1] \
+                             else logprob_type(0.0)
+                ac_logprob = -ac_logprob * self._log_scale
+                transitions = weight_parts[2] if len(weight_parts) > 2 else ""
+            except ValueError:
+                raise InputError("Expected a number in lattice `{}´ line `{}´."
+                                 .format(self.utterance_id, line))
+            if (state_from < 0) or \
+               ((state_to is not None) and (state_to < 0)):
+                raise InputError("Invalid state in lattice `{}´ line `{}´."
+                                 .format(self.utterance_id, line))
 
             if self._initial_node_id is None:
                 self._initial_node_id = state_from
@@ -108,6 +120,12 @@ class KaldiLattice(Lattice):
                 for id in range(len(self.nodes), state_to + 1):
                     self.nodes.append(self.Node(id))
                 link = self._add_link(self.nodes[state_from], self.nodes[state_to])
+                if (kaldi_word_id < 0) or \
+                   (kaldi_word_id >= len(id_to_word)) or \
+                   (id_to_word[kaldi_word_id] is None):
+                    raise InputError("Lattice `{}´ contains word ID {}, which "
+                                     "is not in the Kaldi vocabulary."
+                                     .format(self.utterance_id, kaldi_word_id))
                 link.word = id_to_word[kaldi_word_id]
                 if link.word == "<eps>":
                     link.word = None
-- 
2.43.0


From 2ba56e041c95450e85b118dc6f08f08e06889ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:05 +0000
Subject: [PATCH 17/52] fix: Kaldi vocabulary whose word IDs are not
 consecutive

---
 theanolm/scoring/latticebatch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/theanolm/scoring/latticebatch.py b/theanolm/scoring/latticebatch.py
index 68ea893..5f84ac4 100644
--- a/theanolm/scoring/latticebatch.py
+++ b/theanolm/scoring/latticebatch.py
@@ -43,7 +43,9 @@ class LatticeBatch(object):
         # Read Kaldi word ID mapping.
         if kaldi_vocabulary is not None:
             self.kaldi_word_to_id = read_kaldi_vocabulary(kaldi_vocabulary)
-            self.kaldi_id_to_word = [None] * len(self.kaldi_word_to_id)
+            # The word IDs are not necessarily consecutive.
+            num_ids = max(self.kaldi_word_to_id.values(), default=-1) + 1
+            self.kaldi_id_to_word = [None] * num_ids
             for word, id in self.kaldi_word_to_id.items():
                 self.kaldi_id_to_word[id] = word
         elif lattice_format == 'kaldi':
-- 
2.43.0


From 3e63444c07513296f963f2e88b5419c2c01fcbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:32 +0000
Subject: [PATCH 18/52] fix: creating a lattice batch added the lattice list to
 the argument of the caller

---
 theanolm/scoring/latticebatch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theanolm/scoring/latticebatch.py b/theanolm/scoring/latticebatch.py
index 5f84ac4..d15a95a 100644
--- a/theanolm/scoring/latticebatch.py
+++ b/theanolm/scoring/latticebatch.py
@@ -58,7 +58,7 @@ class LatticeBatch(object):
 
         # Combine paths from command line and lattice list.
         if lattice_list_file is not None:
-            lattices.extend(lattice_list_file.readlines())
+            lattices = lattices + lattice_list_file.readlines()
         lattices = [path.strip() for path in lattices]
         # Ignore empty lines in the lattice list.
         lattices = [x for x in lattices if x]
-- 
2.43.0


From 0edbaa8e55fc07feecc57bc7e2432936bfd1c19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:02 +0000
Subject: [PATCH 19/52] fix: transitions of null links were in wrong order in
 rescored lattices

---
 theanolm/scoring/rescoredlattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/theanolm/scoring/rescoredlattice.py b/theanolm/scoring/rescoredlattice.py
index 41566db..75941dd 100644
--- a/theanolm/scoring/rescoredlattice.py
+++ b/theanolm/scoring/rescoredlattice.py
@@ -50,8 +50,8 @@ def _follow_word_from_node(node, word):
             ac_logprob += link.ac_logprob
         if link.lm_logprob is not None:
             lm_logprob += link.lm_logprob
-        if link.transitions is not None:
-            transitions += link.transitions
+        # Transition IDs are separated by underscores.
+        transitions = '_'.join(x for x in (link.transitions, transitions) if x)
         return (end_node, ac_logprob, lm_logprob, transitions)
 
 class RescoredLattice(Lattice):
-- 
2.43.0


From c3529c9bfbc90eaf6c33dff9edd33b8f7b87d237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:02 +0000
Subject: [PATCH 20/52] fix: scores and transitions of the last null links were
 missing from rescored lattices

---
 theanolm/scoring/rescoredlattice.py | 61 +++++++++++++++++++++++------
 1 file changed, 49 insertions(+), 12 deletions(-)

diff --git a/theanolm/scoring/rescoredlattice.py b/theanolm/scoring/rescoredlattice.py
index 75941dd..c787e23 100644
--- a/theanolm/scoring/rescoredlattice.py
+++ b/theanolm/scoring/rescoredlattice.py
@@ -54,6 +54,37 @@ def _follow_word_from_node(node, word):
         transitions = '_'.join(x for x in (link.transitions, transitions) if x)
         return (end_node, ac_logprob, lm_logprob, transitions)
 
+def _follow_to_final_node(node):
+    """Follows null links from given node to a final node.
+
+    :type node: Lattice.Node
+    :param node: node where to start searching
+
+    :rtype: tuple of (float, float, str)
+    :returns: the total acoustic log probability, LM log probability, and
+              transition IDs of the path to a final node, or ``None`` if a final
+              node cannot be reached without passing a word
+    """
+
+    if node.final:
+        return (0.0, 0.0, "")
+
+    for link in node.out_links:
+        if link.word is not None:
+            continue
+        tail = _follow_to_final_node(link.end_node)
+        if tail is None:
+            continue
+        ac_logprob, lm_logprob, transitions = tail
+        if link.ac_logprob is not None:
+            ac_logprob += link.ac_logprob
+        if link.lm_logprob is not None:
+            lm_logprob += link.lm_logprob
+        transitions = '_'.join(x for x in (link.transitions, transitions) if x)
+        return (ac_logprob, lm_logprob, transitions)
+
+    return None
+
 class RescoredLattice(Lattice):
     """Rescored Lattice
 
@@ -96,8 +127,9 @@ class RescoredLattice(Lattice):
             :type create: bool
             :param create: if ``True``, creates new nodes if necessary
 
-            :rtype: Lattice.Node
-            :returns: the last node of the path
+            :rtype: tuple of two Lattice.Nodes
+            :returns: the last node of the path, and the corresponding node of
+                      the original lattice
             """
 
             words = [vocabulary.id_to_word[id] if isinstance(id, int) else id
@@ -119,18 +151,22 @@ class RescoredLattice(Lattice):
 
         # Create all the paths that correspond to the final tokens.
         for token in final_tokens:
-            node = follow_word_ids(token.history)
+            node, orig_node = follow_word_ids(token.history)
             # If the lattice is not determinized, it may happen that we have two
             # tokens with the same word sequence.
             if any(link.end_node.final for link in node.out_links):
                 continue
             # For the final link we set the NNLM log probability of the entire
             # path. The created lattice is a tree, so we can equivalently set
-            # the entire path probability in the final link.
+            # the entire path probability in the final link. Scores and
+            # transitions of the null links that lead to the final node of the
+            # original lattice are added to those of the final link.
+            ac_logprob, lm_logprob, transitions = \
+                _follow_to_final_node(orig_node) or (0.0, 0.0, "")
             link = self.Link(node, final_node, word=None,
-                             ac_logprob=0,
-                             lm_logprob=token.nn_lm_logprob,
-                             transitions="")
+                             ac_logprob=ac_logprob,
+                             lm_logprob=token.nn_lm_logprob + lm_logprob,
+                             transitions=transitions)
             node.out_links.append(link)
             self.links.append(link)
 
@@ -148,7 +184,7 @@ class RescoredLattice(Lattice):
             # Find the incoming link that corresponds to the token that was kept
             # during recombination.
             try:
-                recomb_from_node = follow_word_ids(new_history[:-1], False)
+                recomb_from_node, _ = follow_word_ids(new_history[:-1], False)
             except NodeNotFoundError:
                 continue
             # Our new lattice doesn't contain null links, so word_to_link maps
@@ -161,7 +197,7 @@ class RescoredLattice(Lattice):
             # that was kept during recombination. The difference in LM log
             # probability can be computed from the token (path) NNLM log
             # probabilities.
-            from_node = follow_word_ids(token.history[:-1])
+            from_node, _ = follow_word_ids(token.history[:-1])
             lm_logprob_diff = token.nn_lm_logprob - nn_lm_logprob
             new_link = self.Link(from_node, recomb_link.end_node, word,
                                  recomb_link.ac_logprob,
@@ -237,8 +273,9 @@ class RescoredLattice(Lattice):
         :param create: if set to ``False``, won't create any nodes but raises a
             ``NodeNotFoundError`` if the path doesn't exist
 
-        :rtype: Lattice.Node
-        :returns: the last node of the path
+        :rtype: tuple of two Lattice.Nodes
+        :returns: the last node of the path, and the corresponding node of the
+                  original lattice
         """
 
         node = self.initial_node
@@ -271,4 +308,4 @@ class RescoredLattice(Lattice):
             node = link.end_node
             orig_node = orig_end_node
 
-        return node
+        return node, orig_node
-- 
2.43.0


From 1f09cc4cb8e0420bbc2834d2046febbb8667333c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:31 +0000
Subject: [PATCH 21/52] fix: recombined links of rescored lattices had the
 scores of another link

---
 theanolm/scoring/rescoredlattice.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/theanolm/scoring/rescoredlattice.py b/theanolm/scoring/rescoredlattice.py
index c787e23..3bb5c10 100644
--- a/theanolm/scoring/rescoredlattice.py
+++ b/theanolm/scoring/rescoredlattice.py
@@ -184,7 +184,8 @@ class RescoredLattice(Lattice):
             # Find the incoming link that corresponds to the token that was kept
             # during recombination.
             try:
-                recomb_from_node, _ = follow_word_ids(new_history[:-1], False)
+                recomb_from_node, recomb_orig_node = \
+                    follow_word_ids(new_history[:-1], False)
             except NodeNotFoundError:
                 continue
             # Our new lattice doesn't contain null links, so word_to_link maps
@@ -197,12 +198,21 @@ class RescoredLattice(Lattice):
             # that was kept during recombination. The difference in LM log
             # probability can be computed from the token (path) NNLM log
             # probabilities.
-            from_node, _ = follow_word_ids(token.history[:-1])
+            from_node, orig_node = follow_word_ids(token.history[:-1])
             lm_logprob_diff = token.nn_lm_logprob - nn_lm_logprob
+            # The link that was kept may already include such a difference.
+            _, _, recomb_lm_logprob, _ = \
+                _follow_word_from_node(recomb_orig_node, word)
+            _, ac_logprob, lm_logprob, transitions = \
+                _follow_word_from_node(orig_node, word)
+            if (recomb_lm_logprob is None) or (lm_logprob is None):
+                # Can happen only if the lattice is not determinized.
+                continue
+            lm_logprob_diff += recomb_link.lm_logprob - recomb_lm_logprob
             new_link = self.Link(from_node, recomb_link.end_node, word,
-                                 recomb_link.ac_logprob,
-                                 recomb_link.lm_logprob + lm_logprob_diff,
-                                 recomb_link.transitions)
+                                 ac_logprob,
+                                 lm_logprob + lm_logprob_diff,
+                                 transitions)
             from_node.out_links.append(new_link)
             # Tokens never contain null words, so we can be sure that
             # word_to_link maps in our new lattice never skip nodes.
-- 
2.43.0


From 94c57251b7d96a26bd9d8c879310af62d1932798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:31 +0000
Subject: [PATCH 22/52] fix: words and utterance IDs with special characters
 were not quoted in SLF output

---
 theanolm/scoring/lattice.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/theanolm/scoring/lattice.py b/theanolm/scoring/lattice.py
index 3a073e9..8d59f1f 100644
--- a/theanolm/scoring/lattice.py
+++ b/theanolm/scoring/lattice.py
@@ -97,9 +97,15 @@ class Lattice(object):
         :param output_file: a file where to write the output
         """
 
+        def quote(value):
+            """Quotes a value so that it can contain special characters.
+            """
+            value = value.replace('\\', '\\\\').replace('"', '\\"')
+            return '"' + value + '"'
+
         output_file.write("# Header (generated by TheanoLM)\n")
         output_file.write("VERSION=1.1\n")
-        output_file.write('UTTERANCE="{}"\n'.format(self.utterance_id))
+        output_file.write('UTTERANCE={}\n'.format(quote(str(self.utterance_id))))
         fields = []
         if self.lm_scale is not None:
             fields.append("lmscale={}".format(self.lm_scale))
@@ -125,6 +131,8 @@ class Lattice(object):
                       "E={}".format(link.end_node.id)]
             if link.word is None:
                 fields.append("W=!NULL")
+            elif any(c.isspace() or (c in '"\\') for c in link.word):
+                fields.append("W={}".format(quote(link.word)))
             else:
                 fields.append("W={}".format(link.word))
             if link.ac_logprob is not None:
-- 
2.43.0


From 83cefc8a608eecfa14b42a3de515fac52120651c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:34 +0000
Subject: [PATCH 23/52] fix: recombination at null links created paths that are
 not in the original lattice

---
 theanolm/scoring/rescoredlattice.py | 45 ++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/theanolm/scoring/rescoredlattice.py b/theanolm/scoring/rescoredlattice.py
index 3bb5c10..a1dda37 100644
--- a/theanolm/scoring/rescoredlattice.py
+++ b/theanolm/scoring/rescoredlattice.py
@@ -118,6 +118,13 @@ class RescoredLattice(Lattice):
         :returns: the created lattice
         """
 
+        def to_words(word_ids):
+            """Returns the words of a token history without the sentence start.
+            """
+
+            return [vocabulary.id_to_word[id] if isinstance(id, int) else id
+                    for id in word_ids[1:]]
+
         def follow_word_ids(word_ids, create=True):
             """Follows a path from the initial node with given word IDs.
 
@@ -132,9 +139,8 @@ class RescoredLattice(Lattice):
                       the original lattice
             """
 
-            words = [vocabulary.id_to_word[id] if isinstance(id, int) else id
-                     for id in word_ids[1:]]
-            return self._follow_words(words, original_lattice, create)
+            return self._follow_words(to_words(word_ids), original_lattice,
+                                      create)
 
         super().__init__()
 
@@ -194,20 +200,33 @@ class RescoredLattice(Lattice):
                 continue
             recomb_link = recomb_from_node.word_to_link[word]
 
+            # Find the links of the original lattice that correspond to the token
+            # and the token that was kept.
+            recomb_end_node, _, recomb_lm_logprob, _ = \
+                _follow_word_from_node(recomb_orig_node, word)
+            orig_node = original_lattice.initial_node
+            for prev_word in to_words(token.history[:-1]):
+                orig_node, _, _, _ = _follow_word_from_node(orig_node, prev_word)
+                if orig_node is None:
+                    break
+            if (recomb_end_node is None) or (orig_node is None):
+                # Can happen only if the lattice is not determinized.
+                continue
+            end_node, ac_logprob, lm_logprob, transitions = \
+                _follow_word_from_node(orig_node, word)
+            if end_node is not recomb_end_node:
+                # Null links lead from different nodes to the node where the
+                # tokens were recombined. The paths that leave those nodes are
+                # not the same.
+                continue
+
             # Add a link from the previous word in the token history to the node
             # that was kept during recombination. The difference in LM log
             # probability can be computed from the token (path) NNLM log
-            # probabilities.
-            from_node, orig_node = follow_word_ids(token.history[:-1])
+            # probabilities. The link that was kept may already include such a
+            # difference.
+            from_node, _ = follow_word_ids(token.history[:-1])
             lm_logprob_diff = token.nn_lm_logprob - nn_lm_logprob
-            # The link that was kept may already include such a difference.
-            _, _, recomb_lm_logprob, _ = \
-                _follow_word_from_node(recomb_orig_node, word)
-            _, ac_logprob, lm_logprob, transitions = \
-                _follow_word_from_node(orig_node, word)
-            if (recomb_lm_logprob is None) or (lm_logprob is None):
-                # Can happen only if the lattice is not determinized.
-                continue
             lm_logprob_diff += recomb_link.lm_logprob - recomb_lm_logprob
             new_link = self.Link(from_node, recomb_link.end_node, word,
                                  ac_logprob,
-- 
2.43.0


From 875690540c831633b6d543c3a12c0081a7250fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:10 +0000
Subject: [PATCH 24/52] fix: order of inputs when reading an architecture with
 more than ten inputs

---
 theanolm/network/architecture.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/theanolm/network/architecture.py b/theanolm/network/architecture.py
index 57a4d8a..0d92fb1 100644
--- a/theanolm/network/architecture.py
+++ b/theanolm/network/architecture.py
@@ -62,7 +62,7 @@ class Architecture(object):
                 "network state.")
         h5_inputs = h5_arch['inputs']
         inputs = []
-        for input_id in sorted(h5_inputs.keys()):
+        for input_id in sorted(h5_inputs.keys(), key=int):
             h5_input = h5_inputs[input_id]
             inputs.append(cls._read_h5_dict(h5_input))
 
@@ -276,7 +276,7 @@ class Architecture(object):
         for variable in h5_dict:
             values = []
             h5_values = h5_dict[variable]
-            for value_id in sorted(h5_values.attrs.keys()):
+            for value_id in sorted(h5_values.attrs.keys(), key=int):
                 values.append(h5_values.attrs[value_id])
             result[variable] = values
         return result
-- 
2.43.0


From 6eb93dcba2d2a356410c843f6c4aca0457018eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:43 +0000
Subject: [PATCH 25/52] fix: saving a scalar parameter again failed

---
 theanolm/backend/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theanolm/backend/parameters.py b/theanolm/backend/parameters.py
index c824bf1..4d67836 100644
--- a/theanolm/backend/parameters.py
+++ b/theanolm/backend/parameters.py
@@ -86,7 +86,7 @@ class Parameters:
 
         for path, param in self._vars.items():
             if path in state:
-                state[path][:] = param.get_value()
+                state[path][...] = param.get_value()
             else:
                 state.create_dataset(path, data=param.get_value())
 
-- 
2.43.0


From c1b4b31bdb42c0fd8cd1e9f8bad2cd1567d756a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:40 +0000
Subject: [PATCH 26/52] fix: weights of training files had no effect

---
 theanolm/training/basicoptimizer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/theanolm/training/basicoptimizer.py b/theanolm/training/basicoptimizer.py
index 6f1af45..43014d6 100644
--- a/theanolm/training/basicoptimizer.py
+++ b/theanolm/training/basicoptimizer.py
@@ -110,9 +110,10 @@ class BasicOptimizer(object, metaclass=ABCMeta):
         weights.tag.test_value = test_value(size=(100, 16), high=1.0)
         word_positions = tensor.eq(self.network.mask, 1).nonzero()
         weight = weights[word_positions].sum()
-        num_words_float = tensor.cast(num_words, theano.config.floatX)
-        modified_alpha = tensor.switch(tensor.gt(num_words, 0),
-                                       alpha * weight / num_words_float,
+        num_weights = self.network.mask.sum()
+        num_weights_float = tensor.cast(num_weights, theano.config.floatX)
+        modified_alpha = tensor.switch(tensor.gt(num_weights, 0),
+                                       alpha * weight / num_weights_float,
                                        alpha)
 
         # Ignore unused input, because is_training is only used by dropout
@@ -128,7 +129,7 @@ class BasicOptimizer(object, metaclass=ABCMeta):
                     (self.network.is_training, numpy.int8(1)),
                     (self.network.num_noise_samples,
                      numpy.int64(num_noise_samples))],
-            updates=self._get_param_updates(alpha),
+            updates=self._get_param_updates(modified_alpha),
             name='update_function',
             on_unused_input='ignore',
             profile=profile)
-- 
2.43.0


From 1bc33380e820291dd80e1c65f741e1e5c172c385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:28 +0000
Subject: [PATCH 27/52] fix: a mini-batch without any words in the cost set
 parameters to NaN

---
 theanolm/training/cost.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theanolm/training/cost.py b/theanolm/training/cost.py
index 1e02cc9..764a8bc 100644
--- a/theanolm/training/cost.py
+++ b/theanolm/training/cost.py
@@ -84,7 +84,8 @@ class Cost(object, metaclass=ABCMeta):
         # float64 and pulled out from the GPU earlier than necessary.
         logprobs = self._get_logprobs() * tensor.cast(mask, theano.config.floatX)
         num_words = mask.sum()
-        cost = -logprobs.sum() / num_words
+        # If all the words are excluded, the cost is zero instead of NaN.
+        cost = -logprobs.sum() / tensor.maximum(num_words, 1)
 
         model_params = self._network.get_variables().values()
         l1_weight = self._l1_regularization
-- 
2.43.0


From bbd775d0f44123dab1dd2b3f27606ea17e8481d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:28 +0000
Subject: [PATCH 28/52] fix: RMSProp with Nesterov momentum did not update the
 mean squared gradient

---
 theanolm/training/rmspropnesterovoptimizer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/theanolm/training/rmspropnesterovoptimizer.py b/theanolm/training/rmspropnesterovoptimizer.py
index 16c3b14..bae5f0c 100644
--- a/theanolm/training/rmspropnesterovoptimizer.py
+++ b/theanolm/training/rmspropnesterovoptimizer.py
@@ -91,7 +91,6 @@ class RMSPropNesterovOptimizer(BasicOptimizer):
             deltas[path] = -gradient / rms_gradient
         self._normalize(deltas)
 
-        result = []
         for path, param_old in self.network.get_variables().items():
             delta = deltas[path]
             velocity_old = self._params[path + '_velocity']
-- 
2.43.0


From 4706f647fda602ad68c69dd5f1c442b023ab10d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:20 +0000
Subject: [PATCH 29/52] fix: word class optimizers got NaN as the log
 likelihood change when a count is zero

---
 wordclasses/numpybigramoptimizer.py  | 45 +++++++++++++++-------------
 wordclasses/theanobigramoptimizer.py | 20 +++++--------
 2 files changed, 31 insertions(+), 34 deletions(-)

diff --git a/wordclasses/numpybigramoptimizer.py b/wordclasses/numpybigramoptimizer.py
index ea58de4..311b536 100644
--- a/wordclasses/numpybigramoptimizer.py
+++ b/wordclasses/numpybigramoptimizer.py
@@ -86,9 +86,9 @@ class NumpyBigramOptimizer(BigramOptimizer):
         :returns: log likelihood of the training corpus
         """
 
-        return (numpy.ma.log(self._cc_counts) * self._cc_counts).sum() + \
-               (numpy.ma.log(self._word_counts) * self._word_counts).sum() - \
-               2 * (numpy.ma.log(self._class_counts) * self._class_counts).sum()
+        return self._xlogx(self._cc_counts).sum() + \
+               self._xlogx(self._word_counts).sum() - \
+               2 * self._xlogx(self._class_counts).sum()
 
     def _evaluate(self, word_id, new_class_id):
         """Evaluates how much moving a word to another class would change the
@@ -100,14 +100,14 @@ class NumpyBigramOptimizer(BigramOptimizer):
         # old class
         old_count = self._class_counts[old_class_id]
         new_count = old_count - self._word_counts[word_id]
-        result = 2 * old_count * numpy.log(old_count)
-        result -= 2 * new_count * numpy.log(new_count)
+        result = 2 * self._xlogx(old_count)
+        result -= 2 * self._xlogx(new_count)
 
         # new class
         old_count = self._class_counts[new_class_id]
         new_count = old_count + self._word_counts[word_id]
-        result += 2 * old_count * numpy.log(old_count)
-        result -= 2 * new_count * numpy.log(new_count)
+        result += 2 * self._xlogx(old_count)
+        result -= 2 * self._xlogx(new_count)
 
         # Iterate over classes other than the old and new class of the word.
         class_ids = numpy.arange(self.num_classes)
@@ -117,26 +117,26 @@ class NumpyBigramOptimizer(BigramOptimizer):
         # old class, class X
         old_counts = self._cc_counts[old_class_id,iter_class_ids]
         new_counts = old_counts - self._wc_counts[word_id,iter_class_ids]
-        result -= (numpy.ma.log(old_counts) * old_counts).sum()
-        result += (numpy.ma.log(new_counts) * new_counts).sum()
+        result -= self._xlogx(old_counts).sum()
+        result += self._xlogx(new_counts).sum()
 
         # new class, class X
         old_counts = self._cc_counts[new_class_id,iter_class_ids]
         new_counts = old_counts + self._wc_counts[word_id,iter_class_ids]
-        result -= (numpy.ma.log(old_counts) * old_counts).sum()
-        result += (numpy.ma.log(new_counts) * new_counts).sum()
+        result -= self._xlogx(old_counts).sum()
+        result += self._xlogx(new_counts).sum()
 
         # class X, old class
         old_counts = self._cc_counts[iter_class_ids,old_class_id]
         new_counts = old_counts - self._cw_counts[iter_class_ids,word_id]
-        result -= (numpy.ma.log(old_counts) * old_counts).sum()
-        result += (numpy.ma.log(new_counts) * new_counts).sum()
+        result -= self._xlogx(old_counts).sum()
+        result += self._xlogx(new_counts).sum()
 
         # class X, new class
         old_counts = self._cc_counts[iter_class_ids,new_class_id]
         new_counts = old_counts + self._cw_counts[iter_class_ids,word_id]
-        result -= (numpy.ma.log(old_counts) * old_counts).sum()
-        result += (numpy.ma.log(new_counts) * new_counts).sum()
+        result -= self._xlogx(old_counts).sum()
+        result += self._xlogx(new_counts).sum()
 
         # old class, new class
         old_count = self._cc_counts[old_class_id,new_class_id]
@@ -173,12 +173,15 @@ class NumpyBigramOptimizer(BigramOptimizer):
         return result
 
     def _ll_change(self, old_count, new_count):
-        result = 0
-        if old_count != 0:
-            result -= old_count * numpy.log(old_count)
-        if new_count != 0:
-            result += new_count * numpy.log(new_count)
-        return result
+        return self._xlogx(new_count) - self._xlogx(old_count)
+
+    @staticmethod
+    def _xlogx(x):
+        """A helper function that computes ``x * log(x)``, where ``x`` is a
+        count or an array of counts that may contain zeros.
+        """
+
+        return numpy.log(numpy.maximum(x, 1)) * x
 
     def _move(self, word_id, new_class_id):
         """Moves a word to another class.
diff --git a/wordclasses/theanobigramoptimizer.py b/wordclasses/theanobigramoptimizer.py
index 1854cc1..8debb93 100644
--- a/wordclasses/theanobigramoptimizer.py
+++ b/wordclasses/theanobigramoptimizer.py
@@ -120,14 +120,14 @@ class TheanoBigramOptimizer(BigramOptimizer):
         # old class
         old_count = old_class_count
         new_count = old_count - word_count
-        result = 2 * old_count * tensor.log(old_count)
-        result -= 2 * new_count * tensor.log(new_count)
+        result = 2 * self._xlogx(old_count)
+        result -= 2 * self._xlogx(new_count)
 
         # new class
         old_count = new_class_count
         new_count = old_count + word_count
-        result += 2 * old_count * tensor.log(old_count)
-        result -= 2 * new_count * tensor.log(new_count)
+        result += 2 * self._xlogx(old_count)
+        result -= 2 * self._xlogx(new_count)
 
         # Iterate over classes other than the old and new class of the word.
         class_ids = tensor.arange(self.num_classes)
@@ -304,23 +304,17 @@ class TheanoBigramOptimizer(BigramOptimizer):
             result,
             name='class_size')
 
-    @staticmethod
-    def _ll_change(old_count, new_count):
+    def _ll_change(self, old_count, new_count):
         """A helper function that computes the log likelihood change when a
         count changes.
         """
 
-        result = 0
-        if old_count != 0:
-            result -= old_count * tensor.log(old_count)
-        if new_count != 0:
-            result += new_count * tensor.log(new_count)
-        return result
+        return self._xlogx(new_count) - self._xlogx(old_count)
 
     @staticmethod
     def _xlogx(x):
         """A helper function that computes ``x * log(x)``, where ``x`` is a
-        vector that may contain zeros.
+        scalar or vector that may contain zeros.
         """
 
         return tensor.switch(tensor.neq(x, 0), tensor.log(x), 0) * x
-- 
2.43.0


From e3b237a8570e58f380da289ce41c54ded42c2601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:54 +0000
Subject: [PATCH 30/52] fix: word class optimization may never finish because
 of rounding errors

---
 wordclasses/bigramoptimizer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wordclasses/bigramoptimizer.py b/wordclasses/bigramoptimizer.py
index 743dd5f..ab8a171 100644
--- a/wordclasses/bigramoptimizer.py
+++ b/wordclasses/bigramoptimizer.py
@@ -44,7 +44,10 @@ class BigramOptimizer(object):
             return False
 
         ll_diff, new_class_id = self._find_best_move(word_id)
-        if ll_diff > 0:
+        # Moves between equally good classes may get a tiny improvement because
+        # of rounding errors. Accepting those could move words back and forth
+        # forever.
+        if ll_diff > 1e-6:
             self._move(word_id, new_class_id)
             return True
         else:
-- 
2.43.0


From 2a3857d96c23118128ce0444033f485c14175fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:37 +0000
Subject: [PATCH 31/52] fix: text sampling from hierarchical softmax did not
 follow the model distribution

---
 theanolm/textsampler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/theanolm/textsampler.py b/theanolm/textsampler.py
index c92c0c7..ee2ada2 100644
--- a/theanolm/textsampler.py
+++ b/theanolm/textsampler.py
@@ -38,6 +38,9 @@ class TextSampler(object):
         # multinomial() is only implemented for dimension <= 2, but the matrix
         # contains only one time step anyway.
         output_probs = network.output_probs()[0]
+        # Hierarchical softmax may give some probability to classes that do not
+        # exist.
+        output_probs /= output_probs.sum(axis=1, keepdims=True)
         # Theano doesn't set a test value to some of it's internal variables.
         # Disable the warning since there's nothing we can do.
         compute_test_value = theano.config.compute_test_value
-- 
2.43.0


From 04dedee18b59959bc2f7254c59c350d6726b2cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:37 +0000
Subject: [PATCH 32/52] fix: text sampling failed when the seed contains words
 outside the shortlist

---
 theanolm/textsampler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/theanolm/textsampler.py b/theanolm/textsampler.py
index ee2ada2..e9e4c28 100644
--- a/theanolm/textsampler.py
+++ b/theanolm/textsampler.py
@@ -78,6 +78,7 @@ class TextSampler(object):
         :returns: list of word sequences
         """
         seed_tokens = seed_sequence.strip().split()
+        unk_id = self._vocabulary.word_to_id['<unk>']
         sos_id = self._vocabulary.word_to_id['<s>']
         sos_class_id = self._vocabulary.word_id_to_class_id[sos_id]
 
@@ -96,7 +97,10 @@ class TextSampler(object):
             step_result = self.step_function(input_word_ids,
                                              input_class_ids,
                                              *state.get())
-            token_id = self._vocabulary.word_to_id[token]
+            # Words outside the shortlist are not known by the network.
+            token_id = self._vocabulary.word_to_id.get(token, unk_id)
+            if token_id >= self._vocabulary.num_shortlist_words():
+                token_id = unk_id
             token_class_id = \
                 self._vocabulary.word_id_to_class_id[token_id]
             input_word_ids = token_id * \
-- 
2.43.0


From 32392d10796d46c6dca41b7e0ac88adf0def72ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:43 +0000
Subject: [PATCH 33/52] fix: statistics function given to set_validation() was
 not used

---
 theanolm/training/trainer.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/theanolm/training/trainer.py b/theanolm/training/trainer.py
index 68c7252..4662b34 100644
--- a/theanolm/training/trainer.py
+++ b/theanolm/training/trainer.py
@@ -115,8 +115,6 @@ class Trainer(object):
         self._total_updates = 0
         # validation set cost history
         self._cost_history = None
-        # function for averaging cross-validation measurements
-        self._statistics_function = None
         # duration of the last mini-batch update
         self._update_duration = None
 
@@ -148,7 +146,7 @@ class Trainer(object):
             self._samples_per_validation = samples_per_validation
 
         if statistics_function is not None:
-            self._statistics_function = statistics_function
+            self._statistic_function = statistics_function
 
     def set_logging(self, log_interval):
         """Sets logging parameters.
-- 
2.43.0


From 3cb368a5347696ac7988137e70da1a9f01b4a129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:44 +0000
Subject: [PATCH 34/52] fix: resuming training without validation repeated the
 last epoch

---
 theanolm/training/trainer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/theanolm/training/trainer.py b/theanolm/training/trainer.py
index 4662b34..7cbcf55 100644
--- a/theanolm/training/trainer.py
+++ b/theanolm/training/trainer.py
@@ -228,9 +228,6 @@ class Trainer(object):
                 if not self._stopper.start_new_minibatch():
                     break
 
-            if self._validation_iter is None:
-                self._set_candidate_state()
-
             epoch_duration = time() - epoch_start_time
             epoch_minutes = epoch_duration / 60
             epoch_time_h, epoch_time_m = divmod(epoch_minutes, 60)
@@ -245,6 +242,10 @@ class Trainer(object):
             self.epoch_number += 1
             self.update_number = 0
 
+            # The iterator already points to the beginning of the next epoch.
+            if self._validation_iter is None:
+                self._set_candidate_state()
+
         duration = time() - start_time
         minutes = duration / 60
         time_h, time_m = divmod(minutes, 60)
-- 
2.43.0


From 90c44982edb5d7461ed450e4ecd311622d7eeae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:44 +0000
Subject: [PATCH 35/52] fix: validation was scheduled by the size of the whole
 training data when sampling

---
 theanolm/training/trainer.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/theanolm/training/trainer.py b/theanolm/training/trainer.py
index 7cbcf55..d0a0f4a 100644
--- a/theanolm/training/trainer.py
+++ b/theanolm/training/trainer.py
@@ -13,7 +13,7 @@ import numpy
 import theano
 
 from theanolm.backend import IncompatibleStateError
-from theanolm.parsing import ShufflingBatchIterator, LinearBatchIterator
+from theanolm.parsing import ShufflingBatchIterator
 from theanolm.training.stoppers import create_stopper
 
 class Trainer(object):
@@ -48,17 +48,17 @@ class Trainer(object):
 
         self._vocabulary = vocabulary
 
-        print("Computing the number of mini-batches in training data.")
-        linear_iter = LinearBatchIterator(
+        self._training_iter = ShufflingBatchIterator(
             training_files,
+            sampling,
             vocabulary,
             batch_size=training_options['batch_size'],
             max_sequence_length=training_options['sequence_length'],
             map_oos_to_unk=True)
+
+        print("Computing the number of mini-batches in training data.")
         sys.stdout.flush()
-        self._updates_per_epoch = 0
-        for _, _, _ in linear_iter:
-            self._updates_per_epoch += 1
+        self._updates_per_epoch = len(self._training_iter)
         if self._updates_per_epoch < 1:
             raise ValueError("Training data does not contain any sentences.")
         logging.debug("One epoch of training data contains %d mini-batch "
@@ -70,14 +70,6 @@ class Trainer(object):
                       numpy.log(self.class_prior_probs.min()),
                       numpy.log(self.class_prior_probs.max()))
 
-        self._training_iter = ShufflingBatchIterator(
-            training_files,
-            sampling,
-            vocabulary,
-            batch_size=training_options['batch_size'],
-            max_sequence_length=training_options['sequence_length'],
-            map_oos_to_unk=True)
-
         self._stopper = create_stopper(training_options, self)
         self._options = training_options
 
-- 
2.43.0


From 6dfb92f57300c5bd483c2324b9b71128637e75a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:44 +0000
Subject: [PATCH 36/52] fix: restored iterator state did not continue from the
 point where it was saved

---
 theanolm/parsing/shufflingbatchiterator.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/theanolm/parsing/shufflingbatchiterator.py b/theanolm/parsing/shufflingbatchiterator.py
index 5a5ad36..a352b7f 100644
--- a/theanolm/parsing/shufflingbatchiterator.py
+++ b/theanolm/parsing/shufflingbatchiterator.py
@@ -13,7 +13,8 @@ from numpy import random
 
 from theanolm.backend import IncompatibleStateError
 from theanolm.parsing.batchiterator import BatchIterator
-from theanolm.parsing.functions import find_sentence_starts
+from theanolm.parsing.functions import find_sentence_starts, \
+                                       utterance_from_line
 
 class SentencePointers(object):
     """A class that creates a memory map of text files and stores pointers to
@@ -155,6 +156,8 @@ class ShufflingBatchIterator(BatchIterator):
             h5_iterator.create_dataset('order', data=self._order)
 
         h5_iterator.attrs['next_line'] = self._next_line
+        # number of words left from the previous line
+        h5_iterator.attrs['buffer_size'] = len(self._buffer)
 
     def set_state(self, state):
         """Restores the iterator state.
@@ -184,6 +187,15 @@ class ShufflingBatchIterator(BatchIterator):
             raise IncompatibleStateError("Current iteration position is "
                                          "missing from training state.")
         self._next_line = int(h5_iterator.attrs['next_line'])
+        self._end_of_file = False
+        self._buffer = []
+        buffer_size = int(h5_iterator.attrs.get('buffer_size', 0))
+        if buffer_size > 0:
+            # Continue from the middle of the previous line.
+            self._next_line -= 1
+            line, file_id = self._readline()
+            words = utterance_from_line(line)[-buffer_size:]
+            self._buffer = [(word, file_id) for word in words]
         logging.debug("Restored iterator to line %d of %d.",
                       self._next_line,
                       self._order.size)
-- 
2.43.0


From 40d07b0c178163c1c80f59540ddda55f72724e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:31 +0000
Subject: [PATCH 37/52] fix: count the mini-batches of each epoch when
 sentences are sampled

---
 theanolm/parsing/batchiterator.py |  1 +
 theanolm/training/trainer.py      | 14 ++++++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/theanolm/parsing/batchiterator.py b/theanolm/parsing/batchiterator.py
index 87eebce..4e01b7f 100644
--- a/theanolm/parsing/batchiterator.py
+++ b/theanolm/parsing/batchiterator.py
@@ -106,6 +106,7 @@ class BatchIterator(object, metaclass=ABCMeta):
         """
 
         self._reset(False)
+        self._buffer = []
         num_sequences = 0
 
         while True:
diff --git a/theanolm/training/trainer.py b/theanolm/training/trainer.py
index d0a0f4a..feaef49 100644
--- a/theanolm/training/trainer.py
+++ b/theanolm/training/trainer.py
@@ -47,6 +47,7 @@ class Trainer(object):
         """
 
         self._vocabulary = vocabulary
+        self._sampling = sampling
 
         self._training_iter = ShufflingBatchIterator(
             training_files,
@@ -234,7 +235,11 @@ class Trainer(object):
             self.epoch_number += 1
             self.update_number = 0
 
-            # The iterator already points to the beginning of the next epoch.
+            # The iterator already points to the beginning of the next epoch. If
+            # only a sample of the sentences is used on each epoch, the number
+            # of sequences varies.
+            if self._sampling:
+                self._updates_per_epoch = max(1, len(self._training_iter))
             if self._validation_iter is None:
                 self._set_candidate_state()
 
@@ -305,6 +310,12 @@ class Trainer(object):
                                          "from training state.")
         self.update_number = int(h5_trainer.attrs['update_number'])
 
+        self._training_iter.set_state(self._candidate_state)
+        if self._sampling:
+            # Computing the number of mini-batches loses the position.
+            self._updates_per_epoch = max(1, len(self._training_iter))
+            self._training_iter.set_state(self._candidate_state)
+
         logging.info("[%d] (%.2f %%) of epoch %d",
                      self.update_number,
                      self.update_number / self._updates_per_epoch * 100,
@@ -324,7 +335,6 @@ class Trainer(object):
             self._cost_history = numpy.asarray([], dtype=theano.config.floatX)
             self._candidate_index = None
 
-        self._training_iter.set_state(self._candidate_state)
         self._optimizer.set_state(self._candidate_state)
 
     def num_validations(self):
-- 
2.43.0


From 0b7e0cbb082026f16d0ce38e34fd5be41801387e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:30 +0000
Subject: [PATCH 38/52] fix: decompress training and validation files

---
 theanolm/commands/train.py                 |  7 ++----
 theanolm/parsing/__init__.py               |  2 +-
 theanolm/parsing/functions.py              | 25 ++++++++++++++++++++++
 theanolm/parsing/shufflingbatchiterator.py |  7 ++----
 4 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/theanolm/commands/train.py b/theanolm/commands/train.py
index cf9b10c..74376d3 100644
--- a/theanolm/commands/train.py
+++ b/theanolm/commands/train.py
@@ -4,7 +4,6 @@
 """
 
 import sys
-import mmap
 import logging
 
 import h5py
@@ -13,7 +12,7 @@ import theano
 
 from theanolm import Vocabulary, Architecture, Network
 from theanolm.backend import TextFileType, get_default_device
-from theanolm.parsing import LinearBatchIterator
+from theanolm.parsing import LinearBatchIterator, map_text_file
 from theanolm.training import Trainer, create_optimizer, CrossEntropyCost, \
                               NCECost, BlackoutCost
 from theanolm.scoring import TextScorer
@@ -455,9 +454,7 @@ def train(args):
                                 exclude_unk=args.exclude_unk,
                                 profile=args.profile)
             logging.info("Validation text: %s", args.validation_file.name)
-            validation_mmap = mmap.mmap(args.validation_file.fileno(),
-                                        0,
-                                        prot=mmap.PROT_READ)
+            validation_mmap = map_text_file(args.validation_file)
             validation_iter = \
                 LinearBatchIterator(validation_mmap,
                                     vocabulary,
diff --git a/theanolm/parsing/__init__.py b/theanolm/parsing/__init__.py
index a7769c7..6da0759 100644
--- a/theanolm/parsing/__init__.py
+++ b/theanolm/parsing/__init__.py
@@ -6,4 +6,4 @@
 from theanolm.parsing.linearbatchiterator import LinearBatchIterator
 from theanolm.parsing.shufflingbatchiterator import ShufflingBatchIterator
 from theanolm.parsing.scoringbatchiterator import ScoringBatchIterator
-from theanolm.parsing.functions import utterance_from_line
+from theanolm.parsing.functions import utterance_from_line, map_text_file
diff --git a/theanolm/parsing/functions.py b/theanolm/parsing/functions.py
index 6d00336..61687f9 100644
--- a/theanolm/parsing/functions.py
+++ b/theanolm/parsing/functions.py
@@ -3,6 +3,9 @@
 """Functions related to reading text.
 """
 
+import gzip
+import mmap
+
 def utterance_from_line(line):
     """Converts a line of text, read from an input file, into a list of words.
 
@@ -33,6 +36,28 @@ def utterance_from_line(line):
 
     return result
 
+def map_text_file(text_file):
+    """Creates a memory map of a text file. If the file is compressed, the
+    uncompressed data will be read into memory.
+
+    :type text_file: file object
+    :param text_file: a file that has been opened in text mode
+
+    :rtype: mmap.mmap
+    :returns: memory-mapped uncompressed data of the file
+    """
+
+    binary_file = getattr(text_file, 'buffer', None)
+    if not isinstance(binary_file, gzip.GzipFile):
+        return mmap.mmap(text_file.fileno(), 0, prot=mmap.PROT_READ)
+
+    binary_file.seek(0)
+    data = binary_file.read()
+    result = mmap.mmap(-1, len(data))
+    result.write(data)
+    result.seek(0)
+    return result
+
 def find_sentence_starts(data):
     """Finds the positions inside a memory-mapped file, where the sentences
     (lines) start.
diff --git a/theanolm/parsing/shufflingbatchiterator.py b/theanolm/parsing/shufflingbatchiterator.py
index a352b7f..2f9e24a 100644
--- a/theanolm/parsing/shufflingbatchiterator.py
+++ b/theanolm/parsing/shufflingbatchiterator.py
@@ -5,7 +5,6 @@ sentence order.
 """
 
 import sys
-import mmap
 import logging
 
 import numpy
@@ -14,7 +13,7 @@ from numpy import random
 from theanolm.backend import IncompatibleStateError
 from theanolm.parsing.batchiterator import BatchIterator
 from theanolm.parsing.functions import find_sentence_starts, \
-                                       utterance_from_line
+                                       map_text_file, utterance_from_line
 
 class SentencePointers(object):
     """A class that creates a memory map of text files and stores pointers to
@@ -43,9 +42,7 @@ class SentencePointers(object):
 
         for subset_file in files:
             subset_index = len(self.mmaps)
-            subset_mmap = mmap.mmap(subset_file.fileno(),
-                                    0,
-                                    prot=mmap.PROT_READ)
+            subset_mmap = map_text_file(subset_file)
             self.mmaps.append(subset_mmap)
 
             logging.debug("Finding sentence start positions in %s.",
-- 
2.43.0


From 7d3f53c7ac0cd3205fce934f4444046aa09d07df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:53 +0000
Subject: [PATCH 39/52] fix: wctool could not write a compressed file

---
 wordclasses/wctool.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/wordclasses/wctool.py b/wordclasses/wctool.py
index 41aa852..e0aea9a 100644
--- a/wordclasses/wctool.py
+++ b/wordclasses/wctool.py
@@ -3,6 +3,7 @@
 
 import sys
 import argparse
+import gzip
 import logging
 from time import time
 from theanolm.backend import TextFileType
@@ -11,10 +12,24 @@ from theanolm.vocabulary import Vocabulary
 from theanolm.vocabulary import compute_word_counts, BigramStatistics
 from wordclasses.functions import is_scheduled
 
+def is_compressed(output_file):
+    """Tells whether a file is compressed, in which case it can be written only
+    once.
+
+    :type output_file: file object
+    :param output_file: a file or stream where to save the classes
+
+    :rtype: bool
+    :returns: True if the file is compressed
+    """
+
+    return isinstance(getattr(output_file, 'buffer', None), gzip.GzipFile)
+
 def save(optimizer, output_file, output_format):
     """Writes the current classes to a file.
 
-    If the output file is seekable, first rewinds and truncates the file.
+    If the output file is seekable and not compressed, first rewinds and
+    truncates the file.
 
     :type optimizer: BigramOptimizer
     :param optimizer: save the current state of this optimizer
@@ -27,7 +42,7 @@ def save(optimizer, output_file, output_format):
                           output file format
     """
 
-    if output_file.seekable():
+    if output_file.seekable() and not is_compressed(output_file):
         output_file.seek(0)
         output_file.truncate()
 
@@ -146,7 +161,8 @@ def main():
                      num_moves,
                      optimizer.log_likelihood(),
                      duration * 100)
-            if is_scheduled(num_words,
+            if not is_compressed(args.output_file) and \
+               is_scheduled(num_words,
                             args.output_frequency,
                             vocabulary.num_shortlist_words()):
                 save(optimizer, args.output_file, args.output_format)
-- 
2.43.0


From b45925dce18c342711de991e5eb384411ff0d33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:49 +0000
Subject: [PATCH 40/52] fix: unknown activation function failed with NameError

---
 theanolm/network/basiclayer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theanolm/network/basiclayer.py b/theanolm/network/basiclayer.py
index 0ebabcb..460010c 100644
--- a/theanolm/network/basiclayer.py
+++ b/theanolm/network/basiclayer.py
@@ -8,7 +8,7 @@ import logging
 
 import theano.tensor as tensor
 
-from theanolm.backend import Parameters, conv1d
+from theanolm.backend import InputError, Parameters, conv1d
 from theanolm.network.weightfunctions import random_matrix, matrix_from_value
 
 class BasicLayer(object, metaclass=ABCMeta):
-- 
2.43.0


From dc5ca5ae6b2038a82f23af2ef048a02e7e6316dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:10 +0000
Subject: [PATCH 41/52] fix: parameters of a wrong shape were accepted from a
 state

---
 theanolm/backend/parameters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/theanolm/backend/parameters.py b/theanolm/backend/parameters.py
index 4d67836..b426286 100644
--- a/theanolm/backend/parameters.py
+++ b/theanolm/backend/parameters.py
@@ -104,6 +104,9 @@ class Parameters:
                 raise IncompatibleStateError(
                     "Parameter `%s´ is missing from state." % path)
             new_value = state[path].value
+            if new_value.shape != param.get_value(borrow=True).shape:
+                raise IncompatibleStateError(
+                    "Parameter `%s´ has a different shape in state." % path)
             param.set_value(new_value)
             if len(new_value.shape) == 0:
                 logging.debug("%s <- %s", path, str(new_value))
-- 
2.43.0


From 62ab58e37677712793b82c0dd3001ffbd7420d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:07 +0000
Subject: [PATCH 42/52] fix: training state of another data set was accepted

---
 theanolm/parsing/shufflingbatchiterator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/theanolm/parsing/shufflingbatchiterator.py b/theanolm/parsing/shufflingbatchiterator.py
index 2f9e24a..2c49b31 100644
--- a/theanolm/parsing/shufflingbatchiterator.py
+++ b/theanolm/parsing/shufflingbatchiterator.py
@@ -179,6 +179,9 @@ class ShufflingBatchIterator(BatchIterator):
         if self._order.size == 0:
             raise IncompatibleStateError("Iteration order is empty in training "
                                          "state.")
+        if self._order.max() >= len(self._sentence_pointers):
+            raise IncompatibleStateError("Iteration order refers to sentences "
+                                         "that are not in the training data.")
 
         if 'next_line' not in h5_iterator.attrs:
             raise IncompatibleStateError("Current iteration position is "
-- 
2.43.0


From 1e5827c37d915528534c1f239ee3a60d6610c578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:28 +0000
Subject: [PATCH 43/52] fix: incomplete vocabulary in a state failed with other
 than IncompatibleStateError

---
 theanolm/vocabulary/vocabulary.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/theanolm/vocabulary/vocabulary.py b/theanolm/vocabulary/vocabulary.py
index df40ad2..4dab3d9 100644
--- a/theanolm/vocabulary/vocabulary.py
+++ b/theanolm/vocabulary/vocabulary.py
@@ -305,6 +305,13 @@ class Vocabulary(object):
         num_classes = word_id_to_class_id.max() + 1
         word_classes = [None] * num_classes
         h5_probs = h5_vocabulary['probs'].value
+        if len(h5_probs) != len(word_id_to_class_id):
+            raise IncompatibleStateError(
+                "Incorrect number of word probabilities in neural network "
+                "state.")
+        if len(word_id_to_class_id) > len(id_to_word):
+            raise IncompatibleStateError(
+                "Incorrect number of words in neural network state.")
         for word_id, prob in enumerate(h5_probs):
             class_id = word_id_to_class_id[word_id]
             if word_classes[class_id] is None:
@@ -313,9 +320,16 @@ class Vocabulary(object):
             else:
                 word_classes[class_id].add(word_id, prob)
 
-        result = cls(id_to_word.tolist(),
-                     word_id_to_class_id.tolist(),
-                     word_classes)
+        if None in word_classes:
+            raise IncompatibleStateError(
+                "Word classes are missing from neural network state.")
+        try:
+            result = cls(id_to_word.tolist(),
+                         word_id_to_class_id.tolist(),
+                         word_classes)
+        except ValueError as error:
+            raise IncompatibleStateError(
+                "Invalid vocabulary in neural network state. " + str(error))
 
         if 'unigram_probs' in h5_vocabulary:
             result._unigram_probs = h5_vocabulary['unigram_probs'].value
-- 
2.43.0


From 400ba8fdccb3c5c9894756e39aeba71fcb45f614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:49 +0000
Subject: [PATCH 44/52] fix: incomplete architecture in a state failed with
 KeyError

---
 theanolm/network/architecture.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/theanolm/network/architecture.py b/theanolm/network/architecture.py
index 0d92fb1..f73f31d 100644
--- a/theanolm/network/architecture.py
+++ b/theanolm/network/architecture.py
@@ -64,7 +64,7 @@ class Architecture(object):
         inputs = []
         for input_id in sorted(h5_inputs.keys(), key=int):
             h5_input = h5_inputs[input_id]
-            inputs.append(cls._read_h5_dict(h5_input))
+            inputs.append(cls._read_h5_dict(h5_input, ('type', 'name')))
 
         if 'layers' not in h5_arch:
             raise IncompatibleStateError(
@@ -75,7 +75,8 @@ class Architecture(object):
         layer_ids = [int(x) for x in h5_layers.keys()]
         for layer_id in sorted(layer_ids):
             h5_layer = h5_layers[str(layer_id)]
-            layers.append(cls._read_h5_dict(h5_layer))
+            layers.append(
+                cls._read_h5_dict(h5_layer, ('type', 'name', 'inputs')))
 
         if 'output_layer' not in h5_arch.attrs:
             raise IncompatibleStateError(
@@ -83,6 +84,9 @@ class Architecture(object):
                 "neural network state.")
         output_layer = h5_arch.attrs['output_layer']
 
+        if not inputs or not layers:
+            raise IncompatibleStateError(
+                "Neural network state contains no inputs or layers.")
         return cls(inputs, layers, output_layer)
 
     @classmethod
@@ -258,7 +262,7 @@ class Architecture(object):
                     self.output_layer, h5_value))
 
     @staticmethod
-    def _read_h5_dict(h5_dict):
+    def _read_h5_dict(h5_dict, required=()):
         """Reads a dictionary from a HDF5 file.
 
         The dictionary can store strings, which are represented as HDF5
@@ -268,6 +272,10 @@ class Architecture(object):
         :type h5_dict: h5py.Group
         :param h5_dict: The HD5 group that stores a dictionary of strings in its
                         attributes
+
+        :type required: iterable of strs
+        :param required: an ``IncompatibleStateError`` will be raised if one of
+                         these is missing
         """
 
         result = dict()
@@ -279,6 +287,11 @@ class Architecture(object):
             for value_id in sorted(h5_values.attrs.keys(), key=int):
                 values.append(h5_values.attrs[value_id])
             result[variable] = values
+        for variable in required:
+            if variable not in result:
+                raise IncompatibleStateError(
+                    "'{}' is missing from an architecture element in neural "
+                    "network state.".format(variable))
         return result
 
     @staticmethod
-- 
2.43.0


From 9507adfa0fc5f5aadd3c135b547aa93893c715d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:10 +0000
Subject: [PATCH 45/52] fix: architecture check accepted different networks

---
 theanolm/network/architecture.py | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/theanolm/network/architecture.py b/theanolm/network/architecture.py
index f73f31d..d768705 100644
--- a/theanolm/network/architecture.py
+++ b/theanolm/network/architecture.py
@@ -237,6 +237,7 @@ class Architecture(object):
                 "Architecture parameter 'inputs' is missing from neural "
                 "network state.")
         h5_inputs = h5_arch['inputs']
+        self._check_h5_names(h5_inputs, range(len(self.inputs)))
         for input_id, input_value in enumerate(self.inputs):
             h5_input = h5_inputs[str(input_id)]
             self._check_h5_dict(h5_input, input_value)
@@ -246,6 +247,7 @@ class Architecture(object):
                 "Architecture parameter 'layers' is missing from neural "
                 "network state.")
         h5_layers = h5_arch['layers']
+        self._check_h5_names(h5_layers, range(len(self.layers)))
         for layer_id, layer in enumerate(self.layers):
             h5_layer = h5_layers[str(layer_id)]
             self._check_h5_dict(h5_layer, layer)
@@ -319,7 +321,25 @@ class Architecture(object):
                 h5_group.attrs[variable] = values
 
     @staticmethod
-    def _check_h5_dict(h5_group, variables):
+    def _check_h5_names(h5_names, names):
+        """Checks that the members or attributes of a HDF5 group are the
+        expected ones and raises an ``IncompatibleStateError`` if not.
+
+        :type h5_names: h5py.Group or h5py.AttributeManager
+        :param h5_names: the group or its attributes
+
+        :type names: iterable
+        :param names: names that should exist
+        """
+
+        difference = set(h5_names.keys()) ^ set(str(x) for x in names)
+        if difference:
+            raise IncompatibleStateError(
+                "Neural network state and this architecture differ in '{}'."
+                .format("', '".join(sorted(difference))))
+
+    @classmethod
+    def _check_h5_dict(cls, h5_group, variables):
         """Checks that a dictionary matches a HDF5 group and raises an
         ``IncompatibleStateError`` if not.
 
@@ -336,6 +356,10 @@ class Architecture(object):
                           strings
         """
 
+        cls._check_h5_names(h5_group.attrs,
+                            [variable for variable, value in variables.items()
+                             if not isinstance(value, list)])
+
         for variable, values in variables.items():
             if isinstance(values, list):
                 # For backward compatibility. Remove at some point.
@@ -347,7 +371,12 @@ class Architecture(object):
                             "Neural network state does not specify devices, "
                             "while this architecture uses {}."
                             .format(', '.join(str(x) for x in values)))
+                if variable not in h5_group:
+                    raise IncompatibleStateError(
+                        "Neural network state does not specify {}."
+                        .format(variable))
                 h5_values = h5_group[variable]
+                cls._check_h5_names(h5_values.attrs, range(len(values)))
                 for value_id, value in enumerate(values):
                     h5_value = h5_values.attrs[str(value_id)]
                     if value != h5_value:
-- 
2.43.0


From 9364af01389e8ef173b938eb3cd0a1764e664c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:30 +0000
Subject: [PATCH 46/52] fix: training a disconnected network failed with
 UnboundLocalError

---
 theanolm/commands/train.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/theanolm/commands/train.py b/theanolm/commands/train.py
index 74376d3..c464b23 100644
--- a/theanolm/commands/train.py
+++ b/theanolm/commands/train.py
@@ -441,6 +441,7 @@ def train(args):
                   "parameters are disconnected from the output. Make sure all "
                   "the layers are correctly connected in the network "
                   "architecture. The error message was: `{}´".format(e))
+            sys.exit(1)
 
         if args.print_graph:
             print("Cost function computation graph:")
-- 
2.43.0


From f82195dd4f98a74d9c1185d19f35e37bcba0736a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:56 +0000
Subject: [PATCH 47/52] fix: training overwrote a model that has no training
 state

---
 theanolm/training/trainer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/theanolm/training/trainer.py b/theanolm/training/trainer.py
index feaef49..e45c664 100644
--- a/theanolm/training/trainer.py
+++ b/theanolm/training/trainer.py
@@ -178,6 +178,8 @@ class Trainer(object):
                 self._candidate_state.filename))
             sys.stdout.flush()
             self._reset_state()
+        elif 'layers' in self._candidate_state:
+            raise IncompatibleStateError("Training state is missing.")
         else:
             self._candidate_index = None
             self.epoch_number = 1
-- 
2.43.0


From 8d555527310a569807a3f18ff9b7ce821b26e59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:41 +0000
Subject: [PATCH 48/52] fix: store the language model scale and word insertion
 penalty of decoding in rescored lattices

With --log-base, the penalty was written in that base, although lattices are
written using natural logarithms. When not given on the command line, the scale
and the penalty of the original lattice were lost.
---
 theanolm/commands/decode.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/theanolm/commands/decode.py b/theanolm/commands/decode.py
index f8ddd0b..f5c021b 100644
--- a/theanolm/commands/decode.py
+++ b/theanolm/commands/decode.py
@@ -247,8 +247,11 @@ def decode(args):
                                                final_tokens,
                                                recomb_tokens,
                                                network.vocabulary)
-            rescored_lattice.lm_scale = args.lm_scale
-            rescored_lattice.wi_penalty = args.wi_penalty
+            # Lattices are written using natural logarithms.
+            rescored_lattice.lm_scale = \
+                lattice.lm_scale if args.lm_scale is None else args.lm_scale
+            rescored_lattice.wi_penalty = \
+                lattice.wi_penalty if wi_penalty is None else wi_penalty
             if args.output == "slf":
                 rescored_lattice.write_slf(args.output_file)
             else:
-- 
2.43.0


From ee5891774c7a0c705f705d031cc8297bb27979c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:40 +0000
Subject: [PATCH 49/52] fix: pruning n-gram counts failed with a NameError

---
 recipes/common/ngramcounts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipes/common/ngramcounts.py b/recipes/common/ngramcounts.py
index 6747d1c..7bd72e2 100644
--- a/recipes/common/ngramcounts.py
+++ b/recipes/common/ngramcounts.py
@@ -62,7 +62,7 @@ class NGramCounts:
 	def prune_count(self, n):
 		prune = [ngram for ngram, count in self.__counts.items() if count <= n]
 		for ngram in prune:
-			del mydict[ngram]
+			del self.__counts[ngram]
 
 	def num_contained(self, other):
 		result = 0
-- 
2.43.0


From 7c4d04c7fccbbf38a1aaa1b9815b9c00418979cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:40 +0000
Subject: [PATCH 50/52] fix: the Kaldi n-best script rejected its documented
 four arguments

---
 kaldi/utils/theanolm_compute_scores.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaldi/utils/theanolm_compute_scores.sh b/kaldi/utils/theanolm_compute_scores.sh
index 7044a7a..d444df3 100755
--- a/kaldi/utils/theanolm_compute_scores.sh
+++ b/kaldi/utils/theanolm_compute_scores.sh
@@ -21,7 +21,7 @@ then
     exit 1
 fi
 
-if [ "${#}" -ne 5 ]
+if [ "${#}" -ne 4 ]
 then
     echo "Usage: ${script_name} <nnlm> <temp-dir> <input-text> <output-scores>"
     exit 1
-- 
2.43.0


From eab8bddc514f7c7c87ea32cb980f91032d02ff39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:40 +0000
Subject: [PATCH 51/52] fix: the Kaldi n-best script scored the utterance ID of
 empty hypotheses

---
 kaldi/utils/theanolm_compute_scores.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaldi/utils/theanolm_compute_scores.sh b/kaldi/utils/theanolm_compute_scores.sh
index d444df3..1732d98 100755
--- a/kaldi/utils/theanolm_compute_scores.sh
+++ b/kaldi/utils/theanolm_compute_scores.sh
@@ -42,7 +42,7 @@ do
 done
 
 mkdir -p "${temp_dir}"
-cut -d' ' -f2- "${text_in}" |
+sed 's/^[^ ]* *//' "${text_in}" |
   awk '$1 != "<s>" { print "<s>", $0 }' |
   awk '$NF != "</s>" { print $0, "</s>" }' \
   >"${temp_dir}/text"
-- 
2.43.0


From 3d29f2475c567a21ec9c25e9b8469b5c35baac99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:40 +0000
Subject: [PATCH 52/52] fix: the Kaldi n-best script lost hypotheses with
 sentence markers

---
 kaldi/utils/theanolm_compute_scores.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kaldi/utils/theanolm_compute_scores.sh b/kaldi/utils/theanolm_compute_scores.sh
index 1732d98..a0d2459 100755
--- a/kaldi/utils/theanolm_compute_scores.sh
+++ b/kaldi/utils/theanolm_compute_scores.sh
@@ -43,8 +43,8 @@ done
 
 mkdir -p "${temp_dir}"
 sed 's/^[^ ]* *//' "${text_in}" |
-  awk '$1 != "<s>" { print "<s>", $0 }' |
-  awk '$NF != "</s>" { print $0, "</s>" }' \
+  awk '{ if ($1 == "<s>") print $0; else print "<s>", $0 }' |
+  awk '{ if ($NF == "</s>") print $0; else print $0, "</s>" }' \
   >"${temp_dir}/text"
 cut -d' ' -f1 "${text_in}" >"${temp_dir}/ids"
 
-- 
2.43.0

