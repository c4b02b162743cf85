"""Writes properties.jsonl (kept as a script so that the texts stay readable)."""
import json, os

P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files,
                          'state': [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          'mechanism': [dict(name=n, where=w) for n, w in mechanism],
                          'observe_at': observe, 'hook_needed': None}})

V = 'theanolm/vocabulary/vocabulary.py'
prop('C01', 'Vocabulary gives one consistent word-ID-class mapping',
 'However a vocabulary is created (word list, class file, SRILM class file, word counts, or a saved model), every word gets exactly one ID, IDs are consecutive from zero, shortlist words come before out-of-shortlist words, and the special tokens <s>, </s> and <unk> always exist. '
 'Every shortlist word belongs to exactly one class, words share a class exactly when the input says so, and words outside the vocabulary (and, where a class is needed, outside the shortlist) map to <unk>. '
 'Malformed or ambiguous vocabulary files (wrong number of fields, repeated words) are rejected with an input error.',
 ['inputs', 'configurations'], 'for all vocabulary files in every format, word count tables, numbers of classes and sets of out-of-shortlist words',
 'Unit tests use two or three fixed ten-word vocabularies; the guarantee is over every file, class labelling, special-token placement and Unicode word form.',
 [V, 'theanolm/vocabulary/wordclass.py', 'theanolm/commands/train.py'],
 [('Vocabulary.from_file', V), ('Vocabulary.from_word_counts', V), ('words_to_ids / get_class_memberships', V), ('_add_special_tokens', V)],
 ['Vocabulary public methods and attributes', 'theanolm train (vocabulary stored in the model)'],
 [('id_to_word', 'word of each ID', V), ('word_id_to_class_id', 'class of each shortlist word', V)])

prop('C02', 'Class membership and out-of-shortlist probabilities are distributions',
 'Within every word class the membership probabilities are non-negative and sum to one, and equal the word counts (or the given probabilities) normalised inside the class, uniform when nothing in the class was observed; special tokens never get zero membership probability from counts. '
 'The out-of-shortlist factors are one for shortlist words and sum to one over out-of-shortlist words in proportion to their counts, and unigram and class probabilities are the normalised counts.',
 ['inputs', 'configurations'], 'for all word counts (including zeros and unseen words), class assignments and out-of-shortlist sets',
 'Tests check a few hand-picked values of one vocabulary; normalisation has to hold for all count tables, also zero counts and single-word classes.',
 [V, 'theanolm/vocabulary/wordclass.py'],
 [('Vocabulary.compute_probs', V), ('WordClass.normalize_probs', 'theanolm/vocabulary/wordclass.py'), ('Vocabulary.get_oos_probs / get_class_probs', V)],
 ['get_word_prob, get_class_memberships, get_oos_probs, get_class_probs'],
 [('_unigram_probs', 'unigram probability of each word ID', V)])

prop('C03', 'A saved model reloads to the same model',
 'Loading a model file that was written by training gives the same vocabulary (words, IDs, classes, unigram probabilities, and membership probabilities up to rounding), the same architecture and bit-identical parameters, so every score computed with the loaded model equals the score before saving (up to rounding). '
 'This also holds when a state is saved repeatedly into the same file: the file then describes exactly the last saved state.',
 ['inputs', 'configurations', 'histories'], 'for all vocabularies, architectures with any number of layers and layer inputs, parameter values, and sequences of saves into one file',
 'Tests save and load one tiny vocabulary and never an architecture with many layers, repeated saves, or optimizer state.',
 [V, 'theanolm/network/architecture.py', 'theanolm/backend/parameters.py', 'theanolm/network/network.py'],
 [('Vocabulary.get_state / from_state', V), ('Architecture.get_state / from_state', 'theanolm/network/architecture.py'), ('Parameters.get_state / set_state', 'theanolm/backend/parameters.py'), ('Network.from_file', 'theanolm/network/network.py')],
 ['HDF5 file contents', 'Network.from_file', 'TextScorer on the reloaded network'])

prop('C04', 'Text readers deliver every sentence exactly once and intact',
 'Reading texts in order delivers every non-empty line exactly once, in order, as <s> words </s> with each word mapped to its ID, split into pieces of at most the maximum length only when a line is longer; nothing is lost, duplicated or moved between sentences, except pieces shorter than two words that cannot be used for prediction. '
 'In every mini-batch the mask marks exactly the real words as a prefix of each column, batches hold at most the configured number of sequences, and file IDs or word texts belong to the words at the same positions. '
 'The stated number of batches matches what iteration yields, and repeated passes give identical data.',
 ['inputs', 'configurations'], 'for all text files (empty lines, Unicode, explicit sentence markers, missing final newline, several files), batch sizes and maximum sequence lengths',
 'Tests iterate over three small fixed files with two or three batch sizes; loss or duplication depends on line length, batch boundary and file boundary combinations.',
 ['theanolm/parsing/batchiterator.py', 'theanolm/parsing/linearbatchiterator.py', 'theanolm/parsing/scoringbatchiterator.py', 'theanolm/parsing/functions.py'],
 [('BatchIterator.__next__ / _read_sequence / _prepare_batch', 'theanolm/parsing/batchiterator.py'), ('utterance_from_line', 'theanolm/parsing/functions.py')],
 ['batches yielded by LinearBatchIterator and ScoringBatchIterator'],
 [('_buffer', 'sentences waiting to be batched', 'theanolm/parsing/batchiterator.py')])

prop('C05', 'Each training epoch delivers its sample of sentences exactly once',
 'One pass of the shuffling reader delivers every sentence of the sampled subset exactly once, in a random order that changes between passes; with sampling fractions, each file contributes the configured fraction of its sentences without repetition, and with full sampling every sentence of every file is delivered. '
 'Every sequence carries the ID of the file it came from.',
 ['inputs', 'configurations', 'histories'], 'for all sets of training files, sampling fractions, batch sizes, sequence length limits, random seeds and numbers of passes',
 'Tests run one pass over three fixed files; exactly-once depends on line offsets, file boundaries, sampling rounding and reset history.',
 ['theanolm/parsing/shufflingbatchiterator.py', 'theanolm/parsing/functions.py', 'theanolm/parsing/batchiterator.py'],
 [('SentencePointers', 'theanolm/parsing/shufflingbatchiterator.py'), ('ShufflingBatchIterator._reset / _readline', 'theanolm/parsing/shufflingbatchiterator.py'), ('find_sentence_starts', 'theanolm/parsing/functions.py')],
 ['batches yielded by ShufflingBatchIterator'],
 [('_order', 'permutation of the sentence indices of this epoch', 'theanolm/parsing/shufflingbatchiterator.py')])

prop('C06', 'Interrupted training resumes from exactly the saved state',
 'A training state saved at any update holds everything needed to continue: after restoring it, the remaining sentences of the epoch are delivered exactly once, and parameters, optimizer state, learning rate, epoch and update numbers and validation history continue as if training had not been interrupted (apart from drawing new random numbers). '
 'Whatever the moment training is killed, the model file on disk is, once a first state has been saved, a complete, loadable model that training (or scoring) can start from (a single write of the operating system being taken as all or nothing).',
 ['histories', 'crash_points', 'configurations'], 'for all save and kill points, optimizers, and training histories',
 'Tests restore an iterator once at one position; no test saves and restores a training run, and the crash point is a quantifier no test samples.',
 ['theanolm/training/trainer.py', 'theanolm/training/basicoptimizer.py', 'theanolm/parsing/shufflingbatchiterator.py', 'theanolm/backend/parameters.py', 'theanolm/commands/train.py'],
 [('Trainer.get_state / _reset_state / initialize', 'theanolm/training/trainer.py'), ('BasicOptimizer.get_state / set_state', 'theanolm/training/basicoptimizer.py'), ('ShufflingBatchIterator.get_state / set_state', 'theanolm/parsing/shufflingbatchiterator.py')],
 ['batches after restore', 'parameters after restore plus further updates', 'model file on disk'])

prop('C07', 'Network output is a probability distribution with matching target probs',
 'For every context the output class probabilities are non-negative, finite and sum to one (for a hierarchical softmax whose tree has unused leaves, to at most one), and the probability reported for a target class equals that class\'s entry of the distribution. '
 'When the unknown word is excluded its probability is zero, and the rest is still normalised.',
 ['inputs', 'configurations'], 'for all architectures, output layers, parameter values (also extreme), vocabulary sizes and input sequences',
 'Tests never evaluate the output distribution of a network; normalisation depends on vocabulary size, tree shape, excluded words and numeric range.',
 ['theanolm/network/softmaxlayer.py', 'theanolm/network/hsoftmaxlayer.py', 'theanolm/network/samplingoutputlayer.py', 'theanolm/network/network.py'],
 [('SoftmaxLayer', 'theanolm/network/softmaxlayer.py'), ('HSoftmaxLayer', 'theanolm/network/hsoftmaxlayer.py'), ('Network.output_probs / target_probs', 'theanolm/network/network.py')],
 ['Network.output_probs(), Network.target_probs() evaluated on real batches'])

prop('C08', 'Predictions never depend on the word predicted or on later words',
 'The distribution predicted at a position of a sequence is a function of the preceding words (and sentence position) only: changing the target word or anything after it does not change it, and with a bidirectional layer, which may look ahead, the target word itself still has no influence (when no other layer of the network remembers words). '
 'No information crosses between the sequences of a mini-batch.',
 ['inputs', 'configurations'], 'for all architectures built from the provided layers, parameters, sequences and positions',
 'No test perturbs inputs; leaking the future silently lowers perplexity and every fixed-value test would have to be rebuilt from the same wrong network.',
 ['theanolm/network/network.py', 'theanolm/network/bidirectionallayer.py', 'theanolm/network/glulayer.py', 'theanolm/network/lstmlayer.py', 'theanolm/network/grulayer.py', 'theanolm/backend/operations.py'],
 [('GLULayer causal padding', 'theanolm/network/glulayer.py'), ('BidirectionalLayer', 'theanolm/network/bidirectionallayer.py'), ('time-step scan', 'theanolm/network/lstmlayer.py')],
 ['Network.output_probs() on pairs of inputs that differ after a position'])

prop('C09', 'Sentence scores do not depend on batching, padding or order',
 'The log probability of each word of a sentence is the same whether the sentence is scored alone, inside any mini-batch with longer or shorter sentences, in any position or order, or through any of the scoring interfaces (batch, sequence, line, corpus perplexity). '
 'Perplexity is the exponential of the negative mean of those same log probabilities over the scored words.',
 ['inputs', 'configurations'], 'for all models, texts, batch sizes and orders',
 'The scorer tests replace the network by a stub with a fixed output; batch independence of the real layers is never exercised.',
 ['theanolm/scoring/textscorer.py', 'theanolm/parsing/scoringbatchiterator.py', 'theanolm/network/lstmlayer.py', 'theanolm/network/grulayer.py', 'theanolm/network/bidirectionallayer.py', 'theanolm/network/glulayer.py'],
 [('TextScorer.score_batch / score_sequence / score_line / compute_perplexity', 'theanolm/scoring/textscorer.py'), ('mask handling in recurrent layers', 'theanolm/network/lstmlayer.py')],
 ['per-word log probabilities and perplexity returned by the scorer'])

prop('C10', 'Step-by-step decoding equals whole-sequence scoring',
 'Feeding a word sequence one word at a time while carrying the recurrent state gives the same word probabilities as presenting the whole sequence at once, and a hypothesis\' neural network log probability in decoding equals the score of its word sequence. '
 'States of different hypotheses evaluated together do not affect each other.',
 ['inputs', 'configurations', 'histories'], 'for all recurrent and feed-forward architectures that support it, parameters, sequences and groupings of hypotheses',
 'Decoder tests use a stub or fixed weights; equivalence of the two network modes over architectures and state handling is not tested.',
 ['theanolm/network/network.py', 'theanolm/network/recurrentstate.py', 'theanolm/network/lstmlayer.py', 'theanolm/network/grulayer.py', 'theanolm/scoring/latticedecoder.py', 'theanolm/textsampler.py'],
 [('RecurrentState.get / set / combine_sequences', 'theanolm/network/recurrentstate.py'), ('LatticeDecoder._append_word', 'theanolm/scoring/latticedecoder.py')],
 ['probabilities from the single-step network', 'nn_lm_logprob of decoded tokens'])

prop('C11', 'Word probabilities normalise and unknown words are counted as configured',
 'For every context, class probability times membership probability (times the out-of-shortlist factor when a shortlist is used) is a proper distribution over the vocabulary. '
 'Unknown and out-of-shortlist words are either scored with exactly that probability or left out of both the sum and the word count, as configured, and the reported number of scored words is the number of scored tokens.',
 ['inputs', 'configurations'], 'for all models, vocabularies with or without classes and shortlist, unknown-word settings and texts',
 'Scorer tests use one stubbed distribution; the accounting has many setting and token combinations, and normalisation is never summed over a vocabulary.',
 ['theanolm/scoring/textscorer.py', V, 'theanolm/parsing/scoringbatchiterator.py'],
 [('TextScorer scoring function', 'theanolm/scoring/textscorer.py'), ('Vocabulary.get_oos_probs', V), ('ScoringBatchIterator._prepare_batch', 'theanolm/parsing/scoringbatchiterator.py')],
 ['log probabilities from the scorer for every word of the vocabulary', 'compute_perplexity'])

prop('C12', 'The score command reports figures consistent with the model',
 'For any input text the score command reports the sentence, word and token counts of the text, and its per-word scores, per-utterance scores, totals, cross entropies and perplexities are consistent with each other and with the model\'s own log probabilities in the requested log base. '
 'Subword units are merged so that every word\'s log probability is the sum over its parts and unknown parts make the whole word unknown.',
 ['inputs', 'configurations'], 'for all texts (including empty and all-unknown ones), output formats, log bases, subword markings and unknown-word settings',
 'One test covers subword merging on a few tokens; the command output is not tested at all.',
 ['theanolm/commands/score.py', 'theanolm/scoring/textscorer.py'],
 [('_score_text / _score_utterances / _write_word_scores', 'theanolm/commands/score.py'), ('_merge_subwords', 'theanolm/commands/score.py')],
 ['text written by the score command'])

prop('C13', 'Unpruned lattice decoding returns exactly the true n-best list',
 'Without pruning, decoding a word lattice returns every distinct word sequence of the lattice exactly once, best first, with the score of its best path: the acoustic score plus the scaled interpolated language model score plus word insertion penalties, with the word and unknown-word treatment that was configured. '
 'The best hypothesis is therefore the true maximum over all paths of the lattice, and decoding the same lattice again gives the same result.',
 ['inputs', 'configurations'], 'for all acyclic lattices (null links, parallel links, out-of-vocabulary words), models and weights',
 'Tests decode two fixed lattices and compare a few tokens; the maximum is over exponentially many paths.',
 ['theanolm/scoring/latticedecoder.py', 'theanolm/scoring/lattice.py'],
 [('LatticeDecoder.decode / _propagate / _append_word / _handle_unk_logprob', 'theanolm/scoring/latticedecoder.py'), ('Token.recompute_total', 'theanolm/scoring/latticedecoder.py'), ('Lattice.sorted_nodes', 'theanolm/scoring/lattice.py')],
 ['final tokens returned by decode()', 'theanolm decode output'])

prop('C14', 'Pruning and recombination only discard hypotheses they may discard',
 'With pruning or recombination enabled, every returned hypothesis is a genuine path with exactly the score it has without pruning, at least one hypothesis always survives, and the returned list is ordered. '
 'Token limits keep the best-scoring hypotheses of a node, a beam discards only hypotheses worse than the best by at least the beam, recombination merges only hypotheses with identical recent words and keeps the better one, and limits that exceed what the lattice needs change nothing.',
 ['inputs', 'configurations'], 'for all lattices, beams, token limits, recombination orders and relative-pruning settings',
 'Tests try three settings on one lattice; soundness is over the interplay of lattice shape, score order and limits.',
 ['theanolm/scoring/latticedecoder.py', 'theanolm/commands/decode.py'],
 [('LatticeDecoder._prune / _sorted_recombined_tokens', 'theanolm/scoring/latticedecoder.py'), ('decode command options', 'theanolm/commands/decode.py')],
 ['final and recombined tokens returned by decode() under different limits'])

prop('C15', 'Lattice files are read faithfully or rejected',
 'Reading a lattice file (SLF or Kaldi format) gives exactly the nodes, links, words, times and scores the file describes, with words on links, in the declared log base, and nodes sorted so that every link goes forward. '
 'A malformed file (missing or wrong fields, undeclared nodes, wrong counts) is rejected with an input error instead of being misread.',
 ['inputs', 'configurations'], 'for all well-formed and malformed lattice files, header options, quoting and field orders',
 'Tests read three fixed example files; fidelity over field combinations, log bases and error cases is not sampled.',
 ['theanolm/scoring/slflattice.py', 'theanolm/scoring/kaldilattice.py', 'theanolm/scoring/lattice.py'],
 [('SLFLattice reader', 'theanolm/scoring/slflattice.py'), ('KaldiLattice reader', 'theanolm/scoring/kaldilattice.py')],
 ['Lattice object after reading', 'paths of the lattice'])

prop('C16', 'Rescored lattices contain the decoded hypotheses with their scores',
 'For a determinised input lattice, the rescored lattice contains every hypothesis that decoding kept, and only word sequences of the original lattice; following a kept hypothesis through it gives the acoustic score of the hypothesis and the sum of its lattice and neural network language model scores. '
 'Writing the lattice in SLF or Kaldi text form and reading it back preserves nodes, words, and scores; an SLF file that theanolm decode writes also carries the language model scale and word insertion penalty that were used, in the same (natural) logarithms as the scores.',
 ['inputs', 'configurations'], 'for all determinised lattices, models, pruning and recombination settings, and both output formats',
 'One test compares a rescored lattice for one fixed input; path sets and write-read fidelity over lattice shapes are not tested.',
 ['theanolm/scoring/rescoredlattice.py', 'theanolm/scoring/lattice.py', 'theanolm/commands/decode.py'],
 [('RescoredLattice', 'theanolm/scoring/rescoredlattice.py'), ('Lattice.write_slf / write_kaldi', 'theanolm/scoring/lattice.py')],
 ['paths of the rescored lattice', 'files written by theanolm decode'])

prop('C17', 'Parallel decoding jobs together process every lattice exactly once',
 'When a batch of lattices is split between any number of jobs, every lattice is decoded by exactly one job, with its own utterance ID and in input order within the job; running a single job processes all of them. '
 'Lattice lists, command-line lattices and compressed files are all included, and a lattice that cannot be read does not silently make others disappear.',
 ['inputs', 'configurations'], 'for all numbers of lattices, jobs and input forms (files, list files, concatenated Kaldi archives)',
 'No test covers lattice batches; the partition has to hold for every (number of lattices, number of jobs) pair.',
 ['theanolm/scoring/latticebatch.py', 'theanolm/commands/decode.py'],
 [('LatticeBatch', 'theanolm/scoring/latticebatch.py')],
 ['lattices and utterance IDs yielded by each job', 'theanolm decode output of all jobs'])

prop('C18', 'Score interpolation is numerically faithful',
 'Linear interpolation of two log probabilities equals the log of the weighted mean of the probabilities and log-linear interpolation equals the weighted sum, for every weight including zero and one and for log probabilities of any magnitude including minus infinity, without overflow, underflow or NaN. '
 'A weight of one (zero) returns exactly the first (second) model.',
 ['inputs'], 'for all pairs of log probabilities and all weights in [0, 1]',
 'Tests compare a handful of points; faithful numerics is a claim about the whole range, with extremes where naive formulas fail.',
 ['theanolm/backend/probfunctions.py', 'theanolm/scoring/latticedecoder.py'],
 [('interpolate_linear / interpolate_loglinear', 'theanolm/backend/probfunctions.py')],
 ['return values of the interpolation functions', 'token total scores'])

prop('C19', 'Training keeps the best validated model and follows its schedule',
 'The state kept as the result of training is always the one with the best validation result accepted so far: a new state replaces it only when validation improved, and after too many validations without improvement training returns to it and anneals the learning rate if annealing was chosen. '
 'Validation happens at the configured frequency (given enough updates between validations for the samples they average), training stops exactly when the chosen stopping condition is met (never before the minimum nor after the maximum number of epochs), and without validation data the latest state is kept.',
 ['histories', 'configurations'], 'for all sequences of validation results, patience values, validation frequencies, annealing and stopping methods, and epoch limits',
 'Tests check the schedule arithmetic of one trainer stub; which state survives depends on the whole validation history.',
 ['theanolm/training/trainer.py', 'theanolm/training/stoppers.py'],
 [('Trainer._validate / _set_candidate_state / _decrease_learning_rate', 'theanolm/training/trainer.py'), ('stoppers', 'theanolm/training/stoppers.py')],
 ['model file after training', 'learning rate and candidate cost over a run', 'number of epochs and updates performed'])

prop('C20', 'Optimizers apply their documented update rule to every parameter',
 'After each mini-batch every trainable parameter changes by exactly the documented rule of the chosen optimizer (SGD, Nesterov, AdaGrad, Adadelta, RMSProp-SGD, RMSProp-Nesterov, Adam) given the cost gradient, learning rate and its accumulated state, with the gradient norm limited to the configured maximum. '
 'Per-file weights scale the contribution of each training file, and a mini-batch with no usable words leaves the parameters usable (no NaN).',
 ['inputs', 'configurations', 'histories'], 'for all optimizers, hyperparameters, models, batches and update sequences',
 'Tests run a mock optimizer; no test compares an update with its rule, and accumulated state only shows after several updates.',
 ['theanolm/training/basicoptimizer.py', 'theanolm/training/sgdoptimizer.py', 'theanolm/training/nesterovoptimizer.py', 'theanolm/training/adagradoptimizer.py', 'theanolm/training/adadeltaoptimizer.py', 'theanolm/training/rmspropsgdoptimizer.py', 'theanolm/training/rmspropnesterovoptimizer.py', 'theanolm/training/adamoptimizer.py'],
 [('BasicOptimizer.update_minibatch / _normalize', 'theanolm/training/basicoptimizer.py'), ('_get_param_updates of each optimizer', 'theanolm/training')],
 ['parameter values before and after update_minibatch()'])

prop('C21', 'Training cost is computed from exactly the words it should be',
 'The training cost is the mean over exactly the real, non-excluded target words of the chosen criterion (cross-entropy, noise-contrastive estimation or BlackOut) plus the configured regularisation terms; padding, excluded unknown words and other sequences\' lengths do not contribute. '
 'For cross-entropy this equals the negative mean log probability that scoring reports for the same classes.',
 ['inputs', 'configurations'], 'for all batches, masks, exclusion settings, sampling sharing modes, regularisation weights and models',
 'No test evaluates a cost on a real network; masking mistakes only show on particular padding and exclusion patterns.',
 ['theanolm/training/cost.py', 'theanolm/network/network.py', 'theanolm/network/samplingoutputlayer.py'],
 [('Cost.get_tensor', 'theanolm/training/cost.py'), ('CrossEntropyCost / NCECost / BlackoutCost', 'theanolm/training/cost.py')],
 ['value of the cost tensor on real batches'])

prop('C22', 'Noise samples are valid classes with the probabilities reported for them',
 'Every class drawn for sampling-based training is a valid class ID, the samples follow the configured distribution (uniform, log-uniform, unigram with dampening), and the probability reported for a class is the probability with which it is drawn (by the first draw, for unigram samples, which are drawn without replacement), summing to one over all classes. '
 'The requested number of samples is drawn and shared between words, sequences or the whole batch exactly as configured.',
 ['inputs', 'configurations'], 'for all numbers of classes, distributions, sample counts and sharing modes',
 'Tests draw from three fixed distributions with one seed; validity and agreement of frequencies with reported probabilities concern all supports.',
 ['theanolm/backend/classdistribution.py', 'theanolm/network/network.py', 'theanolm/network/samplingoutputlayer.py'],
 [('UniformDistribution / LogUniformDistribution / MultinomialDistribution', 'theanolm/backend/classdistribution.py'), ('Network.set_sampling / noise_sample', 'theanolm/network/network.py')],
 ['samples and probabilities from the distributions and from the network'])

prop('C23', 'Word class optimisation keeps exact statistics and never loses likelihood',
 'During class optimisation every word is always in exactly one class, the maintained class statistics equal those recomputed from the corpus, the predicted likelihood change of a move equals the actual change, and accepted moves never decrease the corpus log likelihood. '
 'The NumPy and Theano implementations agree, and the class file written can be read back as the same classes with normalised membership probabilities.',
 ['inputs', 'histories', 'configurations'], 'for all corpora, numbers of classes, initialisations and sequences of moves',
 'Tests check one small corpus and selected moves; incremental statistics drift depends on the move history and on zero counts.',
 ['wordclasses/bigramoptimizer.py', 'wordclasses/numpybigramoptimizer.py', 'wordclasses/theanobigramoptimizer.py', 'wordclasses/wctool.py', 'wordclasses/functions.py'],
 [('BigramOptimizer.move_to_best_class / get_words', 'wordclasses/bigramoptimizer.py'), ('_ll_change / _move', 'wordclasses/numpybigramoptimizer.py'), ('wctool main', 'wordclasses/wctool.py')],
 ['class statistics and log likelihood after every move', 'wctool output file'])

prop('C24', 'Generated text follows the model',
 'Sampled sequences begin with sentence start (or the given seed), have the requested number and length, contain only words of the vocabulary, and each next word is drawn from the model\'s distribution given the words before it in the same sequence; words the model gives zero probability never appear, and seed words outside the shortlist count as <unk>. '
 'The sample command prints each sequence as text, ended at the sentence end.',
 ['inputs', 'configurations'], 'for all models, vocabularies (with classes and out-of-shortlist words), seed texts, lengths and numbers of sequences',
 'The sampler test generates from one trained network; agreement with the model distribution is statistical and over contexts.',
 ['theanolm/textsampler.py', 'theanolm/commands/sample.py', V],
 [('TextSampler.generate', 'theanolm/textsampler.py'), ('Vocabulary.class_ids_to_word_ids', V)],
 ['sequences returned by generate()', 'output of theanolm sample'])

prop('C25', 'A fixed random seed makes training and sampling reproducible',
 'Running the same command with the same random seed, inputs and model gives identical results: training produces the same parameters and model, and sampling the same text. '
 'Different seeds lead to different random choices.',
 ['inputs', 'configurations', 'schedules'], 'for all training and sampling configurations with a given seed, across processes',
 'No test runs a command twice; nondeterminism from hashing, unseeded generators or ordering appears only across processes and configurations.',
 ['theanolm/commands/train.py', 'theanolm/commands/sample.py', 'theanolm/network/network.py', V],
 [('--random-seed', 'theanolm/commands/train.py'), ('MRG_RandomStreams seeding', 'theanolm/network/network.py')],
 ['model files and output of separate processes'])

prop('C26', 'Incompatible models and malformed architectures are rejected',
 'A model is used only as it was saved: loading it, or continuing training from it, fails with an incompatible-state error when the vocabulary, architecture, a network parameter or (when continuing) the optimizer, iterator or trainer state is missing, incomplete, of another shape, or belongs to another architecture or training data, and the file is left as it was. '
 'An architecture description with an unknown element, layer type, input type or activation, with a field that has no value, without type, name or input, or with a reference to a layer that is not defined earlier is rejected with an error. Valid states and descriptions are always accepted.',
 ['inputs', 'configurations', 'fault_sequences'], 'for all ways of removing or altering parts of a state or of an architecture description',
 'No test loads a damaged or mismatched state.',
 ['theanolm/network/architecture.py', 'theanolm/backend/parameters.py', V, 'theanolm/network/network.py', 'theanolm/network/basiclayer.py', 'theanolm/training/trainer.py', 'theanolm/training/basicoptimizer.py'],
 [('Architecture.check_state / from_state / from_description', 'theanolm/network/architecture.py'), ('Parameters.set_state', 'theanolm/backend/parameters.py'), ('Vocabulary.from_state', V)],
 ['exceptions raised and state contents afterwards'])

prop('C27', 'Compressed and plain files are interchangeable',
 'Wherever an input or output text file is accepted, giving a gzip-compressed file (recognised by its name) has exactly the same effect as the plain file with the same contents. '
 'Text is UTF-8 in both cases, and standard input and output can be used where a dash is accepted.',
 ['inputs', 'configurations'], 'for all commands, file arguments and text contents',
 'Tests open a few plain files; equivalence has to hold for every file argument and content.',
 ['theanolm/backend/filetypes.py', 'theanolm/commands/train.py', 'theanolm/commands/score.py', 'theanolm/commands/decode.py', 'theanolm/parsing/shufflingbatchiterator.py'],
 [('TextFileType / BinaryFileType', 'theanolm/backend/filetypes.py')],
 ['results of commands with plain and compressed files'])

prop('C28', 'Layers compute their documented function of the stored parameters',
 'Given the parameters stored in a model file, each layer (projection, fully connected, LSTM, GRU, GLU, highway, addition, bidirectional, dropout at test time, softmax, hierarchical softmax) computes its documented function, so that an independent implementation reading the same file obtains the same word probabilities. '
 'Layer sizes, connections and options follow the architecture description.',
 ['inputs', 'configurations'], 'for all architectures composed of the provided layers, parameter values and input sequences',
 'Tests only compare weight-initialisation shapes and convolution; the function of no layer is compared with an independent computation.',
 ['theanolm/network/basiclayer.py', 'theanolm/network/lstmlayer.py', 'theanolm/network/grulayer.py', 'theanolm/network/glulayer.py', 'theanolm/network/highwaylayer.py', 'theanolm/network/additionlayer.py', 'theanolm/network/projectionlayer.py', 'theanolm/network/bidirectionallayer.py', 'theanolm/network/softmaxlayer.py', 'theanolm/network/hsoftmaxlayer.py', 'theanolm/network/fullyconnectedlayer.py', 'theanolm/network/dropoutlayer.py', 'theanolm/backend/operations.py'],
 [('create_structure of each layer', 'theanolm/network'), ('conv1d', 'theanolm/backend/operations.py')],
 ['Network.output_probs() against a NumPy implementation of the model file'])

prop('C29', 'Corpus statistics conserve every token of the input',
 'Word counts equal the number of occurrences of each word over all input files (sentence markers included once per non-empty line), and bigram counts equal the adjacent pairs within sentences, never across lines or files, with out-of-vocabulary words counted as unknown. '
 'Counting leaves the files readable from the beginning, and does not depend on how the text is divided into files.',
 ['inputs', 'configurations'], 'for all texts, divisions into files and vocabularies',
 'Tests count three fixed files; conservation concerns all texts.',
 ['theanolm/vocabulary/statistics.py', 'theanolm/parsing/functions.py'],
 [('compute_word_counts / BigramStatistics', 'theanolm/vocabulary/statistics.py'), ('utterance_from_line', 'theanolm/parsing/functions.py')],
 ['returned counts', 'file positions'])

prop('C30', 'The train command trains with exactly the settings it is given',
 'A training command uses every setting it is given and the documented default of the others: every mini-batch holds at most the configured number of sequences of at most the configured length, every epoch consists of the sequences of the training files (or the given fraction of each file, in the order the fractions are listed), and every update changes the parameters as the chosen cost function (with its regularisation, unknown word exclusion and noise settings), optimization method, learning rate, momentum, decay rates, stability term, gradient limit and file weights prescribe. '
 'Validation frequency, patience, annealing and stopping follow the given values, and settings that cannot be followed (more weights or sampling fractions than files, more noise samples than classes) are refused before training.',
 ['inputs', 'configurations', 'histories'], 'for all combinations of training options, data and architectures',
 'Tests construct the components directly with fixed options; no test runs the train command, let alone over option combinations.',
 ['theanolm/commands/train.py', 'theanolm/training/basicoptimizer.py', 'theanolm/training/trainer.py', 'theanolm/network/network.py'],
 [('train', 'theanolm/commands/train.py'), ('BasicOptimizer', 'theanolm/training/basicoptimizer.py'), ('Network.set_sampling', 'theanolm/network/network.py')],
 ['mini-batches and parameters of every update', 'costs', 'validations', 'model file', 'exit status'])

prop('C31', 'Dropout acts in training only and preserves expected activations',
 'In training, a dropout layer sets each activation independently to zero with its dropout rate (0.5 when none is given) and divides the others by the pass rate, so that the expected activation is unchanged; a new random choice is made for every evaluation, layer, time step, sequence and unit. '
 'In scoring, decoding and text generation the layer passes its input on unchanged.',
 ['inputs', 'configurations', 'histories'], 'for all dropout rates, positions of dropout layers, batches and evaluations',
 'Tests do not look at dropout masks; independence and rate are properties of many evaluations.',
 ['theanolm/network/dropoutlayer.py', 'theanolm/network/network.py'],
 [('DropoutLayer', 'theanolm/network/dropoutlayer.py')],
 ['inputs and outputs of dropout layers', 'word scores'])

prop('C32', 'Class definition tools keep the classes and estimate probabilities from counts',
 'The class tools of the recipes read class definitions (two or three columns, plain or compressed) and n-gram counts and write every word exactly once, in the class it was given, with its share of the counts of its class (zero without counts), so that the probabilities of a class sum to one; a class without counts keeps the probabilities it had, normalised. The vocabulary accepts what they write as the same classes. '
 'N-gram counts of a text are the numbers of occurrences of every window, and survive writing, reading with limits on order and count, and pruning.',
 ['inputs', 'configurations'], 'for all class definitions, count files and texts',
 'No test runs the recipe tools; the property concerns all definitions and counts.',
 ['recipes/common/fix-class-probabilities.py', 'recipes/common/wordclasses.py', 'recipes/common/ngramcounts.py'],
 [('fix-class-probabilities.py', 'recipes/common/fix-class-probabilities.py'), ('WordClasses', 'recipes/common/wordclasses.py'), ('NGramCounts', 'recipes/common/ngramcounts.py')],
 ['standard output of the script', 'contents of class and count objects'])

prop('C33', 'The Kaldi n-best script gives every hypothesis its own score',
 'For every line of a Kaldi text archive the scoring script writes a line with the same utterance ID, in the same order, and the negated log probability that the model gives to the words of that line between sentence markers, also when the hypothesis is empty or contains the markers already. '
 'It fails, and writes no scores, when an argument or an input file is missing.',
 ['inputs', 'configurations'], 'for all models and archives of hypotheses',
 'No test runs the script; which lines are lost or attributed to another utterance depends on the contents of the archive.',
 ['kaldi/utils/theanolm_compute_scores.sh', 'theanolm/commands/score.py', 'theanolm/scoring/textscorer.py'],
 [('theanolm_compute_scores.sh', 'kaldi/utils/theanolm_compute_scores.sh'), ('_score_utterances', 'theanolm/commands/score.py')],
 ['score archives written by the script', 'exit codes'])

prop('C34', 'Recipe functions run the commands with the settings they are given',
 'The functions of the recipes start training, scoring and class optimisation with exactly the files, options and environment that their settings ask for, in arguments the commands accept, also with spaces in file names. '
 'The vocabulary they select contains exactly the words of all training files (with a minimum count: those that reach it, most frequent first) and an existing one is kept; class optimisation starts from the latest unfinished result or the given classes, sees all training text, and its last result is what remains. A missing required setting is an error and no command is run.',
 ['inputs', 'configurations'], 'for all combinations of settings, training texts and earlier results',
 'No test runs the recipe functions; which settings get lost depends on their combination.',
 ['recipes/common/functions.sh', 'theanolm/commands/train.py', 'theanolm/commands/score.py'],
 [('train / compute_perplexity / select_vocabulary / create_classes', 'recipes/common/functions.sh')],
 ['arguments and environment of the commands started', 'vocabulary and class files written'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
