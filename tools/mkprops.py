"""Writes /verif/properties.jsonl (kept as source so that the file stays regular)."""
import json
P = []


def p(id, title, statement, over, qtext, why, files, mechanism, observe, state=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe,
               "hook_needed": None}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": anchors})


S = 'scrappybara/'
p("C01", "Tokenization never loses, invents or reorders text",
  "For every non-empty text, the tokens read in order contain exactly the non-blank characters of the text, in "
  "order, up to the documented normalisations (typographic quotes become straight, dash runs become one hyphen, a "
  "run of stars between letters becomes one star, a foot or inch mark after a number becomes ft or in). No token is "
  "empty or contains white space, and no internal placeholder ever shows up in the output. Words separated by white "
  "space are never glued together, except initials (words of one or two capitals) around an ampersand, spaced "
  "comparison signs and dot runs.",
  ["inputs"], "every input text (not containing the tokenizer's own reserved placeholder words)",
  "The 38 tokenizer tests compare fixed sentences; the rules are ~50 ordered regex rewrites whose interplay (a URL inside "
  "a URL, ten protected items, a mark next to a placeholder) only shows on unusual texts.",
  [S + "preprocessing/tokenizer.py", S + "preprocessing/sanitization.py"],
  [("ordered regex rewriting with protection placeholders", S + "preprocessing/tokenizer.py Tokenizer.__call__"),
   ("protection and restoration of unsplittable text", S + "preprocessing/tokenizer.py __protect_text"),
   ("white space normalisation", S + "preprocessing/sanitization.py sanitize")],
  ["Tokenizer()(text)"])
p("C02", "Web addresses and smileys survive tokenization as single tokens",
  "A web address (starting with http://, https:// or www., or of the form host.tld/path; no quotes or dashes of the "
  "typographic kind, no trailing or doubled dots) or a common smiley that stands between blanks comes out as "
  "exactly one token, unchanged, whatever else the text contains - including other addresses that share a prefix "
  "with it, are nested in it, or are very numerous.",
  ["inputs"], "every address/smiley and every surrounding text",
  "Tests tokenise one link at a time; collisions between several protected items of one text are never exercised.",
  [S + "preprocessing/tokenizer.py"],
  [("protection patterns and placeholder table", S + "preprocessing/tokenizer.py __protect_text"),
   ("restoration", S + "preprocessing/tokenizer.py Tokenizer.__call__")], ["Tokenizer()(text)"])
p("C03", "Sentence splitting never loses, invents or reorders text",
  "For every text, the tokens of all sentences read in order contain exactly the non-blank characters of the text, in "
  "order, up to the tokenizer's documented normalisations; quoted and bracketed passages reappear complete between their "
  "own delimiters. No internal marker (sentence mark, quote block, bracket block) ever shows up in a sentence.",
  ["inputs"], "every input text (not containing the sentencizer's own reserved marker characters)",
  "The only sentencizer test counts the sentences of one article.",
  [S + "preprocessing/sentencizer.py", S + "preprocessing/tokenizer.py"],
  [("block extraction with index shifting", S + "preprocessing/sentencizer.py __find_blocks"),
   ("block re-insertion", S + "preprocessing/sentencizer.py Sentencizer.__call__")], ["Sentencizer()(text)"])
p("C04", "Sentences break at enders and line breaks, never inside quotes or brackets",
  "Outside quotes and brackets a sentence-ending token (a run of . ? ! :) is always the last token of its sentence, "
  "and every sentence that is not the last of its line ends with such a token or with a passage whose closing quote "
  "follows a full stop. A line break always separates sentences. A passage in double quotes or parentheses within "
  "one line is never spread over several sentences, whatever punctuation it contains.",
  ["inputs"], "every input text", "One test counts sentences of one article; no test looks at boundaries.",
  [S + "preprocessing/sentencizer.py"],
  [("sentence assembling", S + "preprocessing/sentencizer.py __split_sentences"),
   ("newline blocks and closing-quote rule", S + "preprocessing/sentencizer.py Sentencizer.__call__")],
  ["Sentencizer()(text)"])
p("C05", "N-gram counts are exact",
  "For every corpus and every order n, an n-gram is recorded once for each window of n adjacent tokens of one "
  "sentence that are all valid (English letters only and not capitalised, except the word I), lower-cased; windows "
  "never cross sentence boundaries and nothing else is counted.",
  ["inputs"], "every list of sentences and every order",
  "Extraction is only used as set-up code in one smoother test on seven lower-case sentences.",
  [S + "langmodel/ngrams_extraction.py", S + "langmodel/ngram_store.py", S + "utils/text.py"],
  [("sliding windows and token filter", S + "langmodel/ngrams_extraction.py extract_ngrams"),
   ("count store", S + "langmodel/ngram_store.py NgramStore.make_ngram")],
  ["extract_ngrams(token_lists, order)", "NgramStore().ngrams"])
p("C06", "Maximum-likelihood probabilities are a distribution",
  "For every multiset of n-grams, every number of orders and every number of workers, maximum-likelihood smoothing gives "
  "each n-gram its own count divided by the total count of its order; hence the probabilities of each order are positive "
  "and sum to one. An n-gram's log-probability is the logarithm of its probability (minus infinity for zero), and n-grams "
  "compare by probability.",
  ["inputs", "configurations"], "all count vectors, orders and worker counts",
  "Maximum-likelihood smoothing has no test at all.",
  [S + "langmodel/mle_smoother.py", S + "langmodel/smoother.py", S + "utils/multithreading.py"],
  [("totals per order", S + "langmodel/mle_smoother.py MLESmoother.__init__"),
   ("slice-wise division and concatenation", S + "langmodel/smoother.py calc_ngrams_multithread")],
  ["MLESmoother(ngrams, order, workers)().ngrams(n)[i].proba"])
p("C07", "Modified Kneser-Ney probabilities follow the smoothing formula",
  "For every sufficiently rich set of n-gram counts and every number of workers, an n-gram's probability is its "
  "discounted count (never below zero) over the count of its history plus the history's back-off weight times the "
  "probability of the n-gram without its first word, the lower orders being computed from continuation counts, with "
  "discounts selected by count class one, two, three-or-more. Unigram probabilities are the shares of distinct left "
  "contexts and sum to one; data lacking counts one to four for some order above one is refused with the documented "
  "error.",
  ["inputs", "configurations"], "all count tables over the explored n-gram shapes, all worker counts",
  "One test fixes one corpus of seven sentences, order three, one worker.",
  [S + "langmodel/mkn_smoother.py", S + "langmodel/ngram.py", S + "langmodel/smoother.py"],
  [("discounts and wildcard counters", S + "langmodel/mkn_smoother.py _prepare_mkn"),
   ("recursive interpolation", S + "langmodel/mkn_smoother.py _calc_proba_recursive"),
   ("per-order operands", S + "langmodel/mkn_smoother.py __mkn_pack/__mkn_arrays")],
  ["MKNSmoother(ngrams, order, workers)().ngrams(n)[i].proba"])
p("C08", "Parallel map returns every result, in order, or raises",
  "Mapping a function over a list with any number of workers returns exactly the function's results in the order of the "
  "items, for every list length, worker count and thread schedule. If the function fails on some item the call raises "
  "instead of silently returning fewer results. Dividing a list into parts or batches loses, repeats and reorders nothing; a list is divided into parts "
  "of equal size, give or take rounding, never more than asked for, and no batch is empty or over its size.",
  ["inputs", "schedules", "fault_sequences"], "all list lengths, worker counts, batch sizes, schedules and failing items",
  "The parallel helper has no test; its callers are tested with one worker.",
  [S + "utils/multithreading.py", S + "utils/mutables.py"],
  [("thread per slice, joined in order", S + "utils/multithreading.py run_multithreads"),
   ("slicing by evenly spaced marks", S + "utils/mutables.py divide_list"),
   ("batching", S + "utils/mutables.py make_batches")],
  ["run_multithreads(items, f, n)", "divide_list(items, n)", "make_batches(items, n)"])
p("C09", "Language model queries agree with the loaded n-grams",
  "For every set of n-gram files, the model holds exactly the n-grams reaching the minimum count of their order; "
  "membership, counts, best n-gram, best token in context (longest matching context first), next-word and top-n-gram "
  "lists answer according to those counts and probabilities, in descending probability and cut to the limit. Unknown "
  "n-grams never win over known ones and all-unknown candidates give no answer.",
  ["inputs", "configurations"], "all file contents (within bounds), queries, minimum counts and limits",
  "The language model tests need a bigram file that is not shipped and look at a handful of words.",
  [S + "langmodel/language_model.py", S + "langmodel/token_context.py"],
  [("loading with min counts", S + "langmodel/language_model.py LanguageModel.__init__"),
   ("lexicographic comparison of log-probabilities", S + "langmodel/language_model.py best_token")],
  ["LanguageModel(...).best_ngram/best_token/next_word/top_ngrams/has_ngram"])
p("C10", "A language model written to disk loads back unchanged",
  "Building a language model from texts counts every text exactly once whatever the number of workers, and every n-gram "
  "the builder writes is loaded back by the model with the same text, the same count and the same probability up to the "
  "printed precision, listed by descending probability. Loading a written model never fails.",
  ["inputs", "configurations"], "all texts streams, worker counts, counts and probabilities in (0, 1]",
  "No test builds a model; the single builder test checks a constructor error.",
  [S + "langmodel/language_model_builder.py", S + "langmodel/language_model.py"],
  [("batching of the text iterator", S + "langmodel/language_model_builder.py __call__"),
   ("file format", S + "langmodel/language_model_builder.py __write_ngram_file")],
  ["LanguageModelBuilder(n)(texts)", "LanguageModel(...)"])
p("C11", "Context windows around a token are complete",
  "For every token, every left and right context and every order n above one, the candidate n-grams are exactly the "
  "windows of n consecutive tokens that contain the token, from left to right; the left and right n-grams are the token "
  "with all tokens before, respectively after it.",
  ["inputs"], "all contexts and orders", "Four tests use at most two context tokens per side and order at most three.",
  [S + "langmodel/token_context.py"],
  [("context truncation and sliding window", S + "langmodel/token_context.py candidates")],
  ["TokenContext(token, before, after).candidates(order)"])
p("C12", "Lemmas are never invented and re-inflect to the word",
  "For every word and tag, and whatever the language model, irregular tables and adjective list hold, the "
  "lemmatizer returns without failing either the lower-cased word itself with no suffix, a built-in form (of be, "
  "have, do, good, well and clitics), an entry of the irregular tables (which take precedence, also behind a "
  "recognised prefix), or a lemma attested by the language model from which the regular English spelling rule of "
  "the reported suffix yields the word back. The reported suffix always belongs to the word's tag: verb suffixes "
  "for verbs, plural for nouns, degrees for adjectives and adverbs. A regular inflection whose base is the only "
  "attested form is always reduced to that base and suffix, from the minimum lengths given with the rules on: plain endings (s, es, ed, ing, "
  "er, est), doubled final consonants, dropped or kept final e, y to i, ic to ick, f or fe to ves, man to men, "
  "is to es, on to a, us to i, ief to ieves - also when the model knows the base only without one of the listed prefixes.",
  ["inputs", "configurations"], "all words up to the bound, all tags, all language models and irregular tables",
  "The lemmatizer tests cannot run without the bigram file and list single words against one model.",
  [S + "normalization/lemmatizer.py", S + "utils/text.py"],
  [("suffix rules with minimum stem lengths", S + "normalization/lemmatizer.py Lemmatizer.__call__"),
   ("language model consultation", S + "normalization/lemmatizer.py __best_candidate")],
  ["Lemmatizer(...)(word, tag)"])
p("C13", "Spelling standardization only swaps known spelling variants",
  "For every token and language model, standardization returns the token unchanged or the token with one of the "
  "listed British/American alternations applied (our/or, yse/yze, ise/ize, ce/se, ogue/og, ll/l, ae/e, oe/e), the "
  "first applicable alternation with a known variant deciding, and then only to the variant the language model "
  "rates best. A token the model knows well is never changed.",
  ["inputs", "configurations"], "all tokens up to the bound and all language models",
  "Standardizer tests cannot run without the bigram file and list single words.",
  [S + "normalization/standardizer.py"],
  [("alternation rules", S + "normalization/standardizer.py Standardizer.__call__"),
   ("start/middle/end splitting", S + "normalization/standardizer.py _split_token")],
  ["Standardizer(lm)(token)"])
p("C14", "Past participles follow the irregular table or the regular spelling rule",
  "For every non-empty lemma and language model the past participle is the irregular one when listed; otherwise a "
  "lemma ending in e takes d, consonant + y becomes ied, and every other lemma takes ed, with the final consonant "
  "doubled only after a vowel and only when the language model prefers the doubled form. No lemma makes it fail.",
  ["inputs", "configurations"], "all lemmas up to the bound, irregular tables and language models",
  "The one inflector test cannot run without the bigram file and lists six verbs.",
  [S + "normalization/inflector.py"],
  [("ending rules", S + "normalization/inflector.py past_participle")], ["Inflector(lm, table).past_participle(lemma)"])
p("C15", "Any sequence of predictions parses into a single-headed forest",
  "Whatever tags, dependencies and transitions the neural models predict, parsing terminates without failing; every word "
  "gets at most one head, heads never form a cycle, punctuation predicted as out-of-tree is never attached, and the label "
  "of each attachment is the dependency predicted for the child (a predicted root that ends up attached is labelled as a "
  "split). The tree's root is a word without head, or there is no tree when nothing was attached.",
  ["inputs", "histories"], "all sentences up to the bound and all prediction sequences",
  "Parser tests need neural weights that are not available; trained models produce only a sliver of the possible sequences.",
  [S + "syntax/parser.py", S + "utils/tree.py"],
  [("arc-eager transition system", S + "syntax/parser.py _Parse.register_transition"),
   ("root selection and tree construction", S + "syntax/parser.py _Parse.root/_build_tree")],
  ["Parser(...)(token_lists)"])
p("C16", "Transitions deduced from a labelled tree rebuild that tree",
  "For every projective labelled sentence (no crossing arcs, no arc over the root, words outside the tree without "
  "dependents), the transitions deduced for training, when replayed by the parser, produce exactly the labelled "
  "heads and dependencies, visiting the same word pairs. For every labelled tree, projective or not, the root, arcs, "
  "words in the tree, leaves and crossing arcs it reports are those of the labels.",
  ["inputs"], "all projective trees (with out-of-tree tokens interspersed) up to the bound",
  "Five tests list the transitions of five sentences and never replay them.",
  [S + "syntax/labelled_data.py", S + "syntax/parser.py"],
  [("transition oracle", S + "syntax/labelled_data.py LabelledSentence.transitions"),
   ("transition system", S + "syntax/parser.py _Parse")],
  ["LabelledSentence(...).transitions", "Parser(...)(token_lists)"])
p("C17", "Batching and threading never mix up sentences",
  "Parsing many sentences gives each sentence the tags and tree it would get alone, in the input order, with exactly one "
  "tag per token, for every batch size, number of workers and mix of sentence lengths; the stand-alone tagger gives "
  "exactly one tag per token as well.",
  ["inputs", "configurations"], "all batch sizes, worker counts, sentence mixes and model outputs",
  "Needs neural weights; tests parse one sentence at a time.",
  [S + "syntax/parser.py", S + "syntax/tagger.py", S + "utils/mutables.py"],
  [("batch loop and index bookkeeping", S + "syntax/parser.py Parser.__call__"),
   ("tag slicing", S + "syntax/tagger.py Tagger.tag")], ["Parser(...)(token_lists)", "Tagger().tag(token_lists)"])
p("C18", "Sentence vectors keep tokens, characters and labels aligned",
  "For every sentence within the length limit the model inputs have the fixed padded shape; the row of each token "
  "holds its own characters (the last ones when the word is too long; unknown characters share one code no known "
  "character has) between start and end marks, its own word vector, tag and dependency, shifted by exactly one for "
  "the start pad, and zero elsewhere; each word mask selects exactly the requested position. Longer sentences are "
  "refused with the documented error, and shuffled training data keeps the parts of each sample together.",
  ["inputs"], "all sentence lengths, word lengths and characters", "No test touches vectorisation.",
  [S + "syntax/training_samples.py", S + "syntax/charset.py", S + "syntax/wordset.py"],
  [("padding and truncation", S + "syntax/training_samples.py _pad_array/_encode_chars/vectorize_sentence")],
  ["vectorize_sentence(tokens, charset, wordset)", "TransSample(...).training_mats", "make_masks"])
p("C19", "Tree navigation agrees with the registered arcs",
  "After any sequence of arc registrations forming a forest (no word registered twice as a child), parent, "
  "children, labelled children, first labelled child, siblings, labelled ancestors and descendants, node iteration "
  "(the root and all attached words), arc iteration and size all describe exactly the registered arcs, with "
  "children in registration order.",
  ["inputs", "histories"], "all forests, labels and registration orders up to the bound", "The tree has no test of its own.",
  [S + "utils/tree.py", S + "utils/mutables.py"],
  [("parent and child maps", S + "utils/tree.py Tree.register_child")], ["Tree"],
  [("children map", "node to label to ordered children", S + "utils/tree.py"),
   ("parent map", "child to (label, parent)", S + "utils/tree.py")])
p("C20", "Node building keeps every meaningful word and relation",
  "For every conventional dependency tree (flat words form left-to-right chains, particles are leaves), node "
  "building turns each chain of flat words into one node spelling the words in sentence order with the tag and "
  "position of its last word, attaches particles following their verb in order (a preceding to only marks the "
  "infinitive), drops words outside the tree and function words, and keeps the labelled relation between the "
  "remaining words. In every tree each other word of the tree has exactly one node and none is invented.",
  ["inputs"], "all trees, tags and labels up to the bound", "Only reachable through end-to-end tests that cannot run here.",
  [S + "syntax/nodifier.py", S + "utils/tree.py"],
  [("flattening, particles, remaining nodes", S + "syntax/nodifier.py Nodifier.__call__")],
  ["Nodifier()(tokens, tags, tree)"])
p("C21", "Negation of a tuple is the parity of its negated parts",
  "Every extracted tuple is affirmative exactly when an even number of the words it is built from is negated in the "
  "sentence (double negation cancels), and only the tuple's verb carries the negation. The words counted are those "
  "of the tuple, each once, the copula it was stated with, and for a passive form its subjects, which together "
  "count as one that is negated when all of them are.",
  ["inputs"], "all combinations of negated words in all tuple kinds",
  "End-to-end tests cannot run here and sample a few negations.",
  [S + "semantics/semantic_tuple_extractor.py", S + "utils/maths.py", S + "syntax/arg_finder.py"],
  [("parity", S + "utils/maths.py xnor"), ("tuple construction", S + "semantics/semantic_tuple_extractor.py")],
  ["SemanticTupleExtractor(...)(nodes)", "Argument.is_affirmative"])
p("C22", "Logic processing of any parse yields only documented tuples and never fails",
  "For every labelled tree over any tokens and tags, logic processing completes without failing, and every "
  "extracted tuple has one of the documented forms: noun+verb, noun+verb+noun, noun+copula+noun or adjective, "
  "noun+verb+noun+verb, noun+verb+noun+verb+complement, with argument codes matching the words' tags (as corrected "
  "by the noun and adjective lists). Only words of the sentence (as lemmas, compounds or participles) and the "
  "copula be appear in tuples.",
  ["inputs"], "all trees, tags and labels up to the bound", "End-to-end tests cannot run here and sample ~100 sentences.",
  [S + "pipeline/logic_pipeline.py", S + "syntax/arg_finder.py", S + "semantics/semantic_tuple_extractor.py",
   S + "syntax/fixer.py", S + "normalization/canonicalizer.py"],
  [("stage sequence", S + "pipeline/logic_pipeline.py"), ("argument registration", S + "syntax/arg_finder.py"),
   ("tuple construction", S + "semantics/semantic_tuple_extractor.py")],
  ["LogicPipeline(lm).test_sample(token_tuples)", "SemanticTuple.code"])
p("C23", "Coordinated subjects and objects give every combination exactly once",
  "For a clause whose subject, verb and object are coordinated with and/or (the other words depending on the "
  "first), extraction yields the predicate tuple for every pairing of a coordinated subject with a coordinated "
  "object exactly once, the passive tuple for every object (none for have and get), and the intransitive tuple for "
  "every subject when there is no object (none for have, get, be and do). Coordinated verbs without a subject of "
  "their own share the first verb's subjects, and its objects when they have no words of their own.",
  ["inputs"], "all numbers and kinds of conjuncts up to the bound, all tags and negations",
  "End-to-end tests cannot run here and use two conjuncts at most.",
  [S + "syntax/arg_finder.py", S + "semantics/semantic_tuple_extractor.py", S + "syntax/node.py"],
  [("aggregation", S + "syntax/node.py aggreg"), ("registration", S + "syntax/arg_finder.py _register_*"),
   ("cross products", S + "semantics/semantic_tuple_extractor.py")], ["LogicPipeline(lm).test_sample(token_tuples)"])
p("C24", "One document per text, holding exactly that text's sentences",
  "The pipeline returns one document per input text, in order; each document lists exactly the results of its own text's "
  "sentences, in order, for every number of texts (including none), of sentences per text (including none), of cores and "
  "every batch size.",
  ["inputs", "configurations"], "all numbers of texts and sentences per text, cores, batch sizes, gpu flags",
  "Pipeline tests need neural weights and use single texts.",
  [S + "pipeline/pipeline.py", S + "pipeline/logic_pipeline.py", S + "pipeline/document.py", S + "pipeline/sentence.py"],
  [("sentence ranges", S + "pipeline/pipeline.py Pipeline.__call__"),
   ("parallel logic", S + "pipeline/logic_pipeline.py _logic_process")], ["Pipeline(...)(texts)", "Document.stuples"])
p("C25", "Only over-long sentences are re-split or dropped",
  "A sentence within the length limit reaches the parser unchanged. A longer one is cut at splitting punctuation only, "
  "its pieces keep their tokens and order, and pieces are dropped only when they are still too long; no sentence longer "
  "than the limit ever reaches the parser.",
  ["inputs"], "all sentence lengths around the limit and all positions of splitting punctuation",
  "No test contains a sentence longer than the limit.",
  [S + "pipeline/pipeline.py", S + "config.py"],
  [("re-splitting", S + "pipeline/pipeline.py __split_tokens")], ["sentences handed to the parser by Pipeline(...)(texts)"])
p("C26", "Compound nouns are chunked in sentence order, canonical forms follow the tag",
  "When chunking is on, the name of a common-noun head consists of the lemmas of all its bare preceding compound "
  "nouns (and theirs) and itself in sentence order; when it is off only the head noun remains. Object pronouns "
  "become subject pronouns, verbs and adjectives carry their following particles, and past-participle adjectives "
  "carry their active verb.",
  ["inputs"], "all trees of compound nouns, tags and particles up to the bound", "End-to-end tests cannot run here.",
  [S + "syntax/chunker.py", S + "normalization/canonicalizer.py"],
  [("recursive compound collection", S + "syntax/chunker.py _chunk"),
   ("canonical form selection", S + "normalization/canonicalizer.py Canonicalizer.__call__")],
  ["Chunker()(nodes, tree)", "Canonicalizer(lemmatizer)(node)"])
p("C27", "Tuples and arguments render and report themselves consistently",
  "A tuple's code is the concatenation of its arguments' codes, its length, iteration and indexing agree with its "
  "arguments, its text is the code followed by the parenthesised argument texts, negated arguments are marked unless "
  "decorators are switched off, argument tags follow the documented code table and unknown codes are refused. A "
  "document's tuples are its sentences' tuples in order.",
  ["inputs"], "all words, codes, polarities and tuple lengths up to the bound", "No test touches these classes directly.",
  [S + "semantics/argument.py", S + "semantics/semantic_tuple.py", S + "semantics/argument_code.py",
   S + "pipeline/document.py", S + "pipeline/sentence.py"],
  [("code table", S + "semantics/argument_code.py"), ("rendering", S + "semantics/semantic_tuple.py flatten")],
  ["Argument", "SemanticTuple", "Document"])
p("C28", "Neural predictions do not depend on the device",
  "The tags, dependencies and transitions predicted for a sentence are the same on GPU and CPU and the same alone or in "
  "a batch.",
  ["configurations"], "all sentences, weights, devices and batch sizes",
  "Weights are not shipped; floating-point network execution is not covered by any test.",
  [S + "syntax/models.py", S + "pipeline/pipeline.py"], [("TensorFlow model execution", S + "syntax/models.py")],
  ["PTagsModel.predict / PDepsModel.predict / TransModel.predict"])

p("C29", "Tuples follow from the labelled sentence by the argument rules, none missing",
  "The tuples of a labelled sentence are exactly those its arcs give rise to, each once. A relative pronoun (who, which, "
  "that, tagged as pronoun) that is subject or object in an unmarked complement clause of a noun stands for that "
  "noun and the words coordinated with it; a reflexive pronoun stands for the clause's subject, or, as subject of "
  "an object clause, for the main subject. An unmarked complement verb of a noun that has its own subject and no "
  "object takes the noun as object; a marked complement verb of a verb takes that verb's subject when it has none. A "
  "participle gets an active form for every complement introduced by 'by'; a comparison gives the adjective to the "
  "compared noun as well; unmarked adjectives, copula properties, named properties (a man named Tom) and indirect "
  "properties (we call him king) give copula tuples; indirect objects give recipient tuples; clauses "
  "as objects give four- or five-part tuples and are not repeated alone. To-infinitives and verbs that have a property "
  "or existential give no verb tuple of their own.",
  ["inputs"], "all tags, labels, words and optional parts of the covered sentence patterns",
  "End-to-end tests need a file that is not shipped, cannot run here and sample ~100 sentences.",
  [S + "syntax/arg_finder.py", S + "semantics/semantic_tuple_extractor.py", S + "syntax/node.py", S + "syntax/fixer.py"],
  [("argument registration and pronoun resolution", S + "syntax/arg_finder.py ArgFinder.__call__"),
   ("rounds of extraction", S + "semantics/semantic_tuple_extractor.py SemanticTupleExtractor.__call__")],
  ["LogicPipeline(lm).test_sample(token_tuples)"])

p("C30", "Token predicates and text marks are exact and reversible",
  "A token has only letters (only lowercase letters) exactly when it is not empty and every character is an English "
  "(lowercase) letter; starting with a capital, ending with a consonant, ending in a vowel and a doubled consonant, the "
  "part before an ending and the part after a prefix or hyphen are reported exactly when they are there. Function "
  "notation, associated word pairs and attached attributes are read back as they were written, absent parts left out.",
  ["inputs"], "all tokens and parts up to the bound", "None of these helpers has a test.",
  [S + "utils/text.py"],
  [("token predicates", S + "utils/text.py has_only_letters, token_start, token_prefix, vowel_double_consonant_endings"),
   ("text marking", S + "utils/text.py functionalize, associate, attach_attributes and their inverses")],
  ["the functions of utils/text.py"])
p("C31", "Vocabularies and data files give back what was put in",
  "A saved character set loads with a different code, counted from zero, for every supported character and one further "
  "code for all others, its length counting that one too. A saved word set holds exactly the words of the vector file "
  "that the language model knows, each with its own numbers, looked up without regard to case, and zeros for other words. "
  "Word lists and two-column tables load exactly the lines of their file, and pickled data loads as it was saved.",
  ["inputs"], "all characters, word lists, tables and language models up to the bound",
  "No test saves or loads a vocabulary; vectors are not shipped.",
  [S + "syntax/charset.py", S + "syntax/wordset.py", S + "utils/files.py"],
  [("character codes", S + "syntax/charset.py Charset.save / load"), ("word vectors", S + "syntax/wordset.py Wordset.save / load"),
   ("data files", S + "utils/files.py")],
  ["Charset()[char]", "Wordset()[word]", "load_set_from_txt_file", "load_dict_from_txt_file"])

with open('/verif/properties.jsonl', 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
