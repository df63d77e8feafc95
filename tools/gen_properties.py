"""Writes /verif/properties.jsonl (kept as code so that the wording lives in one place)."""
import json, os

D = "torch_struct/distributions.py"
H = "torch_struct/helpers.py"
LC = "torch_struct/linearchain.py"
SM = "torch_struct/semimarkov.py"
DT = "torch_struct/deptree.py"
TC = "torch_struct/cky_crf.py"
CK = "torch_struct/cky.py"
AR = "torch_struct/autoregressive.py"
AL = "torch_struct/alignment.py"
SR = "torch_struct/semirings/semirings.py"
SA = "torch_struct/semirings/sample.py"
CP = "torch_struct/semirings/checkpoint.py"
SP = "torch_struct/semirings/sparse_max.py"
MODELS = [LC, SM, DT, TC, CK]

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, hook=None):
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(
                files=files,
                mechanism=[dict(name=n, where=w) for n, w in mech],
                observe_at=observe,
                hook_needed=hook,
            ),
        )
    )


prop(
    "C01",
    "The log-partition is the exact log-sum over all structures",
    "For every CRF family (linear chain, semi-Markov, projective dependency with single or multiple roots and with or "
    "without labels, binary span tree, context-free grammar), `partition` equals, for each batch item, the log of the "
    "sum over exactly the legal structures of that item of the exponentiated total potential. It holds for every "
    "sentence length, number of states/labels/rules, maximum segment width, batch size and finite potentials of "
    "moderate magnitude, to the precision of the input dtype.",
    ["inputs", "configurations"],
    "all families, shapes, lengths and finite potentials (path totals well inside +-1e5, the library's log-zero)",
    "The suite enumerates at most 3-4 positions, 2-3 states, 2-3 batch items and compares only the first item of the "
    "batch in most tests; single-root and long inputs (several merge levels) are never compared with anything.",
    MODELS + [H, SR, D],
    [("logpartition", "logpartition of each struct class"), ("log-sum-exp algebra", SR + " LogSemiring")],
    ["StructDistribution.partition", "struct(LogSemiring).sum"],
)
prop(
    "C02",
    "Marginals are exact expected part counts",
    "For every CRF family `marginals` equals, for each part of each batch item, the probability (for a grammar: the "
    "expected count of each terminal, rule and root, and the probability of each labelled span) of that part under the "
    "exact distribution. The values are non-negative and obey the family's conservation laws (one transition per step, one "
    "head per word, 2N-1 spans, and so on).",
    ["inputs", "configurations"],
    "all families, shapes, lengths and finite potentials",
    "The suite never compares marginals with an oracle except in a coarse 0.2 comparison with samples of short chains.",
    MODELS + [H, SR, D],
    [("marginals by backpropagation", H + " _Struct.marginals; " + CK + " CKY.marginals"),
     ("root arcs moved to and from the diagonal", DT + " convert/unconvert")],
    ["StructDistribution.marginals"],
)
prop(
    "C03",
    "max and argmax return a best legal structure",
    "For every CRF family `max` is the largest total potential of any legal structure, and `argmax` (and `mode`) is one "
    "legal 0/1 structure whose total potential equals it, including when several structures tie. For a grammar the "
    "returned terminal, rule, root and span counts describe one and the same derivation.",
    ["inputs", "configurations"],
    "all families, shapes, lengths, finite potentials including constant and heavily tied ones",
    "Tests compare the score of argmax with max (both from the code under test) on tiny inputs; legality of the "
    "structure is only checked through round trips, and ties are never produced on purpose.",
    MODELS + [H, SR, D],
    [("max semiring and its gradient", SR + " MaxSemiring"), ("argmax", D + " StructDistribution.argmax")],
    ["StructDistribution.max", "StructDistribution.argmax", "StructDistribution.mode"],
)
prop(
    "C04",
    "kmax and topk return the k best distinct structures in order",
    "For every CRF family and every k, `kmax(k)` lists the k largest total potentials in non-increasing order with "
    "multiplicity, and `topk(k)` lists k pairwise different legal structures with exactly those totals. If an item has "
    "fewer than k structures, the surplus entries of `kmax` carry a total that marks them as impossible (below -5e4).",
    ["inputs", "configurations"],
    "all families, k from 1 to beyond the number of structures, shapes, lengths, ties",
    "Tests use k=2 (k=5 without looking at the result) on 2-3 positions.",
    MODELS + [H, SR, D],
    [("k-best algebra", SR + " KMaxSemiring"), ("raw marginals per rank", H + " _Struct.marginals(_raw=True)")],
    ["StructDistribution.kmax", "StructDistribution.topk"],
)
prop(
    "C05",
    "Every sample is a legal structure of its batch item",
    "For every tensor-valued CRF family and every number n of requested samples, `sample((n,))` returns n x batch x event "
    "0/1 tensors, each of which is one legal structure of its batch item and length and has non-negligible probability. This "
    "holds for each of the n samples, however many are requested.",
    ["inputs", "configurations", "histories"],
    "all families, n from 1 to several refills of the internal sample buffer, shapes, lengths, random states",
    "One test draws 100 samples of short chains and looks only at their mean; no test checks that a sample is a "
    "structure, and no test samples the other families.",
    [SA, D, H] + MODELS,
    [("16 samples packed in the bits of one backward pass", SA + " MultiSampledSemiring"),
     ("unpacking and refilling", D + " StructDistribution.sample")],
    ["StructDistribution.sample"],
)
prop(
    "C06",
    "Samples follow the distribution and are independent",
    "For every tensor-valued CRF family, samples occur with the probabilities the potentials define. Different samples of the "
    "same call, samples of different calls and samples of different batch items are statistically independent.",
    ["inputs", "histories"],
    "all families; random states; positions within one call and batch",
    "The suite compares sample means of short chains with marginals at tolerance 0.2; joint distribution and "
    "independence are never tested.",
    [SA, D],
    [("exact backward sampling", SA + " _MultiSampledLogSumExp"), ("refill every 10 samples", D + " StructDistribution.sample")],
    ["StructDistribution.sample"],
)
prop(
    "C07",
    "log_prob is the normalised log-probability of a structure",
    "For every tensor-valued CRF family and any leading sample shape, `log_prob(z)` equals the total potential of z minus the "
    "exact log-partition of its batch item. Summed over all structures of an item the probabilities are one. For grammars `CKY.score` of a derivation "
    "(counts of its terminal, rule and root uses) equals the total potential of that derivation.",
    ["inputs", "configurations"],
    "all families, zero, one or several leading sample dimensions, shapes, lengths",
    "Only linear chains of at most 4 positions with one leading sample dimension are checked.",
    [D, H],
    [("score", H + " _Struct.score"), ("log_prob", D + " StructDistribution.log_prob")],
    ["StructDistribution.log_prob"],
)
prop(
    "C08",
    "entropy, cross_entropy and kl are exact",
    "For every CRF family `entropy` is the exact Shannon entropy of the distribution over structures; for every tensor-valued "
    "family `cross_entropy(q)` and `kl(q)` are the exact cross-entropy and KL divergence to another distribution of the "
    "same shape. Hence kl is non-negative, zero against itself, and equals cross-entropy minus entropy.",
    ["inputs", "configurations"],
    "all families, pairs of potentials, shapes, lengths",
    "Entropy is tested for chains and semi-Markov models of 2-3 positions, cross-entropy and KL only for such chains.",
    [SR, D] + MODELS,
    [("expectation semirings", SR + " EntropySemiring, CrossEntropySemiring, KLDivergenceSemiring")],
    ["StructDistribution.entropy", "StructDistribution.cross_entropy", "StructDistribution.kl"],
)
prop(
    "C09",
    "Padding never influences an item and carries no mass",
    "With `lengths` given, every answer (partition, marginals, max, argmax, k-best, entropy, divergences, log_prob, count, "
    "samples) for a padded item equals the answer for the same item cut to its length and queried alone, whatever finite values stand in "
    "the padding. All part-valued answers are exactly zero on padding.",
    ["inputs", "configurations"],
    "all families, every mix of lengths from the shortest legal one to N, arbitrary finite padding values",
    "Tests draw lengths from 2..3 and check mostly internal consistency; padding content is never varied and length 1 "
    "never used.",
    MODELS + [H, D],
    [("length masks", LC + "; " + SM + "; " + DT + " _check_potentials"), ("read-out at the item's length", TC + "; " + CK)],
    ["all StructDistribution queries"],
)
prop(
    "C10",
    "Batch items do not influence each other",
    "The answers for a batch item are the same whether it is queried alone, in any position of a batch, next to copies "
    "of itself, or next to items of extreme magnitude. Permuting or slicing the batch permutes or slices every answer.",
    ["inputs", "configurations"],
    "all families and queries, batch sizes 1 to dozens, permutations, neighbours of very different scale",
    "One semi-Markov test compares batched with unbatched partition for 2-3 items; most others look at item 0 only.",
    MODELS + [H, SR, D],
    [("batched charts", "logpartition of each struct class")],
    ["all StructDistribution queries"],
)
prop(
    "C11",
    "Compact representations and events convert without loss",
    "For chains, semi-Markov models, dependency trees and span trees, `to_event` of a legal compact structure is exactly its 0/1 "
    "event within its length and zero beyond, and `from_event` recovers the compact structure; both are mutually inverse on "
    "every structure, including argmax and samples. Labelled span charts of a binary tree convert to exactly the "
    "terminal, rule and root counts of that tree, and to a graph whose nodes, parent links (left child first), labels and topological "
    "layers are those of the tree, and to its split points.",
    ["inputs", "configurations"],
    "all legal structures, batches with mixed lengths",
    "Round trips are tested for structures of at most 3 positions, never against an independent encoding; the "
    "grammar and graph conversions are not tested at all.",
    [LC, SM, DT, CK, H, D],
    [("to_parts / from_parts", "each struct class"), ("tree to graph", CK + " CKY.to_networkx")],
    ["StructDistribution.to_event", "StructDistribution.from_event", "CKY.to_parts", "CKY.to_networkx"],
)
prop(
    "C12",
    "HMM and HSMM adapters reproduce the generative model",
    "The potentials built from hidden (semi-)Markov parameters give every state sequence (segmentation) exactly its joint "
    "log-probability with the observations, so the partition is the log-likelihood and log_prob and marginals are the posterior. "
    "This holds for asymmetric transition tables, any vocabulary, shared or per-item initial distributions, and lengths.",
    ["inputs", "configurations"],
    "all parameter tables, observation sequences, batch sizes, lengths",
    "The HMM test only checks that nothing raises; the HSMM test checks one fixed shape with a per-item initial table.",
    [LC, SM, D],
    [("hmm", LC + " LinearChain.hmm"), ("hsmm", SM + " SemiMarkov.hsmm"), ("HMM distribution", D + " HMM")],
    ["HMM.partition", "HMM.log_prob", "HMM.marginals", "SemiMarkov.hsmm"],
)
prop(
    "C13",
    "Non-projective partition and marginals match all spanning trees",
    "For the non-projective dependency CRF with single or multiple roots, `partition` is the log-sum over all spanning "
    "trees and `marginals` the arc probabilities, up to the documented 1e-5 smoothing of arc weights. Lengths restrict an item "
    "to its own words: padding gets no marginal mass and does not change the item.",
    ["inputs", "configurations"],
    "all arc scores of moderate magnitude, sizes, root modes, lengths",
    "The comparison with enumeration is commented out in the suite; only shapes are checked, and lengths never used.",
    [DT, D],
    [("matrix-tree theorem", DT + " deptree_part, deptree_nonproj")],
    ["NonProjectiveDependencyCRF.partition", "NonProjectiveDependencyCRF.marginals"],
)
prop(
    "C14",
    "Semiring operations compute their documented algebra",
    "For the log, max, counting, k-max, entropy, cross-entropy and KL semirings, sum (over any supported dimension), plus, mul, times, prod, dot and matmul "
    "give the values of the documented algebra on tensors of any rank and broadcastable shape; sum and mul are associative and "
    "commutative, mul distributes over sum, and zero and one are neutral (zero absorbing). Sampling semirings use "
    "the log algebra in the forward direction, and convert followed by unconvert returns the original values.",
    ["inputs"],
    "all tensors with finite entries, ranks, broadcasts, dimensions",
    "Three tests compare pairs of implementations on uniform random 3-d tensors; algebraic laws and the higher-order "
    "semirings are never exercised directly.",
    [SR, SA],
    [("semiring classes", SR), ("forward of sampled sums", SA)],
    ["Semiring.sum/plus/mul/times/prod/dot/matmul", "operations issued by the dynamic programs"],
)
prop(
    "C15",
    "Checkpointing changes neither values nor gradients",
    "Wrapping a semiring in the checkpoint or the sharded checkpoint semiring leaves every dot and matmul value and both input gradients "
    "unchanged, for every operand shape, broadcast pattern, shard size and minimum size, also if one operand is computed from the other or only one requires gradients. The same holds for sums and "
    "marginals of chain and semi-Markov models run with the wrapped semiring.",
    ["inputs", "configurations"],
    "operand shapes, broadcasts, shard and threshold sizes, base semirings with one component",
    "Two shapes of broadcast with one shard size are tested; batches without broadcast dimensions fail in the original code.",
    [CP],
    [("recompute in backward", CP + " CheckpointSemiring"), ("shards", CP + " accumulate_, unaccumulate_")],
    ["CheckpointSemiring(...).matmul", "CheckpointShardSemiring(...).matmul"],
)
prop(
    "C16",
    "Answers are differentiable with the exact gradients",
    "Gradients with respect to the potentials are exact: partition gives the marginals, max and kmax the optimal structures, log_prob(z) gives z minus the "
    "marginals, and marginals, entropy, cross-entropy and KL give the corresponding covariance expressions (second order). They reach "
    "the tensors the potentials were computed from, and are zero on padding.",
    ["inputs", "configurations"],
    "all CRF families, potentials that are leaves or computed from parameters, lengths",
    "Tests only check that backward runs.",
    [H, SR, D] + MODELS,
    [("autograd through the dynamic programs", "logpartition of each struct class"), ("create_graph", H + " _Struct.marginals")],
    ["torch.autograd.grad of every differentiable query"],
)
prop(
    "C17",
    "Autoregressive scoring, greedy and beam search follow the model",
    "For every autoregressive model, `log_prob` is the sum of the (normalised, if requested) stepwise scores of the sequence under its own prefix and "
    "its own batch item's initial state, dense or sparse. `greedy_max` follows the locally best token, `beam_topk(K)` returns "
    "exactly the K hypotheses of width-K beam search, distinct and in non-increasing order, and the K best sequences when the beam is "
    "exhaustive; reported scores equal log_prob of the reported sequences. `greedy_tempmax(alpha)` passes softmax(alpha * scores) on as the next token and reports the "
    "locally best tokens of its scores; all searches also work inside torch.no_grad().",
    ["inputs", "configurations"],
    "models with prefix-dependent multi-tensor state, batch sizes, K, sequence lengths, classes, start symbols, normalisation",
    "Tests use two classes, a zero initial state shared by the batch, and unnormalised scores; state tracking across beams is "
    "compared for one model.",
    [AR, SR],
    [("beam search over a k-max semiring", AR + " Autoregressive._beam_search"), ("state gathering", AR + " take")],
    ["Autoregressive.log_prob", "Autoregressive.greedy_max", "Autoregressive.beam_topk", "Autoregressive.greedy_tempmax"],
)
prop(
    "C18",
    "Autoregressive samples follow the model",
    "`sample((n,))` returns n x batch one-hot sequences drawn from the model's own distribution for each batch item, independently. "
    "`sample_without_replacement((K,))` returns K pairwise different one-hot sequences per item (all of them if K is the number of sequences); "
    "for K=1 it is an ordinary sample.",
    ["inputs", "histories"],
    "models, batch sizes, n, K, random states",
    "Tests check shapes only.",
    [AR],
    [("ancestral sampling", AR + " Autoregressive.sample"), ("Gumbel beam", AR + " Autoregressive.sample_without_replacement")],
    ["Autoregressive.sample", "Autoregressive.sample_without_replacement"],
)
prop(
    "C19",
    "Answers do not depend on other objects, past queries or threads",
    "The answers of a distribution depend only on its own potentials, lengths and options: not on which other distributions exist or "
    "were queried before, in between or in parallel threads, nor on the order of queries. Queries never change the values of "
    "potentials or lengths, of previously returned results, or of library constants, and equal seeds give equal samples.",
    ["histories", "schedules", "configurations"],
    "interleavings of constructions and queries of all families, in-place parameter updates between constructions, thread schedules",
    "Each test builds one distribution and queries it once or twice, single-threaded.",
    [D, H, DT, SA] + [LC, SM, TC, CK],
    [("per-instance lazy results", D + " lazy_property"), ("root mode", D + " DependencyCRF"), ("fresh charts", H + " Chart, _make_chart")],
    ["all StructDistribution queries"],
)
prop(
    "C20",
    "Sparsemax gives points of the marginal polytope",
    "The sparsemax semiring's sum is the maximum over the probability simplex of <p, x> - |p|^2/2 along any dimension; its gradient is the maximiser (the Euclidean "
    "projection of x on the simplex), and the gradient of that projection is the exact sparsemax Jacobian. Sparsemax marginals of every family are the gradient of "
    "the sparsemax sum and convex combinations of structures: in [0,1] and obeying the family's conservation laws.",
    ["inputs"],
    "all tensors, dimensions, ties; chain, semi-Markov, dependency and tree models with lengths",
    "Tests only check that it runs.",
    [SP],
    [("simplex projection", SP + " project_simplex"), ("second order", SP + " sparsemax_grad")],
    ["SparseMaxSemiring.sum", "struct(SparseMaxSemiring).marginals"],
)
prop(
    "C21",
    "Single-sample and Gumbel semirings draw exact structures",
    "One backward pass with the sampling semiring, the Gumbel-max semiring or `gumbel_crf` (any positive temperature) yields one legal structure per batch item, "
    "distributed as the potentials define and independent between items. The Gumbel-CRF structure is differentiable with finite gradients, per sum those of the softmax of the perturbed scores at its temperature, taken at the chosen entry. "
    "On a plain tensor the gradient of a sampling semiring's sum along any dimension is one independent one-hot draw per requested sum, with softmax probabilities.",
    ["inputs", "histories"],
    "all tensor-valued families, temperatures, random states, lengths",
    "Never executed by the suite.",
    [SA, D],
    [("sampled gradients", SA + " SampledSemiring, GumbelMaxSemiring, GumbelCRFSemiring")],
    ["StructDistribution.gumbel_crf", "struct(SampledSemiring).marginals", "struct(GumbelMaxSemiring(t)).marginals"],
)
prop(
    "C22",
    "count is the number of legal structures",
    "For every tensor-valued CRF family `count` is the exact number of legal structures of each item for its length, "
    "excluding those that use a part with potential minus infinity, as far as the number is representable in the dtype; it does not depend on the finite potentials.",
    ["inputs", "configurations"],
    "all families, shapes, lengths, patterns of forbidden parts",
    "One test counts unconstrained chains of at most 5 positions.",
    [D, SR] + [LC, SM, DT, TC],
    [("counting semiring", D + " StructDistribution.count")],
    ["StructDistribution.count"],
)
prop(
    "C23",
    "Alignment scores sum over all monotone alignments",
    "For the alignment CRF the partition equals the log-sum over all monotone alignment paths, and its argmax, marginals and masking obey the "
    "same laws as the other families.",
    ["inputs", "configurations"],
    "all alignment tables",
    "The upstream test is disabled.",
    [AL, D],
    [("banded scan", AL + " Alignment._dp_scan")],
    ["AlignmentCRF.partition"],
)
prop(
    "C24",
    "Answers do not depend on dtype, memory layout or gradient mode",
    "The same potential values give the same answers whether they are float32 or float64 (up to that dtype's rounding), contiguous, transposed, strided or expanded, "
    "leaves or computed, with or without requires_grad, and inside or outside torch.no_grad(). Answers have the dtype of the potentials, and float64 answers are "
    "accurate to float64 precision.",
    ["inputs", "configurations"],
    "all families and queries, layouts, dtypes, gradient modes",
    "Tests use fresh contiguous tensors with gradients enabled and compare at 1e-5.",
    [H, D, SR, SA] + MODELS,
    [("chart dtype", H + " _make_chart"), ("masks and constants cast to the chart", SR + " Semiring.fill"), ("enable_grad", D)],
    ["all StructDistribution queries"],
)
prop(
    "C25",
    "Forbidden parts are never used",
    "If some parts have potential -1e9 (every answer but count) or minus infinity (partition, max, argmax, k-best and count) and the item still has a legal structure "
    "avoiding them, all answers are those of the distribution restricted to the structures without forbidden parts: the parts get no "
    "marginal mass and never appear in argmax, k-best or samples, and results contain no NaN.",
    ["inputs", "configurations"],
    "all families, patterns of forbidden parts that leave at least one structure",
    "Tests use -1e9 in a single place of one chain test.",
    [SR, LC, SM, DT, TC, CK, D],
    [("finite log-zero", SR + " _BaseLog.zero"), ("masking", "logpartition of each struct class")],
    ["all StructDistribution queries"],
)
prop(
    "C26",
    "Malformed input is rejected instead of answered",
    "Inconsistent requests raise an exception before any answer is given: a length longer than the potentials, a chain or semi-Markov batch in which no item "
    "has full length, non-square transition tables, arc tensors of the wrong rank or non-square, malformed sample shapes of a CRF, and, in autoregressive scoring "
    "and search, models whose logits or states have the wrong shape. With validate_args=True construction also rejects NaN potentials and negative lengths, "
    "and accepts well-formed arguments (with or without lengths) without changing any answer.",
    ["inputs"],
    "all malformed shapes and lengths of the listed kinds",
    "No test passes malformed input.",
    [LC, SM, DT, TC, CK, AR, D],
    [("assertions", "_check_potentials of each struct class; " + AR + " asserts")],
    ["StructDistribution queries", "Autoregressive queries"],
)
prop(
    "C27",
    "Shapes and metadata of every distribution and answer are as documented",
    "Every distribution reports batch_shape (batch,) and the event_shape of its potentials (a grammar: of its terminal scores; an autoregressive model: N x C), keeps the "
    "potentials, lengths and options it was given, and can be printed. Scalar answers have shape batch, part-valued answers batch x event, kmax and topk a leading k, sample a "
    "leading n, log_prob the leading sample shape of its argument; this holds when any of the sizes (batch, k, n, length, states, labels) is one.",
    ["inputs", "configurations"],
    "all families, HMM, non-projective and autoregressive models, all sizes including one, all sample shapes",
    "Tests mostly use batches of several items and never look at metadata or at sizes of one together.",
    [D, H, AR] + MODELS,
    [("metadata", D + " StructDistribution.__init__"), ("semiring dimension", SR + " Semiring.unconvert"), ("sample dimension", AR + " wrap, unwrap")],
    ["StructDistribution attributes and queries", "Autoregressive attributes and queries"],
)
prop(
    "C28",
    "Queries leave no trace in the process",
    "Building a distribution, querying it (with success or with a rejected request) and using semirings changes no process-wide state: gradient mode, default dtype, threads and "
    "other torch settings, the generators of python and numpy, and, for deterministic queries, torch's generator stay as they were, and nothing is printed. "
    "No input tensor is written in place and no .grad is touched. When the caller drops a distribution and its answers, they and the potentials are freed.",
    ["inputs", "histories"],
    "all families and queries, leaf, computed and plain potentials, with existing .grad, inside no_grad, after rejected requests",
    "No test observes the process around a call.",
    [D, H, AR, SR, SA] + MODELS,
    [("gradient mode", D + " kmax, topk, sample, gumbel_crf"), ("caches", D + " lazy_property")],
    ["StructDistribution queries", "Autoregressive queries", "semiring operations"],
)
prop(
    "C29",
    "Example networks and the self-critical example compute what they define",
    "NeuralCFG yields a normalised grammar (the stated softmaxes of its parameters), so that SentCFG's partition is the log-likelihood of a sentence and all sentences of one length "
    "together have exactly the probability that the rules yield that length; SpanLSTM scores span (i, j) from its own forward and backward LSTM differences only. "
    "SelfCritical returns the sampled structures, their rewards minus the reward of the argmax, the mean reward and the reward of the argmax.",
    ["inputs"],
    "all parameters, vocabularies, sizes, batches; chain, dependency and tree distributions for SelfCritical",
    "No test imports the examples.",
    ["examples/networks/NeuralCFG.py", "examples/networks/SpanLSTM.py", "examples/rl.py"],
    [("softmaxes", "examples/networks/NeuralCFG.py NeuralCFG.forward"), ("span differences", "examples/networks/SpanLSTM.py SpanLSTM.forward"), ("baseline", "examples/rl.py SelfCritical.forward")],
    ["NeuralCFG.forward", "SpanLSTM.forward", "SelfCritical.forward", "SentCFG.partition"],
)
prop(
    "C30",
    "Answers do not depend on process-wide torch settings",
    "Every query gives the same answer, in the dtype of the potentials, whatever the default dtype (float32 or float64), the number of threads, anomaly detection, argument "
    "validation or flushing of denormals. No answer depends on the content of uninitialised memory.",
    ["inputs", "configurations"],
    "all families and queries, non-projective and autoregressive models, each setting and pairs of settings, set before or after construction",
    "Tests run under the default settings only.",
    [D, H, AR, SR, SA, DT] + [LC, SM, TC, CK],
    [("charts", H + " _Struct._make_chart"), ("constants", SR + " zero and one")],
    ["StructDistribution queries", "Autoregressive queries"],
)

prop(
    "C31",
    "Structure classes compute the semiring total over all legal structures",
    "For LinearChain, SemiMarkov, DepTree, CKY_CRF and CKY built with the log (default), max, real, k-max, entropy, cross-entropy, KL, sampling or recomputing (checkpoint) semirings, "
    "`sum` is that semiring's total over all legal structures of each item, within its length; the sequential semi-Markov recursion gives the same total. `marginals` is its gradient: expected parts, a best structure, the k best structures "
    "or one sample. `score` of parts is the sum of their potentials for any leading batch_dims; an object used twice gives the same answers as a new one.",
    ["inputs", "configurations"],
    "all sizes, potentials, lengths, dtypes and semirings; k from 1 to 10",
    "Tests compare a few small sizes under four semirings with one enumeration.",
    [H, SR, SA, CP] + MODELS,
    [("charts and gradient", H + " _Struct"), ("semirings", SR), ("recomputing", CP)],
    ["LinearChain", "SemiMarkov", "DepTree", "CKY_CRF", "CKY"],
)
prop(
    "C32",
    "Example data readers and the tree network cell compute what they define",
    "SubTokenizedField gives the token ids of a sentence and one position per token: the word's number at its first piece, -1 at its other pieces; its batches are padded with zeros. "
    "ConllXDataset and ListOpsDataset yield exactly the sentences, heads, labels and bracket spans in the file, and tree_field their spans as a tensor. "
    "TreeLSTMCell computes the stated gates and memory, and spans_to_dgl the nodes and edges of CKY.to_networkx.",
    ["inputs"],
    "all sentences, splits into word pieces, files, bracketings, batch sizes, cell sizes and dtypes",
    "No test imports the examples.",
    ["examples/data/data.py", "examples/data/trees.py", "examples/networks/TreeLSTM.py"],
    [("word positions", "examples/data/data.py token_pre, token_post"), ("readers", "examples/data/trees.py"), ("cell", "examples/networks/TreeLSTM.py TreeLSTMCell")],
    ["SubTokenizedField", "TokenBucket", "ConllXDataset", "ListOpsDataset", "TreeLSTMCell", "TreeLSTM.spans_to_dgl"],
)

prop(
    "C33",
    "Fast semirings compute the same as the plain ones through batched kernels",
    "Given genbmm's kernels (logbmm, maxbmm and samplebmm: the semiring product of two stacks of matrices), FastLog, FastMax and FastSample give for matmul, dot and sum the values and "
    "gradients of the log, max and sampling semirings, for operands of any equal rank whose leading sizes are equal or one. `broadcast` expands both operands to the common leading "
    "sizes and flattens them, in order. Every structure class gives the right sums and marginals with them.",
    ["inputs", "configurations"],
    "all ranks, sizes, broadcast patterns, layouts, dtypes; all structure classes",
    "The tests need a GPU or genbmm for these classes and skip them.",
    ["torch_struct/semirings/fast_semirings.py"] + MODELS,
    [("broadcast", "torch_struct/semirings/fast_semirings.py broadcast, matmul_size"), ("products", "torch_struct/semirings/fast_semirings.py FastLogSemiring.matmul")],
    ["FastLogSemiring", "FastMaxSemiring", "FastSampleSemiring", "broadcast"],
)

prop(
    "C34",
    "Autoregressive scores carry the exact gradients of the model",
    "Gradients of log_prob (dense or sparse, of given or sampled sequences), of the score and logits of greedy_max and of the scores of beam search, with respect to the model's "
    "parameters and the initial state, are those of the stepwise scores along the sequences concerned. Gradients of greedy_tempmax's score and logits also run through the weighted "
    "tokens. They add up over queries of one distribution, can be taken repeatedly, and reach the tensors that parameters and state were computed from.",
    ["inputs", "configurations"],
    "models with prefix-dependent state, batch sizes, sequence lengths, classes, K, normalisation, dtypes",
    "Tests never differentiate an autoregressive distribution.",
    [AR, SR],
    [("scores", AR + " Autoregressive.log_prob"), ("search", AR + " Autoregressive._beam_search"), ("weighted tokens", SR + " TempMax")],
    ["Autoregressive.log_prob", "Autoregressive.greedy_max", "Autoregressive._beam_max", "Autoregressive.greedy_tempmax"],
)

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
