# Which harness configurations decide which property.
INTERCEPT = [('digamma', r'math_utils::digamma<'), ('exp', r'math_utils::fast_exp<'),
             ('randint', r'uniform_int_distribution<.*>::operator\(\)<'), ('randreal', r'generate_canonical<')]
ASSUMPTIONS = [
    'floating point arithmetic is treated as exact real arithmetic (rounding, overflow and NaN propagation are outside the claim except where an assertion asks for finiteness)',
    'math_utils::fast_exp and std::exp denote one function exp, math_utils::digamma one function psi (their accuracy is property P18); lgamma and log are uninterpreted apart from sign facts',
    'the LLVM bitcode clang -O1 produces is taken as the meaning of the source; Eigen runs unvectorised',
]
NORND = [i for i in INTERCEPT if i[0] not in ('randint', 'randreal')]          # the real generators run
def R(h, tier='quick', **kw):
    r = {'harness': h, 'tier': tier, 'defs': {}}
    for k, v in kw.items():
        if k.isupper() or k.endswith('_'): r['defs'][k] = v
        else: r[k] = v
    return r
Q, T = 'quick', 'thorough'
def both(h, **kw):
    """the configuration for float and double"""
    return [R(h, SCALAR=s, **kw) for s in ('double', 'float')]
def dq(h, **kw):
    """double on every change, float in the thorough tier"""
    return [R(h, SCALAR='double', **kw), R(h, T, SCALAR='float', **kw)]
PROPS = {}
# known inputs (entries fixed by a generator), so that many words, topics and iterations are within reach; tolerances and choices stay symbolic
WIDE = dict(KNOWN_=0, SCALAR='double', opts=['--native-fp'])
WE = dict(WIDE, K_=4, V_=7, NC_=3, IT_=10, FP_=3, XM_=40)
WRARE = dict(WE, BSCALE_=45, XM_=900, V_=9, IT_=5)
WHUGE = dict(WIDE, K_=5, V_=23, NC_=4, IT_=15, FP_=3, XM_=900)
WNOTE = '; wide: known counts and model entries with the tolerance arbitrary: 4-5 topics, 7-9 words (thorough: 23), counts up to 900, 10 iterations (thorough: 15), words of probability 2^-45'

PROPS['P03'] = dict(
    bounds='corpora of 0 to 3 documents (thorough: 5) and 2 words with arbitrary counts, classes 0..2, or -3..2 without any need for a label; 0-2 consecutive shuffles, every outcome of the random generator',
    labels=['words and class stay paired', 'every document exactly once', 'initial order is the data order', 'access does not reorder'],
    runs=[R('h_corpus.cpp', CLASSIF_=0, CLASS_LO_=0), R('h_corpus.cpp', CLASSIF_=1, CLASS_LO_=0), R('h_corpus.cpp', CLASSIF_=1, CLASS_LO_=-3, NOLABEL_=1, D_=2), R('h_corpus.cpp', CLASSIF_=1, CLASS_LO_=0, NOLABEL_=1, D_=0), R('h_corpus.cpp', CLASSIF_=0, CLASS_LO_=0, D_=0),
          R('h_corpus.cpp', CLASSIF_=0, CLASS_LO_=0, D_=4, SHUF_=2),
          R('h_corpus.cpp', T, CLASSIF_=0, CLASS_LO_=0, D_=5), R('h_corpus.cpp', T, CLASSIF_=1, CLASS_LO_=0, D_=4)])
PROPS['P04'] = dict(
    bounds='corpora of 3 (thorough: 4) documents, classes -1..2, at least one labelled document',
    labels=['prior = class frequency among the labelled documents', 'priors sum to one'],
    runs=[R('h_corpus.cpp', CLASSIF_=1, CLASS_LO_=-1, SHUF_=0), R('h_corpus.cpp', T, CLASSIF_=1, CLASS_LO_=-1, D_=4, SHUF_=0)])
VALID = ['one progress event per document', 'document untouched', 'model untouched', 'phi non-negative', 'phi of a word in the document sums to one', 'gamma = alpha + expected counts', 'gamma mass = alpha mass + document length']
PROPS['P08'] = dict(
    bounds='2 topics, 2 words (thorough: 3 topics or 3 words), counts 0..3, 2 classes, 1 iteration (thorough: 2); model entries in stated boxes, words of the document have probability > 1/16 under every topic' + WNOTE,
    labels=VALID,
    runs=[R('h_estep_valid.cpp', VAR_=v, SCALAR='double') for v in range(5)]
        + [R('h_estep_valid.cpp', T, VAR_=v, SCALAR='float') for v in range(5)]
        + [R('h_estep_valid.cpp', T, VAR_=v, SCALAR='double', K_=3) for v in (0, 2, 3)]
        + [R('h_estep_valid.cpp', T, VAR_=v, SCALAR='double', V_=3, XM_=2) for v in (0, 2, 3)]
        + [R('h_estep_valid.cpp', T, VAR_=0, SCALAR='double', IT_=2)]
        + [R('h_estep_valid.cpp', VAR_=v, **w) for v in range(5) for w in (WE, WRARE)] + [R('h_estep_valid.cpp', T, VAR_=v, **WHUGE) for v in range(5)])
EQ = ['phi follows the update equation', 'gamma follows the update equation']
PROPS['P09'] = dict(
    bounds='2-3 topics, 2-3 words, counts 0..3, up to 2 iterations (thorough: 3), tolerance in [0,2]' + WNOTE,
    labels=EQ,
    runs=[R('h_estep_ref.cpp', VAR_=0, SCALAR='double', IT_=2), R('h_estep_ref.cpp', VAR_=0, SCALAR='float', K_=3, V_=3), R('h_estep_ref.cpp', VAR_=0, SCALAR='double', IT_=0),
          R('h_estep_ref.cpp', T, VAR_=0, SCALAR='double', IT_=3), R('h_estep_ref.cpp', T, VAR_=0, SCALAR='double', K_=4, V_=4)]
        + [R('h_estep_ref.cpp', VAR_=v, **w) for v in (0,) for w in (WE, WRARE)] + [R('h_estep_ref.cpp', T, VAR_=v, **WHUGE) for v in (0,)])
PROPS['P10'] = dict(
    bounds='2 topics, 2 words, 2 classes, counts 0..3, 1 iteration (thorough: 2 iterations or 3 topics/words/classes), 1 fixed-point iteration, 0-2 finished passes for the decaying weight' + WNOTE,
    labels=EQ + ['tau follows the update equation'],
    runs=[R('h_estep_ref.cpp', VAR_=v, SCALAR='double') for v in (1, 2, 3, 4)] + [R('h_estep_ref.cpp', VAR_=1, DECAY_=1, SCALAR='double', XM_=1)]
        + [R('h_estep_ref.cpp', T, VAR_=v, SCALAR='float') for v in (1, 2, 3, 4)]
        + [R('h_estep_ref.cpp', VAR_=v, SCALAR='double', IT_=2, XM_=1) for v in (2, 3)]
        + [R('h_estep_ref.cpp', T, VAR_=v, SCALAR='double', K_=3, NC_=3, XM_=1) for v in (1, 2, 3)]
        + [R('h_estep_ref.cpp', T, VAR_=4, SCALAR='double', FP_=2, XM_=1, ENUM_X_=1)]
        + [R('h_estep_ref.cpp', VAR_=v, **w) for v in (1, 2, 3, 4) for w in (WE, WRARE)] + [R('h_estep_ref.cpp', T, VAR_=v, **WHUGE) for v in (1, 2, 3, 4)] + [R('h_estep_ref.cpp', VAR_=1, DECAY_=1, **WE)])
PROPS['P11'] = dict(
    bounds='2 documents, 2 epochs, 2 topics, 2 words, counts 0..3, every topic receives some mass' + '; every seventh input arbitrary and the others known: 5 documents, 4 epochs, 4 topics, 6 words, 3 classes, counts up to 1000',
    labels=['beta = normalised expected counts', 'topics sum to one', 'alpha unchanged', 'model unchanged until the M step'],
    runs=[R('h_mstep.cpp', VAR_=0, SCALAR=s) for s in ('double', 'float')] + [R('h_mstep.cpp', VAR_=v, SCALAR='double') for v in (1, 2)]
        + [R('h_mstep.cpp', T, VAR_=0, SCALAR='double', K_=3, V_=3, D_=3), R('h_mstep.cpp', T, VAR_=1, SCALAR='double', K_=3, V_=2, D_=3)]
        + [R('h_mstep.cpp', VAR_=v, KNOWN_=7, K_=4, V_=6, D_=5, NC_=3, EPOCHS_=4, XM_=1000, SCALAR='double') for v in (0, 1, 2)])
PROPS['P12'] = dict(
    bounds='2 documents, 2 epochs, 2 topics, 2 words, 2 classes (thorough: 3), counts 0..3' + '; every seventh input arbitrary and the others known: 5 documents, 4 epochs, 4 topics, 6 words, 3 classes, counts up to 1000',
    labels=['eta = normalised smoothed class counts', 'reported log p(y)'],
    runs=[R('h_mstep.cpp', VAR_=v, SCALAR='double') for v in (1, 2)] + [R('h_mstep.cpp', T, VAR_=v, SCALAR='float') for v in (1, 2)]
        + [R('h_mstep.cpp', T, VAR_=v, SCALAR='double', NC_=3, D_=3) for v in (1, 2)]
        + [R('h_mstep.cpp', VAR_=v, KNOWN_=7, K_=4, V_=6, D_=5, NC_=3, EPOCHS_=4, XM_=1000, SCALAR='double') for v in (1, 2)])
ITERS = dict(ITER_=1, EPOCHS_=1, D_=1, CONCRETE_PHI_=1)
PROPS['P13'] = dict(
    bounds='1-2 documents per epoch, up to 2 epochs, 2 topics, 2 words, 2 classes, 0 or 1 gradient descent iterations with at most 6 symbolic branches (first order)' + '; every eleventh input arbitrary and the others known: 6 documents per epoch, 3 epochs, 3 topics, 5 words, 4 classes; 6 iterations (thorough: 20) with known inputs and arbitrary tolerance',
    labels=["reported likelihood is the objective over this epoch's documents", 'no iteration leaves eta alone', 'the objective never gets worse', 'the step follows the gradient of the objective', 'the descent stops when it no longer improves', 'the descent goes on while it improves'],
    runs=[R('h_mstep_sup.cpp', VAR_=v, SCALAR='double', ITER_=0) for v in (0, 1)]
        + [R('h_mstep_sup.cpp', VAR_=0, SCALAR='double', opts=['--max-depth', 6, '--wall', 0.5], **ITERS)]
        + [R('h_mstep_sup.cpp', T, VAR_=v, SCALAR='float', ITER_=0) for v in (0, 1)]
        + [R('h_mstep_sup.cpp', T, VAR_=0, SCALAR='double', opts=['--max-depth', 9, '--wall', 2], **ITERS)]
        + [R('h_mstep_sup.cpp', VAR_=v, ITER_=0, KNOWN_=11, K_=3, V_=5, D_=6, NC_=4, EPOCHS_=3, XM_=60, SCALAR='double') for v in (0, 1)] + [R('h_mstep_sup.cpp', VAR_=v, ITER_=6, K_=3, V_=5, D_=6, NC_=4, EPOCHS_=2, XM_=60, **WIDE) for v in (0, 1)] + [R('h_mstep_sup.cpp', T, VAR_=v, ITER_=20, K_=4, V_=8, D_=12, NC_=5, EPOCHS_=2, XM_=60, **WIDE) for v in (0, 1)])
PROPS['P14'] = dict(
    bounds='minibatches of 2 in 3 or 4 documents (thorough: 5), of 3 in 4 documents, minibatches of 1 in 2 documents, 2 topics, 2 words, 2 classes' + '; minibatches of 4 in 9 documents (thorough: of 5 in 16) of 3 topics, 4 words, 3 classes with known inputs and arbitrary rates',
    labels=['no update inside a minibatch', 'beta is the weighted blend', 'eta takes one momentum SGD step on the minibatch', 'reported likelihood is that of the minibatch'],
    runs=[R('h_online.cpp', WEIGHTS_=w, D_=3 + w, SCALAR='double') for w in (0, 1)] + [R('h_online.cpp', WEIGHTS_=1, MB_=3, D_=4, SCALAR='double')] + [R('h_online.cpp', WEIGHTS_=1, MB_=1, D_=2, SCALAR='double')] + [R('h_online.cpp', T, WEIGHTS_=w, D_=3, SCALAR='float') for w in (0, 1)]
        + [R('h_online.cpp', T, WEIGHTS_=0, D_=5, SCALAR='double')]
        + [R('h_online.cpp', WEIGHTS_=1, KNOWN_=0, MB_=4, D_=9, K_=3, V_=4, NC_=3, XM_=50, SCALAR='double')] + [R('h_online.cpp', T, WEIGHTS_=0, KNOWN_=0, MB_=5, D_=16, K_=3, V_=4, NC_=3, XM_=50, SCALAR='double')])
PROPS['P15'] = dict(
    bounds='up to 3 documents with classes -2..2; the M step with 2 documents, 2 epochs' + '; every eleventh input arbitrary and the others known: 6 documents per epoch, 3 epochs, 3 topics, 5 words, 4 classes; 6 iterations (thorough: 20) with known inputs and arbitrary tolerance',
    labels=['each document goes to exactly one step, chosen by its label', 'events are forwarded exactly once', "reported likelihood is the objective over this epoch's documents"],
    runs=[R('h_semi.cpp', SCALAR=s, D_=2) for s in ('double', 'float')] + [R('h_mstep_sup.cpp', VAR_=2, SCALAR='double', ITER_=0)]
        + [R('h_semi.cpp', T, SCALAR='double', D_=3), R('h_mstep_sup.cpp', T, VAR_=2, SCALAR='float', ITER_=0),
           R('h_mstep_sup.cpp', T, VAR_=2, SCALAR='double', opts=['--max-depth', 9, '--wall', 0.5], **ITERS)]
        + [R('h_mstep_sup.cpp', VAR_=v, ITER_=0, KNOWN_=11, K_=3, V_=5, D_=6, NC_=4, EPOCHS_=3, XM_=60, SCALAR='double') for v in (2,)] + [R('h_mstep_sup.cpp', VAR_=v, ITER_=6, K_=3, V_=5, D_=6, NC_=4, EPOCHS_=2, XM_=60, **WIDE) for v in (2,)] + [R('h_mstep_sup.cpp', T, VAR_=v, ITER_=20, K_=4, V_=8, D_=12, NC_=5, EPOCHS_=2, XM_=60, **WIDE) for v in (2,)])
PROPS['P16'] = dict(
    bounds='2 documents, 2 topics, 2 classes (thorough: 3 of each)' + '; every 17th input arbitrary and the others known: 6 documents, 4 topics, 5 classes (thorough: 12, 5, 6)',
    labels=['value is the documented objective', 'gradient is the derivative of value', 'parameters untouched', 'gradient overwrites its output'],
    runs=[R('h_mlr.cpp', SECOND_=s, WEIGHTS_=w, SCALAR='double') for s in (0, 1) for w in (0, 1)]
        + [R('h_mlr.cpp', T, SECOND_=s, WEIGHTS_=w, SCALAR='float') for s in (0, 1) for w in (0, 1)]
        + [R('h_mlr.cpp', T, SECOND_=s, WEIGHTS_=1, SCALAR='double', NC_=3) for s in (0, 1)]
        + [R('h_mlr.cpp', T, SECOND_=s, WEIGHTS_=1, SCALAR='double', K_=3) for s in (0, 1)]
        + [R('h_mlr.cpp', T, SECOND_=s, WEIGHTS_=1, SCALAR='double', D_=3) for s in (0, 1)]
        + [R('h_mlr.cpp', SECOND_=s, WEIGHTS_=w, KNOWN_=17, D_=6, K_=4, NC_=5, SCALAR='double') for s, w in ((0, 1), (1, 0))] + [R('h_mlr.cpp', T, SECOND_=s, WEIGHTS_=w, KNOWN_=37, D_=12, K_=5, NC_=6, SCALAR='double') for s in (0, 1) for w in (0, 1)])
PROPS['P17'] = dict(
    bounds='arbitrary functions and gradients on 1x1 to 2x2 matrices, up to 4 backtracking steps (thorough: 6), up to 2 iterations of gradient descent' + '; up to 30 backtracking steps (thorough: 100) and 12 iterations with known gradients and steps and arbitrary values',
    labels=['Armijo accepts only sufficient decrease', 'Armijo rejects only insufficient decrease', 'constant step returns the value at the new point', 'gradient descent stops exactly when told', 'progress is told the current value'],
    runs=[R('h_armijo.cpp', MODE_=0, SCALAR='double', opts=['--max-depth', 4]), R('h_armijo.cpp', MODE_=1, SCALAR='double'), R('h_armijo.cpp', MODE_=2, NC_=1, SCALAR='double', opts=['--max-depth', 8]),
          R('h_armijo.cpp', T, MODE_=0, SCALAR='float', opts=['--max-depth', 6]), R('h_armijo.cpp', T, MODE_=1, SCALAR='float'), R('h_armijo.cpp', T, MODE_=2, SCALAR='double', opts=['--max-depth', 8])]
        + [R('h_armijo.cpp', MODE_=0, KNOWN_=0, K_=3, NC_=4, SCALAR='double', opts=['--max-depth', 30]), R('h_armijo.cpp', MODE_=2, KNOWN_=0, SCALAR='double'), R('h_armijo.cpp', T, MODE_=0, KNOWN_=0, K_=3, NC_=4, SCALAR='double', opts=['--max-depth', 100])])
PROPS['P23'] = dict(
    bounds='2 topics, 2 words, 2 classes, counts 0..3 (0..1 for sLDA), up to 1 iteration (thorough: 3 topics or words, 2 iterations)' + WNOTE,
    labels=['the reported likelihood is the bound', 'a likelihood is reported exactly when asked for'],
    runs=[R('h_elbo.cpp', VAR_=v, SCALAR='double') for v in range(4)] + [R('h_elbo.cpp', VAR_=4, SCALAR='double', ENUM_X_=1, XM_=1), R('h_elbo.cpp', VAR_=4, SCALAR='double', ENUM_X_=1, FP_=0)]
        + [R('h_elbo.cpp', T, VAR_=v, SCALAR='float') for v in range(4)] + [R('h_elbo.cpp', T, VAR_=v, SCALAR='double', K_=3, V_=3, XM_=2) for v in (0, 2, 3)]
        + [R('h_elbo.cpp', T, VAR_=0, SCALAR='double', IT_=2)]
        + [R('h_elbo.cpp', VAR_=v, **w) for v in range(5) for w in (WE, WRARE)] + [R('h_elbo.cpp', T, VAR_=v, **WHUGE) for v in range(5)])
PROPS['P19'] = dict(
    bounds='matrices of 2x3 (thorough: up to 4x4), entries in [-2,2], line sums zero or at least 1/16 away from zero; one non-finite entry at any place with scale zero' + '; for normalisation also all of it times 2^-62, 2^-50 and 2^50',
    labels=['normalised to one', 'proportions kept', 'a zero-sum line is untouched', 'scaled sum of the columns', 'scaled sum of the rows', 'scaled sum finite', 'reshaping is column-major', 'reshaping back is the identity', 'product of the non-zeros', 'division skips zeros'],
    runs=[R('h_math.cpp', MODE_=m, SGN_=s, SCALAR=t, lib=False) for m, s, t in ((0, 0, 'double'), (0, 1, 'float'), (1, 1, 'double'), (1, 0, 'float'), (2, 1, 'double'), (3, 1, 'float'), (4, 1, 'double'), (4, 1, 'float'))]
        + [R('h_math.cpp', T, MODE_=m, SGN_=1, SCALAR=t, R_=4, NC_=r, lib=False) for m in range(4) for t in ('double', 'float') for r in (1, 4)]
        + [R('h_math.cpp', T, MODE_=4, SGN_=1, SCALAR=t, R_=3, NC_=3, lib=False) for t in ('double', 'float')]
        + [R('h_math.cpp', MODE_=m, SGN_=g, SCALE_=q, SCALAR=t, lib=False) for m, g, q, t in ((0, 1, 50, 'double'), (1, 1, 50, 'float'), (0, 0, -50, 'float'), (1, 0, 62, 'double'))])
PREEMPT0 = ['--preempt', 0]
PROPS['P21'] = dict(
    bounds='1-3 documents, one worker, 2-3 topics, 2-3 classes; any document may be without words, the others have topic mass of at least 1/16' + '; 12 documents, 5 topics, 7 classes (thorough: 40, 12, 20) with known inputs',
    labels=['score = class parameters times expected topic proportions', 'scores of a document without words are zero', 'the prediction has the greatest score', 'transform-and-predict agrees with predict', 'transform-and-predict returns the posteriors', 'model untouched'],
    runs=[R('h_predict.cpp', SCALAR='double', NC_=3, K_=2, D_=2, opts=PREEMPT0), R('h_predict.cpp', SCALAR='float', NC_=2, K_=3, D_=3, opts=PREEMPT0), R('h_predict.cpp', SCALAR='double', NC_=1, K_=1, D_=1, opts=PREEMPT0),
          R('h_predict.cpp', T, SCALAR='double', NC_=4, K_=3, D_=3, opts=PREEMPT0), R('h_predict.cpp', T, SCALAR='float', NC_=3, K_=3, D_=3, opts=PREEMPT0), R('h_predict.cpp', T, SCALAR='double', NC_=2, K_=2, D_=2)]
        + [R('h_predict.cpp', KNOWN_=0, SCALAR='double', D_=12, K_=5, NC_=7, opts=PREEMPT0)] + [R('h_predict.cpp', T, KNOWN_=0, SCALAR='float', D_=40, K_=12, NC_=20, opts=PREEMPT0)])
PROPS['P20'] = dict(
    bounds='2-3 topics, 2-3 words, up to 3 documents, 1-2 seed documents per topic, every random outcome (for random topics: not all draws of a topic exactly zero); every sequence of up to 3 initialisation calls (thorough: 4) with supervised or unsupervised steps, every pair of steps with up to 1 initialisation call (thorough: 2); steps with 2 topics, words, classes',
    labels=['topics are probability distributions', 'the prior is one over the number of topics', 'a seeded topic is the smoothed counts of documents of the data', 'an uninitialised or inconsistent model is never built', 'building fails exactly when something is missing', 'a classifier needs topics first', 'topics of a model are taken unchanged', 'the classifier of a model is taken unchanged', 'the classifier has the requested initial value', 'a step works as one constructed with the same settings'],
    runs=[R('h_builder.cpp', MODE_=0, SCALAR='double', K_=2, V_=3, D_=2, N_=2, CORPUS_=0, opts=PREEMPT0), R('h_builder.cpp', MODE_=0, SCALAR='float', K_=3, V_=2, D_=3, N_=1, CORPUS_=1, opts=PREEMPT0),
          R('h_builder.cpp', MODE_=1, SCALAR='double', K_=2, V_=3, opts=PREEMPT0), R('h_builder.cpp', MODE_=1, SCALAR='float', K_=3, V_=2, opts=PREEMPT0),
          R('h_builder.cpp', MODE_=2, SCALAR='double', LEN_=3, opts=PREEMPT0), R('h_builder.cpp', MODE_=4, SCALAR='float', LEN_=1, opts=PREEMPT0)]
        + [R('h_builder.cpp', MODE_=3, VAR_=v, SCALAR='double', opts=PREEMPT0) for v in range(5)]
        + [R('h_builder_m.cpp', VAR_=v, SCALAR='double') for v in (0, 1, 2, 3, 5, 6, 7, 8)] + [R('h_builder_m.cpp', VAR_=4, SCALAR='double', D_=1, CONCRETE_PHI_=1)]
        + [R('h_builder.cpp', T, MODE_=2, SCALAR='float', LEN_=4, opts=PREEMPT0), R('h_builder.cpp', T, MODE_=4, SCALAR='double', LEN_=2, opts=PREEMPT0), R('h_builder.cpp', T, MODE_=0, SCALAR='double', K_=3, V_=3, D_=3, N_=2, CORPUS_=0, opts=PREEMPT0)]
        + [R('h_builder.cpp', T, MODE_=3, VAR_=v, SCALAR='float', opts=PREEMPT0) for v in range(5)] + [R('h_builder_m.cpp', T, VAR_=v, SCALAR='float') for v in (0, 1, 2, 3, 5, 6, 7, 8)])
PROPS['P07'] = dict(
    bounds='every sequence of up to 4 operations (thorough: 5) on 2 listeners, and of 4 operations starting with 3 listeners present, for each kind of dispatcher, including a listener that removes itself; 2 threads dispatching 2 events each (thorough: 3 threads) while the owner processes, all interleavings of synchronisation points (preemption bound 8, which no schedule here exceeds; thorough 3-thread runs: 3); a training pass over 2 documents with 2 workers, preemption bound 2',
    labels=['every event reaches every listener exactly once', 'events arrive in order', 'events are delivered by the thread that processes them', 'an event of the owning thread is delivered at once'],
    runs=[R('h_events.cpp', MODE_=m, LEN_=4) for m in (0, 1, 2)] + [R('h_events.cpp', MODE_=0, LEN_=4, ONCE_=1), R('h_events.cpp', MODE_=2, LEN_=3, ONCE_=1)] + [R('h_events.cpp', MODE_=m, NL_=3, LEN_=4, START_=1) for m in (0, 1, 2)]
        + [R('h_events.cpp', MODE_=m, sched=True, opts=['--preempt', 8]) for m in (3, 4)]
        + [R('h_events.cpp', T, MODE_=m, LEN_=5) for m in (0, 1, 2)] + [R('h_events.cpp', T, MODE_=2, LEN_=4, ONCE_=1)]
        + [R('h_events.cpp', T, MODE_=m, T_=3, sched=True, opts=['--preempt', 3]) for m in (3, 4)] + [R('h_events.cpp', T, MODE_=m, E_=3, sched=True, opts=['--preempt', 6]) for m in (3, 4)])
def lda(mode, tier=Q, **kw):
    o = ['--preempt', kw.pop('pre', 2), '--spurious', kw.pop('spur', 0)]
    if kw.pop('one', 0): kw['intercept'] = NORND        # one outcome of the shuffle: the real generator runs
    return R('h_lda.cpp', tier, MODE_=mode, SCALAR=kw.pop('sc', 'double'), sched=True, opts=o, **kw)
PROPS['P05'] = dict(
    bounds='0-3 documents, 0-3 workers, 0-2 iterations; all schedules at lock, wait, notify, join and inference points with up to 2 preemptions (thorough: 3; 1 with three workers, documents or two passes on every change) and up to 1 spurious wake-up, every outcome of the shuffle; histories of 2 calls (3 with one document) of fit, partial_fit and transform on data of varying size without preemption; one outcome of the shuffle with 6 documents (1 preemption), 20 documents on 4 workers and 12 passes over 40 documents (no preemption)',
    labels=['every document is inferred and merged exactly once per pass', 'a result is merged with its own document', 'the pass hook runs once, after all documents', 'the maximization follows the pass hook', 'as many passes as asked for', 'documents are merged before the pass ends'],
    runs=[lda(0), lda(1, pre=1, I_=2, sc='float'), lda(2, pre=1, W_=3), lda(3, pre=1, D_=3, sc='float'), lda(0, pre=1, spur=1, D_=1), lda(0, W_=0, D_=1), lda(0, D_=0), lda(1, W_=1, D_=2), lda(0, I_=0), lda(2, W_=2, D_=1, I_=2, pre=1),
          lda(5, pre=0, W_=1), lda(5, pre=0, W_=1, D_=1, H_=3), lda(5, T, pre=0, D_=1, H_=3), lda(1, pre=0, one=1, D_=40, W_=1, I_=12), lda(0, pre=1, one=1, D_=6), lda(2, pre=0, one=1, D_=20, W_=4),
          lda(5, T, pre=0, one=1, H_=2), lda(5, T, pre=1, D_=1), lda(0, T, pre=1, one=1, D_=12, W_=3),
          lda(0, T, pre=3), lda(1, T, spur=1), lda(2, T, pre=2, W_=3), lda(3, T, pre=2, D_=3), lda(1, T, pre=1, W_=3, D_=3), lda(0, T, W_=1, D_=3, I_=2)])
PROPS['P06'] = dict(
    bounds='0-3 documents, 0-3 workers, 1-2 transformations in a row; schedules as in P05; histories as in P05; 6 documents with 1 preemption, 14 documents on 4 workers and 12 transformations of 40 documents without',
    labels=['column i is the posterior of document i', 'one column per document', 'every document is inferred exactly once', 'transforming trains nothing', 'the model is changed by the maximization only'],
    runs=[lda(4), lda(4, pre=1, I_=2, sc='float'), lda(4, pre=1, W_=3), lda(4, pre=1, D_=3, sc='float'), lda(4, D_=0), lda(4, W_=0, D_=1), lda(4, D_=1, spur=1),
          lda(5, pre=0, W_=1), lda(4, pre=0, D_=40, W_=1, I_=12), lda(4, pre=0, D_=14, W_=4), lda(4, pre=1, D_=6),
          lda(5, T, pre=0, H_=2), lda(4, T, pre=1, D_=12, W_=3),
          lda(4, T, pre=3), lda(4, T, spur=1), lda(4, T, W_=3, pre=2), lda(4, T, D_=3, pre=2)])
PROPS['P07']['runs'] += [lda(0)]
PROPS['P07']['labels'] += ['all progress events of a pass are delivered before it ends']

NOI = [('randint', r'uniform_int_distribution<.*>::operator\(\)<')]
def acc(tier=Q, **kw): return R('h_accuracy.cpp', tier, lib=False, intercept=NOI, **kw)
PROPS['P18'] = dict(
    bounds='exponential: all reals in [-100, 100] (float: [-80, 80]) in 4608 cells of the argument per sign and 100.5 to 1000 beyond, plus zero, infinities and NaN; digamma: all reals in [1/64, 1e6]',
    labels=['not above the exponential of the end of the cell', 'not below the exponential of the start of the cell', 'positive', 'beyond 100 the exponential itself', 'NaN yields NaN', 'psi(x+1) = psi(x) + 1/x', 'not above the series', 'not below the series'],
    assumptions=['exact rationals stand for the doubles of the table and of the reference exponentials (harness/exp_ref.inc, from mpmath); rounding inside fast_exp and digamma is outside the claim'],
    runs=[acc(MODE_=0, OCT_=o, NEG_=n, STEP_=1, SCALAR='double') for o in range(8) for n in (0, 1)] + [acc(MODE_=1, SCALAR=s) for s in ('double', 'float')]
        + [acc(MODE_=2, LIM_=7, SCALAR=s) for s in ('double', 'float')] + [acc(MODE_=3, SCALAR=s) for s in ('double', 'float')]
        + [acc(T, MODE_=0, OCT_=o, NEG_=n, STEP_=1, SCALAR='float') for o in range(8) for n in (0, 1)])

NORR = [i for i in INTERCEPT if i[0] != 'randreal']          # the real generator runs
def conc(v, tier=Q, pre=2, **kw): return R('h_conc.cpp', tier, VAR_=v, SCALAR=kw.pop('sc', 'double'), sched=True, intercept=NORR, opts=['--preempt', pre], **dict(dict(XM_=1, LIK_=0), **kw))
PROPS['P24'] = dict(
    bounds='2 threads, 2 documents, 2 topics, 2 words with counts 0..1, 1 iteration; up to 2 preemptions (1 for the fast step, thorough: 2; thorough: 3) at the synchronisation points, races by vector clocks; the generator: 2 threads drawing 2 numbers each (thorough: 3), preemption bound 8',
    labels=['gamma is that of the document alone', 'phi is that of the document alone', 'one progress event per document', 'every number of the generator is drawn exactly once, in order'],
    runs=[conc(0), conc(1, pre=1), conc(2), conc(3), conc(4, pre=1, ENUM_X_=1), conc(5, pre=1)] + [conc(0, LIK_=1, sc='float', pre=1), conc(3, LIK_=1, pre=1)] + [R('h_prng.cpp', lib=False, COPY_=c, sched=True, opts=['--preempt', 8]) for c in (0, 1)]
        + [conc(v, T, pre=2) for v in (1, 5)] + [conc(v, T, pre=3) for v in (0, 2, 3)] + [conc(v, T, LIK_=1, pre=2) for v in (0, 2, 3)] + [R('h_prng.cpp', T, lib=False, COPY_=1, N_=3, sched=True, opts=['--preempt', 8])])
SHIM_A = ['the standard streams and files are replaced by an in-memory model (shim/vp_streams.hpp) in the symbolic build; every witness and counterexample is replayed with the real ones']
TYPES = ['double', 'float', 'int8_t', 'int16_t', 'int32_t', 'int64_t', 'uint8_t', 'uint16_t', 'uint32_t', 'uint64_t']
def npy(mode, tier=Q, **kw): return R('h_npy.cpp', tier, MODE_=mode, shim=True, lib=False, **kw)
PROPS['P01'] = dict(
    bounds='all shapes from 0x0 to 4x4 (thorough: 7x7) and selected longer ones with 2 to 5 digit dimensions (mostly known elements beyond 400), all ten element types, both storage orders, up to 2 arrays before it in the stream, arbitrary element bits',
    labels=['magic and version', 'the header is padded to a multiple of 16', 'descr is the element type', 'shape is that of the matrix', 'the elements are stored in the declared order', 'the shape comes back', 'the elements come back bit for bit', 'earlier arrays come back'],
    assumptions=SHIM_A,
    runs=[npy(0, TYPE_=t, R_=-5, NC_=-5, ROWMAJOR_=i % 2, PRE_=i % 3) for i, t in enumerate(TYPES)] + [npy(3, TYPE_=t, R_=-4, NC_=-4, ROWMAJOR_=i) for i, t in enumerate(['double', 'int32_t'])]
        + [npy(0, TYPE_='double', R_=-4, NC_=-4, ROWMAJOR_=1)] + [npy(0, TYPE_=t, R_=r, NC_=c, ROWMAJOR_=o, PRE_=1) for t, r, c, o in (('int8_t', 123, 2, 0), ('float', 1, 99, 1), ('double', 10, 10, 0), ('uint16_t', 1, 40000, 0), ('int8_t', 70000, 1, 1), ('int16_t', 300, 101, 0))]
        + [npy(0, T, TYPE_=t, R_=-8, NC_=-8, ROWMAJOR_=1 - i % 2, PRE_=2 - i % 3) for i, t in enumerate(TYPES)] + [npy(3, T, TYPE_=t, R_=-5, NC_=-5, ROWMAJOR_=1) for t in TYPES])
PROPS['P02'] = dict(
    bounds='arrays of zero to four dimensions up to 3x3 or 2x3x2x3 with arbitrary element bits, all element types, both byte and storage orders, header alignment 16 and 64; faults: 19 other element types, every version from 2 to 255, truncation at every byte, any changed byte of the magic, a missing file, declared sizes around where a 32 bit element count wraps; any single arbitrary byte in the header or its length',
    labels=['element (i, j) is the stored element (i, j)', 'shape is the declared one', 'nothing after the array is consumed', 'what cannot be read is rejected', 'no more elements than stored', 'an intact array is read'],
    assumptions=SHIM_A,
    runs=[npy(1, TYPE_=t, R_=-4, NC_=-4, ND_=2, BIG_=b, FORTRAN_=(i + b) % 2, ALIGN_=64 if b else 16) for i, t in enumerate(TYPES) for b in (0, 1)]
        + [npy(1, TYPE_=t, R_=2, NC_=3, ND_=n, BIG_=b, FORTRAN_=f, ALIGN_=64) for t, n, b, f in (('double', 0, 0, 0), ('float', 0, 1, 0), ('int32_t', 1, 0, 0), ('double', 1, 1, 1), ('int64_t', 3, 0, 0), ('float', 3, 0, 1), ('int16_t', 4, 0, 0), ('uint32_t', 4, 1, 1), ('double', 2, 1, 1), ('double', 2, 0, 1), ('int32_t', 2, 0, 0))]
        + [npy(1, TYPE_='int32_t', R_=120, NC_=3, ND_=2, BIG_=1, FORTRAN_=0, ALIGN_=64)]
        + [npy(2, TYPE_=t, R_=2, NC_=2, ND_=2, BIG_=b, FORTRAN_=0, ALIGN_=64) for t, b in (('double', 0), ('int32_t', 1))]
        + [npy(4, TYPE_=t, R_=1, NC_=2, ND_=2, BIG_=0, FORTRAN_=f, ALIGN_=16) for t, f in (('int16_t', 0), ('double', 1))]
        + [npy(2, T, TYPE_=t, R_=2, NC_=2, ND_=1 + i % 2, BIG_=0, FORTRAN_=0, ALIGN_=16) for i, t in enumerate(TYPES)] + [npy(4, T, TYPE_=t, R_=2, NC_=2, ND_=2, BIG_=1, FORTRAN_=1, ALIGN_=64) for t in TYPES])
def iorun(mode, tier=Q, **kw): return R('h_io.cpp', tier, MODE_=mode, shim=True, sources=['src/applications/lda_io.cpp', 'src/applications/SnapshotEvery.cpp'], **kw)
PROPS['P22'] = dict(
    bounds='models of up to 3 topics, 3 words, 2 classes or none, over an older longer file or not; data of up to 3x3; arbitrary element bits; every sequence of up to 5 passes (thorough: 7) with every interval 1..4 and other events in between; 1001 passes with interval 500',
    labels=['the model comes back with its shape', 'the model comes back unchanged', 'documents come back unchanged', 'labels come back unchanged', 'missing labels are an error', 'a snapshot after exactly every n-th pass, named after it'],
    assumptions=SHIM_A,
    runs=[iorun(0), iorun(1), iorun(2, FIX_=0, N_=5), iorun(2, FIX_=500, N_=1001), iorun(2, T, FIX_=0, N_=7)])

# sizes rather than generality: one dimension large, mostly known inputs
MI = ['--max-inst', 900000000]
BIG = dict(KNOWN_=0, opts=MI)
def more(prop, runs, note):
    PROPS[prop]['runs'] += runs; PROPS[prop]['bounds'] += '; large: ' + note
more('P03', [R('h_corpus.cpp', CLASSIF_=1, CLASS_LO_=0, CLASS_HI_=40, D_=1500, SHUF_=2, intercept=NORND, **BIG), R('h_corpus.cpp', CLASSIF_=0, CLASS_LO_=0, D_=1500, SHUF_=3, intercept=NORND, **BIG), R('h_corpus.cpp', CLASSIF_=1, CLASS_LO_=0, CLASS_HI_=12, V_=40, D_=60, SHUF_=2, intercept=NORND, KNOWN_=300, opts=MI)],
     '1500 documents, 41 classes, 40 words, with one outcome of the shuffles')
more('P04', [R('h_corpus.cpp', CLASSIF_=1, CLASS_LO_=-1, CLASS_HI_=12, D_=300, SHUF_=0, KNOWN_=200, opts=MI), R('h_corpus.cpp', CLASSIF_=1, CLASS_LO_=-1, CLASS_HI_=200, D_=1500, SHUF_=0, **BIG)], '300 documents and 13 classes with an arbitrary label, 1500 documents and 201 classes')
WBIG = dict(WIDE, K_=24, V_=40, NC_=9, IT_=6, FP_=3, XM_=40, opts=['--native-fp'] + MI)
ENOTE = '24 topics, 40 words, 9 classes, 6 iterations with known inputs'
more('P08', [R('h_estep_valid.cpp', VAR_=v, **WBIG) for v in range(5)], ENOTE)
more('P09', [R('h_estep_ref.cpp', VAR_=0, **WBIG), R('h_estep_ref.cpp', T, VAR_=0, **dict(WBIG, K_=3, V_=4, IT_=60))], ENOTE)
more('P10', [R('h_estep_ref.cpp', VAR_=v, **dict(WBIG, IT_=4)) for v in (1, 2, 3, 4)], ENOTE.replace('6 it', '4 it'))
more('P23', [R('h_elbo.cpp', VAR_=v, **WBIG) for v in range(5)], ENOTE)
MBIG = [dict(BIG, K_=3, V_=5, D_=400, NC_=3), dict(BIG, K_=30, V_=150, D_=3, NC_=30), dict(KNOWN_=97, opts=MI, K_=12, V_=30, D_=40, NC_=6)]
MNOTE = '400 documents, or 30 topics, 150 words and 30 classes, or 12, 30, 6 and 40 documents with every 97th input arbitrary'
more('P11', [R('h_mstep.cpp', VAR_=v, EPOCHS_=2, XM_=1000, SCALAR='double', **MBIG[i]) for v, i in ((0, 0), (0, 1), (0, 2), (1, 0), (2, 1))], MNOTE)
more('P12', [R('h_mstep.cpp', VAR_=v, EPOCHS_=2, XM_=1000, SCALAR='double', **MBIG[i]) for v, i in ((1, 0), (1, 1), (2, 0), (2, 2))], MNOTE)
more('P13', [R('h_mstep_sup.cpp', VAR_=v, ITER_=0, K_=6, V_=12, D_=40, NC_=8, EPOCHS_=2, XM_=60, SCALAR='double', **BIG) for v in (0, 1)] + [R('h_mstep_sup.cpp', VAR_=v, ITER_=0, K_=2, V_=3, D_=400, NC_=2, EPOCHS_=2, XM_=60, SCALAR='double', **BIG) for v in (0, 1)], '40 documents with 6 topics and 8 classes or 400 documents, known, without iterations')
more('P15', [R('h_mstep_sup.cpp', VAR_=2, ITER_=0, K_=6, V_=12, D_=40, NC_=8, EPOCHS_=2, XM_=60, SCALAR='double', **BIG)], '40 documents with 6 topics and 8 classes, known, without iterations')
more('P14', [R('h_online.cpp', WEIGHTS_=1, MB_=20, D_=45, K_=3, V_=4, NC_=3, XM_=50, SCALAR='double', **BIG)], 'minibatches of 20 in 45 documents')
more('P16', [R('h_mlr.cpp', SECOND_=0, WEIGHTS_=1, D_=80, K_=12, NC_=12, SCALAR='double', **BIG), R('h_mlr.cpp', SECOND_=0, WEIGHTS_=0, D_=300, K_=3, NC_=3, SCALAR='double', **BIG), R('h_mlr.cpp', SECOND_=1, WEIGHTS_=1, D_=20, K_=8, NC_=9, SCALAR='double', **BIG), R('h_mlr.cpp', SECOND_=1, WEIGHTS_=0, D_=4, K_=16, NC_=16, SCALAR='double', **BIG)], '80 documents, 12 topics, 12 classes (second order: 20, 8, 9), 300 documents, 16 topics and classes, known')
more('P19', [R('h_math.cpp', MODE_=m, SGN_=1, SCALAR='double', R_=r, NC_=c, lib=False, **BIG) for m, r, c in ((0, 40, 40), (1, 40, 40), (2, 40, 30), (3, 30, 40), (4, 30, 30))], 'known matrices of 30 or 40 by 40')
more('P21', [R('h_predict.cpp', SCALAR='double', D_=300, K_=2, NC_=3, KNOWN_=0, opts=PREEMPT0 + MI), R('h_predict.cpp', SCALAR='double', D_=3, K_=70, NC_=70, KNOWN_=0, opts=PREEMPT0 + MI)], '300 documents, or 70 topics and classes, known')
more('P20', [R('h_builder.cpp', MODE_=0, SCALAR='double', K_=20, V_=30, D_=1, N_=30, CORPUS_=0, intercept=NORND, KNOWN_=0, opts=PREEMPT0 + MI), R('h_builder.cpp', MODE_=0, SCALAR='float', K_=6, V_=12, D_=9, N_=2, CORPUS_=1, intercept=NORND, KNOWN_=0, opts=PREEMPT0 + MI), R('h_builder.cpp', MODE_=1, SCALAR='double', K_=20, V_=50, intercept=NORND, opts=PREEMPT0 + MI)], '20 topics of 30 to 50 words, 30 seed documents per topic, one outcome of the generator')
more('P07', [R('h_events.cpp', MODE_=m, NL_=12, LEN_=1024, START_=1, **BIG) for m in (0, 1, 2)] + [R('h_events.cpp', MODE_=m, T_=1, E_=2500, sched=True, opts=PREEMPT0 + MI) for m in (3, 4)], 'one sequence of 1024 operations on 12 listeners; 2500 events of one thread')
more('P05', [lda(0, pre=0, one=1, D_=400, W_=1, I_=2), lda(1, pre=0, one=1, D_=1100, W_=1, I_=1), lda(0, pre=0, one=1, D_=2, W_=1, I_=120), lda(0, pre=0, one=1, D_=100, W_=2, I_=1)], '1100 documents, 120 passes, one outcome of the shuffle, no preemption')
more('P06', [lda(4, pre=0, D_=1100, W_=1, I_=2), lda(4, pre=0, D_=2, W_=1, I_=120), lda(4, pre=0, D_=100, W_=2, I_=1)], '1100 documents, 120 transformations, no preemption')
more('P24', [conc(v, pre=1, XM_=30, LIK_=l, K_=6, V_=15, NC_=4, IT_=3, KNOWN_=0) for v, l in ((0, 0), (1, 0), (2, 1), (3, 0), (4, 1), (5, 0))], '6 topics, 15 words, 4 classes, 3 iterations, known inputs')
for _r in PROPS['P24']['runs'][-6:]: _r['opts'] = _r['opts'] + ['--native-fp'] + MI
more('P02', [npy(1, TYPE_='double', R_=90, NC_=110, ND_=2, BIG_=0, FORTRAN_=0, ALIGN_=64), npy(1, TYPE_='float', R_=70, NC_=60, ND_=2, BIG_=1, FORTRAN_=1, ALIGN_=64)], '90x110 and 70x60 arrays of arbitrary elements')
more('P22', [iorun(0, BIG_=1), iorun(1, BIG_=1)], 'a model of 40 topics, 120 words, 35 classes, 90x110 data, arbitrary bits')

APPS = ['src/applications/%s.cpp' % f for f in ('lda_io', 'SnapshotEvery', 'EpochProgress', 'ExpectationProgress', 'MaximizationProgress', 'utils')]
def tool(t, cmd, init, feat, tier=Q, **kw):
    depth = ['--max-depth', kw.pop('depth')] if 'depth' in kw else []
    return R('h_tool.cpp', tier, TOOL_=t, CMD_=cmd, INIT_=init, FEAT_=feat, shim=True, sources=APPS, intercept=NORND, libs=['-ldocopt'], opts=['--preempt', 0, '--native-fp'] + depth, **kw)
def prog(mode, tier=Q, **kw): return R('h_progress.cpp', tier, MODE_=mode, shim=True, sources=APPS, **kw)
PROPS['P25'] = dict(
    bounds='2 documents (1 in places), 2 words, 2-3 topics, 2 classes, up to 2 passes and inference iterations, every tolerance, weight, penalty, momentum and rate in its interval, one group of options arbitrary at a time and the others fixed off their defaults, then all at their defaults (topics and passes excepted); one worker in training, 1-2 in transformation; reports: up to 2 passes of 2 documents, class weights: up to 3 documents, 3 classes',
    labels=['the saved model is the one the library trains', 'the output is what the library computes', 'the tool reports what the library reports', 'quiet tools print nothing', 'snapshots as asked for', 'the mean of the finite negative likelihoods of the pass', 'every n-th document is reported', 'the reported likelihood is that of the event', 'the weight of a class is inverse to its frequency'],
    assumptions=SHIM_A + ['docopt is replaced by a model (shim/docopt/docopt.h) in the symbolic build; every witness and counterexample is replayed with the real library', 'arithmetic on known numbers is done in double precision here'],
    runs=[tool(t, 1, 0, 0) for t in (0, 1, 2)] + [tool(t, 0, 2, f) for t in (0, 1, 2) for f in (0, 1, 2) if t or f != 1] + [tool(2, 2, 2, f) for f in (0, 1, 2)]
        + [tool(t, c, i, 0) for t, c in ((0, 0), (1, 0), (2, 0), (2, 2)) for i in (0, 1)] + [tool(1, 0, 3, 0), tool(2, 0, 3, 0), tool(2, 2, 3, 0)]
        + [tool(1, 0, 2, 4, depth=2), tool(2, 0, 2, 4, depth=2)] + [prog(m, PASSES_=2, D_=3, NC_=3) for m in range(4)]
        + [tool(t, 1, 0, 0, T, SYMM_=1) for t in (0, 1, 2)] + [tool(1, 0, 2, 4, T, depth=5), tool(2, 0, 2, 4, T, depth=5)] + [prog(0, T, PASSES_=3), prog(3, T, PASSES_=1, D_=4, NC_=4)])
