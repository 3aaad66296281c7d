# The text of the properties; gen.py writes properties.jsonl and MANIFEST.json from it.
def P(title, statement, over, qtext, why, files, mech, note):
    return dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note)
E_ = 'src/ldaplusplus/em/'
SPEC = {
'P01': P('Matrices written to .npy streams come back identical',
    'Writing any matrix or vector of a supported element type to a stream in the numpy format and reading it back yields the same shape and, bit for bit, the same elements in the same positions, for either storage order and however many arrays were written before it in the same stream. The bytes written are a well-formed version 1.0 .npy file: magic, version, little-endian header length, a header dictionary with descr, fortran_order and shape, padded so that data start at a multiple of 16, then the raw elements.',
    ['inputs', 'configurations', 'histories'], 'all matrices up to the bound with arbitrary element bits, all element types, both storage orders, sequences of arrays in one stream',
    'the tests write a few fixed matrices and compare values, so they cannot see errors that depend on the bits of an element, on the number of digits of a dimension or on the position in the stream',
    ['include/ldaplusplus/NumpyFormat.hpp'], [('NumpyOutput', 'include/ldaplusplus/NumpyFormat.hpp'), ('NumpyInput', 'include/ldaplusplus/NumpyFormat.hpp')],
    'element bits symbolic; dimensions and types enumerated within the bounds'),
'P02': P('Arrays written by numpy are read with their declared meaning or rejected',
    'An .npy file whose header declares row-major or column-major order, either byte order, and any number of dimensions is read so that element (i, j) of the resulting matrix (first dimension by all others) is that element of the stored array, and nothing after the array is consumed. A file whose element type differs from the requested one, whose format version is above 1, whose magic is wrong, or which is missing, empty or truncated is rejected with an exception and never yields data; no damaged byte of a header causes a stray memory access.',
    ['inputs', 'configurations'], 'all stored element bits, all supported types, byte orders, storage orders and shapes within the bounds',
    'tests read only files the library wrote itself plus one reference file: never a big-endian, never a transposed non-square foreign array, never a mismatched type',
    ['include/ldaplusplus/NumpyFormat.hpp'], [('NumpyInput', 'include/ldaplusplus/NumpyFormat.hpp')],
    'foreign headers enumerated; payload bits symbolic'),
'P03': P('A corpus is always a permutation of its documents, words and class paired',
    'Through any sequence of shuffles a corpus keeps its size and contains every document of the data exactly once, each with its own word counts and, in a classification corpus, its own class and a reference to the corpus it belongs to. Before the first shuffle the order is that of the data, and reading documents never changes the order.',
    ['inputs', 'histories'], 'all data within the bounds, all outcomes of the random generator, all numbers of shuffles within the bounds',
    'tests shuffle one corpus with one seed; a permutation bug shows only for particular generator outcomes',
    ['src/ldaplusplus/Document.cpp', 'include/ldaplusplus/Document.hpp'], [('CorpusIndexes::shuffle, EigenCorpus::at, EigenClassificationCorpus::at', 'src/ldaplusplus/Document.cpp')],
    'every outcome of the shuffle is enumerated through the generator, word counts and classes are symbolic'),
'P04': P('Class priors are the class frequencies of the labelled documents',
    'In a classification corpus the prior of a class is the fraction of the labelled documents that carry it, so the priors sum to one; documents with a negative class are unlabelled and do not count.',
    ['inputs'], 'all class vectors within the bounds',
    'the tests never build a corpus with unlabelled documents and check one balanced class vector',
    ['src/ldaplusplus/Document.cpp'], [('EigenClassificationCorpus constructor, get_prior', 'src/ldaplusplus/Document.cpp')],
    'class vectors symbolic within the bound'),
'P05': P('Every training pass processes each document exactly once, on every schedule',
    'Under every interleaving of the worker threads a training pass runs the expectation step exactly once per document, hands every result together with its own document to the maximization step exactly once, then finishes the pass by calling the per-pass expectation hook and the maximization exactly once, in that order and after all documents. Every pass terminates with all workers stopped and without deadlock, the driver itself has no data race, and training repeats this for the requested number of iterations.',
    ['schedules', 'configurations', 'inputs'], 'all schedules within the preemption bound, worker counts, corpus sizes and iteration counts within the bounds',
    'the test suite runs one machine schedule per execution; lost, duplicated or mispaired documents and races need particular interleavings',
    ['src/ldaplusplus/LDA.cpp', 'include/ldaplusplus/LDA.hpp'], [('LDA::partial_fit, doc_e_step_worker, extract_vp_from_queue', 'src/ldaplusplus/LDA.cpp')],
    'symbolic execution explores every schedule at synchronisation points within a preemption bound, with vector-clock race detection'),
'P06': P('Transform keeps document order and the model on every schedule',
    'Transforming a document-word matrix returns one column per document, and column i holds the topic posterior the expectation step computed for document i, whatever the number of workers and their interleaving. It neither calls the maximization step nor changes the model.',
    ['schedules', 'inputs'], 'all schedules within the preemption bound, worker counts and document counts within the bounds',
    'tests transform with one schedule and rarely compare the columns with the documents',
    ['src/ldaplusplus/LDA.cpp'], [('LDA::transform, doc_e_step_worker', 'src/ldaplusplus/LDA.cpp')],
    'as P05'),
'P07': P('Every event reaches every current listener exactly once, in order',
    'An event given to an event dispatcher is delivered exactly once to each listener registered when it is delivered (immediately for the plain dispatcher and the owner of a same-thread dispatcher, otherwise when the events are processed), and events from one thread arrive in the order they were dispatched; removed listeners get nothing, a listener may remove itself while handling an event, and one added again gets events again. Events raised by other threads are delivered by the thread that processes them, never concurrently and none lost: when a training pass reaches its end, every progress event of its documents has been delivered.',
    ['histories', 'schedules'], 'all sequences of adding, removing, dispatching and processing within the bounds, all schedules within the preemption bound',
    'tests dispatch a couple of events to a couple of listeners in one thread',
    ['src/ldaplusplus/events/Events.cpp', 'include/ldaplusplus/events/Events.hpp', 'src/ldaplusplus/LDA.cpp'], [('EventDispatcher, ThreadSafeEventDispatcher, SameThreadEventDispatcher', 'src/ldaplusplus/events/Events.cpp'), ('LDA::process_worker_events', 'src/ldaplusplus/LDA.cpp')],
    'operation sequences and schedules enumerated symbolically'),
'P08': P('Every E step returns a valid variational posterior and touches nothing else',
    'For every document, an expectation step of any kind returns finite, non-negative word-topic probabilities that sum to one for every word of the document, and topic parameters equal to the prior plus the expected counts, whose mass is the prior mass plus the document length. Words that do not occur contribute nothing even if the model gives them probability zero, documents without words are accepted, and neither document nor model is modified; exactly one progress event is emitted.',
    ['inputs', 'configurations'], 'all models and documents within the bounds, all kinds of expectation step',
    'tests check a handful of random documents and only some of these relations; zero columns and empty documents are never tried',
    ['src/ldaplusplus/e_step_utils.cpp', E_ + 'UnsupervisedEStep.cpp', E_ + 'SupervisedEStep.cpp', E_ + 'FastSupervisedEStep.cpp', E_ + 'MultinomialSupervisedEStep.cpp', E_ + 'CorrespondenceSupervisedEStep.cpp'], [('doc_e_step of each E step', E_), ('normalize_cols, sum_cols_scaled', 'include/ldaplusplus/utils.hpp')],
    'model entries and counts symbolic'),
'P09': P('Unsupervised inference follows the LDA update equations and stopping rule',
    'Starting from uniform word-topic probabilities, unsupervised inference alternates the documented phi and gamma updates and returns the iterate at which the mean absolute change of gamma first falls below the tolerance, or the last one when the iteration limit is reached.',
    ['inputs', 'configurations'], 'all documents, models, tolerances and iteration limits within the bounds',
    'tests check that likelihood tends to grow on random documents, not the values or when iteration stops',
    [E_ + 'UnsupervisedEStep.cpp', E_ + 'AbstractEStep.cpp', 'src/ldaplusplus/e_step_utils.cpp'], [('UnsupervisedEStep::doc_e_step', E_ + 'UnsupervisedEStep.cpp'), ('compute_unsupervised_phi, compute_gamma', 'src/ldaplusplus/e_step_utils.cpp'), ('AbstractEStep::converged', E_ + 'AbstractEStep.cpp')],
    'equality of rational functions over exp/psi atoms'),
'P10': P('Supervised inference follows its documented update equations',
    'Each supervised expectation step (fast approximate, multinomial, correspondence, and the exact one) returns the iterate that its documented updates of phi, gamma (and tau) produce for the document and its class, with the configured weights - including the per-pass exponential decay of the fast step - tolerance, iteration and fixed-point limits.',
    ['inputs', 'configurations', 'histories'], 'all documents, classes, models, weights, tolerances within the bounds; number of finished passes for the decaying weight',
    'tests only compare likelihoods before and after on random data',
    [E_ + 'FastSupervisedEStep.cpp', E_ + 'MultinomialSupervisedEStep.cpp', E_ + 'CorrespondenceSupervisedEStep.cpp', E_ + 'SupervisedEStep.cpp', 'src/ldaplusplus/e_step_utils.cpp'], [('doc_e_step of each supervised E step', E_), ('compute_supervised_* functions', 'src/ldaplusplus/e_step_utils.cpp')],
    'equality of rational functions over exp/log/psi atoms'),
'P11': P('The M step sets topics to the normalised expected word counts of the pass',
    'After a pass, each topic (row of beta) is the sum over exactly the documents of that pass of word count times word-topic probability (times tau in the correspondence model), normalised to sum to one; nothing of an earlier pass leaks in, the Dirichlet prior is untouched, and the model does not change before the pass ends.',
    ['inputs', 'histories'], 'all document sequences over several passes within the bounds',
    'tests run one pass over random data and check only that rows sum to one',
    [E_ + 'UnsupervisedMStep.cpp', E_ + 'MultinomialSupervisedMStep.cpp', E_ + 'CorrespondenceSupervisedMStep.cpp'], [('UnsupervisedMStep::doc_m_step, m_step', E_ + 'UnsupervisedMStep.cpp')],
    'all counts and probabilities symbolic over two passes'),
'P12': P('Multinomial and correspondence M steps set eta to smoothed class frequencies',
    'After a pass, the class distribution of each topic is proportional to the expected (in the correspondence model tau-weighted) word counts of that topic in documents of each class of that pass plus the smoothing mu - 1 and sums to one over the classes; exactly one progress event reports the resulting log probability of the classes.',
    ['inputs', 'histories'], 'all document sequences over two passes within the bounds',
    'tests check one pass on random data for normalisation only',
    [E_ + 'MultinomialSupervisedMStep.cpp', E_ + 'CorrespondenceSupervisedMStep.cpp'], [('m_step, doc_m_step', E_ + 'MultinomialSupervisedMStep.cpp')],
    'all counts and probabilities symbolic over two passes'),
'P13': P('Supervised M steps fit eta on exactly the documents of the pass, downhill',
    'A supervised maximization step trains the classifier on exactly the expected topic proportions and classes of the documents of that pass - documents without words or with very many words included, earlier passes excluded - and the first likelihood it reports is the regularised log likelihood at the old parameters. Every iteration moves along the negative gradient of that objective, never makes it worse, and the fit ends with the first iteration that does not improve it by more than the requested tolerance (relative to the new value), or after the requested number of iterations (none leaves eta unchanged).',
    ['inputs', 'histories'], 'all document sequences over two passes within the bounds',
    'tests run the optimiser once on random data and check that accuracy improves',
    [E_ + 'SupervisedMStep.cpp', E_ + 'FastSupervisedMStep.cpp', 'src/ldaplusplus/optimization/MultinomialLogisticRegression.cpp', 'src/ldaplusplus/optimization/SecondOrderLogisticRegressionApproximation.cpp'], [('doc_m_step, m_step', E_ + 'SupervisedMStep.cpp'), ('doc_m_step, m_step', E_ + 'FastSupervisedMStep.cpp')],
    'probabilities symbolic, document lengths from a fixed set including 0 and 262144'),
'P14': P('The online M step updates once per full minibatch, with that minibatch',
    'The online maximization step changes the model exactly when the configured number of documents has been seen since the last change: topics become the configured blend of old topics and the normalised expected word counts of all documents seen so far, and eta takes one momentum gradient step of the class-weighted loss of exactly the documents of that minibatch. Between updates, including at the end of a pass, the model does not change, and every update reports one likelihood.',
    ['inputs', 'histories'], 'all document sequences, weights, rates and momenta within the bounds, end of pass anywhere',
    'tests feed one random minibatch and look at the trend of the likelihood',
    [E_ + 'FastOnlineSupervisedMStep.cpp'], [('doc_m_step, m_step', E_ + 'FastOnlineSupervisedMStep.cpp')],
    'probabilities, rates and weights symbolic'),
'P15': P('Semi-supervised training treats each document by whether it is labelled',
    'In semi-supervised training a document with a non-negative class is inferred with the supervised step and used to fit the classifier, one with a negative class is inferred with the unsupervised step and never enters the classifier, and both contribute to the topics. The result, the end-of-pass notification and every progress event of the inner steps are passed on unchanged and exactly once.',
    ['inputs', 'histories'], 'all sequences of labelled and unlabelled documents within the bounds',
    'no test mixes labelled and unlabelled documents and looks at which step ran',
    [E_ + 'SemiSupervisedEStep.cpp', 'include/ldaplusplus/em/SemiSupervisedEStep.hpp', 'include/ldaplusplus/em/SemiSupervisedMStep.hpp'], [('SemiSupervisedEStep::doc_e_step', E_ + 'SemiSupervisedEStep.cpp'), ('SemiSupervisedMStep::doc_m_step', 'include/ldaplusplus/em/SemiSupervisedMStep.hpp')],
    'inner steps replaced by recording stand-ins through the public constructor; label sequences enumerated'),
'P16': P('The classifier gradient is the derivative of its documented objective',
    'For both logistic regression objectives (plain and second-order), with and without class weights and regularisation, the value is the documented class-weighted negative log likelihood plus the L2 penalty, and the gradient is exactly its derivative with respect to every coefficient. Computing either leaves the coefficients alone and depends on no earlier call.',
    ['inputs'], 'all data, classes, weights, penalties and coefficients within the bounds',
    'tests compare with finite differences at a few random points with loose tolerance',
    ['src/ldaplusplus/optimization/MultinomialLogisticRegression.cpp', 'src/ldaplusplus/optimization/SecondOrderLogisticRegressionApproximation.cpp'], [('value, gradient', 'src/ldaplusplus/optimization/MultinomialLogisticRegression.cpp')],
    'equality with forward-mode derivative of the reference objective'),
'P17': P('Line search accepts only sufficient decrease; descent stops when told',
    'On any function, the backtracking line search returns the first point x - tau^n d that satisfies the sufficient-decrease condition, moves the parameters exactly there and returns the value there; the constant line search takes exactly its step. Gradient descent reports value, gradient norm (zero before the first step) and iteration count truthfully before every iteration and stops exactly when the callback says so.',
    ['inputs', 'programs'], 'all functions (arbitrary value at every evaluated point), gradients, directions and constants within the bounds',
    'tests optimise one quadratic function',
    ['include/ldaplusplus/optimization/GradientDescent.hpp'], [('ArmijoLineSearch, ConstantLineSearch, GradientDescent', 'include/ldaplusplus/optimization/GradientDescent.hpp')],
    'function values and gradients are fresh unknowns at every evaluation'),
'P18': P('Approximate exp and digamma stay within their accuracy for every input',
    'The table based exponential of any x in [-100, 100] lies within a factor exp(max(1, 2|x|)/1024) of the true exponential and is positive; beyond that range it is the library exponential; zero gives one, infinities give infinity and zero, NaN gives NaN, and no argument reads outside the table. The digamma approximation satisfies psi(x+1) = psi(x) + 1/x for positive arguments below 7 and agrees with the asymptotic series of psi to 1e-9 above, so that it is accurate for every positive argument.',
    ['inputs'], 'all finite arguments in the stated ranges',
    'tests sample a few points',
    ['include/ldaplusplus/utils.hpp'], [('fast_exp, digamma', 'include/ldaplusplus/utils.hpp')],
    'argument symbolic; all table cells enumerated by the solver branches'),
'P19': P('Normalisation and reshaping helpers are exact on every matrix',
    'Row and column normalisation make every row (column) with non-zero sum add up to one while keeping proportions, and leave all-zero ones untouched; scaled sums ignore entries whose scale is zero even if they are not finite; reshaping a matrix to a vector and back is the identity in column-major order; products of non-zeros skip exactly the zeros.',
    ['inputs'], 'all matrices within the bounds',
    'tests use a few fixed matrices',
    ['include/ldaplusplus/utils.hpp'], [('normalize_rows, normalize_cols, sum_rows_scaled, sum_cols_scaled, reshape_into, product_of_nonzeros', 'include/ldaplusplus/utils.hpp')],
    'entries symbolic'),
'P20': P('The builder never yields an uninitialised or inconsistent model',
    'Whatever sequence of settings is applied, the builder either produces a model whose topics are probability distributions over the vocabulary of the data (whatever the random outcomes), whose prior is one over the number of topics and whose classifier has the requested shape and initial value, or throws: building without topics, or with a classifier whose number of topics differs from theirs, always throws, and so does initialising a classifier before the topics. Parameters taken from an existing model or matrices are used unchanged, and every expectation or maximization step obtained from the builder behaves as one constructed directly with the same settings.',
    ['configurations', 'inputs', 'histories'], 'all orders of builder calls, data matrices and random outcomes within the bounds',
    'tests try three orders of calls with one seed',
    ['src/ldaplusplus/LDABuilder.cpp', 'include/ldaplusplus/LDABuilder.hpp'], [('LDABuilder', 'src/ldaplusplus/LDABuilder.cpp')],
    'call sequences and random draws enumerated, data symbolic'),
'P21': P('Predictions are the argmax of the linear scores of the topic proportions',
    'The decision value of a class for a document is the inner product of the class parameters with the document expected topic proportions (posterior minus prior, normalised; zero for documents without words), computed per document and independent of the other documents; the predicted class is the one with the greatest value. Transform-and-predict agrees with doing both separately.',
    ['inputs'], 'all models and posteriors within the bounds',
    'tests check accuracy on synthetic data only',
    ['src/ldaplusplus/LDA.cpp'], [('LDA::decision_function, predict, transform_predict', 'src/ldaplusplus/LDA.cpp')],
    'posteriors and model symbolic; expectation step replaced by a stand-in through the public constructor'),
'P22': P('Saved models, data and snapshots are reloaded unchanged',
    'A model saved by the command line tools is reloaded with exactly the same parameters, an unsupervised model with an empty classifier; saving over an older file leaves nothing of it; the class labels and documents loaded from a data file are those stored in it. Snapshots are written after exactly every configured number of passes, under a name carrying the pass count.',
    ['inputs', 'histories'], 'all parameter bits and shapes within the bounds, all pass counts within the bounds',
    'the command line tools have no tests',
    ['src/applications/lda_io.cpp', 'src/applications/SnapshotEvery.cpp'], [('save_lda, load_lda, parse_input_data', 'src/applications/lda_io.cpp'), ('SnapshotEvery', 'src/applications/SnapshotEvery.cpp')],
    'element bits symbolic, streams replaced by an in-memory model'),
'P23': P('The likelihood an E step reports is the variational bound at its result',
    'When an expectation step is told to compute likelihoods it reports, for every document, the evidence lower bound of its model evaluated at the variational parameters it returns, every occurrence of a word counted; when told not to, it reports NaN.',
    ['inputs', 'configurations'], 'all documents, models and kinds of expectation step within the bounds',
    'tests only compare magnitudes of likelihoods on random data',
    ['src/ldaplusplus/e_step_utils.cpp'], [('compute_*_likelihood', 'src/ldaplusplus/e_step_utils.cpp')],
    'equality of expressions over log/lgamma/psi atoms'),
'P24': P('One expectation step object can be run on several documents at once',
    'Workers share one expectation step, one model and one random generator. Under every interleaving, running the step on several documents at the same time gives for each document what running it on that document alone gives, reports exactly one progress event per document, and makes no conflicting unsynchronised access; the numbers of the shared generator are shared out, each drawn exactly once.',
    ['schedules', 'inputs', 'configurations'], 'all interleavings of two threads within the preemption bound, all kinds of expectation step, all models and documents within the bounds',
    'the tests run each expectation step in one thread; a scratch buffer moved into the object or an unprotected generator passes them all',
    [E_ + 'UnsupervisedEStep.cpp', E_ + 'SupervisedEStep.cpp', E_ + 'FastSupervisedEStep.cpp', E_ + 'MultinomialSupervisedEStep.cpp', E_ + 'CorrespondenceSupervisedEStep.cpp', E_ + 'SemiSupervisedEStep.cpp', 'include/ldaplusplus/utils.hpp', 'include/ldaplusplus/em/AbstractEStep.hpp'], [('doc_e_step of each E step', E_), ('ThreadSafePRNG', 'include/ldaplusplus/utils.hpp'), ('ThreadSafeEventDispatcher::dispatch', 'src/ldaplusplus/events/Events.cpp')],
    'threads scheduled symbolically with vector-clock race detection; results compared as rational functions'),
'P25': P('The command line tools do what the library does with the same options',
    'For every command and combination of options, lda, slda and fslda save exactly the model, write exactly the transformation and take exactly the snapshots that the library yields for the data and the meaning documented for each option (its default when omitted), whether training starts from seeded or random topics or continues from a saved supervised or unsupervised model; online training weights every class inversely to its frequency. Progress reports give, per pass, the mean of the finite negative document likelihoods, the documents processed and every likelihood of the maximization; quiet tools print nothing.',
    ['inputs', 'configurations'], 'all values of the numeric options in their intervals, all combinations of commands, starting points and switches within the bounds',
    'no test runs the command line tools',
    ['src/applications/lda.cpp', 'src/applications/slda.cpp', 'src/applications/fslda.cpp', 'src/applications/utils.cpp', 'src/applications/EpochProgress.cpp', 'src/applications/ExpectationProgress.cpp', 'src/applications/MaximizationProgress.cpp'],
    [('main, create_lda_for_train, create_lda_for_online_train, create_lda_for_transform', 'src/applications/'), ('utils::create_class_weights', 'src/applications/utils.cpp'), ('on_event of the progress listeners', 'src/applications/')],
    'the tool and the library are executed symbolically on the same inputs and their files compared'),
}
NA = {}
