# How each property is decided (DESIGN.md); bounds come from props.py.
HOW = {
'P01': ('h_npy.cpp MODE 0 (streams), 3 (file helpers)', 'The element bits are 8 to 64 bit vectors; NumpyOutput writes into the in-memory stream, the bytes are parsed by an independent reader of the format (magic, version, header length, dictionary by key, padding, order of elements), then read back into column- and row-major matrices through one NumpyInput object that has read other arrays before. Equality of bits is decided by the bit-vector solver (mostly syntactically, as the bytes are moved, not computed).'),
'P02': ('h_npy.cpp MODE 1, 2, 4', 'Foreign files are built byte by byte as numpy writes them, with symbolic payload, for every byte order, storage order, 0 to 4 dimensions and alignment; element (i,j) and the stream position are asserted. Faults are symbolic: any version byte above 1, any changed byte of the magic, any truncation point, other element types, declared sizes that wrap a 32 bit count, any value of any single header byte; assertion: an exception, and no stray access (the memory model of the engine decides that).'),
'P03': ('h_corpus.cpp', 'Word counts are symbolic, every outcome of the random generator inside std::shuffle is a choice; after each shuffle every position is compared with the data.'),
'P04': ('h_corpus.cpp', 'Class vectors symbolic (forked), priors compared with exact fractions.'),
'P05': ('h_lda.cpp MODE 0-3', 'The real LDA driver with stand-in steps given through its public constructor; they record thread, document and parameters. All schedules within the preemption bound, every shuffle outcome. Race detection covers the queues and the dispatcher; a pass that never ends is a deadlock or a hit of the instruction bound.'),
'P06': ('h_lda.cpp MODE 4', 'As P05; the stand-in expectation step returns a gamma that identifies the document (symbolic), columns are compared.'),
'P07': ('h_events.cpp; h_lda.cpp MODE 0', 'Every sequence of add/remove/dispatch/process operations up to the bound against a reference list; threads dispatching while the owner processes on every schedule; a training pass whose listener must have seen every event before the pass ends.'),
'P08': ('h_estep_valid.cpp', 'All five expectation steps on symbolic model, document (zero counts and zero-probability words included) and settings; simplex and mass identities decided by normal form or z3; document and model compared with copies; progress events counted.'),
'P09': ('h_estep_ref.cpp VAR 0', 'A reference implementation of the two documented updates and of the stopping rule is run beside the real one on the same symbolic inputs and tolerance; both fork on the same convergence conditions, so returning at another iterate, or another iterate, is a disagreement of rational functions over exp/psi atoms.'),
'P10': ('h_estep_ref.cpp VAR 1-4', 'As P09 for the four supervised steps; fixed-point loop, decay over finished passes and weights included.'),
'P11': ('h_mstep.cpp', 'Symbolic phi, counts (and tau); two passes with different documents; reference sums.'),
'P12': ('h_mstep.cpp VAR 1, 2', 'As P11 for eta and the reported log probability (log atoms of the old eta).'),
'P13': ('h_mstep_sup.cpp', 'First report must equal the documented objective (exp/log atoms) of exactly the documents of the pass, over two passes with different numbers of documents; with one iteration the direction must be the reference gradient and the objective must not rise, in every branch of the line search up to the depth bound; a document of 70000 words guards against integer overflow.'),
'P14': ('h_online.cpp', 'Sequence of documents with symbolic contents and every position of an end-of-pass call; the model must be bit-identical between updates and follow the momentum formula at updates (gradient of a dual-number reference).'),
'P15': ('h_semi.cpp; h_mstep_sup.cpp VAR 2', 'Classes symbolic -2..2; recording inner steps; returned object identity, hook calls and events compared; the M step with mixed documents against the objective over labelled ones.'),
'P16': ('h_mlr.cpp', 'Dual-number reference of the documented objective; gradient equality for every coefficient as rational functions over exp atoms.'),
'P17': ('h_armijo.cpp', 'The function is uninterpreted: every evaluation at a new point returns a fresh symbolic value (so the result holds for any function); the accepted point must be the first satisfying the condition.'),
'P18': ('h_accuracy.cpp', 'fast_exp is executed on a symbolic real; the table lookup forks into cells, each with an interval; result against exact rational bounds of exp at the ends of the cell (mpmath, in exp_ref.inc). digamma: recurrence and series as real identities with log atoms and bounds.'),
'P19': ('h_math.cpp', 'Symbolic matrices, one non-finite entry possible.'),
'P20': ('h_builder.cpp, h_builder_m.cpp', 'Every sequence of initialisation calls up to the bound against a reference state machine; random outcomes symbolic; steps obtained from the builder are run beside directly constructed ones with symbolic distinct settings.'),
'P21': ('h_predict.cpp', 'Symbolic posteriors (stand-in expectation step), prior and classifier; scores as rational functions, argmax by forking on comparisons.'),
'P22': ('h_io.cpp', 'In-memory file system; arbitrary bits; sequences of passes for the snapshots.'),
'P23': ('h_elbo.cpp', 'The reported value against the bound written out per word occurrence over log/psi/lgamma atoms at the returned parameters.'),
'P24': ('h_conc.cpp, h_prng.cpp', 'Two threads run one step object on two documents on every schedule; equality with a sequential run; race detection on everything the step touches; the generator itself with all its draws.'),
'P25': ('h_tool.cpp, h_progress.cpp', "The tool's main() runs on symbolic option values (numbers parsed by a strtod primitive, so a swapped or dropped option is a different symbolic variable) and is compared with the library called directly; files and standard output are in memory. Every combination of optional arguments is a choice; defaults are compared with the documented ones. Progress listeners get symbolic likelihoods."),
}
