TV = 'TLA+ specification checked with TLC; behaviours generated by TLC are replayed into the real code and the recorded execution is validated against the specification by TLC'
SM = 'nntl/interface/math/smatrix.h'
p('M01', 'Matrix values: shape, addressing, copies and comparison are exact',
  'Whatever sequence of construction, resizing, element writes, fills, cloning, copying, transposition and row/column operations is applied to dense matrices, every element reads back exactly what was last written to it, the reported shape, element counts and batch/sample sizes agree with the shape last requested and with the batch layout, and comparison and content tests (equality, binary data, absence of NaNs) answer according to the contents.',
  ['histories', 'inputs'], 'every sequence of matrix operations, over all shapes, layouts (batch in rows or columns), bias modes and contents',
  'the four tests check a few fixed matrices; the operations interact through shared layout flags and sizes, and errors need particular shapes and orders',
  [SM], [('element addressing and numel', SM), ('clone/copy/resize', SM), ('batch layout', SM)], 'public matrix API (shape queries, element access, comparison)',
  technique=TV, note='exhaustive TLC on small instances; thousands of TLC-generated operation sequences (double and float) replayed under ASan with element-exact trace validation')
p('M02', 'Bias emulation: the bias unit is present, set to 1 and kept apart from data',
  'A matrix created with emulated biases always has exactly one additional bias line beside its data; operations documented to act on data only never change it, operations that set biases set all of them to one, holey-bias state is tracked exactly, and the bias tests report the truth about the stored bias line.',
  ['histories', 'inputs'], 'every operation sequence over matrices with and without bias emulation, both batch layouts, holey or not',
  'tests only construct biased matrices once; the bias line is manipulated by dozens of operations in two layouts',
  [SM], [('bias emulation', SM), ('holey biases', SM)], 'public matrix API',
  technique=TV, note='same replay machinery with bias-centred operation profiles; invariant InvBias model-checked')
p('M03', 'Matrix storage: owned memory freed exactly once, borrowed memory never',
  'Each matrix either owns its storage, which is released exactly once and never used afterwards, or borrows memory of its user or of another matrix, which it never frees and never reads or writes outside the borrowed extent; views and submatrices alias exactly the elements they name, moves transfer storage without copying, and a failed allocation leaves the object empty and reports failure.',
  ['histories', 'fault_sequences'], 'every sequence of constructing, resizing, moving, viewing, cloning and clearing matrices, including allocation failures at any point',
  'tests never mix ownership transfer, external storage, views and allocation failure',
  [SM], [('internal/external storage', SM), ('move construction and assignment', SM), ('submatrix views', SM)], 'public matrix API, allocation counting, address sanitizer',
  technique=TV, note='allocator interposed to count live blocks and inject failures; every element of user memory compared after each operation')
p('M04', 'Deformable matrices: hiding and deforming never lose or corrupt data',
  'A deformable matrix can be reshaped, have trailing columns or the bias hidden and restored, and be switched between batch sizes any number of times without reallocating; the elements of the visible part are exactly those the storage order prescribes, restoring brings back the hidden elements and the original shape, and no operation reaches beyond the storage size.',
  ['histories'], 'every sequence of deform, hide and restore operations over owned or borrowed storage, both layouts, with and without biases',
  'no existing test exercises deformable matrices',
  [SM], [('smatrix_deform', SM)], 'public matrix API',
  technique=TV, note='InvHide model-checked; generated deform/hide/restore behaviours replayed under ASan')
W, BW, SY = ('nntl/interface/threads/' + x for x in ('workers.h', 'bgworkers.h', '_sync_primitives.h'))
p('T01', 'Thread pool: parallel jobs cover the range exactly once and always finish',
  'A parallel run or reduction over n items hands out disjoint ranges that cover the n items exactly, each processed exactly once under a distinct thread id between 0 and the number of threads used minus one with id 0 being the caller, never uses more threads than requested, and returns only after every piece has finished; a reduction combines exactly the per-thread results in thread id order. Creating, using and destroying the pool terminates under every schedule.',
  ['schedules', 'inputs', 'histories'], 'every interleaving of the worker threads, any sequence of jobs, any item count, any thread count and limit',
  'the tests never start the pool; lost wakeups and early returns need particular interleavings',
  [W, SY, 'nntl/interface/threads/parallel_range.h'], [('job publication and completion counter', W), ('shutdown', W), ('partitioning', W)], 'calls of the user function (range, thread id, thread), return of run/reduce, destructor',
  technique='TLA+ protocol model checked exhaustively with TLC (safety, deadlock, termination); the real pool runs on a deterministic scheduler (random, model-generated and systematically enumerated preemption-bounded schedules) and TLC validates every recorded history against the contract specification',
  note='threads, atomics and locks of the pool are replaced by scheduler-controlled ones; exclusive- and shared-lock variants; sequentially consistent memory')
p('T02', 'Background pool: tasks run only while registered; exec runs once per worker',
  'Background workers call a task only between its registration and the return of the deletion of tasks, repeat it while it asks for more, serve tasks in descending priority order, and keep serving every registered task; executing a function on all workers runs it exactly once on each and returns after all of them finished. Once deletion has returned no deleted task is running, and creation, use and destruction terminate under every schedule.',
  ['schedules', 'histories'], 'every interleaving of owner and workers, any history of add, delete, exec and configuration calls',
  'no test uses the background pool; the guarantees are about interleavings',
  [BW, SY], [('step-aside flag and shared lock', BW), ('exec flags and counter', BW)], 'calls of tasks and exec functions, return of owner calls, destructor',
  technique='TLA+ protocol model checked exhaustively with TLC (safety, deadlock, termination); the real pool runs on a deterministic scheduler and TLC validates every recorded history against the contract specification',
  note='assumes a writer-preferring or fair readers/writer lock for liveness; tasks asking for more forever are outside the contract')
TD = 'nntl/train_data/'
p('D01', 'Training batches and data walks deliver every sample correctly',
  'After a data set is initialised for training, every epoch delivers floor(samples/batch size) batches of exactly the requested size, in which each sample appears at most once, with its own labels and intact biases, in an order that varies over all permutations; walking over any data set delivers all of its samples exactly once, in order, with a shorter last portion only if the size does not divide, and may leave out the data or the labels. Initialisation caps batch sizes by the set sizes, refuses inconsistent ones and reports the effective sizes, and data sets are never changed by it; the same holds for data sets whose samples are produced by a transformation.',
  ['histories', 'inputs'], 'every history of (re)initialisation, epochs, walks and batches, over all set sizes, batch sizes, layouts and random orders',
  'no existing test touches train data; errors appear only for particular size and batch combinations and call histories',
  [TD + x for x in ('inmem_train_data.h', '_td_base.h', '_train_data_simple.h', 'transf_train_data.h', '_i_train_data.h')],
  [('batch assembly and permutation', TD + 'inmem_train_data.h'), ('walks', TD + 'inmem_train_data.h'), ('run-time transformation', TD + 'transf_train_data.h')], 'public train data interface (batches, counts, return codes)',
  technique=TV, note='every row of every delivered batch is validated by TLC against the contents of the set')
p('D02', 'Train data storage: sets are taken over whole or refused, and stay coherent',
  'Absorbing four matrices as train and test data succeeds exactly when they form a coherent non-empty data set (matching sample counts and widths, biases only where required, owned storage) and takes them over unchanged, otherwise it leaves both sides untouched; replacing labels, duplicating, moving, extracting, transposing, clearing and comparing data sets preserve every sample and label, keep the sets coherent and report counts and widths truthfully.',
  ['histories', 'inputs'], 'every sequence of storage operations over two data sets and a loose set of matrices, coherent or defective in any of 18 ways, both layouts',
  'no existing test touches train data storage', [TD + 'inmem_train_data_stor.h', TD + 'inmem_train_data.h'],
  [('absorb and preserve checks', TD + 'inmem_train_data_stor.h')], 'public storage interface',
  technique=TV, note='full contents of both stores and of the loose matrices validated after each operation')
p('D03', 'Data normalization uses train statistics and changes only the samples',
  'Normalizing a data set, over the whole matrix or per column, brings the mean and standard deviation of the inspected train samples to the requested targets (columns of zero deviation keep their scale), applies exactly the same affine map to the test samples, and never touches labels or biases. A data set normalized at run time delivers the same values in training batches and in walks while its base data stay unchanged, forgets an earlier normalization when normalized again, and delivers the original values after a reset.',
  ['histories', 'inputs'], 'every sequence of load, normalization (all modes, targets, batch sizes and counts) and reset, over data with exact statistics',
  'no existing test touches normalization', [TD + '_td_norm.h', TD + '_td_base.h', TD + 'transf_train_data.h', 'nntl/utils/mtx2Normal.h'],
  [('statistics and iteration', 'nntl/utils/mtx2Normal.h'), ('application to sets', TD + '_td_norm.h')], 'values delivered by walks and batches before and after normalization',
  technique=TV, note='data are generated so that means and deviations are exact; values compared within 1/1024')
MN = 'nntl/interface/math/mathn.h'; SA = 'nntl/interface/math/smath.h'
KT = 'TLA+ definitions of every kernel whose algebraic laws TLC exhausts on small matrices; TLC generates operand and kernel sequences, every form of each kernel (dispatching, single- and multi-threaded, row-wise and column-wise, forced multi-threading thresholds, float and double) runs on its own copy under ASan, and TLC judges every recorded result'
p('A01', 'Row/column reductions: correct in every form, thread count and threshold',
  'Row and column reductions and the row- or column-wise scalings built on them (sums, maxima, argmax, sums of squares or products, means, de-meaning, norms and norm capping, row scaling and division, diagonal scaling, triangular sums) give, for every shape and content, the mathematically defined value; the single-threaded, multi-threaded, row-wise, column-wise and automatically dispatched forms agree, bias columns that are not to be inspected are left out and unchanged, and inputs are not modified.',
  ['inputs', 'configurations'], 'all matrix shapes and contents, all forms of each kernel, all thread counts and dispatch thresholds',
  'no existing test calls the math kernels; errors hide in partition remainders, particular shapes, bias handling and rarely selected forms',
  [MN, SA], [('row and column reductions', SA), ('norms and de-meaning', MN)], 'results and operands of public math interface calls', technique=KT, note='integer-exact operands, so results are compared exactly up to rounding of one division or root')
p('A02', 'Data movement kernels copy, extract and compare exactly the named elements',
  'Kernels that clone or roll out columns, extract rows, columns, batches, masks or sequences, transpose, binarize, clamp, complement and count equal or non-zero elements place in the destination exactly the elements their definition names and touch nothing else, for every shape, index set, layout and threading form; counting answers are exact.',
  ['inputs', 'configurations'], 'all shapes, contents and index sets, all forms of each kernel',
  'no existing test calls the math kernels; errors need particular index sets, group sizes and remainders',
  [MN, SA], [('extraction and roll-out', SA), ('binarization and counting', MN)], 'results and operands of public math interface calls', technique=KT, note='exact comparison of every element of source and destination')
p('A03', 'Top-K search over columns keeps exactly the K best entries across batches',
  'Searching the K largest or smallest entries of every column, within one matrix or accumulated over any sequence of batches, yields exactly the K best values in order together with source indexes at which these values really occur, each source entry at most once, ties included, for every K, shape and batch split; results do not depend on how the samples were divided into batches.',
  ['inputs', 'histories'], 'all shapes, contents (with ties), K and sequences of batches',
  'no existing test calls the search; errors need ties or particular arrival orders',
  ['nntl/interface/math/_mcwFindKOrdered_hlpr.h', SA, MN], [('insertion and aggregation', 'nntl/interface/math/_mcwFindKOrdered_hlpr.h')], 'result matrices and index sets of the search', technique='TLA+ specification of accumulated top-K search checked exhaustively with TLC on small instances; TLC-generated batch sequences replayed into the real search and every result validated by TLC', note='values with many ties')
p('A04', 'Element-wise, product, covariance and dropout kernels match their definition',
  'Element-wise arithmetic, scaled and conditional accumulation, sign, momentum, matrix products including the forward, backward and gradient products of a fully connected layer in both batch layouts, column covariance, the decorrelation loss and its derivative, dropout and alpha-dropout and SVD orthogonalisation compute their mathematical definition for every shape and content in every threading form; bias lines that are not operands keep their ones and constant operands stay unchanged.',
  ['inputs', 'configurations'], 'all shapes, contents, layouts, parameters and forms of each kernel',
  'no existing test calls the math kernels; errors need bias lines, particular layouts, remainders or rarely selected forms',
  [MN, SA], [('element-wise kernels', MN), ('layer products', MN), ('decorrelation', MN), ('dropout', MN)], 'results and operands of public math interface calls', technique=KT, note='TLC additionally exhausts adjointness of the three layer products and Euler identity of the decorrelation penalty')
p('A05', 'Activations, gradients and losses match their definition in every form',
  'Every activation function, its derivative taken from the activation value, softmax, the output-layer gradients and every loss compute their mathematical definition for every input, shape and parameter, identically through the single-threaded, multi-threaded and dispatching forms and through the activation classes. Bias lines are neither transformed nor counted, operands that are only read stay unchanged, and losses of saturated (exactly 0 or 1) activations are finite.',
  ['inputs', 'configurations'], 'all activation functions, values, shapes, parameters and forms',
  'no existing test calls an activation or a loss; an error at one sign, one bound or in one form needs exactly that input',
  [MN, 'nntl/activations'], [('activation and derivative kernels', MN), ('softmax', MN), ('losses', MN), ('activation classes', 'nntl/activations')], 'outputs of the public math interface and of the activation classes', technique=KT)
p('A06', 'Optimizer kernels apply exactly their published update and state rules',
  'One step of RMSProp (both variants), RProp, ModProp, Adam, AdaMax, Nadam and Radam and of the individual learning-rate gains changes the gradient, the per-weight state and the decay powers exactly as the method defines, over any history of steps, for every shape and in every threading form; the result never depends on the form and the state advances exactly once per step.',
  ['inputs', 'histories', 'configurations'], 'all histories of steps over all shapes, values, hyper-parameters and forms',
  'no existing test runs an optimizer; state errors appear only after several steps, in forms selected by size thresholds',
  [MN], [('optimizer kernels', MN), ('individual learning rates', MN)], 'gradient and state matrices after public math interface calls', technique=KT)
p('G01', 'A training step moves the weights exactly as the configured update rule says',
  'Over any history of training steps, the weights before forward propagation and after the gradient is applied follow the configured rule: loss addendums first, then the optimizer with its own state, then individual learning rates, then classical or Nesterov momentum, then learning-rate dropout and the max-norm constraint. Settings that exclude the biases leave the bias column out, state starts fresh at initialization and advances exactly once per step, and the reported loss addendum is the one the gradient belongs to.',
  ['histories', 'configurations', 'inputs'], 'all histories of steps, re-initializations, rate and momentum changes; all optimizers, momentum kinds, regularizers, dropout and norm settings; all shapes, real types and threading forms',
  'the rule is a composition of state machines: mistakes need a particular combination of settings and several steps, and no existing test runs a training step',
  ['nntl/grad_works/grad_works.h', 'nntl/grad_works/ILR.h', 'nntl/grad_works/loss_addendums.h', 'nntl/loss_addendum/L1.h', 'nntl/loss_addendum/L2.h', MN],
  [('pre-forward and apply steps', 'nntl/grad_works/grad_works.h'), ('individual learning rates', 'nntl/grad_works/ILR.h'), ('loss addendums of weights', 'nntl/grad_works/loss_addendums.h')],
  'weights and reported loss addendum around each step of a gradient processing object', technique=TV, note='weights are compared in fixed point with a tolerance of about 6% of the movement of an element; learning-rate dropout may drop any subset of elements')
p('N01', 'A training call runs the whole documented life cycle, in order, on every sample',
  'For any history of training, evaluation, re-initialization and data-replacement calls, a training call checks its arguments, initializes once, reports losses on every sample of both sets in order, runs the requested epochs of equal-sized batches drawn without repetition, reports when asked or when divergence is being watched, stops on divergence or on request, and finishes every observer it started. Training batches are propagated in training mode and everything else in evaluation mode, with batch sizes as requested or as announced. Weights change only when a gradient is applied: never by evaluation, a failed call or a re-initialization.',
  ['histories', 'configurations', 'inputs'], 'all histories of train/fprop/require_reinit/deinit/replace-data calls, all batch and evaluation sizes, epoch counts, report masks, divergence settings and early stops, and failures of the callback or the observer',
  'every call depends on what earlier calls left initialized (network, data object, buffers); a test samples one history, and no existing test trains a network',
  ['nntl/nnet.h', 'nntl/common_nn_data.h', 'nntl/nnet_train_opts.h', 'nntl/layers.h', 'nntl/train_data/_train_data_simple.h'],
  [('training loop', 'nntl/nnet.h'), ('mode and batch size', 'nntl/common_nn_data.h'), ('layer pass', 'nntl/layers.h')],
  'return codes and the sequence of observer, inspector and callback notifications of each call, with sample identities', technique=TV)
p('N02', 'Networks of any nesting of layers compute the stated function and its gradient',
  'For any network built from fully connected, identity, vertical, horizontal (also with overlapping fields), tiled and optional (gated) layers, any weights and any batch, evaluation yields exactly the composition of the layers, leaving the weights untouched. One training batch moves every weight by the learning rate times the derivative of the loss (plus its regularizer), averaged over the rows its layer saw, where derivatives of shared inputs add up, rows a gate hides contribute nothing, an output restriction clamps the derivative at the output, and frozen layers pass derivatives on without moving. The reported loss is the mean quadratic error plus every regularizer once.',
  ['inputs', 'configurations', 'histories'], 'all nestings and widths of layers, weights, batches (also with gates closed for all rows), batch sizes, freezing masks and histories of evaluation and training calls on one network object',
  'layers share scratch matrices, activation storage and bias columns with their neighbours, so a wrong size or a stale value shows only in particular nestings and after particular earlier batches',
  ['nntl/layers.h', 'nntl/layer/fully_connected.h', 'nntl/layer/output.h', 'nntl/layer/pack_vertical.h', 'nntl/layer/pack_horizontal.h', 'nntl/layer/_lph_base.h', 'nntl/layer/pack_horizontal_optional.h', 'nntl/layer/pack_tile.h', 'nntl/layer/identity.h', 'nntl/layer/_activation_storage.h'],
  [('forward and backward pass of each layer kind', 'nntl/layer/'), ('driver of the passes', 'nntl/layers.h')],
  'activations of the top-level layers after evaluation, reported losses, and weights before and after a training call', technique=TV)
p('N03', 'Dropout and activation penalties: what they do in training, and only there',
  'With dropout on a layer or pack, a training pass replaces each of its outputs independently and freshly for every batch: with the keeping probability p it is kept and scaled by 1/p, otherwise it is zero (alpha dropout: rescaled and shifted, or the shifted saturation value), and the derivative coming back is multiplied by the same factor before it reaches the layer, whose own derivative is taken at the undropped outputs. L1/L2 penalties on outputs add scale times sign, or scale times value, of the undropped output to that derivative (except in the gate columns of optional packs; the non-zero variant only where the derivative is not zero), and their value to the reported loss. Evaluation is unaffected by dropout, and switching either on or off takes effect from the next training call.',
  ['inputs', 'configurations', 'histories'], 'all nestings of dropout and penalties in packs, tiles and optional packs, keeping probabilities, penalty scales, weights, batches of changing numbers of rows and histories of evaluation, reconfiguration and training on one network',
  'masks, saved outputs and stored penalty derivatives are kept between the two passes and resized with every batch, so a stale or misplaced one shows only for particular combinations, masks and batch sequences',
  ['nntl/layer/extender.h', 'nntl/layer/extensions.h', 'nntl/layer/_penalized_activations_base.h', 'nntl/dropout/dropout.h', 'nntl/dropout/alpha_dropout.h', 'nntl/_SNN_common.h', 'nntl/loss_addendum/_i_loss_addendum.h', 'nntl/loss_addendum/L1.h', 'nntl/loss_addendum/L2.h'],
  [('order of dropout, penalties and the layer in both passes', 'nntl/layer/extender.h'), ('masks and saved outputs', 'nntl/dropout/dropout.h')],
  'masks reported to the inspector, layer outputs in training and evaluation, reported losses, weights before and after a training call', technique=TV)
p('N04', 'Gradient check: accepts right derivatives, rejects wrong ones, changes nothing',
  'The numeric gradient check compares, for every layer not excluded, the requested number of different neurons and weights (biases included), accepts a network whose analytical derivatives are right, and reports failure as soon as a derivative is wrong by more than the set relative error, is not a finite number, or more derivatives than allowed are zero on both sides; on success everything requested was compared. It leaves weights, later results and a training in progress (weights and reported losses) exactly as they were. This holds for every choice of batch sizes up to the whole data set, settings and topology.',
  ['inputs', 'configurations', 'histories'], 'all topologies with packs, tiles, optional packs and dropout, falsifications of single derivatives, batch and online sizes up to the whole set, counts, thresholds, allowances for zeros, ignored layers and calls before, after and during training',
  'it is the tool the tests rely on, so its own errors (weights not restored, a coordinate not covered, a verdict lost) make everything pass; the existing tests run it only on correct networks',
  ['nntl/nnet.h', 'nntl/interface/inspectors/gradcheck.h', 'nntl/utils/gradcheck.h', 'nntl/utils/layer_idx_keeper.h', 'nntl/utils/dataHolder.h'],
  [('choice of coordinates, verdict, saved state', 'nntl/nnet.h'), ('perturbation and capture', 'nntl/interface/inspectors/gradcheck.h'), ('batches of the check', 'nntl/utils/dataHolder.h')],
  'verdict of the check, the comparisons it asks its inspector for, weights and losses before and after', technique=TV)
p('E01', 'Quality reports count exactly what the network got right, for every set',
  'Over any history of training calls, the quality figures reported for a set (training, test or supplementary) count every sample, or every label of every sample, of that set exactly once and count as correct exactly those whose predicted class, or thresholded label, equals the current ground truth; the reported loss is that of the whole set. This holds for every batch and evaluation size, number of sets, threshold, set of epochs that are reported, repeated training with relabelled data, and reports requested from a callback; text reports state the same figures.',
  ['histories', 'configurations', 'inputs'], 'all data contents (with ties and threshold hits), set counts and sizes, evaluation sizes, epoch masks, and histories of training calls with re-labelling between them',
  'labels are cached per set and consumed by offset while batches pass, so errors need several chunks, several sets or a second call; no existing test trains a network',
  ['nntl/nnet_evaluator.h', 'nntl/training_observer.h', 'nntl/nnet.h'],
  [('cached labels and counting', 'nntl/nnet_evaluator.h'), ('reports', 'nntl/training_observer.h')], 'totals, correct counts, losses and text lines of each report of a training call', technique=TV)
p('E02', 'Confusion matrix counts and measures match their definition',
  'A confusion matrix counts every update in exactly the cell of its truth and prediction; clearing, copying, adding and reducing any number of matrices combine the counts cell by cell; and every measure (sensitivity, specificity, precision, negative predictive value, accuracy, Jaccard, F scores, informedness, markedness, Matthews correlation) has its defined value for every four counts, including counts of many thousands, wherever it is defined.',
  ['histories', 'inputs'], 'all sequences of updates, merges and clears, all counts',
  'no existing test touches it; errors need particular cells to differ or be large',
  ['nntl/utils/confusion_mtx.h'], [('counting and measures', 'nntl/utils/confusion_mtx.h')], 'counts and measures after public calls', technique=TV)
p('I01', 'Data files load exactly what they contain, or the right error is returned',
  'Loading a binary or JSON data file into a matrix, a training data set or a set of class sequences yields exactly the elements, shapes, order and members the file describes, converted to the element type and with biases where they are due. A file that is missing, truncated at any byte, mislabelled, incomplete, inconsistent or of a wrong type is refused with an error that names something really wrong with it, a training data set then stays empty, and no memory or file handle is lost either way, also when memory runs out.',
  ['inputs', 'fault_sequences'], 'all files: members in any order, shapes, element types, class counts, every truncation point, every malformed header, field or JSON value, allocation failures, all read buffer sizes',
  'no existing test loads a file; readers fail on particular malformed inputs, member orders and type combinations',
  ['nntl/_supp/io/binfile.h', 'nntl/_supp/io/jsonreader.h', 'nntl/train_data/seq_data.h'], [('binary reader', 'nntl/_supp/io/binfile.h'), ('JSON reader', 'nntl/_supp/io/jsonreader.h'), ('sequence storage', 'nntl/train_data/seq_data.h')],
  'return codes and loaded matrices', technique='TLA+ specification of file contents, faults and results checked exhaustively with TLC on every single fault of small files; TLC-generated files written and loaded by the real readers, every result validated by TLC')
p('R01', 'Random numbers have the requested range, distribution, freshness and history',
  'Every request to a random number generator (vectors, matrices with or without bias, single values, integers, coin flips, shuffles; uniform or normal) overwrites exactly the requested elements, never the bias or memory around them, with independent values of the requested range and distribution, whatever the size and however many threads serve it. What is delivered after seeding is a function of the seed and of the requests made since, also across objects and reseeding, numbers are never delivered twice, and different seeds give different numbers; a generator that prepares numbers in the background delivers the same distributions and reports a failed initialization.',
  ['histories', 'inputs', 'configurations'], 'all histories of constructing, seeding and requests on several generator objects, sizes on both sides of every multithreading threshold, ranges, probabilities, element types and engines',
  'no existing test draws a random number; errors show only for sizes that are split among threads, after reseeding, or in the statistics of many numbers',
  ['nntl/interface/_i_rng.h', 'nntl/interface/rng/afrand.h', 'nntl/interface/rng/afrand_mt.h', 'nntl/interface/rng/afrand_as.h', 'nntl/interface/rng/distr_normal_naive.h', 'nntl/utils/data_buffer.h'], [('generic helper', 'nntl/interface/_i_rng.h'), ('multithreaded generator', 'nntl/interface/rng/afrand_mt.h'), ('background generator', 'nntl/interface/rng/afrand_as.h')],
  'delivered numbers: ranges, histograms, repetitions, guard elements, equality with an earlier delivery of the same history', technique='TLA+ specification of streams, requests and histories checked exhaustively with TLC; TLC-generated request histories run on the real generators, every delivery judged by TLC against the specification',
  note='the engine itself (third-party) is replaced by a stand-in of the same interface')
p('W01', 'Weight initialization schemes give the documented weights',
  'Initializing a weight matrix with one of the supplied schemes fills the whole matrix, and nothing around it, with independent random weights of exactly the documented distribution for the sizes of the two layers (uniform or normal with the documented scale), with the documented biases; the sparse scheme connects every neuron to exactly the given number of different, uniformly chosen inputs. The orthogonal scheme yields orthonormal rows or columns times the gain, retries with fresh numbers a failed decomposition, at most the given number of times, and reports a failure only when all attempts failed.',
  ['inputs', 'configurations', 'fault_sequences'], 'all schemes and their parameters, matrix shapes (wide, tall, square, single row), seeds, element types and sequences of failing decompositions',
  'no existing test initializes weights; a wrong scale, an off-by-one in the layer sizes or a biased choice of inputs only shows in statistics of whole matrices',
  ['nntl/weights_init/static.h', 'nntl/interface/rng/distr_normal_naive.h', 'nntl/interface/math/mathn.h'], [('schemes', 'nntl/weights_init/static.h'), ('orthogonalization', 'nntl/interface/math/mathn.h mSVD_Orthogonalize_ss')],
  'elements of the initialized matrix and the returned status', technique='TLA+ specification of the schemes and of the retry loop (explored exhaustively with TLC); TLC-generated configurations run on the real schemes, every resulting matrix judged by TLC against the specification')
p('W02', 'Data-dependent initialization brings each layer to the requested statistics',
  'After data-dependent weight initialization reports success, the outputs of every processed layer (or its pre-activations, over the whole layer or for each neuron on its own, as its settings say) have the requested mean and standard deviation over the training samples used, within the given tolerances, and it reports a failure together with the first layer that did not converge otherwise; whenever outputs depend linearly on the weights two corrections are enough. Layers whose settings disable it keep their weights, others have theirs only rescaled by a positive factor and their bias shifted unless new weights had to be drawn, settings are taken from the layer or else from the default, and the weights found stay in the network afterwards.',
  ['inputs', 'configurations'], 'all networks (chains and packs), per-layer settings, data, seeds, batch sizes and element types',
  'no existing test initializes a network; the result depends on every layer below, on batching and on a loop that usually ends early',
  ['nntl/weights_init/LsuvExt.h', 'nntl/utils/mtx2Normal.h', 'nntl/utils/layers_settings.h'], [('initialization', 'nntl/weights_init/LsuvExt.h LSUVExt::run'), ('iteration', 'nntl/utils/mtx2Normal.h normalize_whole/normalize_cw')],
  'weights of all layers, outputs computed from them, returned status and first failed layer', technique='TLA+ specification of the iteration (model checked with TLC: convergence in two steps for linear outputs, verdict matches statistics); TLC-generated configurations run on real networks, statistics measured independently and judged by TLC against the specification')
p('S01', 'A saved network is restored exactly; unusable stored data is refused',
  'Saving a network, whatever its structure and state, stores under the name of each layer, nested in the names of the packs around it, exactly the categories of data that the options ask for (weights, activations, input data, training parameters, gradient settings and state, dropout masks) with the contents they have at that moment, and changes nothing in the network. Restoring it into a network of the same structure, trained, initialized or new, brings back the weights, and on request the dropout probabilities and the limits of the output derivative, so that both networks give identical answers. Data that is missing or does not fit is reported as a failure, the layer it was meant for keeps what it had, and the same holds for weights that are set directly and for the training data containers.',
  ['histories', 'configurations', 'inputs', 'fault_sequences'], 'all sequences of training, evaluating, reconfiguring, saving with any options, damaging the stored data and restoring, over networks of all kinds of layers',
  'no existing test saves or restores a network; a layer skipped in a pack, a stale coefficient or a silently accepted matrix of a wrong shape needs particular structures, options and states',
  ['nntl/layers.h', 'nntl/layer/fully_connected.h', 'nntl/layer/output.h', 'nntl/layer/pack_tile.h', 'nntl/layer/pack_vertical.h', 'nntl/layer/_lph_base.h', 'nntl/layer/extender.h', 'nntl/dropout/alpha_dropout.h', 'nntl/dropout/dropout.h', 'nntl/grad_works/grad_works.h', 'nntl/serialization/serialization.h', 'nntl/utils/options.h', 'nntl/train_data/inmem_train_data_stor.h'],
  [('saving and restoring', 'serialize/save/load members of layers, gradient works and dropout'), ('accepting weights', 'nntl/layer/fully_connected.h set_weights/isWeightsSuitable')],
  'contents of an archive that implements the documented archive interface, weights and outputs of the networks, reported success', technique='TLA+ specification of what a tree of layers stores and restores (explored exhaustively with TLC over structures, options and damages); TLC-generated histories run on real networks with an in-memory archive, traces checked by TLC')
NA = []
NOTES = 'TLA+/TLC throughout; see DESIGN.md.'
