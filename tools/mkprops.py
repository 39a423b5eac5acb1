import json
P=[]
def p(id,title,stmt,over,q,why,files,mech,state=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=q),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=m,where=files[0]) for m in mech]))
    if state: d['anchors']['state']=[dict(name=x,meaning=x,where=mech[0]) for x in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
H='histories';I='inputs'
p('V01','MLPPVector is a plain sequence under every history of container calls',
 'After any sequence of MLPPVector container calls (add, push_back, insert, remove, remove_unordered, erase, erase_multiple_unordered, invert, clear, reset, resize, fill, sort, ordered_insert, set_from, duplicate, flatten_vectors, append, element get/set, find, conversions) the vector holds exactly the elements an abstract finite sequence holds after the same calls, in the documented order, and every query returns what the sequence would. A call with an out-of-range index, an invalid reference or a mismatched shape leaves the vector unchanged, and a copy or conversion never aliases its source.',
 [I,H],'Every finite history of container calls on a small heap of vectors, including failing and self-aliased calls.',
 'Tests push a few literals once; nothing exercises sequences of mutations followed by reads, failing arguments or aliasing.',
 ['core/mlpp_vector.h','core/mlpp_vector.cpp'],['MLPPVector container members'],['contents and size of each vector'])
p('V02','Vector algebra: in-place, copying and two-operand forms agree with definition',
 'Each element-wise or reducing MLPPVector operation (add, sub, hadamard, division, scalar ops, exp/log/log10/sqrt/cbrt/abs/sin/cos/erf, min/max, dot, norms, distances, cross and outer products, diagonal, sums) yields the value of its mathematical definition. The in-place form, the ...n form and the ...b form of one operation agree with each other for every operand, also when operands are the same object, and only the documented target changes; operands of unequal size are rejected without changing anything.',
 [I,H],'All operand sizes (including empty), values and aliasing patterns, in every variant of every operation.',
 'Tests check one literal per operation and mostly one variant; the many hand-copied variants drift independently.',
 ['core/mlpp_vector.cpp','core/mlpp_vector.h'],['add/addn/addb and siblings'])
p('M01','MLPPMatrix is a row-major grid under every history of container calls',
 'After any sequence of MLPPMatrix container calls (row_add*, rows_add*, row_remove*, row_swap, resize, reset/clear, fill, element and row get/set in every form, set_from*, duplicate, conversions) the matrix has exactly the shape and elements of an abstract row-major grid after the same calls. Adding, removing or resizing rows never disturbs other rows, failing calls (bad index, bad width, null argument) leave the matrix unchanged, and copies never alias their source.',
 [I,H],'Every finite history of container calls on a small heap of matrices and vectors, including failing and self-aliased calls.',
 'Tests exercise each call once from a fresh matrix with literal data.',
 ['core/mlpp_matrix.h','core/mlpp_matrix.cpp'],['MLPPMatrix container members'],['size and row-major data of each matrix'])
p('M02','Matrix algebra: every variant equals the definition, aliasing included',
 'Each MLPPMatrix arithmetic operation (add, sub, mult, hadamard, kronecker, element-wise division, transpose, scalar ops, exp/log/sqrt/cbrt/abs/exponentiation, max, mult_vec, add_vec, outer product, identity, diagonal and flatten forms) computes its mathematical definition on every conforming shape, square or not. In-place, ...n and ...b forms agree, also when an operand is the receiver itself; non-conforming shapes are rejected leaving the receiver unchanged.',
 [I,H],'All shapes, values and aliasing patterns in every variant.',
 'Tests use one or two literal (mostly square) matrices per operation and do not alias operands.',
 ['core/mlpp_matrix.cpp','core/lin_alg.cpp'],['mult/multn/multb and siblings'])
p('M03','Determinant, cofactor, adjugate, inverse, powers and solve obey matrix algebra',
 'For every square matrix det equals the Leibniz determinant, cofactor and adjoint are its minors, inverse times the matrix is the identity when the determinant is nonzero, solve(b) returns x with A x = b, integer powers equal repeated multiplication, trace is the diagonal sum, and rotation matrices are orthonormal rotations about the requested axis. Gram-Schmidt and QR results reconstruct the input with orthonormal columns for full-rank input.',
 [I],'Every square matrix of any order, well-conditioned where an inverse is required.',
 'Tests evaluate one literal per function; recursion over minors and index arithmetic need all orders.',
 ['core/mlpp_matrix.cpp','core/lin_alg.cpp'],['det','cofactor','adjoint','inverse','solve','matrix_powern','gram_schmidt_process','create_rotation_matrix'])
p('T01','MLPPTensor3 addressing: element, slice and z/y/x views describe one same tensor',
 'An MLPPTensor3 of size (x,y,z) behaves as a function of (z,y,x) under every history of calls: slice add/remove/swap/resize/fill and get/set through elements, rows, z-, y- and x-slices in every form (arrays, vectors, matrices, tensors) all read and write the same elements. Removing, adding or swapping a slice never disturbs others; failing calls leave the tensor unchanged and copies never alias.',
 [I,H],'Every finite history of tensor calls over all non-cubic shapes.',
 'No test covers most slice calls; index order mistakes are invisible on cubes or single calls.',
 ['core/mlpp_tensor3.h','core/mlpp_tensor3.cpp'],['calculate_index','z_slice_*','y_slice_*','x_slice_*'],['size and data of each tensor'])
p('T02','Tensor algebra: every variant equals the element-wise definition',
 'Each MLPPTensor3 arithmetic operation (add, sub, hadamard, division, exponentiation, scalar ops, sqrt/exp/log/abs/max, norm_2, tensor-vector product, flatten) equals its element-wise definition in the in-place, ...n and ...b forms, including when operands coincide. Mismatched shapes are rejected without change.',
 [I,H],'All tensor shapes and values, every variant and aliasing.',
 'Only two or three tensor operations are touched by any test.',
 ['core/mlpp_tensor3.cpp'],['addn/addb and siblings'])
p('L01','MLPPLinAlg facade agrees with the object operations and definitions',
 'Every MLPPLinAlg function (nm/nv/nvnm forms of arithmetic, means, norms, products, identity/one/zero/full constructors, distances, checks such as symmetric, covariance, max/min, tensor helpers) returns the mathematically defined value for all conforming inputs and never modifies its arguments.',
 [I],'All conforming shapes and values.',
 'Tests call a subset with one literal each and mostly print.',
 ['core/lin_alg.h','core/lin_alg.cpp'],['MLPPLinAlg functions'])
p('S01','Statistics match their definitions and do not modify their data',
 'Every MLPPStat function (mean, median, mode, range, midrange, absolute average deviation, variance, standard deviation, covariance, correlation, R2, weighted/geometric/harmonic/rms/power/Lehmer and two-number means, regression coefficients b0/b1 estimates, Chebyshev bound) equals its textbook definition on every non-degenerate sample, in particular is independent of element order where the statistic is symmetric, and leaves the sample unchanged.',
 [I],'Every finite sample, odd and even sizes, ties, permutations.',
 'Tests use one fixed sample per statistic.',
 ['core/stat.h','core/stat.cpp'],['MLPPStat functions'])
p('A01','Activations: scalar, vector, matrix and dispatched forms agree with definition',
 'For each activation type the scalar form equals its mathematical definition and its derivative form the derivative of that definition, the vector and matrix forms apply it element-wise (softmax and adjusted softmax: normalised, per row), and run_activation_* and the function-pointer getters dispatch to exactly the function the enum names, for value and derivative. Softmax results are positive and sum to one.',
 [I],'All inputs in each function domain, all 28 enum values, all six forms.',
 'Tests print values; 28x12 hand-written functions and dispatch tables are not compared.',
 ['core/activation.h','core/activation.cpp'],['run_activation_*','get_activation_function_ptr_*'])
p('C01','Cost functions: vector, matrix and dispatched forms and their derivatives agree',
 'Each cost function returns its defined value in vector and matrix form, its derivative form returns the defined derivative, run_cost_* and the pointer getters dispatch to exactly the function the enum names, mismatched operands are rejected with 0, and costs of equal arguments are zero where defined; the dual SVM form and its gradient are consistent.',
 [I],'All operand shapes and values, all cost types and forms.',
 'Only used inside training loops whose results are not asserted.',
 ['core/cost.h','core/cost.cpp'],['MLPPCost functions','run_cost_*'])
p('R01','Regularisation terms, weight updates and clipping follow their definition',
 'For every regularisation type (none, ridge, lasso, elastic net, weight clipping) the penalty, its derivative and the regularised weights equal their definitions in vector and matrix form, consistently with each other, and clipped weights always lie inside the clipping interval.',
 [I],'All weights, lambda, alpha and types.',
 'Never asserted by a test.',
 ['core/reg.h','core/reg.cpp'],['reg_termv/m','reg_weightsv/m','reg_deriv_term*'])
p('U01','Mini-batches and train/test split partition the data and keep rows aligned',
 'create_mini_batches* cuts the data set into the requested number of consecutive batches of floor(size/n) rows, every batch keeping inputs and outputs aligned, no row appearing twice and only the remainder of the division left out. train_test_split distributes every sample exactly once over train and test with the requested proportion and keeps input and output rows paired.',
 [I],'All data sizes, batch counts and split sizes.',
 'Training tests never look at batches; the split is random.',
 ['core/utilities.cpp','core/data.cpp'],['create_mini_batchesm/mv/mm','MLPPData::train_test_split'])
p('U02','Classification metrics equal their counts on every prediction',
 'performance, true/false positive/negative counts, recall, precision, accuracy and F1 equal their definition from the confusion counts for every pair of prediction and label sequences, and the counts add up to the number of samples.',
 [I],'All binary and real-valued prediction/label pairs of any length.',
 'Not asserted.',
 ['core/utilities.cpp'],['performance_*','tp/fp/tn/fn','recall','precision','accuracy','f1_score'])
p('U03','Weight and bias initialisation follow the named distribution',
 'weight_initializationv/m and bias_initializationv/r overwrite every entry with an independent draw from the distribution the type names: uniform kinds stay within and spread over their symmetric bound, normal kinds have mean zero and the named variance, the default and biases lie in [0,1]; the shape is kept and no entry keeps its old value.',
 [I],'Every distribution type, vector and matrix shape.',
 'Not asserted; integer divisions made several distributions collapse to zero unnoticed.',
 ['core/utilities.cpp'],['weight_initializationv','weight_initializationm','bias_initializationv','bias_initializationr'])
p('D01','Feature transforms: centering, scaling and one-hot encoding are faithful',
 'mean_centering yields rows of mean zero differing from the input by a constant per row, mean_normalization additionally rows of unit deviation, feature scaling maps each feature to [0,1], and one_hot_rep / reverseOneHot (classes 0..k-1) encode and decode class labels without loss; no transform modifies its input.',
 [I],'All non-degenerate inputs.',
 'Tests print the result for one literal.',
 ['core/data.cpp'],['feature_scaling','mean_centering','mean_normalization','one_hot_rep','reverse_one_hot'])
p('D02','Text processing segments, filters and counts words exactly',
 'split_sentences, segment/tokenize, stop-word removal, bag_of_words, tfidf and vocabulary helpers of MLPPData return exactly the words, counts and weights defined on the text: sentences end at full stops (an ellipsis only at its last dot), segments appear in order with punctuation as segments of their own, no stop word remains and no other word is lost, each bag row counts its sentence.',
 [I],'All texts over words, separators and punctuation.',
 'Tests print results for one sentence.',
 ['core/data.cpp'],['split_sentences','segment','tokenize','remove_stop_words','create_bag_of_words','tfidf'])
p('D03','Loading a data file yields exactly its rows, and saving writes the parameters',
 'For every well-formed data file the MLPPData set_data_* loaders return one row per line with the numeric fields in order and the label separated, and MLPPUtilities::saveParameters writes a file which lists the given weights and biases in order, replacing or appending as asked.',
 [I],'All numeric CSV files of the supported layout.',
 'Tests load fixed files only and do not compare content.',
 ['core/data.cpp','core/utilities.cpp','platform/sfw.cpp'],['set_data_supervised','set_data_unsupervised','set_data_simple','save_parameters'])
p('F01','Convolution, pooling and image derivatives follow the sliding-window definition',
 'convolve_2d/3d with any stride and padding equal the cross-correlation of the zero-padded input sampled at multiples of the stride, pool_2d/3d and global pooling apply average/min/max to exactly the window cells, and dx, dy, gradient magnitude and orientation and Harris detection equal their definitions; inputs are not modified.',
 [I],'All square inputs, filter sizes, strides, paddings and pool types.',
 'Tests print results for one literal with stride 1.',
 ['core/convolutions.h','core/convolutions.cpp'],['convolve_2d','convolve_3d','pool_2d','pool_3d','dx','dy'])
p('N01','Numerical methods iterate their documented recurrence exactly',
 'Newton-Raphson, Halley, inverse quadratic interpolation, Euler integration, Taylor approximations, Jacobian, Hessian, Laplacian, third-order tensors and the second partial derivative test equal the documented recurrence or finite-difference formula for every function and number of epochs. The discrete cosine transform and growth method equal their definition.',
 [I],'All polynomial test functions, start points, epoch counts.',
 'Tests print one instance each.',
 ['core/numerical_analysis.cpp','core/transforms.cpp'],['newton_raphson_method','hessian','eulerian_method*','discrete_cosine_transform'])
p('G01','Regression learners: training is the documented gradient step, epoch by epoch',
 'For LogReg, ProbitReg, CLogLogReg, TanhReg, ExpReg, SoftmaxReg and LinReg, a training call with gradient descent, MLE, SGD or mini-batches performs exactly the requested number of epochs, each applying the documented parameter update (gradient, then regularisation) to the current weights and bias, and predictions evaluate the resulting parameters. Input and output sets are never modified, and SGD uses one sample of the training set per step.',
 [I,H],'All data sets, hyper-parameters, starting parameters and training-call histories.',
 'Tests train once and print; any descending rule passes.',
 ['modules/log_reg/log_reg.cpp','modules/probit_reg/probit_reg.cpp','modules/c_log_log_reg/c_log_log_reg.cpp','modules/tanh_reg/tanh_reg.cpp','modules/exp_reg/exp_reg.cpp','modules/softmax_reg/softmax_reg.cpp','modules/lin_reg/lin_reg.cpp'],['gradient_descent','mle','sgd','mbgd','train_*'],['weights and bias after each call'])
p('G02','LinReg optimisers keep and use their moment estimates as documented',
 'Momentum, NAG, Adagrad, Adadelta, Adam, Adamax and Nadam training of MLPPLinReg apply, for every mini-batch in order and for each requested epoch, the documented recurrences for velocity, first and second moments and bias correction; Newton-Raphson and the normal equation solve the least-squares problem.',
 [I,H],'All data sets, batch sizes and hyper-parameters.',
 'Tests train once and print.',
 ['modules/lin_reg/lin_reg.cpp'],['momentum','nag','adagrad','adadelta','adam','adamax','nadam','normal_equation','newton_raphson'],['weights, bias and moments'])
p('G03','Support-vector learners follow hinge-loss descent and alpha projection',
 'MLPPSVC training applies the documented hinge-loss step per epoch, sample or mini-batch; MLPPDualSVC gradient descent applies the dual gradient and projects every alpha into [0,C] at each epoch, and predictions are the sign of the decision function of the current parameters.',
 [I,H],'All data sets, C, epochs and histories.',
 'Tests train once and print.',
 ['modules/svc/svc.cpp','modules/dual_svc/dual_svc.cpp'],['train_gradient_descent','train_sgd','train_mbgd','alpha_projection'],['weights, bias, alpha'])
p('K01','k-nearest-neighbour prediction is the majority label of the k nearest samples',
 'For every query MLPPKNN selects k distinct training samples none farther than an unselected one, predicts a label of maximal multiplicity among them, predicts sets row by row, and scores the fraction of training samples predicted correctly, without modifying its data.',
 [I],'All training sets, k and queries, including ties.',
 'One fixed data set.',
 ['modules/knn/knn.cpp'],['nearest_neighbors','determine_class'])
p('K02','k-means keeps a valid assignment and its means are means of their clusters',
 'After every MLPPKMeans training the assignment puts each sample in exactly one cluster, a nearest one of the current means, each epoch replaces each mean by the average of its members, a mean without members stays, initial means are input samples (for k-means++ each after the first is a sample with the greatest total distance to the means before it), training runs the requested number of epochs (at least one), predictions return the nearest mean, score is the within-cluster sum of squares, and silhouette scores follow their definition.',
 [I,'schedules',H],'All data sets, k, epoch counts and random initialisations.',
 'Random initialisation: tests see one run and only print.',
 ['modules/kmeans/kmeans.cpp'],['train','_evaluate','_compute_mu','_centroid_initialization','_kmeanspp_initialization'],['mu, r'])
p('B01','Naive Bayes classifiers compute priors, likelihoods and the arg-max class',
 'Gaussian, Bernoulli and multinomial naive Bayes estimate class priors and per-class parameters as defined from the training data, predict the class with the largest posterior score for every input, predict sets row by row, and score the fraction of correct training predictions.',
 [I],'All labelled data sets and queries without posterior ties.',
 'Tests print the score of one data set.',
 ['modules/gaussian_nb/gaussian_nb.cpp','modules/bernoulli_nb/bernoulli_nb.cpp','modules/multinomial_nb/multinomial_nb.cpp'],['evaluate','model_test','compute_theta'])
p('O01','Outlier finder and univariate regression return what their model defines',
 'MLPPOutlierFinder reports exactly the entries whose z-score exceeds the threshold, in order, in all its result forms; MLPPUniLinReg fits and evaluates the least-squares line.',
 [I],'All data sets and thresholds.',
 'One literal each.',
 ['modules/outlier_finder/outlier_finder.cpp','modules/uni_lin_reg/uni_lin_reg.cpp'],['model_test','model_set_test','train'])
p('H01','Network layers compute activation(input*weights+bias) for sets and single rows',
 'MLPPHiddenLayer, MLPPOutputLayer and MLPPMultiOutputLayer forward passes set z to input times weights plus bias and a to the selected activation of z, the single-row test path gives the same result as the batch path on that row, initialisation creates weights of the declared shape, and setting parameters is reflected in the next pass.',
 [I,H],'All shapes, activations, weights, and orders of set/initialise/forward calls.',
 'Only used within random-initialised training runs.',
 ['modules/hidden_layer/hidden_layer.cpp','modules/output_layer/output_layer.cpp','modules/multi_output_layer/multi_output_layer.cpp'],['forward_pass','test','initialize'],['weights, bias, z, a'])
p('H02','Layered networks train by exact back-propagation of their cost',
 'For MLPPANN, MLPPMANN each training step (gradient descent, SGD, mini-batch and the adaptive optimisers) changes the weights and biases of every layer by exactly the learning-rate-scaled gradient of the configured cost through the configured activations plus regularisation, using the learning-rate schedule, for exactly the requested epochs; prediction is the composition of the layers.',
 [I,H],'All topologies, activations, costs, regularisations and histories on small networks.',
 'Tests train random nets and print.',
 ['modules/ann/ann.cpp','modules/mann/mann.cpp'],['compute_gradients','update_parameters','gradient_descent','sgd','mbgd'],['all layer weights and biases'])
p('H03','MLP, SoftmaxNet and AutoEncoder steps are gradient steps of their loss',
 'For the fixed-topology networks each training epoch updates both weight matrices and biases by the documented back-propagation step, exactly the requested number of times, and predictions are the forward pass of the current parameters.',
 [I,H],'All data sets, hidden sizes, regularisations and histories.',
 'Tests train random nets and print.',
 ['modules/mlp/mlp.cpp','modules/softmax_net/softmax_net.cpp','modules/auto_encoder/auto_encoder.cpp'],['gradient_descent','sgd','mbgd','forward_pass'],['weights1/2, bias1/2'])
p('E01','Every learner predicts sets row by row and prediction changes no state',
 'For every learner, model_set_test(X) row i equals model_test(X row i), repeated predictions are equal, predicting modifies neither the model nor its data sets nor the queries, and score() equals the fraction of training samples whose prediction matches.',
 [I,H],'All learners, data sets, queries and orders of train/predict/score calls.',
 'Single- and batch-prediction code is duplicated in each learner and never compared.',
 ['modules'],['model_test','model_set_test','score'])
p('P01','Copy-on-write Vector and PoolVector have value semantics under any sharing',
 'After any history of copies, assignments, mutations and destructions of sfw Vector and PoolVector objects, each object holds exactly what an unshared sequence would: writing through one never changes another, and all storage is released when the last owner dies.',
 [H],'All histories on several aliasing vectors.',
 'Tests never alias copies.',
 ['platform/sfw.h'],['CowData','Vector','PoolVector'],['contents of each vector, reference counts'])
p('P02','Tree and sorted containers are faithful ordered maps and sets',
 'RBMap, RBSet, VMap and VSet hold exactly the key/value pairs of an abstract ordered map/set after any history of insert, find, erase, copy and clear, iterate in strictly increasing key order in both directions, and closest-key searches return the defined neighbour.',
 [H],'All histories over small key sets (every tree shape of insert/erase).',
 'Rebalancing paths need long mixed histories.',
 ['platform/sfw.h'],['RBMap','RBSet','VMap','VSet'],['key/value pairs in order'])
p('P03','Hash containers are faithful maps and sets that keep insertion order',
 'HashMap, HashSet, OAHashMap and OrderedHashMap hold exactly the abstract map/set after any history of insert, overwrite, erase, reserve, clear and copy, including colliding hashes and rehashing, and those that promise it iterate in insertion order.',
 [H],'All histories including collisions, growth and re-insertion.',
 'Needs collisions and growth.',
 ['platform/sfw.h'],['HashMap','HashSet','OGHashMap','OrderedHashMap'],['entries'])
p('P04','List, RingBuffer, LocalVector and sorting behave as abstract sequences',
 'List, RingBuffer and LocalVector hold exactly the abstract sequence/queue after every history of their operations, RingBuffer delivers bytes in FIFO order across wrap-around without loss, and SortArray sorts are ordered permutations.',
 [H,I],'All histories on small instances; all permutations for sorting.',
 'Not tested.',
 ['platform/sfw.h'],['List','RingBuffer','LocalVector','SortArray'],['contents'])
p('P05','References keep objects alive exactly as long as they are owned',
 'An object managed by Ref is destroyed exactly once, exactly when its last Ref disappears, whatever the history of copies, assignments, moves into containers, Variants and swaps; ObjectDB resolves an object id, and a Variant holding a plain object yields it, while and only while the object lives.',
 [H,'schedules'],'All histories of reference operations, several objects and threads.',
 'Not tested.',
 ['platform/sfw.h','platform/sfw.cpp'],['Ref','RefPtr','Reference','Variant','ObjectDB'],['live objects, reference counts'])
p('P06','Variant, Array and Dictionary keep value or shared semantics consistently',
 'Variants hold exactly the value and type stored in them through any history of assignment, copying and conversion; Array and Dictionary copies share content while duplicate() results do not, and their operations agree with an abstract sequence / insertion-ordered map.',
 [H],'All histories on several aliasing arrays and dictionaries.',
 'Not tested.',
 ['platform/sfw.h','platform/sfw.cpp'],['Variant','Array','Dictionary'],['contents and sharing classes'])
p('P07','StringName interning: equal text if and only if equal name',
 'Two StringNames are equal exactly when their texts are equal, whatever the history of creation, copying and destruction, from any thread, and a name keeps its text while referenced.',
 [H,'schedules'],'All histories over names with colliding hashes.',
 'Not tested.',
 ['platform/sfw.h','platform/sfw.cpp'],['StringName'],['table of live names'])
p('P08','Signals deliver each emission once to every connected observer, in order',
 'An emitted Signal calls each connection that exists at the emission exactly once, with the emitter and parameters of that emission, in connection order, and never one that has been disconnected before its turn, even when callbacks connect, disconnect or emit again; connect and disconnect change exactly the named connection.',
 [H],'All histories of connect, disconnect and emit.',
 'Not tested.',
 ['platform/sfw.h','platform/sfw.cpp'],['Signal'],['connection list'])
p('P09','Locks exclude, counters do not lose updates, threads join',
 'Under every schedule a Mutex, SpinLock or RWLock write lock is held by at most one thread, read locks exclude writers, recursive Mutex locking works, SafeNumeric/SafeFlag/SafeRefCount operations are linearizable and never lose an update, threads that hold copies of a Vector, PoolVector, Ref or Variant use them as if each had its own (the shared object or storage is released exactly once, after the last holder), and a Thread runs its function once with its own id and wait_to_finish returns after it.',
 ['schedules'],'All interleavings of the recorded operations of several threads.',
 'Tests are single-threaded.',
 ['platform/sfw.h','platform/sfw.cpp'],['Mutex','RWLock','SpinLock','SafeNumeric','SafeRefCount','SpinLock','Thread','CowData','PoolVector','Ref'],['owner, readers, counters'])
p('P10','String operations equal their definition on the abstract character sequence',
 'String construction, concatenation, comparison, searching, splitting, replacing, substr, insert/erase, trimming, case conversion, number conversion and UTF-8 round trips return what the definition on character sequences gives, copies are independent, and decoding malformed UTF-8 or UTF-16 reports the error and yields only the characters of the input and blanks for what cannot be decoded.',
 [I],'All short strings over a small alphabet including separators and non-ASCII characters.',
 'Not tested.',
 ['platform/sfw.h','platform/sfw.cpp'],['String'])
p('P11','Files written through FileAccess read back exactly, at every position',
 'Any history of opens, stores, seeks, gets and closes on file handles behaves as abstract byte files with a cursor and an end-of-file mark each: what was stored is read back in the same typed form (either byte order), end of file is reported exactly past the end, text lines and CSV lines round-trip, and with safe saving a file holds its old content until the writer is closed and the complete new content after it.',
 [H],'All histories of opens, typed stores, seeks, reads and closes on two handles, with and without safe saving.',
 'Tests only read fixed data sets.',
 ['platform/sfw.h','platform/sfw.cpp'],['FileAccess'],['file content and cursor'])
p('P12','Images hold the pixels set, and matrices round-trip through them',
 'An Image returns the pixel last set at each coordinate for every supported format, quantised to the nearest level; a read colour written back changes nothing; format conversions, flips, crops, resizes, fills, blits, masks, blends and mipmaps compute each pixel as defined and touch only the pixels they cover, whatever the sizes and offsets; refused operations change nothing; RGBA8 images written to PNG, BMP or TGA files load back the same; and conversions between Image and MLPPMatrix or the slices of an MLPPTensor3 keep the values of the channels asked for.',
 [I,H],'All sizes, formats and operation histories on small images.',
 'Not tested.',
 ['platform/image.h','platform/image.cpp','core/mlpp_matrix.cpp','core/mlpp_tensor3.cpp'],['Image','set_from_image','get_as_image'],['pixels'])
p('P13','Allocators hand out disjoint live cells and reuse only freed ones',
 'PagedAllocator and PoolAllocator never give one cell to two live owners, keep the content of live cells unchanged, and account used/free cells exactly, for every history of alloc and free.',
 [H],'All alloc/free histories.',
 'Not tested.',
 ['platform/sfw.h'],['PagedAllocator','PoolAllocator'],['live cells'])
p('P14','Directory operations change exactly the entries they name',
 'Any history of making, renaming, removing, copying, linking and listing through DirAccess leaves the directory tree a plain model of names, files, directories and links gives: listings show exactly the entries with their kinds, recursive copies reproduce the whole tree, recursive erasure stays inside the directory and removes links rather than what they lead to, and a refused operation reports an error and changes nothing.',
 [H],'All histories of directory operations over small trees with files, directories and links.',
 'Not tested.',
 ['platform/sfw.h','platform/sfw.cpp'],['DirAccess'],['directory tree and current directory'])
p('Q01','Vectors, boxes and colours follow their geometric definitions',
 'Every operation of Vector2, Vector3, Vector4 and their integer forms is the component-wise or Euclidean function its name says, the in-place and copying forms agree. Rect2, Rect2i and AABB act as the point sets between their corners: intersects, encloses, has_point, clip/intersection, merge, grow, expand, segment, ray, plane and convex tests agree with set membership, and reported hits lie on the box. Color conversions (32/64-bit packing, hex, html, HSV, 8-bit channels, sRGB, shared-exponent) are inverse to each other up to the precision of the form, and blending, interpolation and arithmetic are the usual formulas.',
 [I],'All vectors, boxes, segments and colours.',
 'Not tested.',
 ['platform/sfw.h','platform/sfw.cpp'],['Vector2','Vector3','Vector4','Vector2i','Vector3i','Vector4i','Rect2','Rect2i','AABB','Color'])
p('Q02','Transforms, rotations and planes follow their linear-algebra definitions',
 'Basis, Transform2D and Transform are matrices and affine maps: products compose (also with themselves as the argument), inverse, affine_inverse and xform_inv undo xform for the matrices they are stated for, and points, integer points, arrays, boxes and planes are carried along consistently. Rotation, scaling and translation, global and local, are the products with the matching maps; setting an axis and angle, a quaternion, or one of the six Euler orders gives that rotation, and reading it back gives the same rotation. Orthonormalisation, scale extraction (reflections included), slerp and interpolation (both ends met, shorter way), looking_at and the 24 axis turns are as defined. Quaternions multiply, invert, rotate vectors and interpolate as unit quaternions, the shortest arc takes one vector to the other, also when they are opposite. Planes through points, distance, projection and intersections with rays, segments and other planes agree with the points on the plane. In-place and copying forms agree.',
 [I],'All matrices, rotations, planes and points; near-degenerate cases within the stated tolerances.',
 'Not tested.',
 ['platform/sfw.h','platform/sfw.cpp'],['Basis','Quaternion','Plane','Transform2D','Transform'])
p('Q03','Scalar functions, random numbers, encodings, hashes match their definitions',
 'Every scalar function of Math computes its definition in both its double and its float form, to the accuracy of that type: the wrapping ones (fposmod, posmod, wrapi, wrapf, pingpong, fract) give the representative in the stated half-open range, the blending ones (lerp, inverse_lerp, range_lerp, lerp_angle, cubic, bezier, smoothstep, move_toward, ease) meet their ends and never leave the interval where the definition keeps them in it, lerp_angle takes the shorter way round, the rounding ones (stepify, snap, decimals, powers of two, larger_prime) give the nearest or next admissible value, asin and acos clamp their argument, comparisons use the stated tolerance. RandomPCG is the published PCG32: equal seeds give equal sequences, a saved state resumes the sequence, bounded draws are unbiased and below the bound, integer ranges include both ends in either order, real draws lie in [0, 1] or between the ends, and rand_from_seed hands back a seed that goes on with the sequence. Encoding a number or text writes its little-endian bytes, exactly as many as returned, and decoding gives the value back bit for bit; a half float is the float cut towards zero (infinity when too large, zero when below the normal range) and every half converts to the float it denotes. The djb2, Murmur3 and Wang hashes are the published ones, with both zeros and all NaNs hashed alike.',
 [I],'All arguments, seeds, bounds and bit patterns; draws of any length.',
 'Not tested.',
 ['platform/sfw.h','platform/sfw.cpp'],['Math','RandomPCG','pcg32_random_r','pcg32_boundedrand_r','encode_uint32','decode_uint32','hash_murmur3_buffer','hash_djb2'])
p('Q04','Projections map their visible volume onto the clip cube, and read back the same',
 'A Projection made from a frustum, an opening angle, an orthogonal box, an eye of a stereo pair, a head mounted display or a box is the matrix that maps the near rectangle and the depth range it was given to the corners of the clip cube, each eye seeing the same point at the distance where the two converge. Reading back gives what it was made with: near and far distance, half sizes of both ends, ratio, opening angle (whole for asymmetrical volumes), whether it is orthogonal, pixels per metre and level-of-detail factor. The six sides have outward normals and bound exactly the points mapped into the cube, the eight corners are their intersections, both carried along by the given transform. Product, determinant, inverse, transposed and forward application to points and planes, conversion from and to Transform, flip, jitter, bias, depth correction and atlas rectangles are the matrices of those names.',
 [I],'All view volumes, matrices and points (singular matrices excepted for the inverse).',
 'Not tested.',
 ['platform/sfw.h','platform/sfw.cpp'],['Projection'])
p('Q05','Triangles (Face3) meet planes, boxes and points as the point sets they are',
 'For every triangle: its plane, area, centre, bounding box and range along a direction are those of its three points; is_degenerate tells whether they span an area; the side of a plane it is on counts vertices within tolerance as on the plane; splitting by a plane yields at most three triangles with area that together are exactly the part over and the part under the plane, each marked with its side, also when the plane goes through a vertex; a box is hit exactly when the two have a point in common (the quick test included); the closest point is the nearest one of the triangle, wherever the query is; random points lie inside and away from the corners; and the contact feature in a direction is the face, the edge or the vertex that lies farthest that way.',
 [I],'All triangles, planes, boxes, points and directions; ties within tolerance excepted.',
 'Not tested.',
 ['platform/sfw.h','platform/sfw.cpp'],['Face3'])
p('P15','Internet addresses mean what their text says, and streams deliver bytes in order',
 'An InetAddress made from a text, a port, a socket address or another InetAddress stands for exactly the address given: only well-formed dotted or colon texts are accepted (anything else leaves the zero address, marked unspecified), its text reads back as the same address with the same port, an address for the loopback interface only is the loopback address, copies are independent, and loopback and private ranges are recognised at their exact bounds, also for IPv4 inside IPv6. For every history of listening, connecting, accepting, sending, reading, shutting down, handing over and closing Sockets on the loopback interface, each side reads exactly the bytes the other sent, in order and once, the end shows up exactly behind the last byte after the other side finished, both sides agree on the addresses, options are set as asked, calls on an unset socket fail, and every socket is closed once and none is left open.',
 [I,H],'All addresses and texts; histories of up to four connections (IPv4).',
 'Not tested.',
 ['platform/sfw.h','platform/sfw.cpp'],['InetAddress','Socket'],['bytes under way in each direction'])
p('P16','Child processes get their arguments verbatim and hand back output and exit code',
 'A SubProcess runs the named program with exactly the given arguments, whatever characters they and its path contain; with output it hands back exactly what the program wrote (error output included only if asked), all at once when blocking, line by line through poll() otherwise, ending with end of file exactly after the last line; the exit code is that of the program once it is known to have finished, also without output and after repeated queries; a program that cannot be started or is killed never reports success; start and run are refused while it is still running and change nothing; stop() ends a running program, leaves no zombie and never signals any other process; processes run at the same time do not disturb each other.',
 [H],'All histories of three process objects; arguments over all shell metacharacters.',
 'Not tested.',
 ['platform/sfw.h','platform/sfw.cpp'],['SubProcess'],['what each process still has to print'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
