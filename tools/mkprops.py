"""Writes properties.jsonl from the compact definitions below."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe or [], hook_needed=None)))

I, M, C, H, F = 'inputs', 'programs', 'configurations', 'histories', 'fault_sequences'

prop('C01', 'Tree classifier C code predicts what the ensemble of trees predicts',
 """For every supported tree or forest classifier, method (inline, loadable), feature type and feature vector the type can hold,
 the generated C code returns the class with the most votes, where each tree sends x left exactly when x[feature] <= threshold and votes for
 the most probable class of the leaf it reaches. Ties go to the lowest class number, and the vote is independent of the number and order of trees,
 shared leaves, and position of the nodes.""",
 [I, M, C], 'all trained ensembles; all feature vectors of the feature type (int8..int32, uint, float)',
 'Tests compare predictions on a few hundred dataset rows with tolerance; rows never sit on thresholds, extremes, ties, deep or far-apart nodes.',
 ['emlearn/trees.py', 'emlearn/eml_trees.h', 'emlearn/cgen.py'],
 [('flatten_tree/flatten_forest/remove_duplicate_leaves', 'emlearn/trees.py'), ('generate_c_inlined, generate_c_loadable', 'emlearn/trees.py'),
  ('eml_trees_predict', 'emlearn/eml_trees.h')], ['<name>_predict in generated C', 'emlearn.convert(...).save()'])
prop('C02', 'Tree class probabilities in C are the mean vote or mean leaf proportions',
 """For every tree classifier, method and feature vector, the generated probability function returns for each class the share of trees voting for it
 (hard leaves), or the mean over trees of the class proportions of the leaf reached (soft leaves), each within 1.5/(2^leaf_bits - 1) of the exact
 proportion for leaf_bits 2 to 8. With soft leaves the predicted class is the one with the highest returned probability, lowest number on ties.""",
 [I, M, C], 'all ensembles, leaf_bits 0..8, both methods, all feature vectors',
 'Tests use a tolerance of several percent on one dataset, where misquantised or misplaced proportions average out.',
 ['emlearn/trees.py', 'emlearn/eml_trees.h'],
 [('quantize_probabilities_into_byte', 'emlearn/trees.py'), ('eml_trees_predict_proba', 'emlearn/eml_trees.h')], ['<name>_predict_proba in generated C'])
prop('C03', 'Tree regression in C is the mean of the reached leaf values',
 """For every tree or forest regressor, method and feature vector, the generated C code returns the mean over all trees of the value of the leaf reached
 by x[feature] <= threshold decisions, up to single precision rounding and (inline) six decimals in the leaf values.""",
 [I, M, C], 'all regression ensembles, both methods, all feature vectors',
 'Tests compare a few rows with a loose relative tolerance.',
 ['emlearn/trees.py', 'emlearn/eml_trees.h'], [('eml_trees_regress', 'emlearn/eml_trees.h'), ('leaves_to_bytelist', 'emlearn/trees.py')],
 ['<name>_predict of a regressor'])
prop('C04', 'C tree inference is memory safe and total on every valid tree table',
 """For every well-formed tree table (children forward or leaves, leaves and features in range) and every feature vector, class prediction, probabilities and
 regression terminate, touch only the table, features and output they were given, and return a class number below the number of classes or a negative error.
 A feature or output length that differs from the model, too many classes, and an unsupported leaf type are reported as errors before any leaf is read.""",
 [I, M], 'all tables up to the stated size, all features and lengths',
 'Tests only run tables made by the converter with matching lengths.',
 ['emlearn/eml_trees.h'], [('eml_trees_predict, eml_trees_predict_proba, eml_trees_regress', 'emlearn/eml_trees.h')])
prop('C05', 'Tree models that do not fit the C representation are refused',
 """When thresholds, child distances, leaf numbers, the number of features or the number of classes of a tree model do not fit the C types chosen, conversion or code
 generation raises an error. It never emits code in which such a value has been truncated or wrapped; values exactly at the limits are accepted and right.""",
 [M, C], 'all ensembles around each limit, all feature types',
 'Tests try one far-too-large model, not the boundary values where truncation starts.',
 ['emlearn/trees.py'], [('encode_child/assert_valid_child', 'emlearn/trees.py'), ('integer_threshold', 'emlearn/trees.py'), ('Wrapper limits', 'emlearn/trees.py')])
prop('C06', 'CSV export of trees describes exactly the same ensemble',
 """Decoding the exported CSV (feature and class counts, leaves, roots, nodes with relative child jumps and negative leaf references) gives for every input
 the same leaf values in every tree as the original ensemble, for majority, soft and regression leaves, with thresholds to six decimals.""",
 [I, M], 'all ensembles and inputs', 'Tests only check that some text is produced for one model.',
 ['emlearn/trees.py'], [('Wrapper.save format=csv', 'emlearn/trees.py')])
prop('C07', 'Generated neural network C code computes the network it was made from',
 """For every dense network (any layer sizes, weights and supported activations) and input vector, the generated C code computes in each layer
 activation(input x weights + biases) in order, with weights to six decimals, both as a loadable model and inline.
 Predicted class and regression outputs follow from that forward pass alone, and not from earlier calls.""",
 [I, M, C], 'all networks up to the stated size, all real inputs in the stated range',
 'Tests compare classes or rounded outputs for a few samples.',
 ['emlearn/net.py', 'emlearn/eml_net.h', 'emlearn/templates/net_float.jinja'],
 [('c_generate_net_loadable, c_generate_net_inline', 'emlearn/net.py'), ('eml_net_infer, eml_net_forward', 'emlearn/eml_net.h')])
prop('C08', 'Neural network C API rejects bad models and lengths and stays in bounds',
 """For every network description and argument lengths, inference either succeeds writing only the outputs and the two activation buffers, or reports an error
 (uninitialised model, missing weights or arguments, fewer than two layers, layer wider than the buffers, wrong feature or output length, unknown activation).
 No call reads or writes outside the given arrays, and errors are never reported as a class number.""",
 [I, M, C], 'all layer counts, sizes and lengths in the stated bounds, any array content',
 'Tests pass only well-formed models and right lengths.',
 ['emlearn/eml_net.h'], [('preconditions', 'emlearn/eml_net.h eml_net_infer/predict/predict_proba/regress')])
prop('C09', 'Network class and probability outputs follow the output layer',
 """The predicted class is the position of the largest output (first on ties), or output > 0.5 when there is a single output.
 Probabilities are the outputs themselves, or [1-p, p] for a single output p, and are refused when they do not sum to 1 within 0.001;
 softmax gives positive values summing to 1 in the order of its inputs, also for large inputs.""",
 [I], 'all output vectors up to the stated length', 'Tests check argmax for random trained networks, never ties, negatives or invalid sums.',
 ['emlearn/eml_net.h', 'emlearn/eml_net_fixedpoint.h'], [('eml_net_argmax, eml_net_softmax, eml_net_predict_proba', 'emlearn/eml_net.h'), ('eml_argmax_fixed32', 'emlearn/eml_net_fixedpoint.h')])
prop('C10', 'Generated nearest neighbours code holds exactly the training set',
 """For every training set and number of neighbours, the generated C model declares the feature values (as integers, truncated toward zero) by rows, the label of each item,
 the number of features, items and neighbours. Values or labels that do not fit in int16_t, other metrics than Euclidean, and weighted votes are refused with an error, never written;
 training items that are asked for get their own label.""",
 [I], 'all values, labels and numbers of neighbours for the stated numbers of items and features', 'Tests use one quantized dataset, within range.',
 ['emlearn/neighbors.py', 'emlearn/cgen.py', 'emlearn/eml_neighbors.h'], [('c_generate_neighbors, neighbors_model_init, Wrapper', 'emlearn/neighbors.py')])
prop('C11', 'Fixed-point log2 is accurate and total for every input',
 """For every 32-bit input and precision the fixed-point binary logarithm terminates without overflow. For precision 1 to 26 it is never above the true value
 log2(x / 2^precision), at most 4 units of the last place below it, and exact at powers of two; x = 0 gives the most negative integer, any other precision the most positive.""",
 [I, C], 'all uint32 x, all precisions (accuracy: stated precisions)', 'No test exercises it.',
 ['emlearn/eml_bayes.h'], [('eml_bayes_log2fix', 'emlearn/eml_bayes.h')])
prop('C12', 'Naive Bayes C code picks the class with the highest fixed-point likelihood',
 """For every Gaussian model and sample in the Q16 range, the C classifier returns the class (lowest number on ties) that maximises the sum over features of the log2 normal
 density of the sample, as the mean, std and log2(std) of the trained model define it, whenever the best class leads by more than the fixed-point error. It handles any number
 of classes, reads only its model and input, never overflows, and reports null arguments, fewer than two classes and a wrong feature count as negative errors.""",
 [I, M], 'all models up to the stated size, samples in Q16 range', 'Tests use moderate iris-like data only.',
 ['emlearn/bayes.py', 'emlearn/eml_bayes.h', 'emlearn/eml_fixedpoint.h'], [('eml_bayes_predict', 'emlearn/eml_bayes.h'), ('Wrapper, generate_c', 'emlearn/bayes.py')])
prop('C13', 'Fixed-point conversion and arithmetic keep their error bounds',
 """Converting integers and floats to Q16 is exact for representable values and truncates toward zero otherwise, and converting back returns those values; Q16 division returns the quotient rounded to
 nearest (halves away from zero) whenever it fits, and multiplication is within 2^-8 of the sum of the operand magnitudes (plus 2^-16) of the exact product when it does not overflow.
 The Python conversion for any fraction bits truncates toward zero, is inverted by the reverse conversion for representable values, and agrees with C for Q16.""",
 [I, C], 'all 32-bit operands in the stated no-overflow domain; all formats', 'Tests check a handful of constants.',
 ['emlearn/eml_fixedpoint.h', 'emlearn/fixedpoint.py'], [('eml_q16_div, eml_q16_mul, conversions', 'emlearn/eml_fixedpoint.h'), ('from_float, to_float', 'emlearn/fixedpoint.py')])
prop('C14', 'Gaussian mixture C code computes log-likelihoods, score and responsibilities',
 """For every full-covariance mixture and sample, component log-probabilities equal -0.5*(n*log(2*pi) + |(x-mean)*P|^2) + logdet + logweight for the precision factor P of that component,
 the score is their log-sum-exp and responsibilities are exp(logprob - score); the code generated for any covariance type carries the trained model's parameters into that computation.
 Null arguments, no components, a wrong feature count or an unsupported covariance type give an error and no out-of-bounds access.""",
 [I, M], 'all models up to the stated size, all real samples', 'Tests compare a few samples of fitted models.',
 ['emlearn/eml_mixture.h', 'emlearn/mixture.py'], [('eml_mixture_predict_log_proba, eml_mixture_score, eml_logsumexp', 'emlearn/eml_mixture.h'), ('generate_code', 'emlearn/mixture.py')])
prop('C15', 'Converting covariance structures to full form preserves every precision factor',
 """For every covariance type (full, tied, diagonal, spherical) and precision factors, conversion to full form gives for component c the matrix that is respectively that component's,
 the shared one, the diagonal of row c, and value c times identity, with zeros elsewhere; mismatching shapes and unknown types are refused.""",
 [I, C], 'all values, component and feature counts in the stated bounds', 'Tests cover it indirectly with few fitted models where swaps can cancel.',
 ['emlearn/mixture.py'], [('convert_to_full', 'emlearn/mixture.py')])
prop('C16', 'Mahalanobis distance and outlier decision match the definition',
 """For all vectors and symmetric precision matrices the squared Mahalanobis distance, in C and in Python, is (x1-x2)^T P (x1-x2). A sample is an outlier exactly when
 the negated distance is below the decision boundary, the C and Python decisions agree, the distance returned is that of the sample, and a wrong feature count is an error in C. The Python functions leave the arrays they are given as they were.""",
 [I, M], 'all real vectors and symmetric matrices up to the stated size', 'Tests compare a few samples of one fitted model.',
 ['emlearn/eml_distance.h', 'emlearn/distance.py'], [('eml_mahalanobis_distance_squared, eml_elliptic_envelope_predict', 'emlearn/eml_distance.h'), ('squared_mahalanobis_distance, Wrapper.predict', 'emlearn/distance.py')])
prop('C17', 'Nearest neighbours predicts the plurality class of the k nearest items',
 """For every training set, query and k up to the number of items, prediction returns the most frequent label (lowest on ties) among some k items such that no other item is
 closer, by Euclidean distance rounded down; the model data is not modified and only the given distance buffer is written.
 Wrong feature count, too small distance buffer, k larger than the number of items, or a label outside the supported range among the k are reported as errors and leave the result unwritten.""",
 [I, H], 'all int16 data, labels, queries and k within the stated sizes', 'Tests use one dataset with a tolerance on accuracy.',
 ['emlearn/eml_neighbors.h', 'emlearn/neighbors.py'], [('eml_neighbors_predict, eml_neighbors_find_nearest, eml_neighbors_infer', 'emlearn/eml_neighbors.h'), ('c_generate_neighbors', 'emlearn/neighbors.py')])
prop('C18', 'Integer Euclidean distance is the exact floor of the true distance',
 """For all int16 vectors, including extreme differences, the distance is the square root of the sum of squared differences rounded down, it is symmetric and zero only between equal vectors, and the integer
 square root satisfies r*r <= x < (r+1)*(r+1) for every 64-bit x it can be given.""",
 [I], 'all int16 vectors up to the stated length; all x below 2^64', 'Tests use small values; overflow only shows near the int16 extremes.',
 ['emlearn/eml_neighbors.h'], [('eml_isqrt, eml_distance_euclidean_int16', 'emlearn/eml_neighbors.h')])
prop('C19', 'Sorting neighbours by distance gives an ordered permutation',
 """For every array of distance items of any length, sorting leaves the same items (each index still with its own distance) in non-decreasing order of distance and touches nothing outside the array.""",
 [I], 'all distance values, lengths up to the stated bound (insertion and partition phases)', 'Tests sort a few arrays; partition boundary errors need particular orders.',
 ['emlearn/eml_neighbors.h', 'emlearn/eml_qsort.h'], [('QSORT', 'emlearn/eml_qsort.h'), ('eml_neighbors_sort_distances', 'emlearn/eml_neighbors.h')])
prop('C20', 'Adding neighbours items keeps the model consistent through any history',
 """From any consistent model, adding an item of the right feature count below capacity stores exactly its values and label after the existing items and leaves those unchanged, and
 a wrong feature count or a full model is an error that changes nothing. The capacity check accepts exactly the buffers large enough for the declared capacity.""",
 [H, I], 'all model states, items and lengths in the stated bounds', 'Tests add a fixed short sequence.',
 ['emlearn/eml_neighbors.h'], [('eml_neighbors_add_item, eml_neighbors_check', 'emlearn/eml_neighbors.h')])
prop('C21', 'FFT equals the discrete Fourier transform for every power-of-two length',
 """For every input and every power-of-two length, the in-place forward FFT with its filled table equals the discrete Fourier transform within single precision rounding;
 lengths that are not a power of two and tables of another length are rejected without modifying the data, and nothing outside the buffers is touched.""",
 [I, C], 'all real and complex inputs in [-1,1], lengths up to the stated bound', 'Tests use one random signal per length.',
 ['emlearn/eml_fft.h'], [('eml_fft_forward, eml_fft_fill', 'emlearn/eml_fft.h')])
prop('C22', 'IIR filter output equals cascaded second-order sections for every signal',
 """For every coefficient set and input history, the filter output equals the cascade of second-order sections in transposed direct form II with the denominators normalised (as scipy.signal.sosfilt), starting from
 the state it holds, and each call changes only its own state. The check accepts exactly the filters with at least one stage, arrays present, 4 states and 6 coefficients per stage.""",
 [I, H, C], 'all inputs, states and coefficients up to the stated stages and steps', 'Tests compare a couple of signals and filter designs.',
 ['emlearn/eml_iir.h'], [('eml_iir_filter, eml_biquad_tdf2, eml_iir_check', 'emlearn/eml_iir.h')])
prop('C23', 'Sparse filterbank reduction equals the dense matrix product',
 """For every filter matrix (including zeros inside a filter, all-zero filters and filters at the edges) and every input, reducing with the sparse form in Python, and in C with the generated
 tables, equals the dense matrix-vector product.""",
 [I, M], 'all matrices and inputs up to the stated size', 'Tests use one mel filterbank with contiguous non-zero triangles.',
 ['emlearn/signal.py', 'emlearn/eml_audio.h'], [('sparse_filterbank, sparse_filterbank_serialize, sparse_filterbank_reduce', 'emlearn/signal.py'), ('eml_sparse_filterbank', 'emlearn/eml_audio.h')])
prop('C24', 'Mel spectrum stays inside its buffers and weights triangles correctly',
 """For every mel parameter set accepted, computing the mel spectrum reads only the spectrum and writes only the mel outputs, and each output is the triangular-weighted sum of the bins between its
 neighbouring centre frequencies; a spectrum too short, another number of outputs, and filters reaching outside the spectrum are errors.""",
 [I, C], 'all spectra; a stated set of mel parameters', 'Tests compare with a reference for a couple of parameter sets.',
 ['emlearn/eml_audio.h'], [('eml_audio_melspec, eml_audio_melspectrogram', 'emlearn/eml_audio.h')])
prop('C25', 'Vector, window and spectrum helpers compute exactly what they document',
 """Placing a vector inside another copies it to exactly the requested position or fails without change when it does not fit; set-value, mean, dot product, min/max, symmetric Hann window and normalised power spectrum
 equal their definitions for every input, reject mismatched lengths where they report errors, and touch only the elements in range.""",
 [I], 'all inputs and lengths up to the stated bound', 'Tests barely cover these helpers.',
 ['emlearn/eml_vector.h', 'emlearn/eml_audio.h', 'emlearn/eml_mixture.h'], [('eml_vector_set, eml_signal_mean, eml_signal_hann_apply', 'emlearn/eml_vector.h'), ('eml_audio_power_spectrogram', 'emlearn/eml_audio.h'), ('eml_minmax, eml_dot_product', 'emlearn/eml_mixture.h')])
prop('C26', 'CSV reader is safe on arbitrary bytes and I/O failures',
 """For every stream content, buffer size, column capacity and failing or short read or seek, reading the header or a row terminates, touches only the given buffer and column array, and either
 returns the columns as terminated strings inside the buffer that equal the fields of the line, or reports an error; end of data (no more bytes, or an empty line) is reported as zero columns. A row with another number of columns than the header is an error.""",
 [I, F, H], 'all byte contents up to the stated size, all capacities, failing callbacks', 'Tests read one well-formed file.',
 ['emlearn/eml_csv.h', 'emlearn/eml_io.h'], [('eml_csv_reader_read_header, eml_csv_reader_read_data', 'emlearn/eml_csv.h')])
prop('C27', 'CSV written by the writer is read back unchanged',
 """For every set of column names without separators and every row data, reading back what the writer wrote gives the same number of columns, the same names, and for every row the text of each value in order.
 The writer refuses rows with another number of values than the header, and values whose text does not fit, and never writes outside its own buffer.""",
 [I, H], 'all names and value texts up to the stated length, columns and rows', 'Tests roundtrip one small file.',
 ['emlearn/eml_csv.h'], [('eml_csv_writer_write_header, eml_csv_writer_write_data', 'emlearn/eml_csv.h')])
prop('C28', 'Array setup and element access never leave the buffer',
 """For every dimension set, value size and buffer length, array initialisation succeeds only if every element fits in the buffer, and then every element access returns a distinct in-bounds slot
 for indices in range and nothing for all others; filling and summing touch exactly all elements.""",
 [I, C], 'all dimensions, value sizes, indices and buffer lengths', 'Tests use a few small arrays; overflow needs huge dimensions.',
 ['emlearn/eml_array.h'], [('eml_array_init_full, eml_storage_size_array, eml_array_data_2d, eml_array_fill, eml_array_sum', 'emlearn/eml_array.h')])
prop('C29', 'Array row shift and row copy move exactly the requested rows',
 """For every two-dimensional array, shifting rows up by n makes row i equal to the former row i+n for all remaining rows, copying rows places the other array's rows at the requested position and
 changes nothing else, and every impossible request (too far, negative position, forward shift, mismatched columns, value size or dimensions, does not fit) is an error that changes nothing.""",
 [I, H], 'all contents, shapes up to the stated bound, any shift or position', 'Tests shift and copy a few fixed arrays.',
 ['emlearn/eml_array.h'], [('eml_array_shift_rows, eml_array_copy_rows', 'emlearn/eml_array.h')])
prop('C30', 'C quantizer scales, saturates and counts, and inverts within one step',
 """For every scale and finite values, C quantization gives the scaled value truncated toward zero, saturated symmetrically to the int16 range, with the number of saturated values counted on each side;
 the inverse divides by the scale, so that unsaturated values return within one step. Mismatched lengths are refused with nothing written.""",
 [I], 'all finite floats and scales, lengths up to the stated bound', 'Tests use random data inside the range.',
 ['emlearn/eml_quantizer.h'], [('eml_quantizer_check_forward_int16, eml_quantizer_forward_int16, eml_quantizer_inverse_int16', 'emlearn/eml_quantizer.h')])
prop('C31', 'Python quantizer maps the target range, saturates, and inverts within one step',
 """For every data set, limit and integer output type, a fitted quantizer maps its limit (given, or learned as the largest magnitude or quantile of the data) to the largest output, and transforms x to x*scale truncated and clipped to the
 symmetric output range (monotonic, odd, never wrapping), up to float rounding, and the inverse returns unclipped values within one step.""",
 [I, C], 'all finite inputs, output types int8..int32', 'Tests use random data with one setting.',
 ['emlearn/preprocessing/quantizer.py'], [('Quantizer.fit/transform/inverse_transform', 'emlearn/preprocessing/quantizer.py')])
prop('C32', 'Only valid, unreserved C identifiers are accepted as names',
 """A name is accepted for generated code exactly when it is a non-empty ASCII string of letters, digits and underscores that does not start with a digit and is not a C reserved word; every model code generator refuses all other names.""",
 [I], 'all strings up to the stated length', 'Tests try a few names.',
 ['emlearn/cgen.py', 'emlearn/creserved.py'], [('identifier_is_valid, assert_valid_identifier', 'emlearn/cgen.py')])
prop('C33', 'Constants and arrays written to C hold the values given',
 """Numeric literals and array declarations generated for C denote the given values: integers exactly (floats truncated toward zero for integer types), floats within half of the sixth decimal, in the given order,
 with the declared size equal to the number of values; a size that contradicts the values is refused, and the values passed in are left as they were.""",
 [I], 'all integers and finite floats in the stated range; all lengths in the bound', 'Tests check a few formatted strings.',
 ['emlearn/cgen.py'], [('constant, array_declare, constant_declare, struct_init', 'emlearn/cgen.py')])
prop('C34', 'Error codes and activation names map to the right descriptions',
 """Every valid error code has its own description that names that error, every other integer yields the invalid-code text, no lookup leaves its table,
 and an activation name used by a generator selects the C activation of that name, unknown names being refused.""",
 [I], 'all integers; all activation names', 'Tests never look at the texts.',
 ['emlearn/eml_common.h', 'emlearn/eml_net_common.h', 'emlearn/net.py'], [('eml_error_str', 'emlearn/eml_common.h'), ('c_activation_function', 'emlearn/net.py')])
prop('C35', 'Benchmark random generator is the exact Lehmer generator',
 """For every valid state the benchmark generator returns state*48271 mod (2^31-1), never leaves the range 1..2^31-2, and filling a benchmark array writes exactly the requested elements with that sequence.""",
 [I, H], 'all states; lengths up to the stated bound', 'Tests do not check the sequence.',
 ['emlearn/eml_benchmark.h'], [('eml_lcg_parkmiller, eml_benchmark_fill', 'emlearn/eml_benchmark.h')])
prop('C36', 'Pareto front contains exactly the non-dominated models',
 """For every set of distinct cost/performance points, the Pareto front contains exactly the points for which no other point is at least as good in both and better in one, in original order and with
 the performance cut applied in the requested direction.""",
 [I], 'all orderings of up to the stated number of points', 'Tests check one example.',
 ['emlearn/evaluate/pareto.py'], [('is_pareto_efficient_simple, find_pareto_front', 'emlearn/evaluate/pareto.py')])
prop('C37', 'Tree size and cost metrics count what the model contains',
 """Reported node and leaf counts equal the decision nodes and distinct leaf values of the converted ensemble, byte size is their weighted sum, and the compute cost estimate is the mean over samples of the decision nodes evaluated plus one leaf per tree, summed over trees. Depth metrics are the mean and the spread of the tree depths.""",
 [M, I], 'all ensembles and data', 'Tests check that values are positive.',
 ['emlearn/evaluate/trees.py'], [('model_size_nodes, model_size_leaves, model_size_bytes, compute_cost_estimate', 'emlearn/evaluate/trees.py')])
prop('C38', 'Python bindings give the same results as the C functions they wrap',
 """For every valid array argument the Python extension functions (rfft, melfilter, melspectrogram, sparse_filterbank, iirfilter) return an array of the right length with what the wrapped C function computes on the same data, without modifying their inputs. For arguments of the wrong shape or length, indices outside of the data, and whatever the C function refuses they raise a Python exception; no argument makes them access memory outside of the arrays.""",
 [I], 'all arrays', 'Tests call them on a few arrays.',
 ['bindings/eml_audio.cpp', 'bindings/eml_signal.cpp', 'bindings/emlpy_common.hpp'], [('rfft_py, melfilter_py, melspectrogram_py, sparse_filterbank_py', 'bindings/eml_audio.cpp'), ('iirfilter_py', 'bindings/eml_signal.cpp')])
prop('C39', 'Predictions through the Python wrapper equal those of the exported C code',
 """Predicting through the converted Python object (predict, regress, predict_proba of trees, networks, bayes, nearest neighbors and elliptic envelope) returns, one per row and in the order of the rows, what the exported C code returns for the same features: features of any magnitude and rows of several hundred features reach the C code with single precision accuracy, and numbers of any magnitude come back with single precision accuracy. Each converted object answers for its own model, also when several are in use at the same time. If the program gives fewer answers than asked for, or (for trees) an error, an exception is raised instead of returning something else.""",
 [I, M], 'all models and data', 'Every value and its formatting as text; tests use values around 1.',
 ['emlearn/common.py', 'emlearn/eml_test.h', 'emlearn/trees.py'], [('CompiledClassifier, run_classifier, build_classifier', 'emlearn/common.py'), ('eml_test_read_csv, eml_test_parse_csv_line', 'emlearn/eml_test.h')])
prop('C40', 'Reported program size equals the size of the built firmware',
 """get_program_size(code, platform, mcu, include_dirs) builds exactly the given program for the given platform, microcontroller and include directories, and reports of the firmware built: flash = .text + .data + .rodata bytes and ram = .data + .bss bytes, as the platform's size tool lists them (a section not listed counts 0; order and other sections do not matter). A failing build or size tool raises an error instead of returning numbers, and unknown platforms and microcontrollers are refused.""",
 [M, C], 'all section sizes, listings and platforms', 'The listing is any numbers in any order; the tests need cross compilers and look at one program.',
 ['emlearn/evaluate/size.py'], [('get_program_size', 'emlearn/evaluate/size.py'), ('parse_binutils_size_a_output', 'emlearn/evaluate/size.py')])

prop('C41', 'File stream functions read, write and seek exactly the requested bytes',
 """For every stream over a FILE, buffer, length and position: reading stores exactly the bytes of the file from its position on, in order, never more than asked for nor outside of the buffer, and reports how many; writing puts exactly the given bytes at the position and changes nothing else; seeking moves to exactly the position that was asked for, and a failing seek is an error. Short transfers are reported as what was really done, and the position afterwards is that many bytes further on.""",
 [I, H], 'all contents, lengths, positions and short transfers in the stated bounds', 'Tests never use the file streams; short transfers and failing seeks need a failing device.',
 ['emlearn/eml_fileio.h', 'emlearn/eml_io.h'], [('file stream functions', 'emlearn/eml_fileio.h')])
prop('C42', 'Command-line generators write exactly the table that was asked for',
 """The window function and mel filterbank tools write, to the file and under the name that were asked for, declarations of exactly the values the library computes for the parameters given on the command line (window type, length and symmetry; sample rate, FFT length, number of filters, frequency limits, HTK and normalisation options), in order, within half of the sixth decimal, with lengths that agree; wrapping lines never breaks or drops a value or a name, and options that can not be understood are refused instead of being taken for something else.""",
 [I, C], 'all table values, all options, any line width', 'Tests compare one table of each.',
 ['emlearn/tools/window_function.py', 'emlearn/tools/mel_filterbank.py'], [('window_function, main', 'emlearn/tools/window_function.py'), ('mel_filterbank, main', 'emlearn/tools/mel_filterbank.py')])
prop('C43', 'Log entries are well-formed lines, and logging or debugging changes no result',
 """With logging enabled every entry is one line: the event name followed by key=value pairs, each after one space, in the order and with the values given (texts, integers, booleans, real numbers, arrays as [a,b,...]), and every argument has the type its conversion needs. Tree and nearest neighbour inference return the same results as without logging, and the class, votes and output they log are those they return. The error-checking macros return the first failing error and evaluate the checked expression once; with debugging enabled the hook is called exactly once per failing condition with the error that is returned, and nothing else changes.""",
 [I, C], 'all values and array lengths in the stated bounds; logging and debugging on or off', 'Tests never enable logging or debugging.',
 ['emlearn/eml_log.h', 'emlearn/eml_common.h', 'emlearn/eml_trees.h', 'emlearn/eml_neighbors.h'], [('EML_LOG_ADD, EML_LOG_ADD_ARRAY, ...', 'emlearn/eml_log.h'), ('EML_PRECONDITION, EML_POSTCONDITION, EML_CHECK_ERROR', 'emlearn/eml_common.h')])
prop('C44', 'convert() uses the right converter with the options given, and refuses others',
 """For every estimator, convert() hands it, with the method, data type, return type and further options that were given (or their documented defaults), to the converter for its kind: the class name, or the kind that was named explicitly, which also works for subclasses of any name. It returns what that converter makes. Every supported kind can be converted without naming a method, and an unsupported kind, inference method or return type is refused with an exception rather than converted as something else. Importing emlearn and converting a model leave NumPy's handling of floating-point errors as it was.""",
 [I, C], 'all kinds, methods and return types up to the stated length; options given or not', 'Tests convert a few models by class; no test gives an unknown kind, or a subclass.',
 ['emlearn/convert.py', 'emlearn/trees.py', 'emlearn/net.py', 'emlearn/bayes.py', 'emlearn/distance.py', 'emlearn/neighbors.py'], [('convert', 'emlearn/convert.py'), ('Wrapper.__init__', 'emlearn/trees.py')])
prop('C45', 'Mixture results from Python are those of the compiled model, sample by sample',
 """predict_proba, predict_log_proba, score_samples and predict of a converted mixture model give, one per sample and in order, what the generated C code returns for the same sample: every feature reaches the program exactly, the program prints all responsibilities, log-probabilities or the score of the model with at least six decimals and nothing else, they come back in order, and the predicted component is the one with the largest responsibility (the first of equals). A wrong number of features makes the program fail instead of printing something.""",
 [I, M], 'all samples, outputs and numbers of arguments in the stated bounds', 'Every value and its text; tests use two fitted models.',
 ['emlearn/mixture.py'], [('Wrapper, predict, build_executable', 'emlearn/mixture.py')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p) + '\n')
print(len(P))
