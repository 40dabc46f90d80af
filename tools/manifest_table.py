B = 'All values within the bounds in the evidence are decided by SAT/SMT; counterexamples are replayed on the compiled code. '
TECH['C01'] = (SYM, B + 'Ensembles are examples (seeded), the feature vectors are symbolic; trusts the LLVM IR executor in vlib/llsym.py.')
TECH['C04'] = (CBMC, B + 'Trusts CBMC\'s C and IEEE float semantics and the harness; larger tables are outside the bound.')
TECH['C17'] = (CBMC, B + 'Up to 4 items (6 thorough); the distance function is abstracted here and decided by C18.')
TECH['C19'] = (CBMC, B + 'Arrays up to 6 items; the partition threshold is lowered for the longer ones.')
TECH['C26'] = (CBMC, B + 'Streams up to 7 bytes (20 thorough) with failing and short I/O.')
TECH['C27'] = (CBMC, B + 'snprintf is abstracted to any text of any length.')
TECH['C02'] = (SYM, B + 'Ensembles are examples (seeded), the feature vectors are symbolic.')
TECH['C03'] = (SYM, B + 'Ensembles are examples (seeded), the feature vectors are symbolic.')
TECH['C15'] = (PY, B + 'Components and features up to the sizes in the evidence; numpy calls are shimmed.')
TECH['C31'] = (PY, B + 'Values are reals, numpy calls are shimmed; float rounding is outside the encoding.')
TECH['C32'] = (PY, B + 'Names are symbolic strings (regular expressions translated to Z3).')
TECH['C33'] = (PY, B + 'Arrays of the sizes in the evidence with symbolic values.')
TECH['C36'] = (PY, B + 'Up to the number of points in the evidence; costs and performances are reals.')
TECH['C11'] = (CBMC, B + 'Accuracy for precision 1..4 and 6 (1..12 thorough) over all x, for larger precisions over numbers of two binary forms.')
TECH['C18'] = (CBMC + '; ' + SYM, B + 'The root is decided below 2^22 and for structured larger values; the sum of squares for all int16 vectors.')
TECH['C20'] = (CBMC + '; ' + SYM, B + 'One step from any consistent model of up to 4 items.')
TECH['C22'] = (SYM + '; ' + CBMC, B + 'Symbolic coefficients, states and samples over the reals: float rounding is outside the encoding.')
TECH['C25'] = (CBMC + '; ' + SYM, B + 'Sums and products over the reals.')
TECH['C28'] = (CBMC + '; ' + SYM, B)
TECH['C29'] = (CBMC, B + 'Concrete shapes, symbolic contents and positions.')
TECH['C30'] = (CBMC + '; ' + SYM, B)
TECH['C34'] = (SYM + '; ' + PY, B)
TECH['C35'] = (SYM, B)
TECH['C12'] = (SYM, B + 'Generated and arbitrary models up to the sizes in the evidence; the fixed-point error bound is part of the oracle.')
TECH['C13'] = (CBMC + '; ' + SYM + '; ' + PY, B + 'All 32-bit operands.')
TECH['C14'] = (SYM, B + 'Sums and products over the reals; exp and log are uninterpreted.')
TECH['C16'] = (SYM + '; ' + PY, B + 'Over the reals: float rounding is outside the encoding.')
TECH['C21'] = (SYM, B + 'Lengths in the evidence; symbolic signals over the reals, concrete twiddle factors with their rounding bounded.')
TECH['C23'] = (SYM + '; ' + PY, B + 'Shapes in the evidence; symbolic filter values and inputs over the reals.')
TECH['C24'] = (SYM, B + 'Mel parameter sets in the evidence concrete or, for the memory bounds, symbolic frequencies with log10 and pow as uninterpreted functions.')
TECH['C07'] = (SYM + '; ' + PY, B + 'Network shapes in the evidence; symbolic weights and inputs over the reals: float rounding is outside the encoding.')
TECH['C08'] = (CBMC, B + 'Up to the numbers of layers and widths in the evidence.')
TECH['C09'] = (CBMC + '; ' + SYM, B + 'Up to the numbers of outputs in the evidence; the exponential function is known by axioms only.')
TECH['C05'] = (PY, B + 'Models of a few nodes with symbolic numbers, and one long chain; numpy calls are shimmed.')
TECH['C06'] = (PY, B + 'Ensembles of the shapes in the evidence with symbolic thresholds, leaf values and features over the reals; numpy calls are shimmed.')
TECH['C37'] = (PY, B + 'Ensembles of the shapes in the evidence with symbolic thresholds, leaf values and data over the reals; decision_path is replaced by its definition.')
TECH['C02'] = (SYM + '; ' + PY, TECH['C02'][1])
TECH['C40'] = (PY, B + 'Section sizes are any numbers; make and the size tool are replaced by their definition.')
TECH['C39'] = (SYM + '; ' + PY, B + 'The generated program with stand-ins for stdin, stdout and decimal conversion, on a few rows of any features; the Python side with any answers of the program.')
TECH['C38'] = (SYM, B + 'The C++ bindings, unmodified, against stand-ins for pybind11, NumPy arrays and the C++ library; sums and products over the reals.')

TECH['C10'] = (SYM + '; ' + PY, B + 'Up to the numbers of items and features in the evidence.')
TECH['C41'] = (SYM, B + 'Transfers of a few symbolic bytes and of many given ones; the C library is replaced by functions over a file in memory.')
TECH['C42'] = (PY, B + 'Tables of a few symbolic values and many options; scipy and librosa are replaced by stand-ins that return any values.')
TECH['C43'] = (SYM, B + 'The printing function is replaced by one that records the format and its arguments.')
TECH['C44'] = (PY, B + 'Kinds, methods and return types are any strings up to the lengths in the evidence; converters and compilation are replaced by recorders.')
TECH['C45'] = (SYM + '; ' + PY, B + 'Generated programs of a few fitted models on any sample, with stand-ins for decimal conversion and printing.')
