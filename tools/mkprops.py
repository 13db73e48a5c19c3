"""writes properties.jsonl (kept as a script only so that the long lines are readable)"""
import json, os
P = "libraries/plumbing/"
D = "libraries/datatypes/"
out = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=False):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    out.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                    why_tests_cant=why, anchors=a))


prop("P01", "Translated site loops compute what the source says",
     "A site loop over all, even or odd sites leaves every field, loop-external variable and reduction with exactly the "
     "values obtained by executing its body once, independently, for each selected site, reading the neighbour values the "
     "fields had when the loop began. This holds for every loop the translator accepts, in every code path it can "
     "generate (plain CPU, vectorised, threaded), number of dimensions, lattice size and number of processes.",
     ["programs", "configurations", "inputs"],
     "every translator-accepted loop body (element types, control flow, temporaries, called functions, templates, "
     "neighbour offsets, conditions, reductions) x backend x dimension x lattice x ranks",
     "the unit tests contain a few dozen fixed loop shapes; the translator rewrites arbitrary user source",
     ["hilapp/src/toplevelvisitor.cpp", "hilapp/src/generalvisitor.cpp", "hilapp/src/codegen.cpp",
      "hilapp/src/codegen_cpu.cpp", "hilapp/src/codegen_avx_new.cpp", "hilapp/src/loop_function.cpp",
      "hilapp/src/loop_function_visitor.cpp", "hilapp/src/vectorization_info.cpp", P + "field.h",
      P + "backend_vector/lattice_vector.h"],
     [("loop body analysis and field-reference classification", "hilapp/src/toplevelvisitor.cpp"),
      ("code generation", "hilapp/src/codegen*.cpp"),
      ("site-dependence / vectorisability decision", "hilapp/src/vectorization_info.cpp")],
     ["field contents after the loop, read back site by site", "values of loop-external variables after the loop"])

prop("P02", "Neighbour reads see the current values at any distance",
     "After any history of assignments, loops over one or both parities, copies, moves, single-site writes, prefetches "
     "and boundary-condition changes, reading a field at a neighbouring site (in any direction or at any coordinate "
     "offset) gives the value currently stored at the periodically wrapped neighbour, with the sign flipped once per "
     "crossing of a boundary declared antiperiodic. The result does not depend on how many processes share the "
     "lattice, on how it is divided, or on whether communication was started early.",
     ["histories", "configurations"],
     "every history of field operations x lattice sizes x process counts x element types x storage layouts",
     "a stale halo only shows after particular sequences of writes and prefetches, on particular divisions",
     [P + "field.h", P + "field_comm.h", P + "lattice.cpp", P + "backend_cpu", P + "backend_vector"],
     [("gather status flags per direction and parity", P + "field.h"),
      ("start/wait gather, boundary element exchange", P + "field_comm.h"),
      ("neighbour index tables and comm lists", P + "lattice.cpp")],
     ["field value at X+d and at X+offset inside loops", "field.shift()"],
     [("gather status", "whether the halo for a direction and parity is current", P + "field.h")])

prop("P03", "Every site is owned exactly once and found by its coordinates",
     "For every lattice size and number of processes that start-up accepts, each coordinate belongs to exactly one "
     "process and one local index, coordinate-to-index and index-to-coordinate maps are mutually inverse, the neighbour "
     "of each site in each direction is the periodically wrapped one, and the parity of a site is that of its "
     "coordinate sum. Even and odd sites together enumerate the lattice once, in every division, ordering and layout option.",
     ["inputs", "configurations"],
     "every lattice size and process count accepted x layout build options x dimensions",
     "the unit tests use a handful of power-of-two lattices on up to four processes",
     [P + "lattice.cpp", P + "lattice.h", P + "setup_layout_generic.cpp", P + "setup_layout_vector.cpp",
      P + "map_node_layout.cpp", P + "coordinates.h", P + "backend_vector/lattice_vector.h"],
     [("node division", P + "setup_layout_generic.cpp"), ("site ordering", P + "lattice.cpp"),
      ("rank mapping", P + "map_node_layout.cpp")],
     ["X.coordinates()/parity() in loops", "lattice index and rank query functions", "element access by coordinate"])

prop("P04", "Reductions equal the sum, product or extremum over all sites",
     "Sum and product reductions, reduction vectors, field sums, squared norms, dot products and minima and maxima with "
     "their locations give, for any values, the exact combination over every selected site of the whole lattice plus the "
     "starting value, identical on all processes unless told otherwise. Immediate, delayed, non-blocking and "
     "repeated use of the same reduction variable all give the same results.",
     ["inputs", "histories", "configurations"],
     "every sequence of reduction operations and modes x element types x parities x process counts",
     "tests use one or two immediate reductions with positive values",
     [P + "reduction.h", P + "reductionvector.h", P + "field.h", P + "com_mpi.h", P + "com_mpi.cpp"],
     [("delayed and non-blocking state", P + "reduction.h"), ("vector reductions", P + "reductionvector.h"),
      ("global min/max with location", P + "reduction.h")],
     ["value of the reduction variable", "return values and location arguments of sum/min/max"])

prop("P05", "Global access, slices, shifts and reflections agree with the field",
     "Reading or writing single elements by coordinate, reading or setting lists of elements, extracting slices and "
     "subvolumes, copying process-local data in and out, and shifting or reflecting a field all address exactly the "
     "coordinates named, in the documented order, and change nothing else. The same holds on any number of processes.",
     ["inputs", "histories", "configurations"],
     "every coordinate, slice, box, offset, direction and parity x element types x lattice sizes x process counts",
     "tests touch a few coordinates on one lattice",
     [P + "field.h", P + "field_comm.h", P + "field_io.h"],
     [("element access", P + "field_comm.h"), ("slice and subvolume gathers", P + "field_comm.h"),
      ("shift and reflect", P + "field_comm.h and " + P + "fft.h")],
     ["returned elements and vectors", "full field content before and after"])

prop("P06", "Lattice Fourier transforms equal the defining sum",
     "The Fourier transform of a field, over any subset of directions and forward or backward, equals the defining sum "
     "of exponentials over the whole lattice (forward exp(-ikx), back exp(+ikx), unnormalised); transforming there and back multiplies by the volume of the transformed directions. "
     "Real-to-complex and complex-to-real forms agree with the complex transform, reflection gives f(-x) along the chosen directions, and "
     "convert_to_k gives 2 pi n / L folded to (-pi, pi], for every element type, lattice size and number of processes.",
     ["inputs", "configurations"],
     "every field content x direction subset x element type and precision x lattice size x process count",
     "tests transform a few plane waves on power-of-two lattices",
     [P + "fft.h", P + "fft_fftw_transform.h", P + "fft.cpp", P + "fft_structs.h"],
     [("pencil collection and scatter between processes", P + "fft.h"), ("1-d transforms", P + "fft_fftw_transform.h")],
     ["transformed field"])

prop("P07", "Spectral binning assigns every mode to its bin",
     "With hila::k_binning, binning a k-space field sums, for each bin, exactly the modes whose wave number k falls in that bin, "
     "floor((k/k_max)^power * bins); modes beyond the last bin are left out. The reported counts, average wave numbers and bin limits "
     "match those modes for the parameters (bins, k_max, bin width, power) in force at the time of the call, however they were set before. "
     "Spectral densities equal the binned squared moduli of the Fourier transform of the field, for complex and for real element types.",
     ["inputs", "configurations", "histories"],
     "every bin count, maximum, width and power setting, changed in any order x field content x lattice size",
     "tests use the default binning on a cube",
     [P + "spectraldensity.h"],
     [("bin number of a mode", P + "spectraldensity.h")],
     ["binned vectors, counts and mean wave numbers"])

prop("P08", "Saved fields and configurations read back exactly",
     "A field or gauge configuration written to a file reads back bit-identically on any number of processes and any "
     "storage layout, a stored configuration tiles a larger lattice that is a multiple of its size, and subvolume and slice output lists the "
     "addressed sites in coordinate order. A file that does not match (wrong magic, version, element or lattice size) is "
     "refused instead of being loaded.",
     ["inputs", "configurations", "fault_sequences"],
     "every field content, type, lattice size, writer and reader process count, replication factor and header damage",
     "tests do not restart on another process count or feed damaged files",
     [P + "field_io.h", P + "gaugefield.h"],
     [("ordered block-wise write and read", P + "field_io.h"), ("configuration header", P + "gaugefield.h")],
     ["file bytes", "field contents after reading", "refusal to read"])

prop("P09", "Parameter files are read as written or refused",
     "The parameter reader returns for every key exactly the value written in the file: numbers, quoted and "
     "unquoted strings, lists, vectors, coordinates and labelled alternatives, across comments, blank lines, lists continued after a comma and "
     "whitespace. A missing or misspelt key or a malformed or too short value is reported as an error that ends the program "
     "(or false from get_value) and never silently read as something else; surplus values are an error at the next key; after a "
     "refused key the right key can still be read; all processes receive the same values.",
     ["inputs", "configurations"],
     "every well-formed or malformed parameter file and sequence of requests",
     "the input space is free text; tests read one fixed file",
     [P + "input.h", P + "input.cpp"],
     [("line scanning and token matching", P + "input.cpp")],
     ["returned values", "error exit"])

prop("P10", "Command-line options and overrides act as documented",
     "Declared flags receive the values given after them, in any order, with repeated or absent optional flags left at "
     "their defaults, and a parameter override on the command line replaces the value the file holds for that key and "
     "only that key. Unknown options, missing values and non-numeric values where numbers are needed stop the program with a message.",
     ["inputs"],
     "every command line built from declared, standard and unknown options",
     "tests pass a couple of fixed command lines",
     [P + "cmdline.h", P + "cmdline.cpp", P + "initialize.cpp", P + "input.cpp"],
     [("flag parsing", P + "cmdline.cpp"), ("parameter override", P + "input.cpp")],
     ["values seen by the program", "exit status and message"])

prop("P11", "Random numbers are reproducible, in range and process-independent in law",
     "With a given seed, process count and build, a program that draws random numbers produces the same sequence on every "
     "run and after every re-seeding; different processes and partitions draw different sequences, and no draw repeats "
     "within a sequence. Uniform numbers lie in [0,1), and uniform, Gaussian and group-valued "
     "random draws follow their stated distributions. Shuffling reorders a list with every order equally likely, and the "
     "shuffled directions and parities are the same on all processes.",
     ["inputs", "histories", "configurations"],
     "every seed, sequence of draws of mixed kinds, re-seeding point and process count",
     "tests look at one seed and one draw kind",
     [P + "random.h", P + "random.cpp", P + "mersenne_newtry.h", P + "field.h"],
     [("seeding and streams", P + "random.cpp"), ("Gaussian pairs", P + "random.cpp")],
     ["drawn numbers"])

prop("P12", "Complex arithmetic matches its mathematical definition",
     "Every operator and function on complex numbers, and on mixtures of complex, real and imaginary-unit operands and of "
     "precisions, gives the mathematically defined result within rounding. Scalar "
     "helper functions give the same results for plain arithmetic types.",
     ["inputs"],
     "every operand value, sign, magnitude and type mixture for every operator and function",
     "tests evaluate a few fixed values",
     [D + "cmplx.h", D + "cmplx_utilities.h", D + "scalar.h"],
     [("operators and functions", D + "cmplx.h")],
     ["results"])

prop("P13", "Matrix, vector, array and diagonal-matrix algebra is exact",
     "Every algebraic operation on matrices, vectors, arrays and diagonal matrices (sums, products, "
     "scalings, transposes, conjugates, adjoints, traces, dot and outer products, norms, elementwise functions, "
     "row and column access, slices, permutations and sorting, compound assignment) gives the textbook result for every "
     "size, element type and mixture of operand types, including when an operand is also the destination.",
     ["inputs", "configurations"],
     "every operation x size x real/complex/integer element types x operand mixtures and aliasing",
     "tests cover a few sizes and operations",
     [D + "matrix.h", D + "array.h", D + "diagonal_matrix.h", D + "element_by_element.h"],
     [("matrix operations", D + "matrix.h"), ("arrays", D + "array.h"), ("diagonal matrices", D + "diagonal_matrix.h")],
     ["results"])

prop("P14", "Matrix decompositions and functions satisfy their defining equations",
     "Determinants, inverses, eigenvalue and singular-value decompositions (sorted as requested) and exponentials "
     "satisfy their defining equations within rounding for every non-degenerate and degenerate input "
     "they accept: factors are unitary, they reproduce the matrix, singular values are non-negative, and "
     "all the methods offered for one quantity agree with each other.",
     ["inputs"],
     "every matrix (random, degenerate, diagonal, nearly singular, scaled) x size x element type",
     "tests use random well-conditioned matrices; degenerate spectra and sorting options are rare",
     [D + "matrix_linalg.h", D + "matrix.h", D + "sun_matrix.h"],
     [("Jacobi eigen/svd", D + "matrix_linalg.h"), ("determinants", D + "matrix_linalg.h"), ("matrix exponentials", D + "matrix.h")],
     ["results"])

prop("P15", "Group-valued types stay in their group and follow its algebra",
     "Random, reunitarised, projected and exponentiated special-unitary, two-colour and one-phase group elements are members of their group within "
     "rounding; products, adjoints, the algebra projection and expansion, and the exponential and logarithm maps are "
     "consistent with the matrix representation, for every number of colours. Representation changes preserve products.",
     ["inputs"],
     "every group or algebra element x number of colours x precision",
     "tests take one random element per colour count",
     [D + "sun_matrix.h", D + "su2.h", D + "u1.h", D + "representations.h"],
     [("SU(N)", D + "sun_matrix.h"), ("SU(2) quaternion form", D + "su2.h"), ("U(1)", D + "u1.h")],
     ["results"])

prop("P16", "Extended-precision sums keep the digits plain doubles lose",
     "Extended-precision numbers add, subtract, accumulate, compare and convert so that the sum of any sequence of doubles is correct to "
     "far more digits than a double holds, regardless of order, cancellation or magnitude spread, also when summed over the lattice across processes. "
     "Converting back gives the double nearest to the exact value up to that accuracy.",
     ["inputs", "configurations"],
     "every sequence of doubles with any spread of exponents and cancellations x process counts",
     "tests use a couple of benign sums",
     [D + "extended.h", D + "extended.cpp", P + "reduction.h"],
     [("error-compensated addition", D + "extended.cpp")],
     ["converted and compared values"])

prop("P17", "Site selections and site indices name exactly the chosen sites",
     "Selecting sites (with or without values) in a loop collects each selected site exactly once with its value, on "
     "any number of processes, up to the stated maximum, and then reports the total number and the overflow. Site "
     "indices and coordinate vectors convert into each other without loss, and coordinate arithmetic, periodic wrapping, "
     "parity and direction algebra follow integer vector rules.",
     ["inputs", "histories", "configurations"],
     "every selection pattern, maximum, repeated selection and coordinate x lattice size x process count",
     "tests select a few sites once",
     [P + "site_select.h", P + "site_index.h", P + "coordinates.h"],
     [("selection buffers and join", P + "site_select.h"), ("index/coordinate map", P + "site_index.h")],
     ["selected coordinates and values"])

prop("P18", "Cluster finding returns the connected components",
     "Cluster labelling gives two sites the same label exactly when a path of neighbouring sites of the same type joins "
     "them on the periodic lattice; sites marked as background are in no cluster. Cluster counts, types, sizes, areas and "
     "the list of sites of each cluster follow from that labelling, independent of the number of processes.",
     ["inputs", "configurations"],
     "every field of site types x lattice size x process count",
     "tests do not examine percolating, wrapping or multi-process clusters",
     [P + "clusters.h"],
     [("label propagation", P + "clusters.h")],
     ["labels, counts, sizes, areas and site lists"])

prop("P19", "Gauge observables and updates respect gauge symmetry and their actions",
     "Plaquettes, staples, Wilson lines, Polyakov lines, smearing and gradient flow "
     "equal their definitions as sums of link products and transform correctly under local gauge "
     "transformations; forces are minus the derivative of their action along every link direction. "
     "Overrelaxation leaves the action unchanged, heat bath and accept/reject updates draw links from the stated distribution, and every update keeps links in the group.",
     ["inputs", "configurations"],
     "every gauge configuration and gauge transformation x group x lattice size x process count",
     "tests of applications check averages at best; symmetry must hold for every configuration",
     ["libraries/gauge/staples.h", "libraries/gauge/polyakov.h", "libraries/gauge/sun_overrelax.h",
      "libraries/gauge/sun_heatbath.h", "libraries/gauge/wilson_plaquette_action.h",
      "libraries/gauge/wilson_line_and_force.h", "libraries/gauge/stout_smear.h", "libraries/gauge/gradient_flow.h",
      "libraries/gauge/improved_action.h", "libraries/gauge/log_plaquette_action.h", "libraries/gauge/clover_action.h",
      P + "gaugefield.h"],
     [("staple sums", "libraries/gauge/staples.h"), ("actions and forces", "libraries/gauge")],
     ["observables and links"])

prop("P21", "Incorrect loops and uninitialised reads are refused",
     "The translator refuses, with an error message at the offending loop and no output file, site loops which break the rules: assigning "
     "to a shifted field reference (directly or through a function), random numbers inside a field reference, assigning a field in a loop over "
     "all sites which also reads its nearest neighbours, changing variables, arrays or globals defined outside the loop other than by a "
     "reduction, nested loops, fields used without a site inside a loop or with one outside, contradictory parities, declarations which have no "
     "meaning in a loop, and calls of functions which use static or global variables. Loops which follow the rules are accepted. At run time a "
     "site loop or field expression which reads a field never assigned, and a loop which draws random numbers before the generator is seeded, stop the program with a message.",
     ["programs"],
     "every program with one rule violation placed anywhere in otherwise valid loops",
     "each unit test must compile, so refusals are never tested",
     ["hilapp/src/toplevelvisitor.cpp", "hilapp/src/loop_function_visitor.cpp", P + "field.h"],
     [("loop diagnostics", "hilapp/src/toplevelvisitor.cpp")],
     ["translator exit status and messages", "program exit status"])

prop("P22", "Checkpointed and weighted runs resume and bias exactly",
     "Restoring a checkpoint brings back exactly the saved configuration, the next trajectory number, the number of trajectories "
     "(with changes made in the status file) and a seed from which every restoration continues with the same random numbers; saving "
     "keeps the previous configuration, and a save interrupted at any byte leaves a complete copy of it. The multicanonical weight "
     "is the piecewise-linear interpolation of its table, constant or infinite outside, survives a write and read to the precision of "
     "the file, updates are accepted with probability min(1, exp(-change of weight)), and the weight iterations change the table as documented.",
     ["histories", "crash_points", "inputs"],
     "every sequence of saves, restores and trajectories; every weight table and order-parameter value",
     "tests do not restart programs",
     ["libraries/tools/checkpoint.h", "libraries/tools/multicanonical.h", "libraries/tools/multicanonical.cpp"],
     [("checkpoint files", "libraries/tools/checkpoint.h"), ("weight function", "libraries/tools/multicanonical.cpp")],
     ["files and values after restart", "weight values"])

prop("P23", "Broadcast and point-to-point transfers deliver what was sent",
     "Broadcasting, sending, receiving and reducing values, vectors, strings, arrays and lists between processes delivers "
     "exactly the data of the sending process to all intended receivers, for any length including empty, any root and any process count; "
     "splitting the processes into partitions keeps them independent.",
     ["inputs", "configurations"],
     "every value type, length, root, and process count",
     "tests run on two processes with fixed data",
     [P + "com_mpi.h", P + "com_mpi.cpp"],
     [("broadcast and reductions", P + "com_mpi.h")],
     ["received values on each process"])

prop("P20", "Blocked lattices map back to the parent exactly",
     "Blocking the lattice by integer factors and copying fields to and from the blocked lattice "
     "transfers exactly the sites whose coordinates are multiples of the factors and leaves the others untouched, for any "
     "chain of blockings and returns, and loops, neighbours and reductions on the blocked lattice behave as on an ordinary one.",
     ["inputs", "histories", "configurations"],
     "every chain of blocking factors x lattice size x process count",
     "tests block once by a fixed factor",
     [P + "lattice.cpp", P + "lattice.h", P + "field_comm.h"],
     [("blocked lattice set-up", P + "lattice.cpp")],
     ["field contents on each lattice"])

out.sort(key=lambda p: p["id"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in out:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
