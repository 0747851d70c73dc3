"""Writes properties.jsonl and MANIFEST.json from the tables below and lib/config.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
import config

P = []


def p(pid, title, statement, over, qtext, why, files, mech, observe, level_note=""):
    P.append((dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)), level_note))


p("C01", "Two-sided O(n^3) algorithm computes the non-crossing probability",
  "For any non-decreasing boundaries 0 <= b_1 <= ... <= b_n <= 1 and 0 <= B_1 <= ... <= B_n <= 1, the two-sided O(n^3) algorithm returns exactly (up to floating-point rounding) the probability that the order "
  "statistics of n independent uniform variables satisfy b_i <= X_(i) <= B_i for all i. This includes boundaries that touch, coincide, repeat values, lie on 0 or 1, or make the event impossible (result 0).",
  ["inputs"], "every pair of valid boundary vectors", "the single two-sided test evaluates one fixed pair of vectors; the value is a piecewise polynomial with a different piece for every interleaving of the two vectors",
  ["src/ecdf2.cc", "src/common.cc", "src/poisson_pmf.cc"], [("merging of the two boundaries into steps", "src/ecdf2.cc join_all_bounds"), ("transition between consecutive steps", "src/ecdf2.cc poisson_process_noncrossing_probability_n3"),
  ("conversion from the Poisson process to the binomial process", "src/ecdf2.cc ecdf2")], ["return value of ecdf2(b, B, false)", "crossprob ecdf2-ks2001"])
p("C02", "Two-sided FFT algorithm computes the non-crossing probability",
  "For any pair of valid non-decreasing boundary vectors the FFT-based two-sided algorithm returns (up to rounding) the probability that every order statistic lies between its two bounds, whatever mixture of direct and "
  "FFT convolutions its step sizes lead to. In particular it does so for windows just below, at and above the size at which FFT is used.",
  ["inputs"], "every pair of valid boundary vectors, including n beyond the FFT threshold", "the test uses n far below the FFT threshold, so the FFT branch is never executed by a test that checks a value against an independent oracle",
  ["src/ecdf2.cc", "src/fftwconvolver.cc", "src/common.cc", "src/poisson_pmf.cc"], [("window handling around the convolution", "src/ecdf2.cc poisson_process_noncrossing_probability_n2logn"), ("direct/FFT switch", "src/fftwconvolver.cc convolve_same_size")],
  ["return value of ecdf2(b, B, true)", "crossprob ecdf2-mn2017"])
p("C03", "New one-sided algorithm computes the one-sided probability",
  "For any valid lower boundary b, the newer O(n^2) one-sided algorithm returns (up to rounding) the probability that X_(i) >= b_i for all i, and for any valid upper boundary B the probability that X_(i) <= B_i for all i. "
  "This holds for every n >= 0, including n=0 and n=1, where blocks of steps are degenerate, and for n large enough to use FFT convolutions.",
  ["inputs"], "every valid one-sided boundary vector, every n", "the test evaluates a single vector for one n, hence one block layout of the algorithm",
  ["src/ecdf1_new.cc", "src/poisson_pmf.cc", "src/fftwconvolver.cc", "src/common.cc"], [("jump blocks of about sqrt(n) steps", "src/ecdf1_new.cc ecdf1_new_B"), ("correction for the paths that crossed inside a block", "src/ecdf1_new.cc"), ("reflection b -> 1-b reversed", "src/ecdf1_new.cc ecdf1_new_b")],
  ["return value of ecdf1_new_b / ecdf1_new_B", "crossprob ecdf1-new"])
p("C04", "Polynomial one-sided algorithm computes the one-sided probability",
  "For any valid lower (upper) boundary the polynomial-translation one-sided algorithm returns (up to rounding) the probability that X_(i) >= b_i (X_(i) <= B_i) for all i. The periodic rescaling of its coefficients and the final "
  "conversion through logarithms never change the value, and an impossible event yields 0.",
  ["inputs"], "every valid one-sided boundary vector, every n including those that trigger rescaling", "the test evaluates one vector; rescaling happens only every 16 steps and only for small coefficients",
  ["src/ecdf1_mns2016.cc", "src/common.cc"], [("translated-monomial polynomial integration", "src/ecdf1_mns2016.cc PolynomialTranslatedMonomials"), ("exponent rescaling every 16 steps", "src/ecdf1_mns2016.cc ecdf1_mns2016_b")],
  ["return value of ecdf1_mns2016_b / ecdf1_mns2016_B", "crossprob ecdf1-mns2016"])
p("C05", "All algorithms agree and respect the symmetries of the problem",
  "On every input accepted by more than one algorithm, the algorithms return the same value (up to rounding): both two-sided algorithms agree, and with b=0 or B=1 they agree with both one-sided algorithms. "
  "Reflecting the boundaries (x -> 1-x, reversed) leaves the value unchanged, an all-0/all-1 pair of boundaries gives 1.",
  ["inputs"], "every valid boundary vector (or pair) and every applicable pair of algorithms", "the tests compare each algorithm with constants for one input, never with each other over the input space",
  ["src/ecdf2.cc", "src/ecdf1_new.cc", "src/ecdf1_mns2016.cc", "src/common.cc"], [("independent implementations of one quantity", "src/")], ["return values of the six entry points"])
p("C06", "Invalid boundaries are always rejected, valid ones never",
  "Every entry point throws an error describing the problem, before computing anything, whenever a boundary vector contains a NaN, a value outside [0,1] (infinities included), or a decrease, or when the two vectors of a two-sided problem differ in length. "
  "It never throws for valid vectors.",
  ["inputs"], "every vector of IEEE doubles, bit pattern by bit pattern", "no test feeds an invalid vector; under -ffast-math a NaN comparison may silently be compiled away",
  ["src/common.cc", "src/ecdf2.cc", "src/ecdf1_new.cc", "src/ecdf1_mns2016.cc"], [("boundary vector check", "src/common.cc check_boundary_vector"), ("length check", "src/ecdf2.cc ecdf2")], ["exceptions of the six entry points"])
p("C07", "Boundary lines are parsed exactly or rejected",
  "A boundary line is read as comma-separated fields, each of which stands for the double its leading number denotes (as the C library's strtod reads it, leading spaces allowed, anything after the number ignored); the values come out exactly, in order, "
  "one per field, and an empty field after the last comma (or an empty line) contributes nothing. A line with a field that does not start with a number, or whose number is outside the range of a double, is rejected with an error, never silently shortened, "
  "skipped or misread. No sequence of bytes makes the parser crash, a boundary file of any length is read as its two lines, and a missing file, or one with fewer than two lines, is an error.",
  ["inputs"], "every line of bytes up to the bound", "tests only use well-formed lines", ["src/read_boundaries_file.cc", "src/string_utils.cc"],
  [("splitting on commas", "src/string_utils.cc split"), ("string to number conversion", "src/string_utils.cc string_to_double / string_to_long"), ("line reader", "src/read_boundaries_file.cc read_comma_delimited_doubles")],
  ["read_boundaries_file", "string_to_double", "string_to_long"])
p("C08", "crossprob program prints the probability of the boundaries in its file",
  "The command-line program prints exactly one line with the non-crossing probability of the boundaries in the file under the named algorithm and exits 0, treating an empty first (second) line as all-zero (all-one) bounds where the algorithm allows it. "
  "For an unknown algorithm, a wrong number of arguments, a missing or malformed file (fewer than two lines, or a field that is no number), invalid boundaries, or a line combination the algorithm does not support, it prints no probability, reports an error (or its usage) and exits nonzero without crashing.",
  ["inputs", "configurations"], "every boundary file and argument list", "tests run the program on a handful of fixed valid files", ["src/crossprob.cc", "src/read_boundaries_file.cc", "src/common.cc"],
  [("argument and algorithm dispatch", "src/crossprob.cc handle_command_line_arguments"), ("empty-line conventions", "src/crossprob.cc calculate_ecdf*"), ("error reporting", "src/crossprob.cc main")], ["standard output", "exit status"])
p("C09", "The convolver computes the (truncated) linear convolution",
  "For two input arrays of equal size n up to the declared maximum, the convolver writes the first n terms of their linear convolution to the output, for every n and every content, through the direct and the FFT route alike. "
  "Results do not depend on what was convolved before on the same object.",
  ["inputs", "histories"], "all array contents, all sizes, all sequences of calls on one object", "no test calls the convolver directly; larger sizes than the FFT threshold are not reached",
  ["src/fftwconvolver.cc", "src/aligned_mem.hh"], [("direct convolution", "src/fftwconvolver.cc convolve_same_size_naive"), ("zero-padded FFT convolution", "src/fftwconvolver.cc FFTWConvolver::convolve_same_size"), ("size rounding", "src/fftwconvolver.cc")], ["output array"])
p("C10", "Convolver buffers and size rounding are always sufficient",
  "For every requested size up to the declared maximum, a convolver serves the request with transforms at least as long as a linear convolution needs, and all of its copies and transforms stay inside the memory allocated for the maximum and inside arrays of "
  "exactly the requested size. A request above the maximum is refused with an error, before anything is transformed, rather than served from a too small buffer.",
  ["inputs"], "every pair (maximum size, requested size)", "tests reach one or two sizes", ["src/fftwconvolver.cc"], [("rounding to a multiple", "src/fftwconvolver.cc round_up"), ("maximum guard", "src/fftwconvolver.cc FFTWConvolver::convolve_same_size")], ["FFTW plan sizes", "exception"])
p("C11", "Poisson probability table is the Poisson mass function",
  "For every intensity lambda >= 0 and every count k, the tabulated and single-value Poisson probabilities equal exp(-lambda) lambda^k / k! (up to rounding), with lambda = 0 giving 1 at k = 0 and 0 elsewhere; a negative intensity is refused. Earlier calls, on the same generator or on another one, do not affect later ones, and a table keeps its values while other generators are used.",
  ["inputs", "histories"], "every intensity and count, every sequence of calls", "no test calls the generator; the suite only reaches intensities produced by a few boundaries", ["src/poisson_pmf.cc"],
  [("cached logarithms of factorials", "src/poisson_pmf.cc PoissonPMFGenerator"), ("special case lambda = 0", "src/poisson_pmf.cc")], ["compute_array", "evaluate_pmf"])
p("C12", "Monte-Carlo binomial estimate counts exactly the simulations that stay inside",
  "For every outcome of its random numbers, the Monte-Carlo program in ecdf mode draws n uniform values per simulation, and counts a simulation as non-crossing exactly if the sorted values satisfy b_i <= X_(i) <= B_i for all i (an empty line meaning no constraint). "
  "The generator is initialised before use and none of its numbers enters two simulations. The printed estimate is derived from that count and the number of simulations.",
  ["inputs", "histories"], "every boundary file and every sequence of random outcomes", "the test runs fixed boundaries and compares a noisy estimate with a loose tolerance", ["src/crossprob_mc.cc", "src/tinymt64.cc"],
  [("simulation loop", "src/crossprob_mc.cc"), ("uniform order statistics from exponential spacings", "src/crossprob_mc.cc")], ["standard output"])
p("C13", "Monte-Carlo Poisson estimate counts exactly the processes that stay inside",
  "For every outcome of its random numbers, the Monte-Carlo program in Poisson mode simulates the arrival times of a Poisson process of intensity n on [0,1] and counts the process as non-crossing exactly if its path stays between the boundaries throughout. "
  "The generator is initialised before use and none of its numbers enters two simulations. The printed estimate is derived from that count and the number of simulations.",
  ["inputs", "histories"], "every boundary file and every sequence of random outcomes", "no stable test covers the Poisson mode", ["src/crossprob_mc.cc", "src/tinymt64.cc"],
  [("process simulation and crossing test", "src/crossprob_mc.cc")], ["standard output"])
p("C14", "The random generator is TinyMT64 and its doubles stay in range",
  "For every seed, seed array and number of steps, the generator produces the TinyMT64 sequence of its published definition, its internal state never becomes all zero, and its double-valued outputs lie in their documented half-open or open intervals. "
  "Different variants of the double output are consistent with the integer output.",
  ["inputs", "histories"], "every 64-bit seed, every reachable 127-bit state", "no test looks at the generator", ["src/tinymt64.cc", "src/tinymt64.h"], [("state transition and tempering", "src/tinymt64.h"), ("initialisation", "src/tinymt64.cc")], ["generated integers and doubles"])
p("C15", "crossprob_mc rejects malformed arguments and uses the given simulation count",
  "The Monte-Carlo program runs exactly the requested number of simulations when its last argument is a positive decimal integer that fits a long, and otherwise (non-numeric, negative, trailing characters, out of range, missing or extra arguments, unknown mode, missing file) reports an error and exits nonzero without printing an estimate.",
  ["inputs"], "every argument list", "tests pass one valid argument list", ["src/crossprob_mc.cc", "src/string_utils.cc"], [("argument handling", "src/crossprob_mc.cc main"), ("string to integer", "src/string_utils.cc string_to_long")], ["exit status", "standard output", "number of simulations"])
p("C16", "Valid boundaries never cause an abort or an invalid memory access",
  "For every valid boundary vector or pair, no entry point aborts, fails an internal assertion, or reads or writes outside its buffers, whether or not assertions are compiled in.",
  ["inputs", "configurations"], "every valid boundary vector, assertions on and off", "memory errors on particular interleavings of the boundaries are invisible to value tests", ["src/ecdf2.cc", "src/ecdf1_new.cc", "src/ecdf1_mns2016.cc", "src/fftwconvolver.cc", "src/poisson_pmf.cc"],
  [("buffer sizes", "src/ecdf2.cc, src/ecdf1_new.cc"), ("assertions", "src/")], ["process termination", "AddressSanitizer reports"])
p("C17", "Results do not depend on earlier calls",
  "A call returns the same value whatever calls were made before it in the same process, including calls with other sizes, other algorithms and calls that threw an error.",
  ["histories", "inputs"], "every sequence of calls up to the bound", "each test makes one call per process or compares constants only", ["src/ecdf2.cc", "src/ecdf1_new.cc", "src/ecdf1_mns2016.cc", "src/fftwconvolver.cc"],
  [("per-call objects and static variables", "src/")], ["return values"])
p("C18", "Results are probabilities and monotone in the boundaries",
  "Every algorithm returns a value in [0,1] for all valid boundaries. Raising a lower bound or lowering an upper bound never increases the value.",
  ["inputs"], "every pair of comparable valid boundaries", "tests never compare two related inputs", ["src/ecdf2.cc", "src/ecdf1_new.cc", "src/ecdf1_mns2016.cc"], [("the algorithms", "src/")], ["return values"])

p("C19", "The Python module returns the values of the algorithms and raises errors",
  "For each of its functions the Python module accepts a list, a tuple or a VectorDouble of floats or ints and returns, as a float, the value the corresponding C++ algorithm has for these numbers. Invalid boundaries (a number outside [0,1] or NaN, a decreasing step, different lengths) raise a RuntimeError with a message; "
  "a missing or surplus argument, an argument of a wrong type, or an element that is no number raises an exception. No call ends the interpreter or changes the reference counts of its arguments. This holds for the committed wrapper and for the one SWIG generates from src/crossprob.i.",
  ["inputs"], "every sequence of numbers of every accepted type, every misuse of the listed kinds", "the suite compares a few constants through the module and never passes tuples, VectorDouble, ints, invalid values or wrong types",
  ["python_extension/crossprob.cc", "python_extension/crossprob.py", "src/crossprob.i"], [("argument conversion and error mapping", "python_extension/crossprob.cc _wrap_ecdf2 and others"), ("interface file", "src/crossprob.i"), ("proxy functions", "python_extension/crossprob.py")], ["return value or exception", "reference counts"])

p("C21", "A call leaves no memory or transform plan behind",
  "A call of one of the six entry points, the life cycle of a convolver or of a Poisson probability generator, and the reading of a boundary file or line leave no allocated memory and no FFTW plan behind, whether they return a result or throw. "
  "Repeating a call any number of times with the same arguments therefore does not increase the memory in use.",
  ["inputs", "histories"], "every boundary vector, valid or refused, and every size of the life cycles", "the suite runs each program once and ends the process, so nothing that is left behind is ever noticed",
  ["src/fftwconvolver.cc", "src/poisson_pmf.cc", "src/aligned_mem.cc", "src/ecdf2.cc", "src/read_boundaries_file.cc"], [("plans and buffers of the convolver", "src/fftwconvolver.cc FFTWConvolver::FFTWConvolver, ~FFTWConvolver"), ("table of the generator", "src/poisson_pmf.cc ~PoissonPMFGenerator"),
  ("working vectors of the algorithms", "src/ecdf2.cc, src/ecdf1_new.cc, src/ecdf1_mns2016.cc")], ["memory in use after repeated calls"])

p("C22", "The work of a call grows with the number of bounds as documented",
  "For every valid boundary, the work of the direct two-sided algorithm grows no faster than n^3, of the FFT algorithm no faster than n^2 log n, and of the two one-sided algorithms no faster than n^2 (up to a logarithm): with k times as many bounds of the same shape a call takes about k^3 or k^2 times as long, "
  "not the next power of k. A call plans the transforms of one length a bounded number of times, however many convolutions it makes.",
  ["inputs"], "every valid boundary and every n", "the suite uses at most ten bounds, where every algorithm is fast and no transform is used",
  ["src/ecdf2.cc", "src/ecdf1_new.cc", "src/ecdf1_mns2016.cc", "src/fftwconvolver.cc", "src/poisson_pmf.hh", "src/crossprob.cc"], [("choice of the FFT, plans kept per length", "src/fftwconvolver.cc convolve_same_size, memoized_r2c_plan, memoized_c2r_plan"),
  ("blocks of sqrt(n) steps", "src/ecdf1_new.cc poisson_B_noncrossing_probability_n2"), ("documented complexities", "src/crossprob.cc usage, src/crossprob.i")], ["running time", "number of plans made"])

NA = [("C20", "Rounding error stays small for large n", "For boundaries of practical interest and n up to tens of thousands, the returned double is within a small relative error of the exact probability.", ["inputs"], "every valid boundary and n",
       "tests compare with a few constants", ["src/ecdf2.cc", "src/ecdf1_new.cc", "src/ecdf1_mns2016.cc"], "needs bit-precise floating-point reasoning about millions of dependent operations under -ffast-math and 80-bit arithmetic (no fixed evaluation order to encode); SMT floating point does not reach even n=3 for these algorithms, so the checks use exact reals and state that limit")]


def main():
    have = set(config.PROPERTIES)
    with open(V + "/properties.jsonl", "w") as f:
        for d, _ in P:
            f.write(json.dumps(d) + "\n")
        for pid, title, st, over, q, why, files, reason in NA:
            f.write(json.dumps(dict(id=pid, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why, anchors=dict(files=files, mechanism=[]))) + "\n")
    checks = []
    for d, _ in P:
        pid = d["id"]
        if pid not in have:
            continue
        c = config.PROPERTIES[pid]
        note = "bounds: " + c["bounds"] + ". assumes: " + "; ".join(c.get("base", config.ASSUMPTIONS) + c.get("assumptions", []))
        checks.append(dict(property=pid, quick_cmd=f"python3 check.py --property {pid} --tier quick", thorough_cmd=f"python3 check.py --property {pid} --tier thorough",
                           technique=c.get("technique", "symbolic execution of the compiled sources (LLVM IR) over symbolic reals, assertions decided by Z3"), level="model_checking", level_note=note))
    na = [dict(property=d["id"], reason="check under construction") for d, _ in P if d["id"] not in have] + [dict(property=x[0], reason=x[-1]) for x in NA]
    json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na), open(V + "/MANIFEST.json", "w"), indent=1)


main()
