#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so that the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                          observe_at=observe, hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)
S = "rust/src/"
p("C01", "Every reported sequence is genuine",
  "Every line of every sequence result file that a completed search writes (for Williamson-type, QT and Williamson searches, any supported length, either matching method, any pairing) is a sequence of the requested length over the 16-letter quaternion alphabet, is a perfect quaternion sequence, and its four binary component sequences satisfy exactly the definition of the requested type. The auxiliary QT list of a Williamson-type search satisfies the QT definition in the same way.",
  ["inputs", "configurations"], "all types (wts, qts, ws), lengths 1..31, matching methods (psd, correlation) and pairings (WX, WY, WZ)",
  "Tests verify predicates on a few hand-written sequences and never run the pairs/sort/join pipeline; the guarantee ranges over all lengths and configurations.",
  [S+"find/find_write.rs", S+"main.rs", S+"sequences/williamson.rs", S+"sequences/sequence.rs"],
  [("candidate verification after key match", S+"find/find_write.rs join_pairs_files"), ("type predicates", S+"sequences/williamson.rs verify_*")],
  ["results/pairs/<type>/find_<n>/result*.seq", "results/pairs/<type>/find_<n>/result*.qseq"])
p("C02", "The enumeration is exhaustive",
  "For every type, supported length, matching method and pairing, a completed search reports at least one representative of every equivalence class of sequences of that type and length (Williamson-type and Williamson: negate any sequence, reorder, half-shift any one sequence, alternate negation, automorphism, and for Williamson-type a uniform shift; QT: negate-and-swap, half-shift of an even number of sequences, alternate negation, automorphism, uniform shift). No genuine sequence present among the candidates may be lost by filtering, matching or reduction.",
  ["inputs", "configurations"], "all types, lengths 1..31, matching methods and pairings",
  "No test runs a search or compares its outcome with an independent exhaustive enumeration; a lost class is invisible without one.",
  [S+"find/find_write.rs", S+"find/find_unique.rs", S+"sequences/rowsum.rs", S+"sequences/fourier.rs", S+"sequences/matching.rs", S+"sequences/equivalence.rs"],
  [("rowsum decompositions", S+"sequences/rowsum.rs generate_rowsums"), ("PSD filter", S+"sequences/fourier.rs iter_over_enumerate_filtered_couples_psds"), ("merge join", S+"find/find_write.rs join_pairs_files"), ("canonical reduction", S+"find/find_unique.rs reduce_to_canonical_reps")],
  ["results/pairs/<type>/find_<n>/result.seq", "result.qseq"])
p("C03", "Each equivalence class is reported exactly once",
  "The sequence list a completed search writes contains no two sequences that are equivalent under the equivalence operations of the requested type, for every type, supported length, matching method and pairing, so that its length is the number of equivalence classes. The same holds, under QT equivalence, of the auxiliary QT list of a Williamson-type search.",
  ["inputs", "configurations"], "all types, lengths 1..31, matching methods and pairings",
  "Tests reduce only a few small hand-built lists; whether two written representatives are equivalent depends on the full group action at each length.",
  [S+"find/find_unique.rs", S+"sequences/equivalence.rs", S+"find/find_write.rs", S+"main.rs"],
  [("canonical representative and de-duplication", S+"find/find_unique.rs reduce_to_canonical_reps"), ("canonical form", S+"sequences/equivalence.rs qt_canonical")],
  ["results/pairs/<type>/find_<n>/result.seq", "result-qts.seq"])
p("C04", "The result does not depend on how the search is run",
  "For a given type and length the set of sequences written is the same whatever the matching method and pairing, whether it is run by the driver or stage by stage, whether the pair files are generated by one command or by the separate per-rowsum and per-pair commands for distributed jobs (with the directories created beforehand or not, and in any order), and however often it is repeated.",
  ["inputs", "configurations", "schedules"], "all combinations of matching method, pairing, staging and distribution, any order or concurrency of the distributed pieces, lengths 1..31",
  "No test exercises the command line, the scripts or the distributed commands.",
  [S+"find/find_write.rs", S+"main.rs", "rust/driver.sh", "rust/pairs.sh", "rust/sortpairs.sh", "rust/join_pairs.sh"],
  [("pair generation variants", S+"find/find_write.rs write_pairs, write_pairs_rowsum, write_pair_single_rowsum, create_rowsum_dirs"), ("stage scripts", "rust/*.sh")],
  ["results/pairs/<type>/find_<n>/result*.seq"])
p("C05", "Canonical form is invariant and separating",
  "Two valid sequences of the same type and length (up to 31) are mapped to the same canonical representative if and only if one can be obtained from the other by the equivalence operations of that type, and the canonical representative is itself a member of the class. The pairwise equivalence test and every list-reduction routine agree with this: they keep exactly one member per class, in whatever order and multiplicity the list is given.",
  ["inputs"], "all valid sequences of the three types, lengths 1..31, and all lists of them",
  "Tests compare a handful of sequences at a few lengths; invariance must hold for every group element.",
  [S+"sequences/equivalence.rs", S+"find/find_unique.rs", S+"sequences/matrix_equivalence.rs"],
  [("canonical form", S+"sequences/equivalence.rs qt_canonical, ns_canonical, sn_ss_canonical"), ("reductions", S+"find/find_unique.rs reduce_to_*")],
  ["result.seq", "return values of the reduction routines"], "in-process probe behind the feature `verif`")
p("C06", "Equivalence operations generate exactly the orbit",
  "Each equivalence operation maps a valid sequence of a type that admits it to valid sequences of that type, and produces exactly the images its definition lists. The equivalence class generated from a sequence is exactly its orbit under the type's operations, the symmetry-table based class generation gives the same set as the step-by-step one, and this holds for every length up to 31. Asked not to look at the predicate, an operation produces the images of its definition for every quadruple of sequences, valid or not.",
  ["inputs"], "all sequences and lengths 1..31 for the three types",
  "Tests check class generation at two or three lengths and only through counts or debug assertions.",
  [S+"sequences/equivalence.rs", S+"sequences/symmetries.rs"],
  [("operations", S+"sequences/equivalence.rs equivalent_*"), ("class generation", S+"sequences/equivalence.rs generate_equivalence_class, generate_equivalence_class_fast, generate_symmetry_group"), ("operation lists", S+"sequences/symmetries.rs equivalences")],
  ["return values", "results/pairs/<type>/find_<n>/qhm_all.mat"], "in-process probe behind the feature `verif`")
p("C07", "The quaternion encoding is a faithful bijection",
  "Translating a quadruple of binary sequences into quaternion letters and back is the identity, follows the encoding table in the README together with one fixed correspondence between sign quadruples and quaternions under which QT quadruples are exactly the perfect sequences, and parsing then printing any string over the alphabet returns it unchanged; strings with letters outside the alphabet are rejected. A quadruple whose components and entries are set and read in any order holds exactly what was set. Corresponding entries of the .seq and .qseq result files describe the same sequences in the same order.",
  ["inputs"], "all quadruples and all strings over the alphabet, any length up to 31",
  "Tests convert a few sequences; a wrong table entry or position-dependent error shows only for particular quaternions and positions.",
  [S+"sequences/sequence.rs", S+"sequences/williamson.rs", S+"main.rs"],
  [("letter table", S+"sequences/sequence.rs Q24_STRING, from_str, to_string_raw"), ("quadruple table", S+"sequences/williamson.rs to_qs, from_pqs, QUADRUPLETS")],
  ["result.seq vs result.qseq", "return values"], "in-process probe behind the feature `verif`")
p("C08", "The verification predicates are exact",
  "For every quadruple of +-1 sequences and every quaternion sequence over the 24 unit quaternions, of any length up to 31, the checks for perfect, odd-perfect, complementary, amicable, QT cross-correlation, symmetric, and for each of the three types answer exactly as the integer definitions do, and the periodic auto- and cross-correlation functions return the exact values for every offset. In particular rounding never turns a near miss into a pass.",
  ["inputs"], "all quadruples and quaternion sequences of lengths 1..31, including near misses at a single offset",
  "Tests evaluate the predicates on a few sequences that are far from the boundary.",
  [S+"sequences/williamson.rs", S+"sequences/sequence.rs", S+"sequences/matching.rs", S+"find/find_write.rs"],
  [("predicates", S+"sequences/williamson.rs verify_*, is_*"), ("perfectness", S+"sequences/sequence.rs is_perfect, is_odd_perfect")],
  ["return values", "result.seq"], "in-process probe behind the feature `verif`")
p("C09", "Pair files keep every admissible half and key them alike",
  "For any genuine sequence of a type and length, the two halves into which any of the three pairings splits it always survive the spectral filter and, under either matching method, are written to the two pair files under identical keys, so that the join recovers the sequence; every line of a pair file refers to sequences of its own sequence files. Each key is the correctly rounded value of the exact spectral or correlation quantities of its pair, and the two files of a pairing carry their sums on opposite sides of the defining equation.",
  ["inputs", "configurations"], "all genuine sequences of lengths 1..31, all pairings and both matching methods",
  "Tests compute correlations for a few random pairs at one length; a rounding or sign error that drops one admissible pair is not sampled.",
  [S+"find/find_write.rs", S+"sequences/fourier.rs", S+"sequences/matching.rs"],
  [("spectral filter", S+"sequences/fourier.rs"), ("key computation", S+"sequences/matching.rs"), ("pair writer", S+"find/find_write.rs write_seq_pairs"), ("merge join", S+"find/find_write.rs join_pairs_files")],
  ["rowsum_*/pair_*.pair", "rowsum_*/seq_*.seq"], "in-process probe behind the feature `verif`")
p("C10", "Rowsum decompositions and candidate generation are exact",
  "For every length up to 31 and every type the rowsum quadruples produced are, each once, exactly the quadruples of non-negative sorted integers of the parity of n with squares summing to 4n, plus, for QT, the variant with the last entry negated when all entries are non-zero and distinct, so that every genuine sequence has an equivalent one with one of these rowsums. For every rowsum the generated candidates are exactly all +-1 sequences (symmetric ones for Williamson) of that sum, each once; filtering a list by sorted sums keeps, in order, exactly the sequences whose sums have that form.",
  ["inputs"], "all lengths up to 31, all types, all rowsums",
  "Tests check a few lengths and rowsums.",
  [S+"sequences/rowsum.rs", S+"find/find_write.rs"],
  [("decompositions", S+"sequences/rowsum.rs generate_rowsums, sum_of_four_squares"), ("candidates", S+"sequences/rowsum.rs generate_sequences_with_rowsum")],
  ["rowsums.quad", "rowsum_*/seq_*.seq", "return values"], "in-process probe behind the feature `verif`")
p("C11", "The Hadamard list is exactly one matrix per Hadamard class",
  "Converting a search result to Hadamard matrices writes only +-1 matrices of order 4n with orthogonal rows and the quaternion-type structure with circulant blocks built from a QT sequence, no two of them Hadamard equivalent, and every matrix of every sequence in the converted list is Hadamard equivalent to a written one. Building a matrix from a sequence, reading the sequence back, and normalising a matrix give the defined results, and the graph-based equivalence test answers true exactly for Hadamard-equivalent matrices.",
  ["inputs", "configurations"], "all search results of the three types, lengths up to 31",
  "Tests build a few matrices and compare two isomorphic ones; no test runs the conversion of a result list.",
  [S+"sequences/matrix_equivalence.rs", S+"sequences/matrices.rs", S+"main.rs", "rust/convert_hm.sh"],
  [("matrix construction", S+"sequences/matrices.rs HM"), ("reduction by canonical graph labelling", S+"sequences/matrix_equivalence.rs")],
  ["results/pairs/<type>/find_<n>/result.mat"], "in-process probe behind the feature `verif`")
p("C12", "Quaternionic Hadamard output is correct and complete",
  "Converting a search result to quaternionic Hadamard matrices writes, for each sequence of the list and in order, exactly the matrix obtained from its circulant matrix by normalising the first row and then the first column to 1, whose rows are orthogonal over the quaternions. The command that writes the matrices of the whole equivalence classes writes one such matrix for each member of each class exactly once, and the number of matrices with non-commuting entries that is reported is exact.",
  ["inputs"], "all search results of the three types, lengths up to 31",
  "Tests build and verify two or three matrices; none runs the conversion.",
  [S+"sequences/matrices.rs", S+"main.rs", "rust/convert_qhm.sh"],
  [("circulant matrix and dephasing", S+"sequences/matrices.rs QHM"), ("conversion", S+"main.rs convert_qs_to_matrices, qhm_write_all")],
  ["result.qhm", "qhm_all.mat", "stdout of the conversion"], "in-process probe behind the feature `verif`")
p("C13", "Storage faults never pass as success",
  "If at any point of any command a file cannot be created or cannot be written completely (no space, size limit reached part-way, unwritable directory), the command exits with a failure status; it never exits successfully leaving an output file truncated or missing. Likewise an input sequence file that is missing, unreadable or contains foreign characters, or an input pair file that is missing, unreadable or has lost the indices of a line, makes the conversion and join commands fail rather than write a result that silently lacks sequences.",
  ["fault_sequences", "inputs"], "every command, every output file, every fault point (file-size limit at any byte, unwritable or missing directory), missing, undecodable and corrupted input files",
  "Tests write no files at all.",
  [S+"main.rs", S+"find/find_write.rs", S+"sequences/matrix_equivalence.rs"],
  [("write_all and expect on every write", S+"main.rs, find/find_write.rs, sequences/matrix_equivalence.rs")],
  ["exit status", "output files"])
p("C14", "A failing stage stops the scripts with an error status",
  "When any stage started by the driver or by one of the stage scripts fails (compilation, pair generation, sorting, join, either conversion), the script exits with a non-zero status, the driver does not run the later stages, and no partially sorted file replaces its input. When every stage succeeds the script exits with status 0; unknown flags and missing arguments are rejected by the driver and the pair generation script, and help requests change nothing.",
  ["fault_sequences", "configurations"], "every stage failing in every script, all flag combinations",
  "No test runs a script.",
  ["rust/driver.sh", "rust/pairs.sh", "rust/sortpairs.sh", "rust/join_pairs.sh", "rust/convert_hm.sh", "rust/convert_qhm.sh"],
  [("exit status checks", "rust/*.sh")], ["exit status", "sequence of stages run", "files left"])
p("C15", "Existing results are protected and clean-up is confined",
  "The driver and the pair generation script refuse to run, changing nothing, when pair directories for that type and length exist, unless overwriting is requested; then the outcome is the same as from an empty directory. The clean-up script removes exactly the rowsum directories of the given type and inclusive length range, and nothing else: result files, other lengths and other types keep their content.",
  ["configurations", "histories"], "all histories of driver, pair generation and clean-up invocations with any flags over several types and lengths",
  "No test runs a script.",
  ["rust/driver.sh", "rust/pairs.sh", "rust/pair_file_cleanup.sh"],
  [("guard loop over rowsum directories", "rust/driver.sh, rust/pairs.sh"), ("clean-up", "rust/pair_file_cleanup.sh")], ["file tree before and after"])
p("C16", "An interrupted search can be redone without a trace",
  "If a search is killed at any point, running it again with overwriting requested produces exactly the result files of an uninterrupted run, whatever partial files the interrupted run left. The result lists of an earlier completed run stay intact until the interrupted run reaches the writing of its own, the interrupted search does not report success, and an interrupted sorting, join or conversion stage is completed by running that stage again.",
  ["crash_points", "histories"], "every kill point of every stage, every partial file left behind",
  "No test runs or interrupts the pipeline.",
  ["rust/driver.sh", "rust/pair_file_cleanup.sh", "rust/sortpairs.sh", S+"find/find_write.rs", S+"main.rs"],
  [("-d flag and clean-up", "rust/driver.sh, rust/pair_file_cleanup.sh"), ("files rewritten from scratch", S+"find/find_write.rs")], ["result files after rerun", "exit status"])
p("C17", "Execution is free of memory errors, overflow and data races",
  "No command and no library routine, for lengths up to 31, reads or writes outside its buffers, uses freed or uninitialised memory, races on shared data, overflows an integer or violates one of the program's own debug assertions, including in the native FFT library calls and when transforms or reductions are executed concurrently.",
  ["inputs", "schedules"], "all commands and routines, lengths 1..31, any thread interleaving",
  "Tests run without sanitizers and single-threaded per process; the release binary has overflow and assertion checks off.",
  [S+"sequences/fourier.rs", S+"sequences/matrix_equivalence.rs", S+"sequences/equivalence.rs", S+"sequences/matrices.rs", S+"find/find_optim.rs"],
  [("mutex around the shared FFT plans and aligned buffers", S+"sequences/fourier.rs"), ("rayon parallel iterators", S+"sequences/matrix_equivalence.rs, find/find_optim.rs")],
  ["sanitizer reports", "panics of the checked build"], "in-process probe behind the feature `verif`")
p("C18", "Parallel work gives the same result under every schedule",
  "Whatever the number of worker threads and their interleaving, the parallel Hadamard reduction writes the same number of matrices from the same set of Hadamard classes, the parallel exhaustive search finds the same sequences as the sequential one, and concurrently executed discrete Fourier transforms each return the transform of their own input.",
  ["schedules", "inputs"], "all thread counts and interleavings",
  "Tests run each parallel routine at most once with the default thread count.",
  [S+"sequences/matrix_equivalence.rs", S+"find/find_optim.rs", S+"sequences/fourier.rs"],
  [("collect into a map of canonical labels", S+"sequences/matrix_equivalence.rs hadamard_equivalence_from_file"), ("parallel recursion", S+"find/find_optim.rs"), ("plan mutex", S+"sequences/fourier.rs")],
  ["result.mat", "stdout of the searches", "return values"], "in-process probe behind the feature `verif`")
p("C19", "Products of perfect sequences are perfect",
  "The product of two perfect quaternion sequences of coprime lengths is the sequence of the product length whose entry at each position is the product of the factors' entries at that position modulo their lengths, and it is itself perfect; the product of collections of measurement matrices is formed entry by entry in the same way with tensor products and multiplies the matrix orders.",
  ["inputs"], "all pairs of sequences and collections of coprime lengths",
  "Tests form two or three products.",
  [S+"sequences/product.rs", S+"sequences/mum.rs"], [("products", S+"sequences/product.rs")], ["return values"], "in-process probe behind the feature `verif`")
p("C20", "Operators, MUMs and HMUOs represent the quaternion matrices",
  "The map from quaternions to 2x2 complex matrices preserves products, sums and conjugates exactly; tensor products, sums, scalings and conjugate transposes of operators are entrywise correct; and for the circulant quaternionic Hadamard matrix of every perfect sequence of length n the derived measurement operators are Hermitian and square to n times themselves, the derived unitary operator is unitary up to the factor n, and the reported orders and lengths are those of the matrices held.",
  ["inputs"], "all quaternions of the alphabet, all quaternionic Hadamard matrices obtained from perfect sequences",
  "Tests print operators or check one product.",
  [S+"sequences/mum.rs"], [("operator algebra", S+"sequences/mum.rs")], ["return values"], "in-process probe behind the feature `verif`")
p("C21", "The brute-force finders report exactly the perfect sequences",
  "For every length small enough to run, the naive and the parallel brute-force searches count and print exactly the perfect sequences over their alphabet (16 or 24 quaternions) whose first entry is fixed, restricted to those with the requested symmetry where a symmetry is given, each once; the Williamson brute-force search does the same for the predicate it is given; and the brute-force reduction returns exactly one sequence per QT equivalence class.",
  ["inputs", "configurations"], "all lengths up to what brute force can run, symmetries none, I, II and III, both alphabets",
  "Tests call the finders only for one or two lengths or not at all.",
  [S+"find/find_naive.rs", S+"find/find_optim.rs", S+"find/find_williamson.rs", S+"find/find_unique.rs", S+"sequences/sequence.rs"],
  [("recursive searches", S+"find/*.rs"), ("symmetry-preserving assignment", S+"sequences/sequence.rs set_value")], ["stdout", "return values"], "in-process probe behind the feature `verif`")
p("C22", "Reported counts and the summary table match the files",
  "After a completed computation, the numbers of pairs, of sequences up to each equivalence and of Hadamard matrices that the summary tool prints (as text or LaTeX) are exactly the numbers of lines and matrices in the files of that computation, for each requested length; quantities that were not computed are printed as -1, lengths without results do not corrupt the rows of the others, the disk space and times printed are those of the files in the rowsum folders and of the logged stages, the logged durations of sorting, conversions and the whole search are those that elapsed, and the pair counting script prints the number of pairs on disk.",
  ["inputs", "histories", "configurations"], "all sets of completed, partially completed and cleaned-up computations of any type and length range",
  "There is no test of the summary tool or of the counting script.",
  ["rust/collect_results.py", "rust/countpairs.sh", S+"find/find_write.rs", S+"sequences/matrix_equivalence.rs", S+"main.rs"],
  [("log patterns", "rust/collect_results.py"), ("counters printed", S+"find/find_write.rs")], ["stdout of collect_results.py and countpairs.sh"])
p("C23", "A Williamson-type search also lists all QT sequences",
  "The auxiliary list of a Williamson-type search is exactly the complete list of QT sequences of that length up to QT equivalence: every QT class is represented, none twice, and it coincides with the list that a QT search of the same length writes.",
  ["inputs", "configurations"], "all lengths, matching methods and pairings",
  "No test derives the QT list from a Williamson-type result; the expansion depends on parity and on every class.",
  [S+"main.rs", S+"find/find_unique.rs", S+"sequences/equivalence.rs"],
  [("expansion by negation and half-shift, then QT reduction", S+"main.rs find_write_quad_seq")], ["result-qts.seq", "result-qts.qseq", "result.seq of the qts search"])
p("C24", "Correlations, transforms, filters and the matching table agree with their definitions",
  "For every pair of +-1 sequences of equal length and every pair of distinct component tags: the periodic autocorrelations and their sums, the cross-correlation differences (with one sign convention of the tags, the same in every routine) and the negated (complementary) forms, computed directly or through the discrete Fourier transform, are the exact integers; the transform and its inverse match the definition; power and cross spectra of a pair are the transforms of those integers, and the right-hand side form is the complement to four times the length. Every filtering iterator yields, once each, in order and with the right indices and spectra, exactly the sequences or couples within its bound, including those that attain it exactly. The matching table holds every admitted couple exactly once under its own match data, so that looking up the complementary data of the other two components finds every QT sequence among the candidates for any order of the components, and the tagged cross-correlation test accepts every amicable quadruple and refuses one that breaks a condition not implied by the match.",
  ["inputs"], "all pairs of +-1 sequences of lengths 1..31, all tag pairs, all bounds",
  "Tests evaluate each routine on one or two fixed pairs of one length; a couple lost by rounding at the bound, by its place in the table or by one tag order is never sampled.",
  [S+"sequences/matching.rs", S+"sequences/fourier.rs"],
  [("correlations and spectra", S+"sequences/matching.rs compute_*"), ("transforms and filters", S+"sequences/fourier.rs"), ("matching table", S+"sequences/matching.rs generate_matching_table, MatchData, verify_cross_correlation")],
  ["return values of the routines"], "in-process probe behind the feature `verif`")
p("C25", "Generated equation systems have exactly the right completions",
  "For every two given components of a QT sequence, in any of the six positions, and any required sums, the generated system is a list of well-formed equations over one 0/1 variable per entry of the two other components, named in its comment, and an assignment satisfies every equation exactly if the quadruple it completes is complementary, satisfies the QT cross-correlation conditions and has the required sums; every equation carries its constant correctly and refers only to existing variables. The equation search for a length writes one file per admissible couple of candidates of every sum decomposition, naming its components and sums.",
  ["inputs"], "all pairs of +-1 sequences and positions, all sums, lengths 2..31",
  "The tests print a few equations and check one solved instance of length 5 for one routine; no test solves a system.",
  [S+"sequences/equations.rs", S+"find/find_with_rowsum.rs"],
  [("linear, quadratic and sum equations", S+"sequences/equations.rs"), ("equation search", S+"find/find_with_rowsum.rs find")],
  ["return value of generate_equations", "results/equations/qts/find_<n>/rowsum_*/num_*.opb"], "in-process probe behind the feature `verif`")
p("C26", "Computations that run at the same time do not interfere",
  "Searches, sorts, joins, conversions, clean-ups, counts and summaries for different types or lengths that run at the same time in one results tree, with or without the folder of a cluster job, and simultaneous conversions of one result, each end with the same status, files, log and printed counts as when they run alone, and change nothing else in the tree.",
  ["schedules", "configurations"], "all sets of computations for different types and lengths, all interleavings of their steps",
  "Tests run no script; interference through shared scratch files, directories or logs shows only when steps of several computations interleave.",
  ["rust/driver.sh", "rust/sortpairs.sh", S+"find/find_write.rs", S+"sequences/matrix_equivalence.rs", S+"main.rs"],
  [("separate directories per type and length", S+"find/find_write.rs, main.rs"), ("shared scratch folder of the sort stage", "rust/sortpairs.sh")],
  ["results/pairs/**", "exit status", "result.log"])
p("C27", "Options and arguments take effect as documented",
  "The options of the scripts take effect as documented in every combination, order and grouping: the pair files are those of the last requested pairing (WZ if none is), keyed by correlations exactly if -c is given; the Hadamard list is written exactly if -h is given; the sorting is done in the folder of the cluster job exactly if -s is given, which is left empty; the program is rebuilt first exactly if -s is not given; -d discards earlier pair files of that type and length; a command for one part of a distributed search writes that part only. Calls without arguments or with help print a usage message, change nothing and succeed; unknown options, missing arguments, wrong numbers of arguments, unknown commands, and unreadable types, lengths, sums, matching methods and parts give an error status and write no file.",
  ["inputs", "configurations"], "all combinations and orders of options and arguments, all types and lengths",
  "No test calls a script or the command line.",
  ["rust/driver.sh", "rust/pairs.sh", "rust/sortpairs.sh", "rust/pair_file_cleanup.sh", S+"main.rs", S+"find/find_write.rs"],
  [("getopts loops", "rust/driver.sh, pairs.sh, sortpairs.sh"), ("argument parsing", S+"main.rs main, str_to_*")],
  ["pair files and their keys", "result files", "exit status", "folder each sort call uses"])
if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
        for d in P: f.write(json.dumps(d) + "\n")
