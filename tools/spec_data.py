PBT = "property-based testing (Hypothesis): "

prop("T01", "Chain coefficients are those of the discretized bath, to all digits written",
     "For every hybridisation density and discretization setting, the Wilson-chain coefficients written by the discretization stage are the exact Lanczos tridiagonalisation of the star it reports (two branches, energies and weights), normalised and rescaled as configured, and the weights sum to the integral of the density. Star tables saved in one run and loaded in another give the same chain. A request the data cannot support (more sites than star levels, tables too short, missing or malformed input) ends with an error and not with coefficients.",
     ["inputs", "configurations"], "all densities, Lambda, z, chain lengths, meshes, precisions, rescaling options; one-step and save/load operation",
     "The tests run a handful of fixed densities with one Lambda and compare with stored output; loss of orthogonality, mistakes in one branch and out-of-range table reads depend on asymmetry, length and settings.",
     ["tools/nrgchain/nrgchain.cc", "tools/nrgchain/nrgchain.hpp", "tools/nrgchain/calc.h", "tools/nrgchain/load.h"],
     [("star construction and Lanczos recursion", "tools/nrgchain/nrgchain.hpp"), ("rescaling of chain coefficients", "tools/nrgchain/nrgchain.hpp")],
     "chain", "Differential test against an independent 3000-bit Lanczos; trusts the densities' closed-form integrals in the generator.",
     PBT + "differential against a multiprecision Lanczos reference")

prop("T02", "Adaptive discretization solves its defining equations for any density",
     "For every hybridisation density the discretization functions produced by the adaptive solver satisfy their defining relation: the logarithmic-interval weight at parameter x, integrated over the density, equals the weight carried by the representative energy, so that averaging over the twist parameter reproduces the density exactly. This holds for both branches, with hard gaps, rescaled bands and loaded or adaptive meshes. Impossible input (missing, empty or non-positive density, unusable parameters) is rejected with an error.",
     ["inputs", "configurations"], "all densities bounded away from zero on their support, Lambda, meshes, gaps, band rescaling",
     "Tests compare a few stored solutions; the ODE solution must be right for any density, and mistakes show only where the density varies.",
     ["tools/adapt/adapt.cc", "tools/adapt/adapt.hpp"],
     [("ODE for the representative energies", "tools/adapt/adapt.hpp"), ("mesh and weights", "tools/adapt/adapt.hpp")],
     "adapt", "Checks the integral equations of the solution on generated densities; tolerance follows the solver's step control.",
     PBT + "exact integral invariants of the solution")

prop("T03", "The Hilbert transform is exact for every density and complex argument",
     "For every density of states (semicircle of any bandwidth or tabulated, in any row order) and every complex argument off the real axis, on both sides of it, inside, outside and at the edge of the band, the reported Green's function or spectral value equals the integral of the density over the propagator, to quadrature accuracy. All ways of passing arguments (single value, table, self-energy files), shifts and output switches are consistent with this. Missing densities, mismatched grids and unreadable input are rejected with an error.",
     ["inputs"], "all densities, all z with Im z != 0, all calling modes",
     "Tests evaluate a few points; branch choices in the singular-integral code depend on the position of z relative to the band and the real axis.",
     ["tools/hilb/hilb.cc", "tools/hilb/hilb.hpp"],
     [("subtraction of the singularity, change of variables", "tools/hilb/hilb.hpp hilbert_transform")],
     "hilb", "Differential against closed forms and segment-wise analytic integration of the spline; one known finding (exact band edge, |Im z|<1e-3).",
     PBT + "differential against closed-form transforms")

prop("T04", "Kramers-Kronig partner equals the principal-value integral of the table",
     "For every tabulated function on a symmetric grid, the transform written at each grid point is the principal-value integral of the interpolated function over the grid, whatever the spacing, row order, comments or interface (files or pipes). Invalid input is rejected with an error.",
     ["inputs"], "all symmetric tables of at least the minimal length, any order of rows, comments anywhere",
     "Tests use two or three regular tables; the segment containing the pole and the end segments are special for every grid.",
     ["tools/kk/kk.cc", "tools/kk/kk.hpp"],
     [("principal value quadrature", "tools/kk/kk.hpp")],
     "kk", "Differential against segment-wise closed-form principal values of the same interpolant.",
     PBT + "differential against closed-form principal values")

prop("T05", "Broadening yields the defined kernel sum and conserves spectral weight",
     "For every set of raw spectra and every choice of kernel, widths, mesh, frequency filters and final convolution, the broadened spectrum at each mesh point equals the z-averaged sum of the documented kernels weighted with the raw delta peaks, and the cumulative and total weights reported agree with it. Kernels conserve weight: the integral of the broadened spectrum equals the total raw weight. Unreadable or inconsistent raw files are rejected with an error.",
     ["inputs", "configurations"], "all raw binary spectra (sign, scale, repetitions of frequencies), all options",
     "Tests use single files with fixed options; combinations of kernel, filter, z-averaging and convolution are not sampled.",
     ["tools/broaden/broaden.cc", "tools/broaden/broaden.hpp"],
     [("kernels and kernel sums", "tools/broaden/broaden.hpp"), ("mesh generation", "tools/broaden/broaden.hpp")],
     "broaden", "Differential against an independent implementation of the documented kernels.",
     PBT + "differential kernel-sum reference; weight conservation")

prop("T06", "Reductions of raw spectra (binning, Matsubara sums, moments) are exact",
     "Averaging raw spectra over twist parameters merges equal frequencies and keeps every other peak, with the weights summed and divided by the number of sets. The Matsubara sums and the spectral moments computed from raw spectra equal the sums over all peaks of all sets that define them, for any sign, order, repetition and scale of frequencies and for any weight column. Truncated or missing spectra and impossible counts are rejected with an error.",
     ["inputs", "configurations"], "all sets of raw binary spectra, columns, temperatures, mesh lengths, number of moments",
     "Tests use one or two tiny spectra with fixed options.",
     ["tools/binavg/binavg.cc", "tools/mats/mats.cc", "tools/specmoments/specmoments.cc"],
     [("merge of sorted spectra", "tools/binavg/binavg.cc"), ("Matsubara kernel", "tools/mats/mats.cc"), ("moment sums", "tools/specmoments/specmoments.cc")],
     "rawspec", "Differential against compensated sums over the generated peaks.",
     PBT + "differential against direct sums")

prop("T08", "Averages over twist parameters are pointwise means on the union mesh",
     "Averaged spectra and averaged thermodynamic tables contain every mesh point of the data sets exactly once, and at each the mean over the sets of the interpolated values, for any number of sets, grids that differ in length and range, row orders and comments; reference tables are subtracted where requested. Inconsistent or missing sets are rejected with an error.",
     ["inputs"], "all sets of tables, overlapping or not, with coincident and nearly coincident points",
     "Tests average two or three tables on the same grid.",
     ["tools/intavg/intavg.cc", "tools/tdavg/tdavg.cc"],
     [("union mesh and interpolation", "tools/intavg/intavg.cc"), ("thermodynamic averaging", "tools/tdavg/tdavg.cc")],
     "avg", "Differential against a reference union-mesh average.",
     PBT + "differential against a reference average")

prop("T09", "Integrals and resampled values are those of the interpolated table",
     "For every table, in any row order and with comments anywhere, the reported integrals (total, halves, with weight functions and their error-free combinations) are the integrals of the interpolating function of the table, and resampling returns the interpolated value at every requested point, in the requested order, with the documented behaviour outside the range. Unusable input is rejected with an error.",
     ["inputs", "configurations"], "all tables and target grids",
     "Tests use regular tables.",
     ["tools/integ/integ.cc", "tools/resample/resample.cc", "tools/resample/resample.hpp"],
     [("quadrature of the interpolation", "tools/integ/integ.cc"), ("resampling", "tools/resample/resample.hpp")],
     "interp", "Differential against scipy's Akima interpolation and segment-wise integration.",
     PBT + "differential against reference interpolation")

prop("T11", "Every expression in a matrix file evaluates to its mathematical value",
     "Every well-formed program of parameter definitions, vectors and matrices evaluates to the values that the usual precedence and associativity rules, the built-in functions and the loaded Wilson-chain coefficients define, independent of layout, comments, parentheses and the splitting into files, and includes. Malformed programs, undefined names, coefficients outside the loaded tables and divisions by zero end with a non-zero exit status and not with numbers.",
     ["programs"], "all programs of the matrix language up to a bounded size, all coefficient tables",
     "Tests evaluate a dozen fixed files; precedence, associativity and lexing rules combine freely.",
     ["tools/matrix/parser.yy", "tools/matrix/matrix.ll", "tools/matrix/parser.cc", "tools/matrix/matrix.cc"],
     [("grammar and semantic actions", "tools/matrix/parser.yy"), ("scanner", "tools/matrix/matrix.ll"), ("coefficient tables", "tools/matrix/parser.yy")],
     "matrix", "Grammar-based program generation with an independent evaluator.",
     PBT + "grammar-based generation against a reference evaluator")

prop("T10", "Adaptive broadening follows its self-consistent width rule and keeps the weight",
     "For every set of binary delta-peak spectra (one per z), the spectrum written by bw after every iteration is the sum of log-Gaussian kernels centred on the averaged peaks with the peak widths of that iteration; each next set of widths follows from the logarithmic derivatives of the integrated spectrum, bounded below by the configured minimum; positivity and dynamic mesh refinement do what the options say; frequencies with |omega| below the trim value are left out and all others written. When the mesh covers the peaks the broadened spectrum has their total weight.",
     ["inputs", "configurations"], "all peak sets (both signs, shared frequencies, negative weights), all meshes, widths, iteration counts and flags",
     "The one test runs a stored spectrum with one set of options; the iteration mixes integration, interpolation and differentiation on meshes whose edge cases depend on the data.",
     ["tools/bw/bw.cc"],
     [("broadening and width iteration", "tools/bw/bw.cc"), ("dynamic mesh", "tools/bw/bw.cc")],
     "bw", "Differential test against an independent implementation of the width rule; cases where the dynamic mesh is decided by rounding are discarded (counted as invalid).",
     PBT + "differential against a reference implementation, weight conservation")

prop("T12", "Matrix tools: eigenpairs, products and stored matrices are what they claim",
     "For every real symmetric matrix, diag writes eigenvalues in ascending order (times the scale) and orthonormal eigenvectors (as rows) that satisfy A v = lambda v to rounding, the same in text and binary form; conjugating with the written vectors by unitary gives the diagonal matrix back; unitary writes s A M C for every combination of transposition, scale and binary flags, and zeroes exactly the elements below the threshold, and h5write stores every matrix and scalar at the requested path with its exact values and shape, keeping what the file contained. Matrices whose shapes do not fit, truncated, non-numeric or missing files give a non-zero exit status and no crash.",
     ["inputs", "configurations"], "all matrices up to 14x14, all flag combinations, all path nestings",
     "Tests use a few fixed small matrices with default flags.",
     ["tools/diag/diag.cc", "tools/unitary/unitary.hpp", "tools/h5write/h5write.cc", "tools/h5write/h5write.hpp", "c++/diag.hpp"],
     [("eigenvalue problem and output", "tools/diag/diag.cc"), ("products and thresholds", "tools/unitary/unitary.hpp"), ("HDF5 storage", "tools/h5write/h5write.cc")],
     "linalg", "Laws of linear algebra; h5write is compiled against the HighFive shim, read back with h5dump.",
     PBT + "algebraic laws, round trip between diag and unitary, HDF5 read-back")

prop("T13", "Instantiated data files describe exactly the model of the template",
     "For every template (sector Hamiltonians, irreducible matrix elements and operators given as expressions in the parameters, inline or in files) and every discretization, instantiate writes a data file whose energies are the ascending eigenvalues of the evaluated Hamiltonians relative to the common ground state and divided by the scale, whose ground-state energy is the absolute one, whose matrix elements of every block are transformed to those eigenvectors, and whose coefficient tables are the nrgchain tool's. The Wilson-chain-only and seed-only modes give the same parts. A template or request that cannot be instantiated gives an error status, executes nothing and leaves an existing data file untouched.",
     ["inputs", "configurations", "fault_sequences"], "all templates of ten symmetry types with one channel, all expressions, both discretizations, 22 kinds of defect",
     "Tests cover a few fixed templates and the evaluator alone; basis transformations, sector ordering and failure atomicity depend on the structure of the template.",
     ["tools/instantiate/instantiate.cc", "tools/instantiate/matrix_evaluator.hpp", "c++/diag.hpp"],
     [("template evaluation", "tools/instantiate/matrix_evaluator.hpp"), ("diagonalisation, transformation, atomic write", "tools/instantiate/instantiate.cc")],
     "instantiate", "Independent diagonalisation of the generated sectors; matrix elements are compared in the tool's own eigenvectors (vec.*), whose correctness is checked separately, so degenerate levels are covered.",
     PBT + "differential against an independent model builder; generated malformed templates")

prop("C01", "NRG flow equals exact diagonalisation of the truncated chain, every symmetry",
     "For every symmetry type, number of channels, impurity cluster and set of Wilson-chain coefficients (normal, spin-polarised, 2x2, channel-mixing, pairing), real or complex, the iterative diagonalisation reproduces state by state what diagonalising the same Hamiltonian without any symmetry reduction gives: all energies with the right multiplicities and quantum numbers in annotated.dat, the thermodynamic quantities in every row of td, and the numbers of kept and computed states in subspaces.dat. The states kept after each iteration are exactly those selected by keep, keepenergy, keepmin, keepall, safeguard and safeguardmax; degenerate multiplets are never split. A partial diagonalisation (diagratio) computes the lowest states of each subspace and, with restart, computes more until the states to be kept are complete; fixeps makes levels closer than it to the lowest of their cluster equal. Chains may be given by their coefficients or by their star, and may start from a longer initial chain (Ninit).",
     ["inputs", "configurations", "histories"], "all symmetry types (28), 1-3 channels, all clusters and coefficient tables compatible with the symmetry, all truncation rules, all iterations",
     "The tests run stored model inputs for a few symmetry types and compare the output with stored files; errors in one of the thousands of generated recalculation coefficients or in a truncation rule only appear for clusters and coefficients that exercise them.",
     ["c++/core.hpp", "c++/step.hpp", "c++/eigen.hpp", "c++/recalc.hpp", "c++/coef.hpp", "c++/subspaces.hpp", "c++/measurements.hpp", "c++/read-input.hpp", "c++/symmetry.hpp"],
     [("Hamiltonian construction from f matrices and coefficients", "c++/symmetry/sym-*-impl.hpp make_matrix, coefnew/"), ("recalculation of irreducible matrix elements", "c++/recalc.hpp"),
      ("truncation", "c++/eigen.hpp, c++/core.hpp"), ("thermodynamics", "c++/measurements.hpp calculate_TD")],
     "flow", "Differential against a state-by-state reference NRG in the occupation basis; sampled sizes are limited (blocks up to 200 states).",
     PBT + "differential against an unreduced reference NRG")

prop("C02", "Spectral functions, correlators and expectation values equal the Lehmann sums",
     "For every symmetry type and every operator kind (singlet, odd-parity singlet, global charge or spin, doublet, triplet, orbital triplet, quadruplet), Hermitian or not, with real or complex matrix elements: the delta-peak spectra (.bin files), Matsubara correlators and temperature-dependent quantities computed by each algorithm (FT, DMNRG, FDM, CFS with their greater, lesser and Matsubara variants, GT, I1T, I2T, chi(T)), the FDM thermodynamics (tdfdm), and the expectation values in custom and customfdm equal the Lehmann sums evaluated with the same truncated chain and the operator's matrix in the full product space, including N/N+1 and N/N+2 patching and the complete-basis density matrices.",
     ["inputs", "configurations", "histories"], "all symmetry types and operator kinds, all spectral algorithms, all temperatures, all truncations",
     "The stored reference tests sample single models with a few symmetry types; wrong recursion coefficients, degeneracy factors, statistics signs or density-matrix recursions only show up for particular symmetries, operator kinds, complex data or truncations.",
     ["c++/recalc.hpp", "c++/spectrum.hpp", "c++/dmnrg.hpp", "c++/algo_FT.hpp", "c++/algo_DMNRG.hpp", "c++/algo_FDM.hpp", "c++/algo_CFS.hpp", "c++/oprecalc.hpp", "c++/symmetry"],
     [("operator recursion", "c++/recalc.hpp recalc_general, coefnew/ tables"), ("reduced density matrices", "c++/dmnrg.hpp"), ("Lehmann sums", "c++/algo_*.hpp"), ("patching", "c++/spectrum.hpp windowfunction")],
     "spectra", "Differential against Lehmann sums in the occupation basis; sampled sizes are limited. CFS spectra carry a recorded finding.",
     PBT + "differential against Lehmann sums over an unreduced reference NRG")

prop("C03", "Execution options change how a problem is solved, never its solution",
     "For every problem and every combination of MPI processes, parallelisation mode, eigensolver routine (complete, or partial with restarts), interleaved diagonalisation (one channel at a time), unscaled energies, energies of the data file in units of the band, other bandwidth units, and logging, dump, HDF5, memory and file-removal options, the energies, quantum numbers, thermodynamics, spectra, Matsubara correlators and expectation values are those of the problem: the exact solution of the truncated chain. The operator norms that are printed are those of the operators.",
     ["schedules", "configurations", "inputs"], "all problems of C01 and C02 (interleaved chains: QS, QSZ, SPSU2, SPU1), 1-4 MPI processes, all options listed",
     "Each option is exercised by at most one stored test, on its own, on one model; interactions of two options, or of an option with a symmetry type or an algorithm, are not.",
     ["c++/step.hpp", "c++/core.hpp", "c++/diag_mpi.hpp", "c++/diag.hpp", "c++/params.hpp", "c++/spectrum.hpp", "c++/truncation.hpp", "c++/output.hpp"],
     [("energy scales, substeps", "c++/step.hpp"), ("eigensolver dispatch", "c++/diag.hpp"), ("distribution of blocks over MPI processes", "c++/diag_mpi.hpp"), ("options", "c++/params.hpp")],
     "execopt", "Differential against the same reference as C01 and C02. Interleaved diagonalisation is used with singlet and doublet operators only (others are documented as not implemented).",
     PBT + "differential against an unreduced reference NRG under random execution options")

prop("C04", "Every file and report of a run holds the solution in the units asked for",
     "energies.nrg, states.nrg, annotated.dat, absolute_energies.dat, report.nrg and raw.h5 (energies, Hamiltonians, eigenvectors, operators, statistics, parameters) hold the spectrum, eigenvectors and operator matrices of each iteration in the documented units and with the documented selection of iterations and states. Binned spectra are trimmed only below the threshold, on the standard or the accumulation-point mesh. Broadened spectra are the sum over the bins of the documented kernel on the documented mesh, and the printed weights, moments and Fermi and Bose integrals are those of the bins.",
     ["configurations", "inputs"], "all problems of C01 and C02 with at most 3000 states per iteration in the dumps",
     "The stored tests compare a few of these files for one model and one set of units; other combinations, complex problems and the HDF5 contents are never read back.",
     ["c++/output.hpp", "c++/eigen.hpp", "c++/bins.hpp", "c++/spectrum.hpp", "c++/spectral.hpp", "c++/h5.hpp", "c++/stats.hpp", "c++/core.hpp"],
     [("text dumps and reports", "c++/output.hpp"), ("bins, trimming, meshes", "c++/bins.hpp"), ("broadening", "c++/spectrum.hpp"), ("HDF5", "c++/h5.hpp")],
     "outputs", "raw.h5 is read through h5dump. Peaks at zero energy up to rounding may belong to either side. Complete-Fock-space spectra are compared from their binned file on (see C02-CFS).",
     PBT + "differential against an unreduced reference NRG and direct evaluation of the broadening kernel")

prop("S01", "Helper scripts do to every table and directory what they say",
     "The scripts that transform, select, scale, integrate, compare, average, merge, mirror, rescale and reformat tabulated results (columns, rows, blocks, branches, comments preserved where stated), and those that read, change, loop over or collect parameter files and result directories (looper, getparam, setparam, gather, averaging over z), give for every well-formed input exactly the result of the documented operation, from files and from standard input alike, and change no other file.",
     ["inputs"], "about 90 scripts, all tables with arbitrary comments, blank space, number formats and sizes; all parameter files and directory trees",
     "No test runs any of the scripts.",
     ["scripts"],
     [("tables", "scripts/*"), ("parameters and directories", "scripts/looper, scripts/getparam, scripts/setparam")],
     "scripts", "Scripts run as an unprivileged user in a scratch directory. Not covered: odesolv*, report2, calc_mats_*, every, periodic, nin, compress_leafs, delete_NRG_output.",
     PBT + "direct evaluation of the documented operation")

prop("M01", "No tool touches memory that is not its own, whatever the input",
     "For every input - valid, damaged (lines cut, tokens replaced, columns missing, files truncated or empty) or with the parameters out of range - every command-line tool either produces its result or reports an error and exits; it never reads or writes outside its arrays, never uses freed memory, never executes an operation with undefined behaviour that the sanitizers can see, and is never killed by a signal (abort after an uncaught exception excepted).",
     ["inputs"], "all input tables and parameters of the command-line tools, well-formed or not",
     "Unit tests are not run under sanitizers and give the tools only well-formed inputs; an index one past the end usually yields a plausible number.",
     ["tools"],
     [("vectors read from tables", "tools/common, c++/io.hpp"), ("interpolation and integration of tables", "tools/nrgchain, tools/adapt, tools/hilb")],
     "memory", "Sanitizer runs of all tools built from the current tree (ASAN, UBSAN, libstdc++ assertions), on the generated inputs of the other tool checks and on damaged copies of them. Runs that exceed the time or memory limit are not judged.",
     PBT + "address and undefined-behaviour sanitizers as the oracle")
