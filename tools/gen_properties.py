#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
I="inputs"; C="configurations"; H="histories"
p("C01","NSE continuous spectrum is the scattering data of the given samples",
 "For every sampled signal, time interval, frequency grid, sign of the nonlinearity and discretization, the returned reflection coefficient, a and b are (up to rounding) the scattering data that the documented discretization assigns to those samples. They converge to the true nonlinear Fourier coefficients of the underlying signal at the documented order, and reflection coefficient, a/b and combined outputs are laid out as documented and mutually consistent.",
 [I,C],"all signals (any D>=2, any amplitude/phase), all intervals, all grids of M points, kappa=+-1, all 28 discretizations, all three output types, normalization on/off",
 "The tests evaluate one sech pulse (and one grid) per discretization and sign; the claim is over all signals, grids, sample counts (also odd and non powers of two) and option combinations.",
 ["src/fnft_nsev.c","src/private/fnft__akns_fscatter.c","src/private/fnft__nse_discretization.c","src/private/fnft__akns_scatter.c","src/private/fnft__poly_chirpz.c"],
 [("fast transfer polynomial + chirp-z evaluation + boundary phase factors","fnft_nsev.c nsev_compute_contspec"),("splitting schemes","fnft__akns_fscatter.c"),("sample-by-sample scattering","fnft__akns_scatter.c")],
 ["fnft_nsev contspec output"])
p("C02","NSE spectrum obeys the symmetries and conservation laws of the equation",
 "For every signal the continuous spectrum satisfies |a|^2 + kappa |b|^2 = 1 on the real line up to discretization error, transforms in the documented way under constant phase rotation, time shift, frequency shift, time dilation and time reversal of the signal, and bound states and norming constants transform consistently. The signal energy equals the sum of the energies of the continuous and the discrete spectrum.",
 [I,C],"all signals and discretizations; all shifts, rotations, dilations",
 "No existing test relates the transform of one signal to the transform of a transformed signal; each test only compares one signal to one stored answer.",
 ["src/fnft_nsev.c","src/private/fnft__nse_discretization.c","src/private/fnft__akns_fscatter.c"],
 [("boundary phase factors","fnft__nse_discretization.c"),("transfer matrix structure","fnft__nse_fscatter.c")],
 ["fnft_nsev contspec, bound_states, normconsts outputs"])
p("C03","NSE bound states are exactly the eigenvalues of the discretized problem",
 "Every bound state returned for the focusing case lies in the upper half plane and is an eigenvalue (a zero of a) of the problem the chosen discretization assigns to the samples, and no eigenvalue inside the filtered region is missed or reported twice, whichever localization method is used. Without bound states or in the defocusing case the reported number is zero; at the documented order the eigenvalues converge to those of the underlying signal.",
 [I,C],"all focusing signals with well separated eigenvalues, all discretizations, all localization methods and initial guesses near eigenvalues, subsampling factors",
 "The tests locate the eigenvalues of one sech (and a few solitonic) signals; the claim is over all signals, eigenvalue configurations and methods.",
 ["src/fnft_nsev.c","src/private/fnft__poly_roots_fasteigen.c","src/private/fnft__akns_scatter.c","src/private/fnft__misc.c"],
 [("eigenvalue, Newton and subsample-and-refine localization","fnft_nsev.c nsev_compute_boundstates"),("Newton refinement","fnft_nsev.c nsev_refine_bound_states_newton")],
 ["fnft_nsev K_ptr, bound_states outputs"])
p("C04","NSE discrete-spectrum filtering and array capacity are honoured",
 "Reported bound states always satisfy the selected filter (none, half plane and bounds, or the user's bounding box), and those an unfiltered call finds inside the box are all reported. When the caller's array is too small, exactly as many entries as fit are returned, each a correct member of the full answer, the count says how many, and nothing beyond the array is written.",
 [I,C],"all signals, all boxes (also cutting eigenvalues off), all capacities from 0 to the documented maximum, all output types",
 "Tests always pass large enough arrays and one filter setting.",
 ["src/fnft_nsev.c","src/private/fnft__misc.c"],
 [("filters","fnft__misc.c misc_filter, misc_filter_nonreal, misc_merge"),("truncation with a warning","fnft_nsev.c nsev_compute_boundstates")],
 ["fnft_nsev K_ptr, bound_states, normconsts outputs"])
p("C05","NSE norming constants and residues describe the bound states they belong to",
 "For every reported bound state the norming constant is the proportionality factor between the left and right decaying solutions of the discretized problem, and the residue is the norming constant divided by the derivative of a. The entries are in the order of the bound states, the combined output holds both, and the values do not depend on the localization method.",
 [I,C],"all focusing signals with simple, well separated eigenvalues; all discretizations; the three discrete output types; normalization on/off",
 "Tests check one sech signal (and one 2-soliton) per discretization with loose bounds.",
 ["src/fnft_nsev.c","src/private/fnft__akns_scatter.c","src/private/fnft__nse_scatter.c"],
 [("forward/backward scattering with matching point","fnft__akns_scatter.c akns_scatter_bound_states"),("residue computation","fnft_nsev.c nsev_compute_normconsts_or_residues")],
 ["fnft_nsev normconsts_or_residues output"])
p("C06","Richardson extrapolation combines full and halved grid and corrupts nothing",
 "With Richardson extrapolation enabled, every value of the continuous spectrum inside the band the halved grid resolves, every bound state that has a partner on the halved grid and the derivative of a in its residue equal the combination of the results on the full and on the halved grid that cancels the leading error of the method's order; everything else (spectrum beyond that band, norming constants, bound states without partner, number of bound states) is unchanged. For smooth signals in the asymptotic regime the result is closer to the true spectrum. This holds for all three vanishing-boundary transforms and every output type, localization method and discretization, whichever outputs are requested; two samples, which cannot be halved, are handled without extrapolation.",
 [I,C],"all smooth signals, discretizations, output types and localization methods",
 "Tests use it for the continuous spectrum of one or two signals and never with residues.",
 ["src/fnft_nsev.c","src/fnft_kdvv.c","src/fnft_manakovv.c"],
 [("combination of a full and a subsampled solution","fnft_nsev.c, fnft_kdvv.c, fnft_manakovv.c Richardson branch")],
 ["fnft_nsev, fnft_kdvv, fnft_manakovv outputs"])
p("C07","NSE periodic main spectrum solves the Floquet equation, completely",
 "Every point of the reported main spectrum is a solution of trace/2 = +-1 (or the requested value on the requested spine grid) of the monodromy matrix the discretization assigns to one period, points are reported with their multiplicity for every grid point of a spine, and no solution inside the filtered region is missed, for every localization method. For a zero signal and plane waves it is the known analytic spectrum.",
 [I,C],"all periodic signals of power-of-two length, both signs, all discretizations, localization methods and spine settings",
 "Tests use plane waves and one or two fixed numerical examples.",
 ["src/fnft_nsep.c","src/private/fnft__poly_roots_fftgridsearch.c","src/private/fnft__poly_roots_fasteigen.c"],
 [("subsample-and-refine, grid search, Newton","fnft_nsep.c"),("refinement with multiplicity estimate","fnft_nsep.c refine_mainspec")],
 ["fnft_nsep K_ptr, main_spec outputs"])
p("C08","NSE periodic auxiliary spectrum solves its defining equation, completely",
 "Every reported auxiliary spectrum point is a zero of the off-diagonal monodromy entry that defines it for the given samples and base point, none inside the filtered region is missed, and their number does not depend on whether the main spectrum is requested in the same call.",
 [I,C],"all periodic signals of power-of-two length, both signs, discretizations and localization methods",
 "Tests only cover plane waves and one fixed example.",
 ["src/fnft_nsep.c","src/private/fnft__poly_roots_fftgridsearch.c"],
 [("refinement of zeros of the (1,2) entry","fnft_nsep.c refine_auxspec")],
 ["fnft_nsep M_ptr, aux_spec outputs"])
p("C09","NSE periodic spectrum obeys shift symmetries, filters and capacities",
 "The main spectrum does not change under cyclic shifts and constant phase rotations of the signal, main and auxiliary spectrum move rigidly under a frequency shift (including quasi-periodic signals described by the phase-shift argument), and time dilation rescales them. Filters remove exactly the points outside the box (also in the quasi-periodic case) and short arrays yield as many correct points as fit with a matching count.",
 [I,C],"all (quasi-)periodic signals, shifts, boxes and capacities, all localization methods",
 "Tests contain a single quasi-periodic example; metamorphic relations and short arrays are not tested.",
 ["src/fnft_nsep.c","src/private/fnft__misc.c"],
 [("phase-shift removal and reinsertion","fnft_nsep.c"),("filters","fnft__misc.c")],
 ["fnft_nsep outputs"])
p("C10","Inverse NSE transform reproduces a signal with the given continuous spectrum",
 "For every admissible continuous spectrum, given as reflection coefficient, b(xi) or b(tau), the inverse transform returns samples whose forward transform has that spectrum up to the discretization error, and recovers the original signal when the spectrum came from one. This holds for both signs, every inversion method and supported discretization, every window position and oversampling factor, and for every even M the frequency grid helper returns the grid this refers to.",
 [I,C],"all band-limited spectra / localized signals, D a power of two, M>=D, all input types, methods and intervals",
 "Tests use three or four analytic spectra with fixed intervals.",
 ["src/fnft_nsev_inverse.c","src/private/fnft__nse_finvscatter.c","src/private/fnft__poly_specfact.c"],
 [("spectral factorization and fast inverse scattering","fnft_nsev_inverse.c, fnft__nse_finvscatter.c")],
 ["fnft_nsev_inverse q output","fnft_nsev_inverse_XI output"])
p("C11","Inverse NSE transform adds exactly the requested bound states",
 "For every set of distinct bound states in the upper half plane with nonzero norming constants or residues, in any order, the returned signal is a solitonic signal whose forward transform has those bound states and constants, optionally on top of a continuous spectrum or a seed signal (norming constants for the latter), converging at second order in the step size. Pure multi-solitons agree with the closed-form expressions on every time window, the listing order is irrelevant and duplicates are rejected.",
 [I,C],"all eigenvalue sets and constants, orders of listing, seeds, windows (also one-sided ones)",
 "Tests use a handful of fixed eigenvalue sets on symmetric windows.",
 ["src/fnft_nsev_inverse.c"],
 [("Darboux transform with direction chosen per sample","fnft_nsev_inverse.c add_discrete_spectrum, compute_eigenfunctions")],
 ["fnft_nsev_inverse q output"])
p("C12","KdV continuous spectrum is the scattering data of the given samples",
 "For every real signal, interval, frequency grid without zero and discretization (both families), the returned reflection coefficient, a and b are the scattering data the discretization assigns to those samples, converge to those of the underlying signal at the documented order, and satisfy |a|^2 - |b|^2 = 1 and the conjugate symmetry in xi up to discretization error. Layout of the three output types is as documented.",
 [I,C],"all real signals (either sign), all grids excluding zero, all 56 discretizations",
 "Tests evaluate one sech^2 pulse per discretization.",
 ["src/fnft_kdvv.c","src/private/fnft__kdv_fscatter.c","src/private/fnft__kdv_discretization.c","src/private/fnft__akns_scatter.c"],
 [("AKNS to Schroedinger basis change and boundary phases","fnft__kdv_discretization.c"),("splitting schemes","fnft__akns_fscatter.c")],
 ["fnft_kdvv contspec output"])
p("C13","KdV bound states, norming constants and residues are correct and complete",
 "Every reported bound state is a positive imaginary eigenvalue of the discretized problem, grid search reports all of those resolved by its spacing, Newton finds those its guesses are near to, and there are none for signals without potential wells. Norming constants and residues belong to them, alternate as oscillation theory prescribes, and short arrays are handled as documented.",
 [I,C],"all real signals with separated eigenvalues; all discretizations that support it; spacings and guesses; output types",
 "Tests use one sech^2 potential.",
 ["src/fnft_kdvv.c","src/private/fnft__akns_scatter.c","src/private/fnft__kdv_scatter.c"],
 [("grid search and refine, Newton","fnft_kdvv.c kdvv_compute_boundstates"),("norming constants","fnft_kdvv.c")],
 ["fnft_kdvv K_ptr, bound_states, normconsts outputs"])
p("C14","Manakov continuous spectrum is the scattering data of the given samples",
 "For every pair of sampled signals, interval, grid, sign and discretization the returned reflection coefficients, a, b1 and b2 are the scattering data the discretization assigns to those samples and converge at the documented order to the true ones. They satisfy |a|^2 + kappa(|b1|^2+|b2|^2) = 1, rotate with unitary rotations of the signal vector, move properly under time and frequency shifts, and reduce to the scalar equation's spectrum when one component vanishes.",
 [I,C],"all signal pairs, grids, signs, all 12 supported discretizations, output types",
 "Tests use one sech and one rectangle per discretization.",
 ["src/fnft_manakovv.c","src/private/fnft__manakov_fscatter.c","src/private/fnft__manakov_scatter.c","src/private/fnft__manakov_discretization.c"],
 [("3x3 transfer polynomial, chirp-z, boundary phases","fnft_manakovv.c"),("sample-by-sample scattering","fnft__manakov_scatter.c")],
 ["fnft_manakovv contspec output"])
p("C15","Manakov bound states are the eigenvalues of the discretized problem",
 "Bound states reported in the focusing case are the zeros of a of the (subsampled) discretized problem in the upper half plane within the filter, all of them, consistent with the scalar equation when one component vanishes, and independent of whether the continuous spectrum is requested. In the defocusing case, or when none were requested, the reported number is zero, and the array capacity is respected.",
 [I,C],"all focusing signal pairs, discretizations, filters, capacities",
 "Tests check the eigenvalues of one sech.",
 ["src/fnft_manakovv.c","src/private/fnft__poly_roots_fasteigen.c"],
 [("eigenvalue localization on subsampled signal","fnft_manakovv.c manakovv_compute_boundstates")],
 ["fnft_manakovv K_ptr, bound_states outputs"])
p("C16","Fast polynomial and Fourier arithmetic equals the direct computation",
 "Products of arbitrarily many scalar, 2x2 and 3x3 matrix polynomials of any degree computed by the fast tree algorithm equal the product computed term by term, with and without normalization (undoing the reported power-of-two scale). The FFT is the discrete Fourier transform (and its inverse), and chirp-z and Horner evaluation return the polynomial's (derivative's) values, each to working accuracy.",
 [I,C],"all degrees, counts, coefficients (wide dynamic range), chirps and evaluation points, lengths",
 "Tests multiply two or three fixed sets of polynomials.",
 ["src/private/fnft__poly_fmult.c","src/private/fnft__poly_chirpz.c","src/private/fnft__poly_eval.c","include/private/fnft__fft_wrapper.h","src/3rd_party/kiss_fft/kiss_fft.c"],
 [("tree-wise FFT products with zero padding and normalization","fnft__poly_fmult.c"),("Bluestein chirp transform","fnft__poly_chirpz.c")],
 ["poly_fmult*, poly_chirpz, poly_eval, fft_wrapper results"])
p("C17","Polynomial root finders find all roots and factorization is spectral",
 "The eigenvalue root finder returns as many roots as the degree, and the polynomial with these roots is the input within a backward-stable error; the grid search on an arc returns every root of a self-reciprocal (or general) polynomial that lies on the arc and is resolved by the grid, and nothing that is not a root. The spectral factor satisfies its magnitude equation on the unit circle and has its zeros on the prescribed side.",
 [I,C],"all polynomials of moderate degree, arcs, grid sizes, both signs",
 "Tests use a few fixed polynomials.",
 ["src/private/fnft__poly_roots_fasteigen.c","src/private/fnft__poly_roots_fftgridsearch.c","src/private/fnft__poly_specfact.c","src/3rd_party/eiscor"],
 [("companion QR","eiscor z_poly_roots_modified"),("sign changes of the symmetrized polynomial","fnft__poly_roots_fftgridsearch.c"),("cepstral factorization","fnft__poly_specfact.c")],
 ["poly_roots_*, poly_specfact results"])
p("C18","Transfer matrices: fast, slow and inverse scattering agree with each other",
 "The transfer polynomial computed by fast scattering, evaluated at any point, equals the product of the per-sample matrices of the discretization; the slow scattering matrix equals the product of per-sample exponentials, and its derivative and bound-state variants equal numerical derivatives and the matrix itself. Layer peeling applied to such a transfer polynomial returns the original samples (NSE: modal and second-order splitting, both signs; KdV: modal), and the transfer matrices have the structure (determinant, conjugate symmetry) of the equation.",
 [I,C],"all samples, step sizes, spectral parameters, discretizations, lengths",
 "Tests compare with stored matrices for one fixed signal.",
 ["src/private/fnft__akns_fscatter.c","src/private/fnft__nse_fscatter.c","src/private/fnft__akns_scatter.c","src/private/fnft__nse_scatter.c","src/private/fnft__kdv_scatter.c","src/private/fnft__manakov_scatter.c","src/private/fnft__nse_finvscatter.c","src/private/fnft__kdv_finvscatter.c"],
 [("per-sample matrices","akns_fscatter, akns_scatter"),("recursive layer peeling","nse_finvscatter_recurse")],
 ["*_fscatter, *_scatter_matrix, *_finvscatter results"])
p("C19","Signal utilities: resampling, downsampling, filters, merging, distances",
 "Band-limited resampling shifts a periodic band-limited signal exactly and is undone by the opposite shift, downsampling returns the stated subset of samples with their positions, filters keep exactly the values in (or outside) the box, in order and with their companions, and merging leaves one representative per cluster of close values. Distance and error measures equal their definitions, and version and number helpers return the documented values.",
 [I],"all vectors, boxes, tolerances, factors",
 "Tests cover one example each for a few helpers.",
 ["src/private/fnft__misc.c","src/fnft_version.c"],
 [("misc helpers","fnft__misc.c")],
 ["misc_* results"])
p("C20","Transforms never touch memory outside the documented buffers",
 "For every call with valid arguments, every size combination and every option, a transform reads only its inputs and writes only the documented part of its output arrays, uses no uninitialized data, and releases everything it allocated, whether it succeeds or fails. Unused outputs may be absent as documented.",
 [I,C],"all entry points, sizes (also minimal and odd), option combinations, absent outputs, short arrays; valid and invalid arguments",
 "Sanitizers are off in the tests and tests use ample buffers and successful calls.",
 ["src/fnft_nsev.c","src/fnft_nsep.c","src/fnft_nsev_inverse.c","src/fnft_kdvv.c","src/fnft_manakovv.c","src/private"],
 [("buffer sizing","each fnft_*.c"),("leave_fun cleanup","each fnft_*.c")],
 ["AddressSanitizer/UBSan/LeakSanitizer, guard zones"])
p("C21","Invalid arguments are rejected with the documented code and no side effects",
 "Every call that violates a documented requirement returns the documented error code (never success, a crash or a hang), and leaves the caller's inputs, outputs, and options as they were; every call that satisfies them is accepted. Messages go to the user's print function of the calling thread, are silenced when it is disabled, and are otherwise never printed elsewhere.",
 [I,C,H],"all entry points, each argument invalid in turn and in combination; print-function settings",
 "Tests never call the public functions with invalid arguments.",
 ["src/fnft_nsev.c","src/fnft_nsep.c","src/fnft_nsev_inverse.c","src/fnft_kdvv.c","src/fnft_manakovv.c","src/private/fnft__errwarn.c","src/fnft_errwarn.c"],
 [("argument checks","top of each entry point"),("error macros","fnft__errwarn.h")],
 ["return codes, print callback, snapshots of all buffers"])
p("C22","Running out of memory at any point is reported cleanly",
 "If any single memory request made during a transform fails, the call returns an error code instead of crashing or reporting success with wrong results, releases everything it had allocated, and leaves inputs and options unchanged. The next call with memory available behaves as if nothing had happened.",
 ["fault_sequences",I,C],"each allocation (by index) of each entry point under generated arguments, and failure of all later ones",
 "Tests never inject allocation failures.",
 ["src/fnft_nsev.c","src/fnft_nsep.c","src/fnft_nsev_inverse.c","src/fnft_kdvv.c","src/fnft_manakovv.c","src/private"],
 [("CHECK_NOMEM / CHECK_RETCODE with cleanup","fnft__errwarn.h and every source file")],
 ["return code, allocation bookkeeping, option snapshot"])
p("C23","Results depend only on the arguments, not on history or other threads",
 "The same call gives bit-identical results whatever calls (successful or failed, with whatever options) were made before it and whatever other threads compute concurrently. Omitting the options means the documented defaults, and neither the inputs nor the caller's options are modified.",
 [H,"schedules",I,C],"all sequences of calls to all entry points with arbitrary options, and concurrent executions of them",
 "Each test runs one configuration in a fresh process, single-threaded.",
 ["src/fnft_nsev.c","src/fnft_nsep.c","src/fnft_nsev_inverse.c","src/fnft_kdvv.c","src/fnft_manakovv.c","src/private/fnft__errwarn.c"],
 [("no mutable global state except the thread-local print function; options restored","all entry points")],
 ["bitwise comparison of outputs, inputs and options"])
p("C24","Which outputs are requested, and normalization, do not change the values",
 "Each output has the same value whether it is requested alone or together with others, the combined output types equal the separate ones, and switching internal normalization on or off changes nothing but rounding. This holds for all transforms and discretizations.",
 [I,C],"all signals, discretizations and subsets of outputs",
 "Tests request fixed output sets and never compare them.",
 ["src/fnft_nsev.c","src/fnft_nsep.c","src/fnft_kdvv.c","src/fnft_manakovv.c","src/private/fnft__poly_fmult.c"],
 [("optional outputs","each entry point"),("normalization flag","fnft__poly_fmult.c, fnft__akns_scatter.c")],
 ["all outputs"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
