#!/usr/bin/env python3
"""Generate /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, pathlib
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=observe, hook_needed=None)))
L = "gftool/lattice/"
ALLLAT = [L + n + ".py" for n in "bcc bethe bethez box fcc honeycomb kagome lieb onedim rectangular sc square triangular".split()]

prop("C01", "Lattice Green's functions equal their defining k-space/DOS integral",
 "For every lattice (bcc, bethe, bethez, box, fcc, honeycomb, kagome, lieb, onedim, rectangular, sc, square, triangular), every half-bandwidth (and scale/coordination) and every complex frequency off the real axis, in both half-planes, gf_z returns the Brillouin-zone average (or DOS integral) of 1/(z - eps) of that lattice's tight-binding dispersion. The value does not depend on whether z is a Python scalar, 0-d, 1-d, n-d, strided or extended-precision input, and hilbert_transform is the same function.",
 ["inputs", "configurations"],
 "all lattices x half-bandwidths from 1e-3 to 1e3 x scale/coordination values x z on a polar/rectangular grid covering all quadrants, |z|/D from 1e-3 to 1e6, both sides of every branch point x input containers",
 "Tests compare with mpmath/numerical integrals at some hypothesis-drawn frequencies, mostly D=1-like and upper half-plane; branch selection (signs of square roots, Riemann sheets of elliptic integrals) depends on the quadrant and on which side of van Hove energies z lies.",
 ALLLAT + ["gftool/_util.py"],
 [("closed forms with elliptic integrals, branch selection by signed square roots", L + "{fcc,triangular,sc,bcc,rectangular}.py"), ("reduction lieb->square, kagome->honeycomb->triangular", L + "{lieb,kagome,honeycomb}.py")],
 ["return value of gf_z / hilbert_transform"])

prop("C02", "Lattice Green's functions are causal, symmetric and correctly normalised",
 "Every lattice gf_z satisfies G(conj z) = conj G(z), Im G(z) * Im z < 0, G(z) -> 1/z with the tail given by its own dos_moment values, and G(z; D) = G(z/D; 1)/D; for particle-hole symmetric lattices G(-z) = -G(z). On the real axis, gf_z is finite except at documented van Hove singularities and is real outside the band. At integer-valued or real-typed input gf_z agrees with the same complex-typed input.",
 ["inputs", "configurations"],
 "all lattices x z grid in all quadrants down to the axis (|Im z| >= 1e-9 D) and up to |z| = 1e6 D x half-bandwidths 1e-3..1e3",
 "Symmetry tests use random draws in a limited box; the identities must hold in every sector, including close to the real axis and to band edges.",
 ALLLAT, [("conjugation and sheet selection for advanced/retarded input", L + "{fcc,triangular}.py"), ("principal branches of sqrt/log/ellipk", "gftool/_util.py")],
 ["return value of gf_z"])

prop("C03", "DOS equals -Im G/pi on the axis, is non-negative and vanishes outside",
 "For every lattice, dos(eps) equals -Im gf_z(eps + i0+)/pi at every regular energy inside the band, is never negative or complex, is exactly 0 outside the band, is divergent (inf) or finite exactly as documented at van Hove points, and scales as dos(eps; D) = dos(eps/D; 1)/D. The result has the shape of eps, independent of the container (scalar, integer-typed, 0-d, n-d, strided) and does not modify its input.",
 ["inputs", "configurations"],
 "all lattices x every energy of a fine grid of the band (including band edges, van Hove points and their neighbours at 1e-3..1e-12 relative distance, |eps| up to 1e4 D) x half-bandwidths x containers and dtypes",
 "The tests integrate the DOS and check a few points; point-wise errors of narrow support, edge treatment and dtype handling are invisible to them.",
 ALLLAT, [("piecewise closed forms with masks for in-band/singular/small arguments", L + "*.py")],
 ["return value of dos"])

prop("C04", "DOS moments equal the moments of the DOS for every order and bandwidth",
 "dos_moment(m, D) equals the integral of eps^m dos(eps) (exactly the closed-walk count of the lattice times the hopping scale) for every implemented order, scales as D^m, is 0 for odd m on particle-hole symmetric lattices, and raises NotImplementedError (never a wrong number) for orders it does not implement.",
 ["inputs", "configurations"],
 "all lattices with dos_moment x all m in 0..40 x half-bandwidths 1e-3..1e3 (float and integer typed)",
 "Tests integrate low moments for D around 1 with loose tolerance (rel 1e-6 and a few m); tabulated coefficients up to order 20 each are individual constants.",
 ALLLAT, [("coefficient tables and D**m scaling", L + "*.py: dos_moment_coefficients, dos_moment")],
 ["return value of dos_moment"])

prop("C05", "Multi-precision DOS and Green's functions honour the working precision",
 "For every lattice with a multi-precision variant, dos_mp (and gf_z_mp) agree with the double-precision functions, and the result at working precision p agrees with the result at a higher precision to about p digits, for every half-bandwidth; it is 0 outside the band. The global mpmath precision is left unchanged.",
 ["inputs", "configurations"],
 "lattices bcc, bethe, fcc, honeycomb, kagome, lieb, onedim, sc, square, triangular x energies inside/outside/close to van Hove points x half-bandwidths x mp.dps in {15, 30, 50}",
 "Tests only check that mp quadrature of the DOS yields moments at default precision and D around 1.",
 ALLLAT, [("mpmath evaluation with mpf conversion and raised intermediate precision", L + "*.py: dos_mp, gf_z_mp")],
 ["return value of dos_mp/gf_z_mp", "mpmath.mp.dps after the call"])

prop("C06", "Retarded-time lattice Green's functions are the transform of the DOS",
 "bethe.gf_ret_t and box.gf_ret_t return -i * integral of dos(eps) exp(-i (eps + center*half_bandwidth) t) for t >= 0 and 0 for t < 0, for every half-bandwidth and center, with value -i at t = 0 and no discontinuity at internal small-argument switches.",
 ["inputs", "configurations"],
 "t in a log grid 1e-9..1e4 of both signs and 0 x half-bandwidths 1e-2..1e2 x centers of both signs and arrays x containers",
 "Tests compare at D=1 style sample and without center for most cases.",
 [L + "bethe.py", L + "box.py"], [("small-argument series plus closed form plus phase", L + "{bethe,box}.py: gf_ret_t")],
 ["return value of gf_ret_t"])

prop("C07", "Analytic derivatives and inverses are consistent with the function itself",
 "The first and second derivative functions (bethe.gf_d1_z, bethe.gf_d2_z, pole gf_d1_z, fermi_fct_d1) equal the complex derivative of the corresponding function, bethe.gf_z_inv inverts bethe.gf_z on the physical sheet, and square.stress_trafo equals the stress-tensor transform -(xi G(xi) - 1)/2 of the square lattice.",
 ["inputs", "configurations"],
 "z grid in all quadrants, |z|/D in 1e-2..1e4, half-bandwidths 1e-2..1e2, scalar/array/extended-precision containers",
 "Tests compare numerical derivatives on few draws.",
 [L + "bethe.py", L + "square.py", "gftool/basis/pole.py", "gftool/statistics.py"], [("closed-form derivatives", L + "bethe.py: gf_d1_z, gf_d2_z, gf_z_inv")],
 ["return values"])

prop("C08", "Fermi and Bose functions are exact, stable and correctly typed everywhere",
 "fermi_fct and bose_fct equal 1/(exp(beta*eps)+1) and 1/(exp(beta*eps)-1) to relative precision, without overflow, for every real or complex eps (integer or float typed, scalar or array) and every beta of either sign; fermi_fct(eps)+fermi_fct(-eps)=1, fermi_fct_inv inverts fermi_fct, and fermi_fct_d1 equals the analytic derivative and never exceeds 0 for real eps and beta>0.",
 ["inputs"],
 "beta*eps from -1e6 to 1e6 including 0, +-inf neighbours, 700-ish switch points; complex eps; dtypes int/float/complex/longdouble scalars; beta scalar or broadcast array",
 "Tests sample moderate arguments; the stable branch switches and dtype handling have no test.",
 ["gftool/statistics.py"], [("branch for large arguments, expit/logit, expm1", "gftool/statistics.py")], ["return values"])

prop("C09", "Matsubara and Pade frequencies reproduce the statistics functions",
 "matsubara_frequencies(n, beta) = i pi (2n+1)/beta and matsubara_frequencies_b(n, beta) = 2 i pi n/beta for every integer n of either sign and container, rejecting non-integers; pade_frequencies(num, beta) returns num ascending positive-imaginary poles and positive residues that obey the exact Pade sum rules, so that 1/2 - sum residues 2 eps/(...) equals the Fermi function up to the order of the approximant for every num and beta.",
 ["inputs", "configurations"],
 "all n in -200..200, every num in 1..60, beta from 1e-2 to 1e3, containers list/range/int/array and non-integer rejections",
 "Tests check a doctest and one num.",
 ["gftool/statistics.py"], [("generalised eigenvalue problem, sorting and residue formula", "gftool/statistics.py")], ["return values"])

prop("C10", "All pole-basis representations describe one and the same function",
 "For every set of poles and weights, the z, derivative, imaginary-time (fermionic and bosonic), retarded-time, moment and occupation evaluations are those of sum_j w_j/(z - eps_j): G(tau) = -w exp(-tau eps) (1-f(eps)) for all 0 <= tau <= beta without overflow, occ = sum w f(eps) = -G(tau=beta) for positive tau direction conventions as documented, moments m_k = sum w eps^(k-1), retarded G(t<0)=0. The module-level functions and the PoleFct/PoleGf methods agree and broadcast over leading axes, and times outside [0, beta] or non-positive bosonic poles are rejected.",
 ["inputs", "configurations"],
 "pole sets of size 0..4 over {0, +-small, +-1, +-large, degenerate, complex} x weights of both signs/zero/complex x beta 0.1..1e3 x tau/t/z/order grids x batch shapes",
 "Tests check consistency of two representations on random draws; overflow regions, pole sign cases and degenerate shapes are not covered.",
 ["gftool/basis/pole.py", "gftool/__init__.py", "gftool/_util.py"], [("case distinction on the sign of the pole for stable exponentials", "gftool/basis/pole.py"), ("summation over the last axis", "gftool/_util.py")],
 ["return values of pole_gf_* functions and PoleFct/PoleGf methods"])

prop("C11", "Pole fits satisfy their constraints exactly and recover representable data",
 "from_moments reproduces exactly the given moments; from_z and from_tau return a least-squares optimal fit among all residues that satisfy the given moments (and occupation) exactly, so data generated by poles of the same grid is recovered exactly. Over-constrained requests raise ValueError, weights are respected, and batched input is fitted element-wise.",
 ["inputs", "configurations"],
 "n_mom 0..6 x n_pole 1..8 x width (fixed, None, broadcast) x weight (None, uniform, power) x occ given or not x batch shapes x data inside and outside the model class",
 "Tests cover one or two configurations; the constraint assembly (occ, moments, weights) is combinatorial.",
 ["gftool/basis/pole.py", "gftool/linalg.py"], [("equality-constrained least squares on Chebyshev poles", "gftool/basis/pole.py: gf_from_moments, gf_from_z, gf_from_tau")],
 ["poles, residues of the returned object"])

prop("C12", "Matsubara <-> imaginary-time Fourier transforms are exact on their model class",
 "iw2tau and tau2iw map a Green's function to its transform for every beta, grid size (even or odd), leading batch axes, number of given moments, number of fitted poles and Fourier back-end: data representable by the tail poles is transformed exactly, linearity holds, and any other function converges with grid size at the order of the back-end. The plain back-ends compute exactly the (piecewise-linear or trapezoid) finite sums they document, with output length and end points (tau=0 and tau=beta) as documented.",
 ["inputs", "configurations"],
 "n_iw 1..12 plus larger sizes, n_tau odd/even, beta, batch shapes, moments count 1..4, n_fit 0..3, all back-ends, all basis vectors of the linear input space",
 "Tests check a few random Green's functions at one large size with loose tolerance; because the maps are linear, enumerating all basis inputs decides them for every input of that size.",
 ["gftool/fourier.py", "gftool/basis/pole.py"], [("tail subtraction by pole GF plus FFT back-end", "gftool/fourier.py: iw2tau, tau2iw, *_dft, *_ft_lin, *_dft_soft")],
 ["return values"])

prop("C13", "Bosonic imaginary-time to Matsubara transform is exact on linear data",
 "tau2iv and its back-ends compute the bosonic Fourier integral of the piecewise-linear (ft_lin) or trapezoid (dft) interpolant of the given samples, for every beta, number of samples and batch shape, including the zero frequency and the discontinuity between tau=0 and tau=beta; the zero-frequency component is the integral of the data.",
 ["inputs", "configurations"],
 "n_tau 2..14 even and odd plus larger sizes x all basis vectors x beta x batch shapes x back-ends",
 "Tests transform one bosonic pole function with one grid.",
 ["gftool/fourier.py"], [("jump subtraction, FFT and interpolation weights", "gftool/fourier.py: tau2iv, tau2iv_dft, tau2iv_ft_lin")], ["return values"])

prop("C14", "Laplace quadratures compute exactly the sums they document",
 "tt2z with the trapz, simps and lin back-ends computes the trapezoid, Simpson (weights 1,4,2,4,2,... dt/3, without end-point correction as the integral is truncated) and piecewise-linear Fourier-Laplace integral of the samples for every grid length (even/odd), time step, direction (retarded or advanced), frequency (including z=0 and real z) and batch shape; tt2z rejects time/frequency combinations of the wrong half-plane and returns NaN of the right shape for empty input; lin (like pade, herm2 and lpz) rejects non-equidistant grids.",
 ["inputs", "configurations"],
 "n_t 2..12 x all basis vectors x time steps x z list incl. 0, real, complex x signs x batch shapes x back-ends",
 "Tests use one long grid and one function per back-end.",
 ["gftool/fourier.py"], [("quadrature weights", "gftool/fourier.py: tt2z*, _trapz_weight, _simps_weight"), ("phase evaluation via numexpr or numpy", "gftool/fourier.py: _phase*")], ["return values, raised exceptions"])

prop("C15", "Extrapolating Laplace transforms are exact for sums of exponentials",
 "tt2z_pade, tt2z_herm2 and tt2z_lpz reproduce, for every sufficiently long grid, the infinite-time discrete Laplace sum of any signal that is a sum of few (damped or undamped) exponentials with the documented quadrature rule, for every batch shape; degree, order, quad and solver options are honoured and unknown quadratures or non-equidistant times are rejected.",
 ["inputs", "configurations"],
 "number of exponentials 1..3 x frequencies x damping x n_t parity x quad x options x batch",
 "Tests check one random pole function with loose tolerance.",
 ["gftool/fourier.py", "gftool/hermpade.py", "gftool/linearprediction.py"], [("Pade/Hermite-Pade/linear-prediction resummation of the z-transform", "gftool/fourier.py: tt2z_pade, tt2z_herm2, tt2z_lpz")], ["return values, raised exceptions"])

prop("C16", "Transforms on Pade frequencies agree with the Green's function",
 "izp2tau and tau2izp reproduce G(tau) and G(i z_p) of pole Green's functions to the accuracy of the pole fit, with the given moments (and occupation) satisfied, for every number of Pade frequencies and beta.",
 ["inputs", "configurations"], "num 3..12 x beta x pole functions x moments given x occ given",
 "Tests use one beta and fixed random functions.", ["gftool/fourier.py", "gftool/basis/pole.py"],
 [("optimised pole width fit", "gftool/fourier.py: _z2polegf, _tau2polegf")], ["return values"])

prop("C17", "Densities from Matsubara data equal the exact occupation",
 "density_iw and density yield the exact occupation sum_j w_j f(eps_j) of every pole Green's function within their documented truncation error, exactly when the function is representable by the moments/tail potential used, for every beta, weights (Pade frequencies), moments, n_fit, matrix/total mode and batch shape; density_error, density_error2 and check_convergence evaluate their documented formulas for every input mode.",
 ["inputs", "configurations"], "pole sets x beta x n_iw x weights x moments/n_fit x scalar/vector/matrix potentials x total modes",
 "Tests: one Bethe case and a few for chemical potential; matrix mode of check_convergence had no test.",
 ["gftool/density.py", "gftool/__init__.py"], [("tail subtraction with analytic occupation", "gftool/density.py: density_iw; gftool/__init__.py: density")], ["return values"])

prop("C18", "Chemical potential search terminates with a root or a documented error",
 "For every monotone occupation function that changes sign, chemical_potential returns mu with occ_root(mu) = 0 to solver accuracy, regardless of mu0, step0 and of where the root lies (including mu0 already a root, roots far away or on the bracket edge), calling the function only finitely often; if no sign change exists it raises RuntimeError, and it raises RuntimeError carrying the last mu if the root search does not converge.",
 ["inputs", "histories", "configurations"], "environment answers of occ_root enumerated as step/ramp/sigmoid/cubic functions over root positions x mu0 x step0 x solver options",
 "Tests use one model.", ["gftool/density.py"], [("doubling bracket search followed by root_scalar", "gftool/density.py: chemical_potential")], ["returned mu, exception, sequence of queried mu"])

prop("C19", "CPA solutions satisfy the coherent-potential condition",
 "cpa.solve_root returns, for every number of components, concentrations, on-site energies, lattice and frequency, a self-energy for which the concentration-average of component Green's functions equals the coherent one, with physical (non-positive imaginary part in the upper half-plane) sign when restricted; single-component, zero-concentration and equal-energy limits are exact; solve_fxdocc_root additionally yields the requested occupation with e_onsite shifted by mu, and failure to converge raises RuntimeError.",
 ["inputs", "configurations"], "components 1..3 x concentrations incl. 0 and 1 x energies x lattices x z grids x restricted x initial guess x batch shapes x occupations",
 "Tests run one or two systems.", ["gftool/cpa.py", "gftool/density.py"], [("root equation, restriction to physical half-plane, joint mu/self-energy root search", "gftool/cpa.py")], ["returned self-energy/mu, component Green's functions"])

prop("C20", "BEB local Green's function and self-energy satisfy their definition",
 "beb.gf_loc_z equals the matrix Hilbert transform of the effective-medium Hamiltonian for every Hermitian hopping matrix (full rank, rank-deficient, diagonal, negative or complex), diag or full, every frequency; beb.solve_root returns a self-energy fulfilling the BEB self-consistency, reducing to CPA for rank-one unit hopping; truncation and partition of the spectral decomposition reconstruct the matrix.",
 ["inputs", "configurations"], "hopping matrices 1x1..3x3 over a small entry alphabet x self-energies x z x lattices x diag/full x concentrations",
 "Tests check few random cases.", ["gftool/beb.py", "gftool/matrix.py"], [("spectral decomposition of hopping, truncated and full branches", "gftool/beb.py")], ["return values"])

prop("C21", "Matrix decompositions reconstruct functions of every admissible matrix",
 "decompose_mat/sym/her satisfy rv @ diag(eig) @ rv_inv = mat and reconstruct(f(eig)) = f(mat) in full, diagonal and einsum form for every diagonalisable matrix, any batch shape and any number of eigenvalue sets; symmetric decompositions are orthogonal, Hermitian ones unitary with ascending real eigenvalues; non-symmetric/non-Hermitian input raises ValueError when checked; gf_2x2_z equals the diagonal of the 2x2 resolvent (or its Hilbert transform); singular values are sorted descending per matrix.",
 ["inputs", "configurations"], "all 1x1, 2x2 and 3x3 matrices over small entry alphabets, batches, frequency axes",
 "Tests use random matrices of one size.", ["gftool/matrix.py"], [("eig/eigh with normalisation, broadcasting reconstruct", "gftool/matrix.py")], ["return values, raised exceptions"])

prop("C22", "Constrained least squares and orthogonal complements are optimal and exact",
 "orth_compl(mat) has orthonormal rows that annihilate mat and the maximal rank; lstsq_ec(a, b, c, d) returns x with c x = d exactly that minimises |a x - b| over all such x, for real and complex data, over- and under-determined a, any number of constraints from none to all, redundant consistent constraints included; inconsistent or malformed constraints raise instead of returning a wrong answer.",
 ["inputs", "configurations"], "shapes m 1..5, n 0..4, l 0..n x entry alphabets x real/complex x batch (orth_compl)",
 "Tests use random full-rank matrices of one shape.", ["gftool/linalg.py"], [("null-space method via complete QR", "gftool/linalg.py")], ["return values, raised exceptions"])

prop("C23", "Non-interacting SIAM functions equal exact diagonalisation",
 "For every bath, hybrid_z and gf0_loc_z equal the impurity element of the resolvent of hamiltonian_matrix, which is Hermitian with the given entries, and the retarded/greater/lesser time functions equal matrix exponentials with Fermi weights, obeying G_ret = theta(t) (G_gr - G_le), for every batch shape, complex hopping and number of bath sites.",
 ["inputs", "configurations"], "bath sizes 0..3 x energies/hoppings from small alphabets incl. zero, degenerate, complex, integer typed x times of both signs x beta x z",
 "Tests use random real hopping.", ["gftool/siam.py", "gftool/basis/pole.py", "gftool/matrix.py"], [("hamiltonian construction, decomposition, truncated reconstruct", "gftool/siam.py")], ["return values"])

prop("C24", "Linear prediction reproduces autoregressive signals",
 "For signals that obey a linear recurrence, pcoeff_covar recovers coefficients with vanishing error and predict continues the signal exactly for every order, length, number of steps (including 0) and batch shape; companion has the polynomial's roots as eigenvalues; pcoeff_burg returns the minimiser of forward+backward error stage by stage with |roots| <= 1; stable prediction equals the plain prediction with growing modes removed and invalid requests raise ValueError.",
 ["inputs", "configurations"], "recurrence orders 1..3 over root alphabets (inside/on/outside unit circle, complex) x lengths x prediction orders x num 0..6 x stable x batch",
 "Tests use one signal.", ["gftool/linearprediction.py"], [("covariance/Burg recursion, companion matrix decomposition", "gftool/linearprediction.py")], ["return values, raised exceptions"])

prop("C25", "Thiele-Pade continued fractions interpolate every prefix of the data",
 "For every data set, coefficients together with calc_iterator produce approximants whose k-th element takes the given values at the first k+1 input points, rational functions of matching degree are continued exactly everywhere, and batched functions are treated element-wise; masked coefficients agree with the plain ones where no coefficient is eliminated; mismatched shapes raise ValueError.",
 ["inputs", "configurations"], "rational functions with up to 3 poles over a small alphabet x point sets (Matsubara, real, complex; length 2..10) x batches x extended precision",
 "Tests compare with an old implementation.", ["gftool/pade.py"], [("Thiele recursion in extended precision, forward evaluation", "gftool/pade.py: coefficients, masked_coefficients, calc_iterator")], ["return values"])

prop("C26", "Pade averaging uses exactly the selected valid approximants",
 "KindGf/KindSelf select exactly the approximants with even/odd tails in the documented range; every filter keeps exactly the approximants its criterion admits (alone or chained, single or batched); averages and errors are the mean and sample standard deviation over exactly the kept approximants, and an empty selection or NaN approximants raise RuntimeError.",
 ["inputs", "configurations"], "n_min, n_max in 1..12 x filters and thresholds/keeps x all orderings of small synthetic approximant sets x batches",
 "Tests run one or two smoke cases.", ["gftool/pade.py"], [("selector slices, filter closures, masked nan-mean", "gftool/pade.py: Kind*, Filter*, apply_filter, Averager, Mod_Averager, averaged, avg_no_neg_imag")], ["return values, raised exceptions"])

prop("C27", "Pole-based Pade recovers rational functions and reports what it used",
 "For data of a rational function with few poles, number_poles terminates with its pole count, continuation returns its poles, zeros, residues and asymptotic amplitude, given moments are satisfied exactly, both evaluation forms agree with the function away from the data, and degree>0 or under-determined requests raise; rotation and weights do not change the result.",
 ["inputs", "configurations"], "pole counts 1..4 over an alphabet x degree in {-2,-1,0} x number of points (odd/even) x weights x moments x rotate x n_poles0",
 "Tests use random functions with one size.", ["gftool/polepade.py", "gftool/linalg.py"], [("null-space dimension search, generalised eigenproblem, constrained residue fit", "gftool/polepade.py")], ["returned approximant, raised exceptions"])

prop("C28", "Taylor Pade and Hermite-Pade approximants satisfy their order conditions",
 "pade, pade_lstsq, pader satisfy q*f - p = O(x^(num_deg+den_deg+1)) with the requested degrees for every admissible degree pair and recover rational functions exactly; hermite2 and hermite2_lstsq satisfy p + q f + r f^2 = O(x^(sum of degrees+2)) and the branch evaluation returns both roots, the selected branch being the one matching the function; too few coefficients raise ValueError; fast, rcond and fixed-coefficient options do not change the approximant.",
 ["inputs", "configurations"], "all coefficient vectors over small alphabets up to length 7 plus classical series x all degree pairs/triples with sum <= 6 x options",
 "Tests check a few analytic series.", ["gftool/hermpade.py", "gftool/basis/__init__.py"], [("Toeplitz null vectors, robust degree reduction, discriminant branches", "gftool/hermpade.py")], ["returned polynomials, values"])

prop("C29", "Model Green's functions equal exact solutions",
 "hubbard_dimer_gf_z equals the exact-diagonalisation Green's function of the half-filled Hubbard dimer for both bonding kinds and every hopping and interaction, hubbard_I_self_z reproduces the atomic-limit Green's function, surface_gf_zeps equals the recursion limit of a semi-infinite chain; zero-pole and rational-polynomial containers evaluate, invert and convert to the same function for any number of zeros and poles.",
 ["inputs", "configurations"], "t, U of both signs incl. 0 x z grid x kinds x occupations; zeros/poles sets of size 0..3 over an alphabet x amplitude",
 "Tests check spectral weight only.", ["gftool/__init__.py", "gftool/basis/__init__.py"], [("closed forms", "gftool/__init__.py")], ["return values, raised exceptions"])

prop("C30", "Functions are pure: no input mutation, no dependence on call history",
 "No public numerical function modifies the arrays or objects passed to it, results do not alias its inputs or each other, and the value returned for given arguments is the same whatever calls (with other or equal arguments, shapes or failed calls) preceded it or preempted it, and whatever the caller did to previously returned arrays; an error raised by a user callback reaches the caller and leaves arguments and later results untouched; global settings (numpy error state, mpmath precision, random state, warning filters) are as before the call.",
 ["histories", "inputs"], "all histories A-B-A over the catalogue of public calls (each call before and after every other), with returned arrays overwritten in between, one preempting call at every executed source line, and a callback fault at each of its calls",
 "Tests call each function once on fresh data; hidden state shows only in sequences.",
 ["gftool"], [("functions allocate fresh results; module-level constants are read-only by convention", "gftool/*")], ["arguments after the call", "repeated results"],
 [("module-level coefficient tables and partials", "shared between calls", "gftool/lattice/*.py, gftool/fourier.py")])

prop("C31", "Batched calls equal element-wise calls for every admissible shape",
 "Every function documented to broadcast or to act on the last axis returns, for any leading shape (including none, length-1 and length-0 axes, and mixed broadcastable shapes), exactly the stacked results of the separate calls, with the documented output shape, independent of the length of the stack, of memory layout (C, Fortran, strided, reversed), and of the floating type that carries the same numbers (within the precision of this type).",
 ["inputs", "configurations"], "catalogue of broadcasting functions x batch shapes (), (1,), (2,), (3,), (2,1), (2,3), (0,), stacks up to 1e5 elements x memory layouts x floating types",
 "Tests use one or two shapes for few functions.", ["gftool"], [("numpy broadcasting with explicit newaxis; np.vectorize signatures", "gftool/*")], ["return values and shapes"])

prop("C32", "Analytic continuation of noisy data is accurate",
 "For input data with statistical noise, Pade-type continuations stay close to the true spectral function.",
 ["inputs"], "all noise realisations", "The problem is ill-posed; no deterministic bound exists.",
 ["gftool/pade.py", "gftool/polepade.py"], [("averaging and filtering heuristics", "gftool/pade.py")], ["spectra"])

prop("C33", "Results do not depend on the units of energy and data, nor on the origin",
 "Scaling all energies (frequencies, half-bandwidths, poles, hoppings, on-site energies, documented widths and tolerances) by any positive factor and all times and inverse temperatures by its inverse scales every result by the power of the factor given by its dimension: "
 "Green's functions and DOS by -1, their derivatives by -2 and -3, self-energies and frequencies by +1, occupations, residues and time-dependent Green's functions not at all; scaling the data of linear functions (weights, residues, moments, Green's functions to transform, fit, predict or continue) scales the results linearly. "
 "Moving the origin of energy (z, poles, on-site and bath energies by the same shift) leaves Green's functions unchanged and moves self-energies, poles and chemical potentials along. This holds for tiny and huge units, so no function contains hidden absolute scales.",
 ["inputs", "configurations"], "about 75 groups of public functions x units of energy 2^-100..2^100 x units of data 2^-30..1e12 x argument sets; 11 groups x shifts of the origin up to 4096",
 "Tests use energies of order one, where a hidden absolute scale has no effect.",
 ["gftool"], [("division by half_bandwidth before evaluation, relative tolerances", "gftool/lattice/*.py, gftool/beb.py SpecDec.truncate, gftool/pade.py, gftool/linalg.py")], ["return values"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
