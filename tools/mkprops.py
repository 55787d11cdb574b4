"""Writes properties.jsonl and MANIFEST.json from the table below and hfv/config.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/hfv')
import config as C
I, CF, HI = 'inputs', 'configurations', 'histories'
L = 'libhelfem/include/'
S = 'libhelfem/src/'
P = []


def prop(id, title, st, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None)))


prop('C01', 'Global numbering of finite-element functions is gap-free and shared correctly',
     'For every mesh, primitive family and choice of end boundary conditions, the first element\'s functions start at index 0, each element owns a contiguous index range whose length is the number of functions its evaluation returns, consecutive elements share exactly the family\'s overlap, and the total count is one past the last index. Boundary conditions change only the first and last element, a one-element mesh gets both. Adding a boundary renumbers the mesh by the same rule.',
     [I, CF, HI], 'all meshes (any number of elements), all primitive families, all four boundary-condition flags, all sequences of boundary insertions',
     'The stable tests construct a handful of fixed meshes for primitive-basis checks and never look at the numbering.',
     [S + 'FiniteElementBasis.cpp', L + 'FiniteElementBasis.h'],
     [('update_bf_list / get_basis / get_idx / get_nbf', S + 'FiniteElementBasis.cpp')], ['get_idx', 'get_nbf', 'get_nprim'])
prop('C02', 'Element coordinate maps, point location and mesh refinement are exact',
     'For every mesh the map from reference to real coordinates sends [-1,1] affinely onto the element, its inverse undoes it and rejects points outside the element, and whole-mesh grids and weights list the elements in order with weights scaled by half the element length. A point inside the mesh is located in an element that contains it and points beyond the ends in the nearest end element. Adding a boundary yields exactly the sorted union of old and new boundaries, and an already present boundary changes nothing.',
     [I, HI], 'all meshes, all points, all elements, all sequences of insertions',
     'No stable test evaluates these maps for general meshes or locates points.',
     [S + 'FiniteElementBasis.cpp'], [('eval_coord / eval_prim / eval_weights / find_element / add_boundary / element_*', S + 'FiniteElementBasis.cpp')],
     ['eval_coord', 'eval_prim', 'find_element', 'get_bval'])
prop('C03', 'Each primitive family\'s n-th derivative is the derivative of its (n-1)-th',
     'For every primitive polynomial family, node set and derivative order the family supports, the returned n-th derivative of every function is the exact derivative with respect to the reference coordinate of the returned (n-1)-th derivative, including the element-size factors of the Hermite families, at every point including the nodes. Unsupported orders are rejected.',
     [I, CF], 'all reference points, all numbers and positions of nodes, all families, all supported derivative orders',
     'Tests compare a few orders at sample points for three node counts.',
     [L + 'LIPBasis_eval.h', L + 'HIPBasis_eval.h', L + 'HIP2Basis_eval.h', L + 'HIP3Basis_eval.h', L + 'LegendreBasis.h', L + 'PolynomialBasisT.h'],
     [('eval_prim_dnf / generated eval tables', L + 'LIPBasis_eval.h')], ['eval_dnf'])
prop('C04', 'Nodal functions interpolate: unit at their own node, zero at all others',
     'For the Lagrange family every function is one at its own node and zero at the other nodes; for the Hermite families of order k the functions likewise take exactly the unit value or (element-scaled) derivative they stand for and zero for every other nodal value and derivative up to order k; Legendre shape functions vanish at both ends except the two end functions. Functions shared by neighbouring elements therefore agree in value and all shared derivatives at the common boundary.',
     [I, CF], 'all node sets with distinct nodes, all element sizes',
     'Tests evaluate three node counts only and never nodal derivatives.',
     [L + 'LIPBasis_eval.h', L + 'HIPBasis_eval.h', L + 'HIP2Basis_eval.h', L + 'HIP3Basis_eval.h', L + 'LegendreBasis.h'],
     [('eval_lip_* / eval_hip*_raw', L + 'HIPBasis_eval.h')], ['eval_dnf', 'check_bf_continuity'])
prop('C05', 'Boundary conditions remove exactly the functions that violate them',
     'For every primitive family, dropping at the left (right) end with the function and derivative flags removes exactly the functions that carry a nonzero value (function flag) or nonzero supported derivative (derivative flag) at that end and keeps every other one in order; with neither flag nothing changes. The families without derivative functions (Lagrange, Legendre) ignore the derivative flag. Every function kept after dropping a function or derivative flag the family supports satisfies that boundary condition.',
     [I, CF], 'all families, all numbers of nodes, all flag combinations, left then right',
     'Only the function-zero case at the left end is exercised by tests.',
     [L + 'LIPBasis.h', L + 'HIPBasis.h', L + 'HIP2Basis.h', L + 'HIP3Basis.h', L + 'LegendreBasis.h'],
     [('drop_first / drop_last', L + 'HIPBasis.h')], ['get_enabled', 'eval_dnf'])
prop('C06', 'Basis functions divided by r are exact on the first element',
     'For every primitive family that supports it, node set and derivative order, the returned values of B(r)/r and its r-derivatives on an element starting at the origin equal the quotient of the family\'s functions by r (and its derivatives) for r>0 and its finite limit at r=0, for exactly the functions that survive the zero-value condition at the origin and in the same order. Elements that do not start at the origin are rejected.',
     [I, CF], 'all points including r=0, all node sets, all element sizes, all supported orders',
     'The over_r test samples three node counts away from the limits.',
     [L + 'LIPBasis.h', L + 'HIPBasis_over_r.h', L + 'HIP2Basis_over_r.h', L + 'HIP3Basis_over_r.h', L + 'LegendreBasis.h'],
     [('eval_over_r', L + 'LIPBasis.h')], ['eval_over_r'])
prop('C07', 'Radial grids start at zero, end at the requested radius and increase',
     'For every grid kind (linear, quadratic, polynomial, exponential, geometric), number of elements and positive parameters, the generated element boundaries are one more than the number of elements, start exactly at zero, end exactly at the requested radius, strictly increase and follow the stated formula of the kind; unknown kinds and geometric ratios outside (0,1) are rejected. Concatenating an inner and an outer grid keeps the inner grid, appends the outer grid shifted to its end and repeats no boundary; a finite-nucleus grid resolves the nucleus with its own elements and still ends at the requested radius; an off-centre grid has boundaries at the nuclei; inserting a confinement radius adds exactly that boundary, keeps all the others and the order, and is a no-op if it is already present.',
     [I, CF], 'all element counts, radii, exponents and grid kinds',
     'No stable test builds grids.',
     [L + 'grid.h', S + 'grid.cpp', 'src/atomic/basis.cpp'], [('get_grid / form_grid / concatenate_grid', S + 'grid.cpp')], ['get_grid'])
prop('C08', 'Matrix and vector assembly equals the sum of element quadratures',
     'For every mesh, weight function and pair of basis-function evaluators, an element block is the quadrature sum of the products of the evaluated functions with weights scaled to the element (or to the requested sub-range), a non-finite weight value contributes zero, and the mesh matrix or vector is the sum of the element blocks placed at their index ranges. Evaluation on the whole mesh places each element\'s functions in its own rows and columns and zero elsewhere. Converged integrals split the element at every interior breakpoint, given in any order, and add up all panels.',
     [I, CF], 'all meshes, rules, weight functions, evaluators and breakpoint lists',
     'No stable test assembles a matrix.',
     [S + 'FiniteElementBasis.cpp'], [('matrix_element / vector_element / eval_dnf / matrix_element_auto', S + 'FiniteElementBasis.cpp')],
     ['matrix_element', 'vector_element', 'eval_dnf'])
prop('C09', 'Radial one-electron operators integrate the stated integrand',
     'For every radial basis, element, angular order and power, each radial one-electron matrix equals the integral of its stated integrand: overlap B_i B_j, kinetic 1/2 B_i\' B_j\', centrifugal 1/2 B_i B_j/r^2, nuclear attraction -B_i B_j/r, radial moments B_i B_j r^n over the requested part of the element, model potential B_i B_j V(r) split at the kinks the model reports, Bessel-weighted integrals, and the multipole terms of an off-centre nucleus (which is rejected inside an element). Projections between two radial bases integrate the product of functions of both over their common range, with the requested derivatives. Radial functions evaluated on an element are B(r)/r and its first and second derivatives, whether or not they come from the quadrature cache; orbitals are their linear combinations and zero beyond the last boundary; density, density slope and orbitals at the nucleus follow from the derivatives of B at r=0.',
     [I, CF], 'all meshes, families, elements, exponents',
     'No stable test evaluates radial operators.',
     [S + 'RadialBasis.cpp', L + 'RadialBasis.h'], [('FEMRadialBasisT operators', S + 'RadialBasis.cpp')], ['overlap', 'radial_integral', 'kinetic', 'nuclear'])
prop('C10', 'Confinement potentials have their stated form and invalid settings are rejected',
     'For every confinement kind, strength, exponent and onset radius s, the confinement matrix of every element is the integral of B_i B_j with the stated potential: polynomial +-((r-s)/|r0|)^N (attractive for negative r0; for negative N, only without onset, |r0|^N r^N), exponential N!(exp(x)-sum_{k<N} x^k/k!) with x=(r-s)/|r0|, barrier V, or Junquera V exp(-(rc-s)/(r-s))/(rc-r)^N with rc the last element boundary; it is zero for r<s, and an onset inside an element does not spoil the accuracy. A divergent polynomial with an onset, non-positive N for the exponential and Junquera forms, attractive barrier or Junquera strengths and unknown kinds are rejected.',
     [I, CF], 'all kinds, exponents, shift radii and radii',
     'No stable test touches confinement.',
     [S + 'RadialBasis.cpp'], [('confinement_potential and the four potential forms', S + 'RadialBasis.cpp')], ['confinement matrices'])
prop('C11', 'Exchange-ordered two-electron integrals are a faithful permutation',
     'For every two-electron integral table (ij|kl) stored with compound row and column indices (first index fastest), the exchange-ordered table contains at row (j,k), column (i,l) exactly the integral (ij|kl), for all four possibly different index ranges; the permutation loses and duplicates no entry. Tables whose size does not match the index ranges are rejected.',
     [I], 'all table sizes and contents',
     'No stable test calls it with unequal index ranges.',
     [S + 'utils.cpp'], [('exchange_tei', S + 'utils.cpp')], ['exchange_tei'])
prop('C12', 'Coulomb and exchange matrices contract the density with the right integrals',
     'For every finite-element radial basis, multipole order L and density matrix P, the assembled Coulomb matrix element (i,j) is the sum over all (k,l) of P(k,l) times the radial integral (ij|kl), and the exchange element is the sum of P(k,l) times (ik|jl), including both the contribution of pairs inside one element and that of different elements, with the kernel r_<^L/r_>^(L+1), its screened (Yukawa) counterpart i_L(lambda r_<) k_L(lambda r_>), or, for exchange, the range-separated kernel. This holds alike for the uncached, cached, pairwise and Cholesky-factored assembly and for the cached tables they use. The results are linear in the density and symmetric for symmetric densities.',
     [I, CF], 'all bases, meshes, multipoles and density matrices',
     'No stable test builds Coulomb or exchange matrices.',
     ['libhelfemqc/include/CoulombExchangeFE.h', S + 'quadrature.cpp'], [('assemble_J / assemble_K', 'libhelfemqc/include/CoulombExchangeFE.h'), ('twoe_integral', S + 'quadrature.cpp')], ['assemble_J_FE_one_multipole', 'assemble_K_FE_one_multipole'])
prop('C13', 'Nuclear and model potentials have their stated radial form',
     'For every nuclear charge, size parameter and radius, the point, Gaussian, uniformly-charged-sphere and hollow-shell nuclear models return their stated potential, equal -Z/r outside the nucleus (-Z erf(mu r)/r for the Gaussian), are continuous at the nuclear radius and finite at the origin, derive their size parameter from the rms radius as stated, and report the nuclear radius as a breakpoint exactly when it lies strictly inside the queried interval. The regularized nucleus is the potential of its normalised 1s function. The Green-Sellin-Zachor effective charge uses the tabulated parameter of its own element and Green\'s formula, the Thomas-Fermi and tabulated (SAP) effective charges go from the nuclear charge at the nucleus continuously to their neutral tail, and every model potential is minus effective charge over r. The model factory returns the requested model.',
     [I, CF], 'all charges, radii and model parameters',
     'No stable test evaluates the models.',
     ['libhelfemqc/src/PointNucleus.cpp', 'libhelfemqc/src/GaussianNucleus.cpp', 'libhelfemqc/src/SphericalNucleus.cpp', 'libhelfemqc/src/HollowNucleus.cpp', 'libhelfemqc/src/RegularizedNucleus.cpp', 'src/general/model_potential.cpp', 'src/general/gsz.cpp', 'src/general/sap.cpp'], [('V(r) of every model', 'libhelfemqc/src/GaussianNucleus.cpp'), ('effective charges', 'src/general/gsz.cpp')], ['V(r)'])
prop('C14', 'Electron counts are parsed consistently',
     'For every nuclear charge, net charge, multiplicity and explicit spin-channel count the resulting numbers of alpha and beta electrons add up to the total, differ by multiplicity minus one and are non-negative with at least as many alpha as beta; inconsistent or impossible requests (wrong parity, multiplicity below one, too few electrons, negative or beta-heavy explicit counts) and only those are rejected with an error. Explicit counts are returned unchanged and set charge and multiplicity accordingly.',
     [I], 'all integers for charge, multiplicity and counts',
     'No stable test calls the parser.',
     ['src/general/scf_helpers.cpp'], [('parse_nela_nelb', 'src/general/scf_helpers.cpp')], ['parse_nela_nelb'])
prop('C15', 'Element tables and atomic data look-ups are consistent and bounds-safe',
     'For every element symbol, in any letter case, the returned atomic number is that of the symbol and the symbol table inverts it, numbers stand for themselves, the empty symbol means no nucleus, and every other word is rejected with an error. The number of orbitals guessed for a pair of atoms is the number of shells started by each atom, per |m|. Screening-parameter tables are never read outside their length: charges outside the table are rejected.',
     [I], 'all atomic numbers and all strings',
     'No stable test looks up more than a few entries.',
     ['src/general/elements.cpp', 'src/general/gsz.cpp'], [('get_Z / element_symbols / GSZ_parameters', 'src/general/elements.cpp')], ['get_Z', 'GSZ_parameters'])
prop('C16', 'Angular channels are listed once and symmetry blocks partition the basis',
     'For every angular cutoff the list of angular channels contains each admissible (l,m) pair exactly once, within |m|<=l, and the symmetry-adapted index lists partition the full set of basis functions: no index missing, none in two blocks, each in the block of its own quantum numbers. Compound and per-channel index helpers address disjoint, contiguous radial blocks.',
     [I, CF], 'all cutoffs, radial sizes and symmetry levels',
     'No stable test enumerates channels.',
     ['src/general/angular.cpp', 'src/general/angular_index_helpers.h', 'src/general/radial_block_helper.h'], [('angular basis and index helpers', 'src/general/angular_index_helpers.h')], ['angular_basis', 'm_indices'])
prop('C17', 'Checkpoint files give back what was written',
     'Every scalar, string, vector, matrix and basis stored in a checkpoint under a name is returned bit-identically by the corresponding read, storing again under the same name replaces the old value, entries under other names are unaffected, and reading a missing or differently typed entry is rejected.',
     [I, HI], 'all values, shapes (including empty), names and sequences of writes and reads',
     'No stable test writes a checkpoint.',
     ['src/general/checkpoint.cpp'], [('Checkpoint::write / read', 'src/general/checkpoint.cpp')], ['read', 'write', 'exist'])
prop('C18', 'Range-separated (erfc) multipole expansion follows its recurrence',
     'For every multipole order and pair of radii the computed kernel of the short-range Coulomb operator equals its defining closed form, is symmetric under exchange of the two radii, and the small-argument series and the closed-form branch agree where they meet.',
     [I], 'all orders and radii',
     'No stable test evaluates the expansion.',
     [S + 'erfc_expn.cpp'], [('Phi / Phi_short / Phi_long', S + 'erfc_expn.cpp')], ['Phi'])
prop('C19', 'Legendre polynomials and Gauss-Lobatto rules satisfy their defining relations',
     'For every order and argument the Legendre polynomials and their derivatives satisfy the three-term recurrence, the differential relation and the end-point values; the Gauss-Lobatto rule for n points has nodes in increasing order with both end points, symmetric positive weights that sum to two and integrates polynomials up to degree 2n-3.',
     [I], 'all orders and arguments',
     'Tests sample a few orders.',
     [L + 'legendre_poly.h', L + 'lobatto.h', L + 'chebyshev.h'], [('legendre_prime / lobatto_compute', L + 'lobatto.h')], ['lobatto_compute'])
prop('C20', 'Contracted numerical-orbital bases transform operators congruently',
     'For every underlying radial basis and contraction matrix C, each one-electron operator of the contracted basis is C^T M C of the underlying operator, its Coulomb and exchange matrices (bare and screened) are C^T A(C_o D C_o^T) C with the other basis\' contraction C_o, functions evaluated in it are the same linear combinations, and the size reported is the number of columns of C. A missing underlying basis, a contraction with the wrong number of rows or no columns, orbital coefficients or densities of the wrong shape, bases over different or non-finite-element underlying bases and a non-positive screening parameter are rejected with an error.',
     [I, CF], 'all underlying bases, contraction matrices, densities and operators',
     'No stable test uses contracted bases.',
     ['libhelfemqc/include/NAORadialBasis.h'], [('NAORadialBasis operators', 'libhelfemqc/include/NAORadialBasis.h')], ['overlap', 'kinetic', 'coulomb_radial'])
prop('C21', 'Orthonormalisation and generalized eigensolutions satisfy their equations',
     'For every symmetric positive-definite overlap and symmetric operator, the half-inverse overlap orthonormalises the overlap, the generalized eigenvectors are overlap-orthonormal, satisfy the eigenvalue equation with ascending eigenvalues, and solutions found block by block are those of the full problem restricted to the blocks.',
     [I], 'all matrices',
     'No stable test solves eigenproblems.',
     ['src/general/scf_helpers.cpp', S + 'utils.cpp'], [('eig_gsym / form_Sinvh / invh', 'src/general/scf_helpers.cpp')], ['eig_gsym', 'invh'])
prop('C22', 'The exchange-correlation potential matrix is the derivative of the exchange-correlation energy, and every grid point counts once',
     'For every grid (spherically averaged atom, atomic, diatomic and its pure-m variant), density matrix and functional class (LDA, GGA, meta-GGA with kinetic energy density and/or Laplacian), the integrated electron number, energy and checksums are weighted sums over all grid points, each counted once: the electron number is the trace of the density with the overlap and the kinetic-energy checksum the trace with the kinetic energy; the density, its gradient, kinetic energy density and Laplacian are the contractions of the density matrix with the basis functions; and the potential matrix returned is the derivative of the returned energy with respect to the density matrix. Restricted and unrestricted runs agree for equal spin densities, exchanging the spins exchanges the results, requesting only the alpha potential or only the energy changes nothing else, points below the density threshold contribute nothing, and the pure-m grid reproduces the full one.',
     [I, CF], 'all grids, densities and functionals',
     'No stable test runs the density-functional grid.',
     ['src/general/dftgrid_common.cpp', 'src/general/dftgrid_common.h', 'src/sadatom/dftgrid.cpp', 'src/atomic/dftgrid.cpp', 'src/diatomic/dftgrid.cpp', 'src/diatomic/dftgrid_purem.cpp'],
     [('DFTGridWorkerBase', 'src/general/dftgrid_common.cpp'), ('eval_Fxc / update_density', 'src/atomic/dftgrid.cpp')], ['compute_xc', 'eval_Exc', 'eval_Fxc', 'update_density'])

prop('C23', 'Angular couplings are the integrals of spherical harmonics',
     'For every set of angular momentum windows and every l, m the coefficient looked up in the table is the integral of Y_L^M* Y_l^m Y_l\'^m\' over the sphere, zero when an index is outside its angular window or breaks a selection rule, and an error when |M| or |m| exceeds the stored window; the couplings through cos, cos^2, cos^3, cos^4, cos^5, sin^2, cos^2 sin^2 and the modified coefficient (through cos^2) are the integrals of the two (three) spherical harmonics with that factor; and the spherical harmonics themselves are orthonormal with the Condon-Shortley phase.',
     [I, CF], 'all angular momenta, projections and table windows',
     'No stable test evaluates a coupling coefficient.',
     ['src/general/gaunt.cpp', 'src/general/gaunt.h', 'src/general/spherical_harmonics.cpp'], [('GauntT::coeff / slot / mod_coeff / couplings', 'src/general/gaunt.cpp')], ['coeff', 'mod_coeff', 'cosine_coupling'])
prop('C24', 'Atomic one-electron operators combine radial integrals with the right angular factors',
     'For every atomic basis (radial mesh, list of l, m channels) the overlap (also between two bases), kinetic, nuclear (central charge of any nuclear model plus two off-centre charges), model-potential, confinement, dipole, quadrupole and magnetic-field matrices equal the matrix elements of the operator between functions B(r)/r Y_lm: the assembled radial integral times the angular coupling of the two channels, zero between channels that do not couple; values and derivatives of the basis functions and the index lists of an element agree with the functions; block-wise orthonormalisation stays within symmetry blocks.',
     [I, CF], 'all meshes, channel lists, charges, fields and operators',
     'No stable test builds an atomic operator.',
     ['src/atomic/TwoDBasis.cpp', 'src/general/radial_block_helper.h'], [('TwoDBasisT operators', 'src/atomic/TwoDBasis.cpp'), ('assemble_radial_diagonal', 'src/general/radial_block_helper.h')], ['overlap', 'kinetic', 'nuclear', 'dipole_z', 'Bz_field'])
prop('C25', 'Atomic and spherically averaged Coulomb and exchange matrices contract the density with the two-electron integrals',
     'For every atomic basis and density matrix the Coulomb (exchange) matrix of the atomic program equals the contraction of the density with the two-electron integrals in the basis B(r)/r Y_lm, also range-separated; the spherically averaged program gives 4 pi times the monopole Coulomb matrix and the m-averaged exchange; density-fitting factors reproduce the radial two-electron integrals; Slater-Condon integrals are the stated traces; calls before the integrals are computed or with mismatched sizes are rejected.',
     [I, CF, HI], 'all bases, densities, screening parameters and call orders',
     'No stable test builds a Fock matrix.',
     ['src/atomic/TwoDBasis.cpp', 'src/sadatom/basis.cpp'], [('coulomb / exchange / rs_exchange / radial_df_factors', 'src/atomic/TwoDBasis.cpp'), ('coulomb / exchange / slater_F', 'src/sadatom/basis.cpp')], ['coulomb', 'exchange', 'slater_F'])
prop('C26', 'Diatomic one-electron operators are the matrix elements in prolate spheroidal coordinates',
     'For every diatomic basis (bond length, mesh in mu, list of l, m channels with their boundary behaviour) the overlap, kinetic, nuclear attraction, dipole, quadrupole and magnetic-field matrices equal the matrix elements of the operator between functions B(mu) Y_lm with the volume element Rhalf^3 sinh(mu)(cosh^2(mu)-cos^2(theta)); only functions that satisfy the boundary conditions are kept, expanding and removing the boundary functions are inverse; values and derivatives of the functions agree with B Y.',
     [I, CF], 'all bond lengths, charges, meshes, channel lists and fields',
     'No stable test builds a diatomic operator.',
     ['src/diatomic/basis.cpp', 'src/diatomic/quadrature.cpp'], [('TwoDBasis operators', 'src/diatomic/basis.cpp')], ['overlap', 'kinetic', 'nuclear', 'dipole_z', 'quadrupole_zz', 'Bz_field', 'eval_bf'])
prop('C27', 'Diatomic Coulomb and exchange matrices contract the density with the Neumann-expanded two-electron integrals',
     'For every diatomic basis and density matrix the Coulomb and exchange matrices equal the contraction of the density with the two-electron integrals of the basis functions, using the Neumann expansion of 1/r12 (4 pi Rhalf^5 (-1)^M (L-|M|)!/(L+|M|)! P_L|M|(mu<) Q_L|M|(mu>) and the spherical harmonics); the result is the same when matrices are known to be equal for m and -m and only one is formed; use before the integrals are computed is rejected.',
     [I, CF, HI], 'all bases, densities and call orders',
     'No stable test builds a diatomic Fock matrix.',
     ['src/diatomic/basis.cpp', 'src/diatomic/quadrature.cpp'], [('compute_tei / coulomb / exchange', 'src/diatomic/basis.cpp'), ('twoe_element / twoe_integral', 'src/diatomic/quadrature.cpp')], ['coulomb', 'exchange'])
prop('C28', 'Spherically averaged atoms: densities, orbitals, screening and radii describe the density matrix',
     'For every radial basis and radial density matrix the tabulated radii, weights, orbitals (with derivatives), density, density derivatives and kinetic energy density are those of the density matrix at the grid points, one nucleus entry first; the weights integrate the density to the trace of density and overlap; the screening function is r times the electrostatic potential; the radius that encloses all but eps electrons, the radius of maximal density and the van der Waals radius (density equal to the threshold) satisfy their definitions.',
     [I, CF], 'all meshes, densities, orbitals and thresholds',
     'No stable test evaluates densities or radii.',
     ['src/sadatom/basis.cpp'], [('electron_density / orbitals / coulomb_screening / vdw_radius', 'src/sadatom/basis.cpp')], ['electron_density', 'coulomb_screening', 'vdw_radius'])

if __name__ == '__main__':
    with open(V + '/properties.jsonl', 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    ck, na = [], []
    for p in P:
        c = C.PROPS.get(p['id'])
        if c:
            ck.append(dict(property=p['id'], quick_cmd='VERIF_TIER=quick python3-vt check.py ' + p['id'], thorough_cmd='VERIF_TIER=thorough python3-vt check.py ' + p['id'],
                           technique=c.get('technique', 'contract-based deductive verification (symbolic execution of the extracted real code against function contracts, normal-form + z3)'),
                           level=c.get('level', 'proof'),
                           level_note=c.get('note', 'Every obligation generated from the current source is discharged for all inputs (real arithmetic for floating point; see evidence assumptions). A run-time contract harness compiled from the same source audits the assumptions and finds failing inputs; it is bounded and not counted as proof.')))
        else:
            na.append(dict(property=p['id'], reason=C.NA.get(p['id'], 'no check built yet')))
    json.dump(dict(version=1, setup_cmd='python3-vt check.py --setup', checks=ck, not_applicable=na,
                   notes='See DESIGN.md. No hooks in /repo.'), open(V + '/MANIFEST.json', 'w'), indent=1)
