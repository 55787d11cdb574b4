"""Per-property configuration: proof modules, harnesses, assumptions."""
FEM = ['libhelfem/src/*.cpp']
TRUSTED = ['clang 18 front end and the IR extractor hfv/hfx.cpp', 'symbolic executor and normal-form prover hfv/*.py',
           'z3 4.x', 'contracts assumed for libstdc++ and Eigen operations (hfv/lib.py)']
ASSUME = ['floating-point arithmetic is treated as exact real arithmetic', 'machine integers are treated as mathematical integers',
          'denominators that occur in the code are nonzero', 'proofs read the T=double instantiation; other scalar types share the same template text',
          'OpenMP parallel loops are treated as sequential', 'standard-library and Eigen operations satisfy the contracts in hfv/lib.py',
          'callbacks (std::function arguments) are pure and pointwise']


def fe(arg):
    return dict(src='h_fe.cpp', arg=arg, repo=FEM)


def po(arg):
    return dict(src='h_poly.cpp', arg=arg, repo=FEM)


MISC = FEM + ['src/general/scf_helpers.cpp', 'src/general/elements.cpp', 'src/general/gsz.cpp']
NA = {
    'C17': 'Checkpoint reading and writing is a thin layer over the HDF5 C library and the file system; a contract on those external calls would have to assume the round trip it is meant to prove.',
    'C18': 'The expansion kernels are erfc/exp series whose defining relation is an integral identity over transcendental functions; the verifier has no theory for it, and only numeric comparison would remain, which is not this technique.',
    'C19': 'The defining relations of the tabulated rules (orthogonality of Legendre values, nodes of Gauss-Lobatto rules found by Newton iteration) are statements about the limit of floating-point iterations; no contract over exact arithmetic expresses them.',
}
ATOM = dict(src='h_atom.cpp', libs=['-Wl,--unresolved-symbols=ignore-all', '-lxc'],
            repo=FEM + ['src/general/gaunt.cpp', 'src/general/scf_helpers.cpp', 'src/general/spherical_harmonics.cpp', 'src/general/gsz.cpp', 'src/general/sap.cpp', 'src/general/model_potential.cpp', 'src/general/elements.cpp', 'src/general/angular.cpp', 'src/general/dftfuncs.cpp', 'src/atomic/TwoDBasis.cpp', 'src/atomic/basis.cpp', 'src/sadatom/basis.cpp', 'libhelfemqc/src/*.cpp'])
DIAT = dict(src='h_diat.cpp', libs=['-Wl,--unresolved-symbols=ignore-all', '-lxc'],
            repo=FEM + ['src/general/gaunt.cpp', 'src/general/scf_helpers.cpp', 'src/general/spherical_harmonics.cpp', 'src/general/gsz.cpp', 'src/general/sap.cpp', 'src/general/model_potential.cpp', 'src/general/elements.cpp', 'src/diatomic/basis.cpp', 'src/diatomic/quadrature.cpp', 'src/legendre/Legendre.cpp', 'src/general/timer.cpp'])
WIG = 'libwignernj is not installed; the harness links a stand-in for it (harness/stub)'

PROPS = {
    'C01': dict(modules=['pf_fe'], harness=[fe('C01')], assume=['primitive families satisfy their abstract contract (counts of functions kept, index maps); proved per family under C05']),
    'C02': dict(modules=['pf_fe'], harness=[fe('C02')], assume=['termination of the bisection in element location is not proved']),
    'C03': dict(modules=['pf_poly'], harness=[po('C03')], assume=[
        'the n-th derivative of the Lagrange product is n! times the elementary sum over n-subsets of the other nodes (calculus of the product rule, not machine-checked)',
        'Lagrange orders 13-20 are proved in the thorough tier only (same closed form, nested loops); Legendre derivatives are covered by the bounded harness only']),
    'C04': dict(modules=['pf_poly'], harness=[po('C04')], assume=['Legendre end values are covered by the bounded harness only', 'nodes are pairwise distinct']),
    'C05': dict(modules=['pf_poly'], harness=[po('C05')], assume=[]),
    'C06': dict(modules=['pf_poly'], harness=[po('C06')], assume=['Legendre quotients are covered by the bounded harness only']),
    'C07': dict(modules=['pf_grid'], harness=[dict(src='h_grid.cpp', arg='', repo=FEM + ['src/atomic/basis.cpp'])], assume=[
        'strict increase of the power-law, exponential and geometric grids is a lemma over the proved closed form (monotonicity of pow and exp, assumed axioms)']),
    'C08': dict(modules=['pf_fe'], harness=[fe('C08')], assume=[]),
    'C09': dict(modules=['pf_radial'], harness=[dict(src='h_radial.cpp', arg='C09', repo=FEM)], assume=[
        'the finite-element layer satisfies its contracts (proved under C01, C02, C06, C08)',
        'projections between two bases and filling of the quadrature cache are covered by the bounded harness only',
        'Bessel functions are uninterpreted (their values are covered by the bounded harness through an independent quadrature of the same functions)']),
    'C10': dict(modules=['pf_radial'], harness=[dict(src='h_radial.cpp', arg='C10', repo=FEM)], assume=[
        'the finite-element layer satisfies its contracts (proved under C01, C02, C06, C08)', 'element boundaries increase, so the largest boundary is the last']),
    'C11': dict(modules=['pf_misc'], harness=[dict(src='h_misc.cpp', arg='C11', repo=MISC)], assume=[]),
    'C12': dict(modules=['pf_jk', 'pf_quad', 'pf_two'], harness=[dict(src='h_jk.cpp', arg='C12', repo=FEM)], assume=[
        'pivoted Cholesky factors multiply to the table they factorise (bounded harness only)', 'accuracy of the converged rule is covered by the bounded harness only',
        'element matrices of one multipole (radial moments, in-element tables) are arbitrary; the moments are proved under C09',
        'inner and outer factors of one element are symmetric matrices']),
    'C13': dict(modules=['pf_pot'], harness=[dict(src='h_pot.cpp', arg='', repo=FEM + ['src/general/gsz.cpp', 'src/general/sap.cpp', 'src/general/model_potential.cpp', 'libhelfemqc/src/*.cpp'],
                                             libs=['-Wl,--unresolved-symbols=ignore-all'])], assume=[
        'SAP interpolation and the normalisation search of the regularized nucleus are covered by the bounded harness only',
        'the Gaussian series near the origin is proved equal to the truncated Taylor series; its truncation error is covered by the bounded harness']),
    'C14': dict(modules=['pf_misc'], harness=[dict(src='h_misc.cpp', arg='C14', repo=MISC)], assume=[]),
    'C16': dict(modules=['pf_ang'], harness=[dict(src='h_ang.cpp', arg='', repo=FEM + ['src/general/gaunt.cpp', 'src/general/scf_helpers.cpp', 'src/general/spherical_harmonics.cpp', 'src/general/gsz.cpp', 'src/general/sap.cpp',
                'src/general/model_potential.cpp', 'src/general/elements.cpp', 'src/atomic/TwoDBasis.cpp', 'src/atomic/basis.cpp', 'src/diatomic/basis.cpp', 'src/diatomic/quadrature.cpp'],
                libs=['-Wl,--unresolved-symbols=ignore-all'])], assume=[
        'blocks ordered by the distinct m values (std::find and std::sort) are covered by the bounded harness only',
        'libwignernj is not installed; the harness links a stand-in for it (harness/stub)']),
    'C22': dict(modules=['pf_dft'], harness=[dict(src='h_dft.cpp', arg='', repo=FEM + ['src/general/gaunt.cpp', 'src/general/scf_helpers.cpp', 'src/general/spherical_harmonics.cpp', 'src/general/gsz.cpp', 'src/general/sap.cpp',
                'src/general/model_potential.cpp', 'src/general/elements.cpp', 'src/general/angular.cpp', 'src/general/dftfuncs.cpp', 'src/general/dftgrid_common.cpp', 'src/atomic/TwoDBasis.cpp', 'src/atomic/basis.cpp', 'src/atomic/dftgrid.cpp',
                'src/sadatom/basis.cpp', 'src/sadatom/dftgrid.cpp', 'src/diatomic/basis.cpp', 'src/diatomic/quadrature.cpp', 'src/diatomic/dftgrid.cpp', 'src/diatomic/dftgrid_purem.cpp'],
                flags=['-fopenmp'], libs=['-Wl,--unresolved-symbols=ignore-all', '-lxc', '-fopenmp'])], assume=[
        'libxc functions fill exactly the requested arrays with the energy density and its derivatives (external library)',
        'increment_lda for complex basis functions carries an assumed contract (the real instantiation is proved); the pure-m grid, the tables of basis function values (compute_bf) and the element loops are covered by the bounded harness only',
        'libwignernj is not installed; the harness links a stand-in for it (harness/stub)']),
    'C20': dict(modules=['pf_jk'], harness=[dict(src='h_jk.cpp', arg='C20', repo=FEM)], assume=[
        'operators of the underlying basis are arbitrary matrices of its size (its own properties are C09 and C12)']),
    'C21': dict(modules=['pf_eig'], harness=[dict(src='h_eig.cpp', arg='', repo=MISC)], assume=[
        'Eigen SelfAdjointEigenSolver, LLT and inverse satisfy their defining equations (contracts in hfv/pf_eig.py, class Solver)',
        'the combination of the proved matrix identities with the solver contracts (V^T A V = diag(w), V^T V = 1, A = L L^T) is one substitution, made on paper',
        'eig_gsym_sub (block-wise solution and sorting) is covered by the bounded harness only']),
    'C15': dict(modules=['pf_misc', 'pf_pot'], harness=[dict(src='h_misc.cpp', arg='C15', repo=MISC)], assume=['std::string comparison and case conversion follow the C locale']),
    'C23': dict(modules=['pf_gaunt'], harness=[dict(ATOM, arg='C23')], assume=[
        'every stored coefficient lies at the position that the proved look-up reads (filling of the table by the constructor: bounded harness only)',
        'the integral of three spherical harmonics is invariant under permutation of the three and under negation of all m (mathematics, an axiom of the proof)',
        'spherical_harmonics is covered by the bounded harness only', WIG]),
    'C24': dict(modules=['pf_atom'], harness=[dict(ATOM, arg='C24')], assume=[
        'element matrices are arbitrary (proved under C09, C10); couplings are arbitrary inside the table (C23)',
        'finite-size nuclei in nuclear(), function values (eval_bf, eval_df, eval_lf; complex arithmetic) and Sinvh by blocks are covered by the bounded harness only', WIG]),
    'C25': dict(modules=['pf_sad'], harness=[dict(ATOM, arg='C25')], assume=[
        'the assembly from element tables is proved under C12', 'coulomb and exchange with angular momentum (sums over couplings) are covered by the bounded harness only', WIG]),
    'C26': dict(modules=['pf_diat'], harness=[dict(DIAT, arg='C26')], assume=[
        'the radial integrals of cosh and sinh powers are arbitrary matrices in the proofs (bounded harness checks them)', 'couplings are arbitrary (C23)',
        'cross overlaps, boundary handling and function values are covered by the bounded harness only', WIG]),
    'C27': dict(modules=['pf_diat2'], harness=[dict(DIAT, arg='C27')], assume=[
        'associated Legendre functions are uninterpreted in the proofs', 'angular summation of Coulomb and exchange is covered by the bounded harness only', WIG]),
    'C28': dict(modules=['pf_sad'], harness=[dict(ATOM, arg='C28')], assume=[
        'function values of the radial basis are arbitrary (C09)', 'screening functions, gradients and the three radii are covered by the bounded harness only', WIG]),
}
