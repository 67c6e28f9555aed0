"""The properties: statement, quantifier, anchors, explorer and bounds (single source)."""
NOT_APPLICABLE=[]
EXH="bounded exhaustive exploration of the real code against an independent reference model"
TRUST="Exhaustive within the stated bounds, on the compiled sources of the working tree; trusts the compiler, Eigen and the independently written reference model (long double / __float128)."
P=[
dict(id="C01",harness="prim",title="Shape functions of every family are the right polynomials",
 statement="For every primitive family (Legendre, Lagrange, and Hermite of first, second and third order), node count and end-point dropping choice, evaluating the enabled functions or any supported derivative at any reference point and element scaling gives the value of the family's defining polynomial, and evaluating B/r (for functions vanishing at the origin) gives the finite, cancellation-free quotient, also at the origin. Dropping end-point values/derivatives removes exactly the functions that carry them and nothing else. Unsupported families, orders and preconditions are refused with an exception, never answered with a wrong number.",
 over=["inputs","configurations"],quant="every family x node count x 16 boundary-condition choices x derivative order x evaluation point x element scaling x precision",
 why="The tests sample B/r for a few node counts; no test evaluates derivatives, Hermite families of higher order, the Legendre family, or end-point dropping.",
 files=["libhelfem/src/PolynomialBasis.cpp","libhelfem/include/LIPBasis.h","libhelfem/include/HIPBasis.h","libhelfem/include/HIP2Basis.h","libhelfem/include/HIP3Basis.h","libhelfem/include/LegendreBasis.h"],
 mech=[("eval_dnf / eval_over_r of each family","libhelfem/src"),("drop_first/drop_last enabled sets","libhelfem/src"),("get_basis factory","libhelfem/src/PolynomialBasis.cpp")],observe=["eval_dnf","eval_over_r","get_enabled","get_nbf"],
 technique=EXH+" (families x nodes x boundary choices x derivative orders x points)",note=TRUST+" Reference primitives are built from Taylor jets in quad precision.",
 bound=dict(quick="families 3,4,5,8,9 (+Chebyshev nodes), nn<=15 (Hermite<=8, 2nd<=7, 3rd<=6), all 16 drops, derivatives to 20 for nn<=4, double and long double",thorough="nn<=20 (Hermite<=14, 10, 8)")),
dict(id="C02",harness="fe",title="The finite element space is conforming and assembled consistently",
 statement="For every grid, shape-function family, boundary choice and sequence of added element boundaries, the global functions are numbered contiguously and glued across elements so that they (and, for Hermite families, their derivatives up to the contact order) are continuous, and the requested end-point functions are absent. Coordinates, element lookup and the primitive-to-physical map are mutually inverse, and every matrix or vector element assembled over the elements equals the integral of the product of the global functions with the weight, whichever entry point, quadrature, sub-range or breakpoint list is used.",
 over=["inputs","configurations","histories"],quant="every grid x family x node count x boundary choice x add-boundary history x weight x derivative pair x precision",
 why="No test assembles a matrix on a multi-element grid, changes the grid, or checks continuity; the tests only touch single-element B/r.",
 files=["libhelfem/src/FiniteElementBasis.cpp","libhelfem/include/FiniteElementBasis.h"],
 mech=[("element bookkeeping: first/last function, bval","FiniteElementBasis::update_bf_list, get_idx"),("adaptive and fixed quadrature assembly","FiniteElementBasis::matrix_element*, vector_element"),("element lookup","FiniteElementBasis::find_element")],observe=["get_idx","eval_dnf","matrix_element","find_element","eval_prim"],
 technique=EXH+"; all add_boundary histories to a depth",note=TRUST,
 bound=dict(quick="7 grids (1-7 elements, offset and negative), 5 families, nn<=5, 16 boundary choices, add-boundary histories to depth 4 over 7 positions, lookup grids to 64 elements",thorough="11 grids, nn<=8, history depth 5, lookup to 200 elements")),
dict(id="C03",harness="radial",title="Radial one-electron matrices and evaluations are the exact integrals",
 statement="For every radial basis, the overlap, kinetic, centrifugal, nuclear-attraction, off-centre nuclear, r^n and Bessel-weighted matrices, per element and assembled, and the overlap and operator matrices between two different radial bases, equal the exact integrals of the basis functions to rounding accuracy. Basis function values, derivatives and orbital, density and gradient values at the nucleus agree with the same functions, independently of whether, in which order and how often evaluation caches were filled.",
 over=["inputs","configurations","histories"],quant="every grid x family x boundary choice x operator x element x sub-range x pair of bases x cache-fill history x precision",
 why="No test builds a radial basis on more than one element or projects between two bases, and cache histories are never varied.",
 files=["libhelfem/src/RadialBasis.cpp","libhelfem/include/RadialBasis.h"],
 mech=[("matrix_element over BasisKind pairs","RadialBasis.cpp"),("quadrature caches","RadialBasis.cpp fill_quadrature_cache"),("cross-basis intersections","RadialBasis.cpp matrix_element(rh,...)")],observe=["overlap","kinetic","kinetic_l","nuclear","nuclear_offcenter","radial_integral","get_bf","eval_orbs"],
 technique=EXH+"; all cache-fill histories of length 2",note=TRUST,
 bound=dict(quick="4 grids, 5 families, nn<=5, 4 boundary choices, n in -6..4, L<=3, 49 basis pairs, 25 cache histories",thorough="6 grids")),
dict(id="C04",harness="rules",title="Quadrature rules and element meshes are what they claim to be",
 statement="For every order, Gauss-Lobatto and modified Gauss-Chebyshev rules (plain, radial and on the sphere) return the defining nodes and weights, in ascending order, exact up to the rule's polynomial degree, in double and long double. Every element mesh (linear, quadratic, polynomial, exponential, geometric, and the compound meshes for finite or off-centre nuclei with an extra boundary) has exactly the requested boundaries: it starts at 0, ends exactly at the requested practical infinity, is strictly increasing, and puts a boundary at every nucleus and requested radius. Invalid orders, mesh kinds and parameters are refused with an exception.",
 over=["inputs","configurations"],quant="every rule x order x precision; every mesh kind x size x exponent x nuclear model x off-centre configuration x added boundary",
 why="No test evaluates any mesh or any rule beyond the single ones used inside the Legendre tests.",
 files=["libhelfem/include/lobatto.h","libhelfem/include/chebyshev.h","libhelfem/include/grid.h","libhelfem/src/grid.cpp","src/general/angular.cpp","src/atomic/basis.cpp"],
 mech=[("lobatto_compute, chebyshev, radial_chebyshev","libhelfem/include"),("get_grid, form_grid","libhelfem/src/grid.cpp, src/atomic/basis.cpp"),("angular_lobatto, angular_chebyshev, angular_basis","src/general/angular.cpp, src/atomic/basis.cpp")],observe=["lobatto_compute","chebyshev","get_grid","form_grid","angular_lobatto","angular_basis"],
 technique=EXH,note=TRUST,
 bound=dict(quick="orders <=80, meshes of <=24 elements x 5 radii x 9 exponents, 2880 compound meshes, spherical rules to 12x12",thorough="orders <=160, meshes <=60, compound <=8 elements, spherical rules to 20x20")),
dict(id="C05",harness="special",title="Special functions are accurate over their whole documented range",
 statement="Associated Legendre functions of both kinds on and outside the cut, Legendre polynomial batches and their derivatives, modified spherical Bessel functions, the radial functions of the short-range (erfc) kernel, inverse hyperbolic functions, complex spherical harmonics and normalised Slater and Gaussian radial functions agree with their mathematical definitions to the working precision, for every degree, order and argument, on either side of every internal series/recursion switch. Results do not depend on what was evaluated before (workspaces are reused), are symmetric where the definition is, and singular or negative-order requests are refused.",
 over=["inputs","configurations","histories"],quant="every function x degree x order x argument set straddling the internal switches x precision x call history",
 why="The repository's reference tables sample a few degrees of P and Q at a few arguments and Y_lm at a few angles; Bessel, erfc, Slater/Gaussian functions and call histories are untested.",
 files=["src/legendre/Legendre.cpp","libhelfem/include/legendre_poly.h","libhelfem/include/math.h","libhelfem/src/utils.cpp","libhelfem/src/erfc_expn.cpp","src/general/spherical_harmonics.cpp","src/general/lcao.cpp"],
 mech=[("plm/qlm recursions","src/legendre/Legendre.cpp"),("erfc kernel short/long range switch","libhelfem/src/erfc_expn.cpp"),("bessel_il/kl","libhelfem/src/utils.cpp")],observe=["plm","qlm","legendre_batch","bessel_il","bessel_kl","Phi","spherical_harmonics","radial_STO","radial_GTO"],
 technique=EXH+"; call-history pairs on shared workspaces",note=TRUST+" References are quad-precision Taylor jets, Heine integrals and direct quadrature of the defining integrals.",
 bound=dict(quick="l<=24, m<=6, 24 arguments; Bessel L<=8; erfc n<=6 on an 18x18 argument grid; Y_lm l<=8; 169 workspace histories; double and long double",thorough="l<=40, m<=10; Bessel L<=12; erfc n<=8; Y_lm l<=12")),
dict(id="C06",harness="gaunt",title="Angular coupling coefficients are the exact integrals of harmonics",
 statement="For every table size and every cap on m, each tabulated coupling coefficient equals the integral of the product of the three complex spherical harmonics; combinations excluded by selection rules or outside the table give zero, combinations outside the m window are refused rather than answered from the wrong slot. The cos, cos^2..cos^5, sin^2 and cos^2 sin^2 couplings and the modified coefficients of the prolate spheroidal volume element equal their integrals.",
 over=["inputs","configurations"],quant="every (Lmax,lmax,l'max,mcap) table x every (L,M,l,m,l'), in double and long double",
 why="The repository's Gaunt test is not built here, and checks one table; table windows and trigonometric couplings are never swept.",
 files=["src/general/gaunt.cpp","src/general/gaunt.h"],mech=[("table layout and windows","src/general/gaunt.cpp"),("trigonometric couplings","src/general/gaunt.cpp")],observe=["coeff","mod_coeff","cosine_coupling","cosine2..5_coupling","sine2_coupling","gaunt_coefficient"],
 technique=EXH,note=TRUST+" The Wigner 3j backend library is absent from the sandbox and is replaced by shims/wignernj.hpp (exact integer arithmetic).",
 bound=dict(quick="all tables with Lmax,lmax,l'max<=5, all caps -1..lmax+1, all index combinations one beyond the table; couplings l<=6, modified coefficients l<=4",thorough="tables <=7, couplings l<=8, modified l<=5")),
dict(id="C07",harness="twoe",title="Radial two-electron integrals are the exact double integrals",
 statement="For every element, shape-function family and multipole, the in-element Coulomb, Yukawa-screened and short-range (erfc) two-electron tensors and the potential of a product of basis functions equal the double integral of the kernel over the products of basis functions. The pivoted Cholesky factor reproduces the Coulomb tensor to the requested tolerance, the exchange ordering is a pure permutation of the direct one, and inconsistent quadrature rules are refused.",
 over=["inputs","configurations"],quant="every family x node count x grid x boundary choice x multipole x kernel x element (pair) x precision",
 why="No test evaluates a two-electron integral.",
 files=["libhelfem/src/quadrature.cpp","libhelfem/src/RadialBasis.cpp","libhelfem/src/utils.cpp"],mech=[("nested quadratures","libhelfem/src/quadrature.cpp"),("twoe_integral, yukawa_integral, erfc_integral, twoe_integral_cholesky","libhelfem/src/RadialBasis.cpp"),("exchange_tei","libhelfem/src/utils.cpp")],observe=["twoe_integral","yukawa_integral","erfc_integral","twoe_integral_cholesky","exchange_tei","spherical_potential"],
 technique=EXH,note=TRUST+" The erfc kernel is judged to 4e-4/2e-3 relative, the accuracy of the fixed quadrature it is built on.",
 bound=dict(quick="10 family/node combinations, 2 grids, 3 boundary choices, L<=5 (Yukawa<=4, erfc<=3)",thorough="14 combinations, 3 grids, L<=10")),
dict(id="C08",harness="potential",title="Nuclear, guess and confinement potentials and their matrices are correct",
 statement="Every nuclear model (point, Gaussian, uniform sphere, hollow shell, regularised) evaluates to its defining potential at every radius including the origin and the switch of its internal series, tends to -Z/r, and reports its kink radii exactly when they lie strictly inside the queried interval; parameter setters take full effect. The Thomas-Fermi, Green-Sellin-Zachor and tabulated SAP guess potentials give the published screened charge of the element asked for (zero for a dummy centre), and element symbols, numbers and orbital counts resolve correctly for every input. Matrix elements of every model and of polynomial, exponential, barrier and soft-wall confinement, with any shift relative to the element boundaries, equal the exact integrals; meaningless parameters are refused.",
 over=["inputs","configurations"],quant="every model x Z x radius parameter x evaluation radius; every confinement kind x exponent x shift x element; every element symbol string up to three letters",
 why="No test evaluates a nuclear model, guess potential or confinement, nor looks up an element.",
 files=["libhelfemqc/src/GaussianNucleus.cpp","libhelfemqc/src/SphericalNucleus.cpp","libhelfemqc/src/HollowNucleus.cpp","libhelfemqc/src/RegularizedNucleus.cpp","src/general/model_potential.cpp","src/general/gsz.cpp","src/general/sap.cpp","src/general/elements.cpp","libhelfem/src/RadialBasis.cpp"],
 mech=[("model V and breakpoints","libhelfemqc/src"),("confinement_potential, model_potential","libhelfem/src/RadialBasis.cpp"),("GSZ_parameters, sap_effective_charge","src/general"),("get_Z, num_orbs","src/general/elements.cpp")],observe=["V","breakpoints","confinement_potential","model_potential","get_Z","num_orbs"],
 technique=EXH,note=TRUST+" The SAP table is judged by its end points, monotone continuous screening and neighbour ordering, not entry by entry. The prefactor of polynomial confinement with negative exponent and |r0|!=1 is not judged (ambiguous), and the soft wall is judged to 2e-4 for N=2, whose integrand does not vanish at the end point.",
 bound=dict(quick="5 models x 6 charges x 4 radii x ~330 evaluation radii; 3 grids x 7 shifts; GSZ/TF/SAP Z<=121; all 1-3 letter symbols; all 119^2 charge pairs",thorough="4 grids, denser SAP scan, all case patterns")),
dict(id="C09",harness="atomdb",title="Tabulated atoms reproduce the density and potential of their orbitals",
 statement="For every record of the atomic wave function database, the occupations and coefficients come back exactly; the electron density, its gradient and Laplacian, the radial and enclosed charge, the Hartree screening and the exchange-correlation screening (LDA and GGA, any exchange/correlation pair) at any radius equal those of the stored orbitals, in every element, at element boundaries and beyond the grid. The effective charge is Z minus both screenings and the SAP potential is minus that over r, with kinks reported at exactly the element boundaries inside the queried interval. Results do not depend on which functionals were evaluated before on the same or a copied object. Records outside the database and meta-GGAs are refused; a dummy centre has zero potential.",
 over=["inputs","histories"],quant="every record x radius x functional pair, and every functional-switching history of length 3",
 why="The repository's atomdb test cannot be built here and samples a few radii; GGA screening and functional switching are never compared with an independent divergence.",
 files=["src/general/atomdb.cpp","src/general/model_potential.cpp"],mech=[("per-element moments and partial integrals","src/general/atomdb.cpp"),("cached libxc handles","Atom::xc_screening"),("SAPFEAtom","src/general/model_potential.cpp")],observe=["density","enclosed_charge","hartree_screening","xc_screening","effective_charge","SAPFEAtom::V"],
 technique=EXH+"; all functional-switching histories of length 3",note=TRUST+" The generated database is absent from this copy of the repository; a small synthetic one with the same layout (shims/atomdb_data.cpp) is used. libxc supplies the local functional derivatives to both sides; the GGA divergence is taken numerically by the reference.",
 bound=dict(quick="4 records, 26 radii, 8 functional pairs, 1024 histories",thorough="625 radii")),
dict(id="C10",harness="jk",title="Radial Coulomb, exchange and contracted bases equal the exact operators",
 statement="For every radial finite element basis, multipole and density matrix (symmetric or not), the assembled radial Coulomb and exchange operators for the bare, Yukawa-screened and short-range (erfc) kernels equal the contraction of the exact two-electron tensor with the density, across element boundaries, with identical results from the on-the-fly, cached, exchange-ordered, pairwise and Cholesky-factored routes. Contracted radial bases (numerical atomic orbitals, projected Slater and Gaussian functions) return exactly the transformed one- and two-electron matrices and orbital values, and refuse mismatched bases, shapes and parameters.",
 over=["inputs","configurations"],quant="every family x node count x grid x boundary choice x multipole x kernel x elementary density matrix (the operators are linear, so a basis of densities decides all) x route x precision; every pair of contraction sizes; every pair of Slater/Gaussian sets",
 why="No test assembles a Coulomb or exchange operator or a contracted basis.",
 files=["libhelfemqc/include/CoulombExchangeFE.h","libhelfemqc/include/NAORadialBasis.h","libhelfemqc/include/STO.h","libhelfemqc/include/GTO.h","libhelfem/src/RadialBasis.cpp","libhelfem/src/utils.cpp"],
 mech=[("assemble_J/K_FE_one_multipole*","libhelfemqc/include/CoulombExchangeFE.h"),("NAORadialBasis transforms","libhelfemqc/include/NAORadialBasis.h"),("make_nao_sto / make_nao_gto projections","libhelfemqc/include/STO.h, GTO.h")],observe=["assemble_J_FE_one_multipole","assemble_K_FE_one_multipole","*_yukawa","*_cached","*_cached_chol","*_cached_pairwise","coulomb_radial","exchange_radial","make_nao_sto","make_nao_gto"],
 technique=EXH+"; a complete basis of density matrices per configuration",note=TRUST+" The erfc kernel is judged to 2e-3 relative, the accuracy of the fixed quadrature it is built on.",
 bound=dict(quick="8 family/node combinations, 4 grids (1-4 elements, <=10 functions), 2 boundary choices, L<=4 (Yukawa<=3, erfc<=2), all elementary densities; 9 contraction size pairs x 6 bases; 25 Slater and 25 Gaussian pairs",thorough="10 combinations, 5 grids, <=14 functions, L<=6")),
dict(id="C11",harness="atomic",title="Atomic basis one-electron operators and orbital values are exact",
 statement="For every radial grid, shape-function family and list of angular channels (in any order), the atomic basis' overlap, kinetic, nuclear attraction (point, finite and off-centre), dipole, quadrupole, magnetic field, model-potential and confinement matrices equal the integrals of the operators over products of radial functions and complex spherical harmonics; overlaps between two different bases likewise. Basis functions, their three spherical derivatives and Laplacians are those of B(r)/r Y_lm everywhere, including on the poles and next to the nucleus. The symmetry partitions cover every function exactly once under labels that tell the blocks apart, and both half-inverse overlaps orthonormalise within blocks.",
 over=["inputs","configurations"],quant="every radial grid x family x ordered list of one or two angular channels with l<=3 (and full sets up to l=3, |m|<=l) x charge combination x operator x precision; every pair of bases; every element x quadrature point x angle",
 why="No test builds an atomic basis; angular channel order, negative m, off-centre charges and poles are configurations no fixed test list covers.",
 files=["src/atomic/TwoDBasis.cpp","src/atomic/TwoDBasis.h","src/atomic/basis.cpp","src/general/gaunt.cpp"],
 mech=[("angular coupling and block placement","src/atomic/TwoDBasis.cpp add_sub/set_sub"),("symmetry partitions","src/atomic/TwoDBasis.cpp get_sym_idx"),("eval_bf/eval_df/eval_lf","src/atomic/TwoDBasis.cpp")],observe=["overlap","kinetic","nuclear","dipole_z","quadrupole_zz","Bz_field","Sinvh","get_sym_idx","eval_bf","eval_df","eval_lf"],
 technique=EXH,note=TRUST,
 bound=dict(quick="5 radial grids, all ordered lists of <=2 channels with l<=3 on one grid (l<=1 else), 4 charge combinations x 3 distances, 625 basis pairs, 28 angles x 3 grids x 3 channel sets",thorough="8 radial grids")),
dict(id="C12",harness="atomic",title="Atomic Coulomb and exchange matrices equal the exact contractions",
 statement="For every atomic basis and every density matrix, symmetric or not and coupling any angular channels, the Coulomb matrix, the exchange matrix and the range-separated exchange matrix (Yukawa or erfc, any range parameter) equal the contraction of the density with the exact four-index integrals; they are linear in the density and J and K are adjoint to each other's definition. The density-fitting factors reproduce the radial integrals to the requested tolerance. The result depends only on the last kernel computed, not on the history of earlier computations, copies or the optional preparation calls.",
 over=["inputs","histories"],quant="every elementary density matrix (the operators are linear) x channel list x radial grid x kernel x range parameter x precision; every history of preparation calls up to length 3",
 why="No test evaluates a Coulomb or exchange matrix; mixed-m channel combinations and recomputation histories are where indexing errors hide.",
 files=["src/atomic/TwoDBasis.cpp","libhelfemqc/include/CoulombExchangeFE.h","src/general/gaunt.cpp"],
 mech=[("coulomb, exchange, rs_exchange","src/atomic/TwoDBasis.cpp"),("compute_tei / compute_yukawa / compute_erfc","src/atomic/TwoDBasis.cpp"),("radial_df_factors","src/atomic/TwoDBasis.cpp")],observe=["coulomb","exchange","rs_exchange","radial_df_factors"],
 technique=EXH+"; a complete basis of density matrices per configuration; all preparation histories of length 3",note=TRUST+" The erfc kernel is judged to the accuracy of the fixed quadrature it is built on.",
 bound=dict(quick="3 radial grids, all ordered lists of <=2 channels with l<=1 and 7 mixed sets with l<=3, 3 kernels",thorough="4 radial grids, l<=2")),
dict(id="C13",harness="diatomic",title="Diatomic basis operators, orbitals and projections are exact",
 statement="In prolate spheroidal coordinates, for every radial grid, shape-function family, bond length and list of angular channels in any order, the overlap, kinetic, nuclear attraction (any pair of charges), dipole, quadrupole and magnetic field matrices and the overlap between two bases equal the volume integrals over products of basis functions; functions with m!=0 drop exactly the first radial function. Basis functions, their derivatives and Laplacians, per point, per m and at arbitrary points, are those of B(mu) Y_lm. Symmetry partitions cover each function once (with the -|m| mirror for |m| blocks) under distinct labels, and half-inverse overlaps orthonormalise blockwise. Quadratures of model potentials and projections on Gaussian, Slater and atomic orbitals placed on either nucleus or the bond centre equal the exact integrals.",
 over=["inputs","configurations"],quant="every radial grid x family x ordered list of one or two channels with l<=3 x bond length x operator; every pair of bases; every element x quadrature point x angle; every probe centre x l x m",
 why="The built tests do not touch the diatomic program at all.",
 files=["src/diatomic/basis.cpp","src/diatomic/basis.h","src/diatomic/twodquadrature.cpp","src/general/gaunt.cpp"],
 mech=[("angular couplings and boundary removal","src/diatomic/basis.cpp"),("symmetry blocks and mirrors","src/diatomic/basis.cpp get_sym_idx/get_sym_mirror_idx"),("probe geometry","src/diatomic/twodquadrature.cpp")],observe=["overlap","kinetic","nuclear","dipole_z","quadrupole_zz","Bz_field","Sinvh","eval_bf","eval_df","eval_lf","model_potential","gto_projection","sto_projection","atomic_projection"],
 technique=EXH,note=TRUST+" The atomic SCF behind atomic_projection needs a library that is absent; a stand-in returns a fabricated atom and the projection of that atom is judged. The overall sign of a projection is a convention and is not judged.",
 bound=dict(quick="5 radial grids, all ordered lists of <=2 channels with l<=3 on one grid (l<=1 else), 2 bond lengths, 625 basis pairs, 21 angles, probes l<=3",thorough="8 radial grids")),
dict(id="C14",harness="diatomic",title="Diatomic Coulomb and exchange matrices equal exact contractions",
 statement="For every diatomic basis and every density matrix, symmetric or not and coupling any angular channels, the Coulomb and exchange matrices equal the contraction of the density with the exact two-electron integrals in prolate spheroidal coordinates, across element boundaries and including the element touching the bond axis; the in-element kernels exposed for analysis are those integrals in both pairings, and the stored factorisation reproduces them; declaring the density symmetric under m -> -m changes nothing for a density that is; calls before the integrals exist or with a matrix of the wrong size are refused.",
 over=["inputs","configurations"],quant="every elementary density matrix (the operators are linear) x channel list x radial grid",
 why="No built test evaluates a diatomic two-electron matrix.",
 files=["src/diatomic/basis.cpp","src/diatomic/quadrature.cpp","src/general/gaunt.cpp","src/legendre/Legendre.h"],
 mech=[("in-element factorisation and disjoint P/Q products","src/diatomic/basis.cpp compute_tei, coulomb, exchange"),("(L,|M|) tables","src/diatomic/basis.cpp lmind/LMind"),("m mirror","src/diatomic/basis.cpp set_absm_symmetric")],observe=["coulomb","exchange"],
 technique=EXH+"; a complete basis of density matrices per configuration",note=TRUST+" Reference: Neumann expansion with Legendre functions from their recurrence (P) and Heine-type integral (Q) and graded nested Gauss quadrature.",
 bound=dict(quick="6 radial grids (up to 3 elements), ordered lists of <=2 channels with l<=1 and 9 mixed sets with l<=3, full sets of up to 9 channels on one grid, every elementary density; in-element kernels for L<=4, 0<=M<=L on 3 grids",thorough="9 radial grids, kernels for L<=6 on 5 grids, ordered lists of <=2 channels with l<=2, sets of up to 6 channels on every grid")),
dict(id="C15",harness="sadatom",title="Spherically averaged atoms: operators, densities and radii are exact",
 statement="For every radial basis and maximum angular momentum, the spherically averaged atom's one-electron matrices (overlap within and across bases, kinetic, nuclear for every nuclear model, confinement, powers of r, arbitrary potentials with kinks), Coulomb, exchange and range-separated exchange (any history of kernel preparations; only the last one counts) equal the exact shell-averaged integrals for every density. The density, its gradient, Laplacian, kinetic energy density, orbitals and their derivatives at every grid point and at the nucleus are those of the stored functions, whether or not the value cache was filled; the Coulomb and exchange-correlation screening equal the exact electrostatic and functional-derivative potentials per spin. The radius of maximum density, the van der Waals radius (outermost crossing of the threshold) and the electron-count radius are those of the density to the requested accuracy, wherever they fall relative to element boundaries.",
 over=["inputs","histories"],quant="every radial grid x family x lmax x elementary density (operators linear) x kernel; every preparation history of length 3; every shell density x threshold, including thresholds whose radius falls next to an element boundary",
 why="No built test touches the spherically averaged atom.",
 files=["src/sadatom/basis.cpp","libhelfemqc/include/CoulombExchangeFE.h","src/general/radial_block_helper.h"],
 mech=[("shell-averaged exchange coupling","src/sadatom/basis.cpp exchange, rs_exchange"),("element-wise screening sums","src/sadatom/basis.cpp coulomb_screening"),("searches for radii","src/sadatom/basis.cpp vdw_radius, electron_density_maximum_radius, electron_count_radius")],observe=["coulomb","exchange","rs_exchange","electron_density*","xc_screening","coulomb_screening","vdw_radius","electron_count_radius","electron_density_maximum_radius","slater_F","extract_naos_per_l"],
 technique=EXH+"; a complete basis of density matrices per configuration; all preparation histories of length 3",note=TRUST+" libxc supplies the local functional derivatives to both sides; the GGA divergence is taken numerically by the reference. The erfc kernel is judged to the accuracy of the fixed quadrature it is built on. Densities used for radii are smooth one- and two-shell densities.",
 bound=dict(quick="6 radial grids (one-electron, values), 5 grids x lmax<=3 (two-electron), 64 histories, 36 shell densities x ~30 thresholds, 9 functional pairs x 4 polarisations",thorough="9 and 8 grids, 256 histories, 116 shell densities")),
dict(id="C16",harness="dft",title="Exchange-correlation matrices and energies are those of the functional",
 statement="For every basis, functional class (LDA, GGA, meta-GGA with kinetic energy density, with Laplacian, hybrids, exchange, correlation, both or none, with or without external parameters) and density matrix, restricted or spin-polarised, the atomic, diatomic (general and pure-m) and spherically averaged grids report the exchange-correlation energy, electron number and kinetic energy that quadrature of the functional over the density gives, and a matrix that is the exact derivative of that energy with respect to each density matrix element, symmetric, with no contribution to an absent spin channel. Restricted equals polarised with equal spins; the pure-m grid equals the general grid for densities without coupling between m; declaring m/-m symmetry changes nothing when it holds. Unsupported functionals, empty densities and wrong parameter counts are refused.",
 over=["inputs","configurations"],quant="every grid type x radial basis x channel list x functional x spin treatment x density pattern x matrix element",
 why="No test evaluates an exchange-correlation matrix; each functional class takes a different code path per geometry and spin treatment.",
 files=["src/atomic/dftgrid.cpp","src/diatomic/dftgrid.cpp","src/diatomic/dftgrid_purem.cpp","src/sadatom/dftgrid.cpp","src/general/dftgrid_common.cpp","src/general/dftgrid_common.h"],
 mech=[("density, gradient, tau and Laplacian assembly","src/*/dftgrid*.cpp update_density"),("Fock matrix assembly","src/*/dftgrid*.cpp eval_Fxc"),("functional dispatch","src/general/dftgrid_common.cpp compute_xc")],observe=["DFTGrid::eval_Fxc","PureMDFTGrid::eval_Fxc"],
 technique=EXH,note=TRUST+" libxc supplies the local functional values to both sides; the angular and radial point sets are those of the code (decided by C04 and C02), all values at the points are recomputed.",
 bound=dict(quick="23 functional pairs x (3 atomic + 3 diatomic + 4 spherical radial grids) x up to 6 channel lists x 3 density patterns x 4 spin treatments; energy derivative by differences for every element pair of small bases",thorough="29 functional pairs, 5+5+6 radial grids")),
dict(id="C17",harness="sched",run=dict(shards=dict(quick=150,thorough=400)),title="Parallel regions are free of data races and independent of the schedule",
 statement="For every OpenMP-parallel operation of the library (finite element assembly, two-electron integrals and their Coulomb and exchange contractions, exchange-correlation grids, quadrature grids, angular coupling tables) and for Fock matrices built concurrently on one primed grid, whatever the number of threads, the assignment of iterations to threads and the order in which the threads reach their synchronisation points, no two threads access the same memory without synchronisation when one of them writes, the operation terminates, and the result is that of a serial run up to rounding.",
 over=["schedules","configurations"],quant="every parallel operation x team size x schedule of synchronisation operations",
 why="Tests run one schedule of one team size and cannot see an unsynchronised access that happens to be harmless.",
 files=["libhelfem/src/FiniteElementBasis.cpp","libhelfemqc/include/CoulombExchangeFE.h","src/atomic/TwoDBasis.cpp","src/atomic/dftgrid.cpp","src/sadatom/basis.cpp","src/sadatom/dftgrid.cpp","src/diatomic/basis.cpp","src/diatomic/dftgrid.cpp","src/diatomic/twodquadrature.cpp","src/general/gaunt.cpp"],
 mech=[("OpenMP loops, barriers and reductions","every '#pragma omp' of the anchored files"),("element parity split of the grids","src/atomic/dftgrid.cpp, src/sadatom/dftgrid.cpp eval_Fxc"),("serial filling of lazily built caches before a parallel region","src/sadatom/dftgrid.cpp prime_quadrature_cache")],observe=["compute_tei","coulomb","exchange","eval_Fxc","matrix_element","model_potential"],
 technique="stateless model checking of the real code under a controlled OpenMP scheduler (delay-bounded exhaustive exploration of the schedules) with a vector-clock monitor on every memory access",
 note="Exhaustive over the departures from the default schedule up to the delay bound each operation's budget allows (reported per operation); between synchronisation operations the monitor covers all interleavings. Trusts the compiler's instrumentation and the scheduler of harness/sched_rt.cpp. Accesses inside libxc and the C++ runtime library are not monitored, and the OpenMP region inside the SCF driver cannot be built here (its optimiser library is absent); the concurrent Fock builds are reproduced by the explorer.",
 bound=dict(quick="teams of 2, 3 and 8; 3 and 5 elements; delay bound up to 4 within 150 (30 for 8 threads) schedules per operation",thorough="teams of 2, 3 and 8; 2-8 elements; within 3000 (200) schedules per operation")),
dict(id="C18",harness="checkpoint",title="A checkpoint file is a faithful typed map under every history of operations",
 statement="After any sequence of operations on a checkpoint (writing any value type over any other, removing, opening, closing, flushing, reopening for appending, truncating or reading, failed operations in between) every entry reads back bit for bit with its type, shape and value through every compatible type, in the same process, in a new one, or through the HDF5 library with the documented layout; reads of absent, mistyped or misshaped entries, writes through a read-only object, opening twice and closing twice are refused; and every operation, successful or refused, leaves an open file open and a closed file closed, with no handle left behind. Flushed or closed data survive the end of the process. Atomic and diatomic bases read back as the same basis, and an incomplete or foreign checkpoint is refused.",
 over=["histories","crash points","inputs"],quant="every operation history up to the depth x audit through every typed read in both open states; every end-of-process point after a flush, close or closed-file write",
 why="The one test writes and reads three entries in one order.",
 files=["src/general/checkpoint.cpp","src/general/checkpoint.h"],
 mech=[("open/closed rule","src/general/checkpoint.h 'An open file will be left open, a closed file will be left closed'"),("overwrite by removal","src/general/checkpoint.cpp write -> remove"),("type and shape checks","src/general/checkpoint.cpp read")],observe=["Checkpoint::read","Checkpoint::write","Checkpoint::exist","Checkpoint::is_open","HDF5 file contents"],
 technique="explicit-state exploration of all operation histories up to a depth on the real code, checked against a map model after every operation; all crash points of three-operation histories by process termination",
 note="The model is a typed map plus the open flag; the HDF5 library is trusted for durability of flushed data and for number conversions.",
 bound=dict(quick="32 operations to depth 2 on two names, 25 operations to depth 3 on one name, all shapes up to 4x4, 15^3 x 3 crash histories, 9 bases x 4 families x 3 orders",thorough="depth 3 on two names and depth 4 on one")),
dict(id="C19",harness="input",title="Input is interpreted exactly and bad input is refused",
 statement="Every command line is parsed by the documented grammar: long and short options, grouped flags, values attached or following, defaults, required options, ranges and choices; it is accepted exactly when every token is well-formed and every required option is given, each option then holds the last value given, and everything else is in the rest list. Functional names, numbers, and exchange-correlation pairs resolve to the functional asked for, its kind, ingredients, exact exchange and range separation are those of the functional library, and unknown or kinetic functionals are refused. Element symbols and numbers resolve to the element; charge and multiplicity or explicit electron numbers yield the electrons they determine and inconsistent or negative ones are refused; parameter lists and tables are read in full or refused and written so that they read back exactly; timers report the time they ran under any sequence of operations, and the calendar time.",
 over=["inputs","histories"],quant="every token sequence up to a depth over three option sets; every functional of the library; every element; every charge/multiplicity/electron combination in a box; every timer operation sequence up to a depth under a controlled clock",
 why="No built test exercises input handling.",
 files=["src/general/cmdline.h","src/general/dftfuncs.cpp","src/general/elements.cpp","src/general/elements.h","src/general/scf_helpers.cpp","src/general/eigen_io.h","src/general/timer.cpp"],
 mech=[("option grammar","src/general/cmdline.h parser::parse"),("functional classification","src/general/dftfuncs.cpp"),("electron counting","src/general/scf_helpers.cpp parse_nela_nelb")],observe=["cmdline::parser","find_func","parse_xc_func","get_Z","parse_nela_nelb","parse_xc_params","read_raw_ascii_imat","Timer"],
 technique=EXH+"; all token sequences and all operation sequences up to a depth",note=TRUST+" Reference: an independent parser, an independent element table and shell-filling rule, and libxc's own records.",
 bound=dict(quick="20-25 tokens to depth 4 on 3 option sets, every libxc functional, 118 elements, Z<=14, timer histories to depth 6, every day to 2038",thorough="depth 5; timer histories to depth 8, every day to 2099")),
dict(id="C20",harness="scf",run=dict(shards=dict(quick=48,thorough=160)),title="The Fock matrices of every program are the derivative of its energy",
 statement="In each self-consistent field program (atomic, diatomic, gensap, aij) and for every set-up accepted on its command line (basis, symmetry level 0-3, spin treatment, functional including range-separated and meta-GGA ones, and functionals with user-given parameters, which exact exchange follows; electric, quadrupole and magnetic fields, off-centre and finite nuclei, confinement, jellium), the convergence settings given are those handed to the optimiser, the symmetry blocks partition the basis with the right capacities and electron numbers, the starting Fock matrix is the one-electron Hamiltonian of the requested guess in orthonormal blocks, and for every density the Fock builder returns the total energy of that density and, block by block, the derivative of that energy with respect to every element of the density matrix. The result depends on the density alone: not on earlier calls, their order or number, on batching, or on an equivalent choice of symmetry level.",
 over=["inputs","histories"],quant="every set-up of a product of options per program x every density of a family x every ordered pair of calls x every batch of up to three x every element of the density matrix",
 why="The four programs are not even compiled by the existing tests; a wrong factor in one combination of spin treatment, symmetry level, field and functional gives a plausible energy.",
 files=["src/atomic/main.cpp","src/diatomic/main.cpp","src/sadatom/main.cpp","src/sadatom/scf.cpp","src/sadatom/aij.cpp","src/general/scf_driver_common.h"],
 mech=[("Fock builder","src/*/main.cpp fock_builder lambda"),("symmetry blocks","src/general/scf_driver_common.h accumulate_density_block"),("guess Fock","src/general/scf_driver_common.h build_coreH_from_H0")],observe=["energy and Fock matrices returned to the optimiser","block layout handed to the optimiser"],
 technique=EXH+"; all call histories up to length three on each builder",note=TRUST+" The optimiser library the programs need is not installed; a stand-in with its interface records what the programs hand over and drives them. Reference: an independent assembly of the energy from the verified integrals of C05-C16, and finite differences of the energy.",
 bound=dict(quick="about 700 set-ups, 4-6 densities each, all ordered pairs of calls and batches up to 3, every matrix element",thorough="the full option products")),
dict(id="C21",harness="scf",run=dict(shards=dict(quick=48,thorough=160)),title="Equivalent ways of asking for a state give one energy, never below its limit",
 statement="Converged energies are a property of the physical state: the program (atomic, diatomic, gensap, aij), symmetry level, spin treatment of closed shells, axially averaged grid, starting guess, unit of length, order of the nuclei, and reflection of the system together with its fields do not change them. They agree with the known complete-basis and analytic values (hydrogenic ions, Hartree-Fock and local-density atoms, H2+, H2, weak-field Stark and Zeeman series), never lie below the basis-set limit, and never rise when the basis is enlarged (more angular momenta, nodes or elements). The orthonormaliser satisfies X^T S X = 1 and the full and blocked eigensolvers return all solutions of F C = S C E.",
 over=["inputs"],quant="every member of each group of equivalent inputs; every rung of each ladder of nested bases; every block structure up to size six for the eigensolvers",
 why="No test runs a self-consistent field calculation.",
 files=["src/atomic/main.cpp","src/diatomic/main.cpp","src/sadatom/main.cpp","src/sadatom/scf.cpp","src/sadatom/aij.cpp","src/general/scf_helpers.cpp","src/general/scf_driver_common.h"],
 mech=[("programs","src/*/main.cpp"),("symmetry levels","src/general/scf_driver_common.h"),("orthonormalisation","src/general/scf_helpers.cpp form_Sinvh, eig_gsym, eig_gsym_sub")],observe=["converged total energy","orthonormaliser, eigenvalues and eigenvectors"],
 technique=EXH+"; differential comparison of every member of each group of equivalent inputs",note=TRUST+" The optimiser is a stand-in (Roothaan with damping and DIIS, aufbau); a state is only judged when it converges. Reference values from the literature and perturbation theory.",
 bound=dict(quick="7 functionals x 3 atoms and 4 molecules, 8 field groups, 33 limits, 6 ladders",thorough="all combinations; longer ladders")),
dict(id="C22",harness="scf",run=dict(shards=dict(quick=48,thorough=160)),title="Saved states reload, frozen occupations are honoured, output files are exact",
 statement="A state saved by a program and loaded by a run of the same program starts that run from exactly the saved density when the orbital space contains the old one, whatever the symmetry level and spin treatment of either run, with orthonormal orbitals, occupations within capacity and the right number of electrons of each spin; in another basis it starts from its projection. The saved file holds the basis, densities, orbitals and counts of the final state, and a file of another program, another electron count, or no file is refused. Occupations given in occs.dat or --occs reach the optimiser exactly as tabulated, repeated rows adding up, or the run is refused. Orbital, density, potential, profile and Fock-matrix files describe the final state. Unsupported functionals, quadratures, charges, multiplicities and other invalid options are refused before any calculation.",
 over=["inputs","histories"],quant="all ordered pairs of symmetry level x spin treatment (and of bases) for save then load; every occupation table over an alphabet of rows up to a depth; every --occs token string up to a depth; every point of every output file",
 why="No test saves, loads or freezes anything in a program run.",
 files=["src/atomic/main.cpp","src/diatomic/main.cpp","src/sadatom/main.cpp","src/sadatom/scf.cpp","src/sadatom/aij.cpp","src/general/scf_driver_common.h","src/general/scf_helpers.cpp"],
 mech=[("--load projection","src/general/scf_driver_common.h fill_block_from_density"),("--save","src/general/scf_driver_common.h assemble_final_density"),("occs.dat","src/atomic/main.cpp and src/diatomic/main.cpp readocc"),("tables","src/sadatom/main.cpp")],observe=["starting orbitals and occupations handed to the optimiser","fixed occupations handed to the optimiser","checkpoint and output files"],
 technique=EXH+"; all save/load pairs and all tables and token strings up to a depth",note=TRUST+" Same stand-in optimiser. Whether --occs of gensap must sum to the electron count is left unjudged.",
 bound=dict(quick="290 save/load pairs, 29 table families of up to two rows, 4-token strings over 7 tokens, 21 file set-ups",thorough="three-row tables; meshes and functionals of every combination")),
dict(id="C23",harness="tools",run=dict(shards=dict(quick=24,thorough=48)),title="One-electron and analysis programs report what their inputs define",
 statement="For every combination of their options the one-electron programs (harmonic, morse, softcoulomb, 1e_atom, diatomic_1e) print and save the eigenvalues, orbitals, grids and basis values of exactly the Hamiltonian the options define (mass, deuteron, well, charges, bond length, softening, nuclear model, fields, confinement, grid and quadrature options), in the finite element basis they define. The analysis programs density_line, density_grid, completeness and corebasis report, for every checkpoint they read and every option, the density, orbital, volume element, electron count, completeness profile and basis truncation data that the checkpoint and options define, at the points they say; the atom database dump lists exactly the database. Missing files, missing or unusable options and unknown elements are refused.",
 over=["inputs"],quant="all listed programs x every element of the cross product of their option alphabets, every number printed and every entry of every file written",
 why="No test runs any of these programs; only the shared library pieces are tested.",
 files=["src/harmonic/main.cpp","src/harmonic/morse.cpp","src/harmonic/softcoulomb.cpp","src/sadatom/1e.cpp","src/diatomic/1e.cpp","src/diatomic/density_line.cpp","src/diatomic/density_grid.cpp","src/diatomic/completeness.cpp","src/diatomic/corebasis.cpp","src/general/atomdb_dump.cpp"],
 mech=[("one-dimensional wells","src/harmonic"),("one electron, one centre","src/sadatom/1e.cpp"),("one electron, two centres","src/diatomic/1e.cpp"),("density analysis","src/diatomic/density_line.cpp and density_grid.cpp"),("basis analysis","src/diatomic/completeness.cpp and corebasis.cpp")],observe=["standard output","checkpoint and text files","exit status"],
 technique=EXH+"; the programs themselves are run on every point of their option space",note=TRUST+" The programs are built unmodified. The developer programs purem_test, atomic_precision and the two teirank are not covered.",
 bound=dict(quick="448 runs of 10 programs, 680 k comparisons",thorough="651 runs incl. scalar-type precision table, heavier atoms, finer meshes")),
dict(id="C24",harness="tables",run=dict(shards=dict(quick=24,thorough=48)),title="Generated tables and the Python interface carry exactly the library's data",
 statement="For every interpolation order and derivative order, the code written by the shape-function generators evaluates the family's polynomials, their derivatives and B/r exactly and refuses orders it was not asked for. For every set of saved wave functions and every cutoff, the atomic database generator tabulates exactly the orbitals above the cutoff, with their offsets and their basis, and writes no table when a record is missing, malformed, in another basis or would lose charge; the generators of the tabulated effective charge reproduce every row of the dump they read, and refuse ragged ones; and the chain from a saved calculation to database, dump and table changes no value. The Python interface returns for every basis and density matrix the matrices, quantum numbers, element ranges, Coulomb and exchange matrices (with the documented signs, index order and defaults) and density-fitting factors of the library, whatever was called before, and refuses arrays of another shape; the example of an external consumer reproduces its reference values.",
 over=["inputs","configurations","histories"],quant="every order x derivative order x node set x point x scale; every pattern of records x cutoff x defect; every element x radius; every basis x elementary density x history of calls",
 why="No test runs a generator, and the Python interface is not built by the tests.",
 files=["libhelfem/src/generate_hip_family_code.py","libhelfem/src/generate_lip_code.py","tools/gen_atomdb.py","tools/gen_sap_table.py","tools/gen_sap_pyscf.py","python/bindings.cpp","src/general/atomdb_dump.cpp","src/general/sap.cpp","src/sadatom/scf.cpp"],
 mech=[("shape-function code generators","libhelfem/src/generate_*.py"),("table generators","tools/gen_*.py"),("AtomicBasis class","python/bindings.cpp")],observe=["generated headers, tables and sources, compiled and evaluated","results of the AtomicBasis methods","exit status"],
 technique=EXH+"; generators are run on every element of a family of inputs and their output is compiled and evaluated; all call histories of the Python class to length 2 (3)",note=TRUST+" h5py and pybind11 are absent and replaced by shims/py/h5py.py (on libhdf5) and shims/pybind11 (a registry of the same classes and methods).",
 bound=dict(quick="orders 0-4, derivatives to 20 (LIP) and 8 (Hermite), 5-7 node sets; 118-record tables in 5 patterns x 3 cutoffs and 22 defects; dumps up to 118 elements x 401 radii; one full chain; 140 bases, all elementary densities of 2 bases, 25 call histories",thorough="orders 0-5, 118-record tables x 35 defects, three chains, call histories of length 3")),
]
