SH = 'legume/phc/shapes.py'
LA = 'legume/phc/lattice.py'
LY = 'legume/phc/layer.py'
PH = 'legume/phc/phc.py'
GM = 'legume/gme/gme.py'
ME = 'legume/gme/matrix_elements.py'
SM = 'legume/gme/slab_modes.py'
PW = 'legume/pwe/pwe.py'
EX = 'legume/exc/exc.py'
PO = 'legume/pol/pol.py'
UT = 'legume/utils.py'
MI = 'legume/minimize.py'
PR = 'legume/primitives.py'
BA = 'legume/backend.py'


def fill(prop):
    prop('C01', 'Reciprocal lattice is dual to the real lattice',
         'For every lattice, however specified (preset name or two vectors), the reciprocal vectors b1, b2 satisfy '
         'a_i . b_j = 2 pi delta_ij, and the cell and Brillouin-zone areas are |a1 x a2| and |b1 x b2| with product 4 pi^2. '
         'The stored primitive vectors are the ones given, and two orthogonal vectors, in whatever orientation, make a lattice of type rectangular.',
         ['primitive vectors', 'preset names', 'construction forms'],
         'all real 2-vectors a1, a2 that are not parallel (components in (-3,3)), all presets',
         'Tests use one or two standard lattices; a wrong sign or swapped component shows only for oblique or left-handed vectors.',
         [LA], [('Lattice constructor and area formulas', 'legume/phc/lattice.py: Lattice.__init__, _parse_lattice')],
         ['a1, a2, b1, b2, ec_area, bz_area'])
    prop('C02', 'Band-structure paths and grids cover exactly what was asked',
         'A Brillouin-zone path visits the requested points in order (named symmetry points at their positions for the lattice type), with the '
         'requested number of equally spaced steps on each segment, labels and label indices that point at the vertices, cumulative Euclidean '
         'length along the path, and for every wavevector the angle of its direction (at Gamma that of the symmetry direction asked for). Malformed requests (wrong number of steps, unknown labels, too few points) raise; plotting grids are symmetric, equally spaced and span the requested number of periods.',
         ['path vertices', 'steps per segment', 'lattice'], 'all real vertices; 1..3 segments with 1..3 steps; every named point of the square and hexagonal lattices',
         'Tests never build a path over arbitrary vertices and step counts.',
         [LA], [('path construction', 'legume/phc/lattice.py: Lattice.bz_path'), ('real-space grid', 'legume/phc/lattice.py: Lattice.xy_grid')])
    prop('C03', 'Circle and ellipse: Fourier transform and membership are exact',
         'The Fourier transform of a circle or (rotated) ellipse equals the closed form 2 pi r1 r2 J1(q)/q times the phase of its centre for every '
         'wavevector, equals the area at G=0, and is conjugate-symmetric in G. A point is reported inside exactly when it satisfies the equation of the '
         'curve, in every orientation.', ['centre, radii, angle', 'wavevector', 'point'],
         'all real centres, radii > 0, angles, wavevectors (J1 is an uninterpreted odd function) and points',
         'The tests compare a few grids; a wrong centre phase, axis swap or rotation sense only shows for off-centre, rotated shapes.',
         [SH], [('closed-form transforms', 'legume/phc/shapes.py: Circle.compute_ft, Ellipse.compute_ft'), ('membership', 'legume/phc/shapes.py: is_inside')])
    prop('C04', 'Polygons: Fourier transform, area, orientation and membership are exact',
         'The Fourier transform of a polygon is the integral of exp(-iG.r) over it for every wavevector, including wavevectors along an axis and G=0 (the area), '
         'for every vertex list and for squares, hexagons and Fourier-series shapes at the vertices their definition gives. '
         'Clockwise vertex lists and negative radii raise; a point is inside exactly when it is in the polygon.',
         ['vertices', 'wavevector', 'point'], 'all real triangles, parallelograms, squares, hexagons; all wavevectors not exactly perpendicular to an edge; Fourier shapes with up to 8 points',
         'A test needs the exact integral as an oracle; the code uses an edge formula with special cases for axis-aligned edges and G=0.',
         [SH], [('edge-sum transform', 'legume/phc/shapes.py: Poly.compute_ft'), ('subclass vertices', 'legume/phc/shapes.py: Square, Hexagon, FourierShape')],
         ['x_edges, y_edges, area'])
    prop('C05', 'Rotating a polygon is a rigid rotation about its centre',
         'Rotating a polygon by any angle rotates every vertex about the polygon centre, keeps its area, orientation and centre, returns the same object, and '
         'rotating back restores the vertices.', ['vertices', 'angle'], 'all real triangles and quadrilaterals, all angles',
         'A wrong rotation centre or sense is invisible for the symmetric shapes tests use.',
         [SH], [('rotation', 'legume/phc/shapes.py: Poly.rotate')], ['x_edges, y_edges'])
    prop('C06', 'Layer permittivity in Fourier space is background plus shapes',
         'For every wavevector G the Fourier coefficient of a layer is (1/cell area) times the sum over its shapes of (eps_shape - eps_background) times the '
         'Fourier transform of the shape, plus the background at G=0; the coefficient at -G is the conjugate for real permittivities, and the average '
         'permittivity is the coefficient at G=0. Shapes add up however they are added (one by one, as a list, through the layer or the crystal), and invalid shapes are rejected.',
         [], 'all lattices, permittivities, 0..3 shapes with arbitrary real parameters, all wavevectors',
         'Tests look at spectra of a few crystals; a wrong weight or a lost shape only shows for other contents.',
         [LY], [('Fourier sum', 'legume/phc/layer.py: ShapesLayer.compute_ft, add_shape'), ('adding shapes', 'legume/phc/phc.py: PhotCryst.add_shape')], ['eps_avg', 'shapes'])
    prop('C07', 'Permittivity in real space is periodic and follows the shapes',
         'The permittivity reported at any point is that of the last added shape which contains the point or any of its lattice translates, or the '
         'background if there is none; along z it is that of the layer or cladding which contains the height. Points are found whatever cell they lie in.',
         [], 'all points in a 3x3 block of cells, circles and squares with arbitrary centre and size, 1..3 layers of any thickness, square and oblique lattices',
         'Membership depends on the point, shape and lattice together: the tests look at no oblique lattice and no shape that crosses the cell boundary.',
         [LY, PH], [('periodic images', 'legume/phc/layer.py: ShapesLayer.get_eps'), ('layer from the height', 'legume/phc/phc.py: PhotCryst.get_eps')])
    prop('C08', 'Stacked layers tile the slab without gaps or overlaps',
         'Layers added to a crystal start where the previous one ends and have the thickness and background asked for; the claddings take up what is left, '
         'and every height maps to exactly one layer. Quantum wells lie at the requested height within the crystal, invalid heights raise, and the reported bounds cover the crystal.',
         [], '1..4 layers of any real thickness, any heights', 'Tests use one or two layers with fixed thickness.',
         [PH, UT], [('stacking', 'legume/phc/phc.py: PhotCryst.add_layer, z_grid'), ('height lookup', 'legume/utils.py: z_to_lind')], ['z_min, z_max'])
    prop('C09', 'Plane-wave truncation is exact and symmetric',
         'With circular truncation the reciprocal vectors of an expansion are exactly those of length at most 2 pi gmax, each once; with the parallelogram truncation they are '
         'exactly the integer block asked for, each once. In both cases the set is symmetric under inversion and contains zero, and truncation choices that do not exist raise.',
         [], 'all cut-offs in (0.6,1.9) incl. exact shells; square, rectangular (any aspect), and oblique lattices; guided-mode, exciton and plane-wave solvers',
         'Tests use the square and hexagonal lattices and one cut-off; thin lattices need other index ranges.',
         [GM, EX, PW], [('truncations', 'legume/gme/gme.py: _init_reciprocal_abs, _init_reciprocal_tbt'), ('exciton truncation', 'legume/exc/exc.py'), ('pwe truncation', 'legume/pwe/pwe.py')], ['gvec'])
    prop('C10', 'Permittivity and potential matrices hold eps(Gi-Gj)',
         'The matrix that is inverted for the guided-mode and plane-wave expansions holds, at row i and column j, the Fourier coefficient at Gi-Gj of that layer, for both truncations; '
         'layers without any harmonics get 1/eps on the diagonal. The potential matrix of the exciton solver holds the coefficients of the potential in the same way.',
         [], 'every Hermitian set of Fourier coefficients (so every content), up to 9 reciprocal vectors, three layers, square and oblique lattices',
         'A transposed, mirrored or truncated matrix gives the same bands for the symmetric structures in the tests.',
         [GM, PW, EX, UT], [('abs/tbt matrices', 'legume/gme/gme.py: _compute_ft_abs, _compute_ft_tbt, compute_eps_inv'), ('Toeplitz block', 'legume/utils.py: toeplitz_block'), ('exciton potential', 'legume/exc/exc.py: _compute_pot_ft_abs, _compute_pot_ft_tbt')])
    prop('C11', 'Plane-wave expansion diagonalises the Maxwell operator',
         'For every permittivity matrix and wavevector, PlaneWaveExp.run diagonalises the operator (k+G).(k+G\')/eps for H_z (TE) and |k+G||k+G\'|/eps for E_z (TM). '
         'It reports the square roots of its lowest eigenvalues over 2 pi in ascending order, never negative, each with its own eigenvector. A second run replaces all results of the first.',
         [], 'every Hermitian inverse-permittivity matrix, wavevector and solver outcome; up to 9 reciprocal vectors; every number of modes; square and oblique lattices',
         'Tests compare a few bands of symmetric crystals; a transposed matrix, misordered eigenvector or missing term can leave those bands unchanged.',
         [PW], [('operator', 'legume/pwe/pwe.py: PlaneWaveExp.run'), ('order of the modes', 'legume/pwe/pwe.py: run, argsort of eigenvalues')], ['freqs', 'eigvecs'])
    prop('C12', "Plane-wave fields satisfy Maxwell's equations",
         'For every eigenvector the Fourier components returned by ft_field_xy satisfy div H = 0, D = -i curl H / omega (up to the documented constant) and E = D/eps for all three fields. '
         'get_field_xy is the Fourier sum of those components on a grid over one cell, get_eps_xy that of the permittivity; unknown fields or components raise.',
         [], 'arbitrary eigenvectors, frequencies, wavevectors (and the zone centre), permittivities; up to 9 reciprocal vectors; both polarisations',
         'No test looks at a plane-wave field.',
         [PW, UT], [('field components', 'legume/pwe/pwe.py: ft_field_xy'), ('real space', 'legume/pwe/pwe.py: get_field_xy, get_eps_xy; legume/utils.py: ftinv')])
    prop('C13', 'Slab guided modes satisfy the interface conditions',
         'For every slab the coefficients built by the transfer matrices describe a field whose tangential E and H are continuous at every interface, with only decaying waves in the claddings exactly when D22 is zero. '
         'The scalar and the vectorised D22 agree for every frequency, and malformed input raises.',
         [], '1..3 layers, all thicknesses, permittivities, frequencies and wavevectors between the light lines; TE and TM',
         'Tests check the final frequencies for a few slabs; a wrong interface factor for evanescent or asymmetric layers is not covered.',
         [SM], [('transfer matrices', 'legume/gme/slab_modes.py: S_T_matrices_TE, S_T_matrices_TM, AB_matrices, D22_TE, D22_TM'), ('vectorised', 'legume/gme/slab_modes.py: D22s_vec')])
    prop('C14', 'Guided modes are normalised to unit energy',
         'The norm used for a guided mode is the integral over all z of |H|^2 of the field its coefficients describe, for every set of coefficients, so the returned modes have unit norm. '
         'The returned coefficients are those of the interface-matched field at the returned frequency, scaled by a positive number.',
         [], '1..3 layers, propagating and evanescent, all coefficients, thicknesses, permittivities; TE and TM',
         'The tests never look at the coefficients, only at final frequencies, which barely depend on a few norm terms.',
         [SM], [('normalisation', 'legume/gme/slab_modes.py: normalization_coeff'), ('mode assembly', 'legume/gme/slab_modes.py: guided_modes')])
    prop('C15', "Radiative states of the slab solve Maxwell's equations",
         'For every frequency and wavevector the scattering states have tangential E and H continuous at every interface, one outgoing wave of unit amplitude (in the documented normalisation) in the chosen cladding, and no outgoing wave in the other. '
         'With no wavevectors the result is empty with one row per layer.',
         [], '1..3 layers, both claddings, propagating or evanescent layers and total internal reflection; one or two wavevectors and zero; TE and TM',
         'Only used inside loss rates, which tests sample for a few structures.',
         [SM], [('scattering states', 'legume/gme/slab_modes.py: rad_modes')])
    prop('C16', 'Guided-mode matrix is the overlap of the curls of its basis',
         'For every set of guided modes, layer stack and permittivity, the matrix that GuidedModeExp.run diagonalises has elements <curl H1| 1/eps |curl H2> between basis states, i.e. the sum over '
         'layers and claddings of eps^-1(G1-G2) times the z integral of the products of the curls. The basis has one state for each requested mode and reciprocal vector at which the mode exists, in the order requested. With gmode_compute="interp" the modes are linear interpolations over a grid that covers all wavevectors of the run.',
         [], 'all field coefficients, guided frequencies, thicknesses and Hermitian permittivity matrices; 1..2 layers, 3 reciprocal vectors, up to 3 modes of mixed polarisation, modes missing at small wavevectors, degenerate wavevectors',
         'A wrong sign or conjugate in one TE/TM block changes nothing visible in the symmetric structures and TE-only expansions used in tests.',
         [GM, ME], [('assembly', 'legume/gme/gme.py: _construct_mat, _get_guided'), ('elements', 'legume/gme/matrix_elements.py: mat_te_te, mat_tm_tm, mat_te_tm, mat_tm_te'), ('integrals', 'legume/utils.py, legume/gme/slab_modes.py: I_alpha, J_alpha')])
    prop('C18', 'Guided-mode expansion reports the modes asked for',
         'GuidedModeExp.run reports, at every wavevector, the numeig lowest frequencies (or those closest to eig_sigma times 2 pi), sorted in ascending order, each with its own eigenvector, for both eigensolvers. '
         'Frequencies are sqrt of the eigenvalues over 2 pi and never negative. Asking for losses or fields before a run, or for modes and wavevectors that were not computed, raises.',
         [], 'every Hermitian matrix and solver outcome (equal eigenvalues, any order), every target frequency, every number of modes; one and two wavevectors',
         'Tests use a few targets; ties, a target above all modes and an unsorted solver are not reached.',
         [GM], [('selection', 'legume/gme/gme.py: run'), ('solvers', 'legume/gme/gme.py: run, eigh / eigsh')], ['freqs', 'eigvecs'])
    prop('C19', 'Symmetry separation splits the modes by parity, losing none',
         'For a crystal with a vertical mirror plane that contains k, the odd and even bases of the separation are exactly the states of each parity under the reflection, so that separated runs together give the same frequencies as the full run, each labelled with the parity of its eigenvector. '
         'Structures or planes without the symmetry are refused.',
         [], 'every Hermitian matrix that commutes with the reflection, every solver outcome; square, rectangular and hexagonal lattices, mixed TE/TM bases with missing modes, wavevectors along axes and diagonals, alone or several directions in one run, dense and sparse',
         'Tests run two crystals; labels, odd/even blocks of different size and missing guided modes are not covered.',
         [GM], [('change of basis', 'legume/gme/gme.py: _separate_hamiltonian_dense, _separate_hamiltonian_sparse, _construct_sym_mat'), ('labels', 'legume/gme/gme.py: run, symms'), ('reflection', 'legume/gme/gme.py: _calculate_refl_mat')], ['symms', 'eigvecs'])
    prop('C20', "Radiative losses follow Fermi's golden rule",
         'The radiative coupling of a mode to every open diffraction channel is the overlap of its curl field with that radiative state times the square root of the density of states; channels are exactly the orders within the light cone of each cladding. '
         'The loss is Im sqrt(w^2 + i sum |coupling|^2)/(2 pi), never negative, and is the same from compute_rad, compute_rad_sp and run_im; the TE/TM unbalance is the TE share.',
         [], 'every guided mode set, expansion coefficients, radiative state, permittivity matrix, mode frequency within ranges with 0, 1 or 2 channels per cladding',
         'Tests sample the loss of a few modes; couplings, phases and polarisation shares are never checked.',
         [GM, ME, SM], [('couplings', 'legume/gme/gme.py: _compute_rad_components, compute_rad, compute_rad_sp'), ('losses', 'legume/gme/gme.py: run_im'), ('elements', 'legume/gme/matrix_elements.py: rad_te_te, rad_tm_tm, rad_te_tm, rad_tm_te')], ['freqs_im', 'unbalance_sp', 'rad_coup'])
    prop('C21', "Guided-mode fields satisfy Maxwell's equations",
         'The Fourier components returned by ft_field_xy at any height are the sum over the basis of the slab fields of that layer, with div H = 0, D = -i curl H / omega and E = D/eps (with the expansion\'s inverse permittivity). '
         'The real-space maps in xy, xz and yz are the Fourier sums of those components at each point and height, and get_eps_xy that of the permittivity.',
         [], 'every guided-mode set, thickness, frequency, expansion coefficients, inverse permittivity and height; one or two layers, TE and TM in any order',
         'Tests do not look at fields other than plotting them once.',
         [GM, UT], [('components', 'legume/gme/gme.py: ft_field_xy'), ('maps', 'legume/gme/gme.py: get_field_xy, get_field_xz, get_field_yz, get_eps_xy')])
    prop('C22', 'Runs are independent of earlier runs of the same object',
         'Running a GuidedModeExp or PlaneWaveExp again, with other options, gives exactly what a new object gives for those options: the same eigenproblems, frequencies, eigenvectors, symmetry labels, losses, couplings and fields, '
         'with nothing left over from the previous run. In one run over several wavevectors, with exact guided modes, the results at each wavevector are those of a run at that wavevector alone. A plane-wave expansion uses the layer as it is at the time of the run.',
         ['histories'], 'pairs and longer sequences of runs differing in modes, number of eigenvalues, wavevectors, eigensolver, symmetry, only_gmodes, eps_eff, interpolation, losses, polarisation and layer content; arbitrary guided modes and eigenvectors',
         'Every test uses a new object, so caches kept between runs are never seen.',
         [GM, 'legume/pwe/pwe.py'], [('state reset', 'legume/gme/gme.py: run, compute_eps_inv'), ('state reset', 'legume/pwe/pwe.py: run')], ['freqs', 'freqs_im', 'eigvecs', 'rad_coup', 'kz_symms'])
    prop('C23', 'Exciton solver solves its Schroedinger equation',
         'ExcitonSchroedEq.run diagonalises hbar^2 |k+G|^2 / (2 M e a^2) on the diagonal plus V(Gi - Gj), for the potential of the layer that contains the well, and reports the numeig_ex lowest energies in ascending order plus E0 and i times the loss, each with its own wavefunction. '
         'The potential is V inside the shapes over the cell area, shifted so that its lowest value is zero; maps of potential and wavefunction are the Fourier sums at every point. Wells in claddings, non-Hermitian potentials and malformed oscillator strengths are refused; results are empty before the first run.',
         [], 'every potential, mass, lattice constant, free energy, loss, wavevector and solver outcome; 3 to 9 reciprocal vectors, both truncations, square, rectangular and oblique lattices; one to three shapes and layers',
         'One test runs one well and only looks at polariton energies.',
         ['legume/exc/exc.py', 'legume/phc/layer.py'], [('Hamiltonian', 'legume/exc/exc.py: run, _compute_pot_ft_abs, _compute_pot_ft_tbt'), ('potential', 'legume/phc/layer.py: compute_exc_ft'), ('maps', 'legume/exc/exc.py: get_pot_xy, get_wavef_xy')], ['eners', 'eigvecs'])
    prop('C24', 'Polaritons are the eigenmodes of the Hopfield matrix',
         'HopfieldPol.run diagonalises, at every wavevector, the generalised Hopfield matrix [[W+2D, -iC, -2D, -iC], [iC*, E, -iC*, 0], [2D, -iC, -W-2D, -iC], [-iC*, 0, iC*, -E]] in eV (C* the conjugate transpose), where W are the photon energies with losses, E the exciton energies of all wells, '
         'C the overlap of the photon electric field at each well with its exciton wavefunctions times the root of the oscillator strength, and D = C E^-1 C* summed over all wells, so that energies do not depend on the phases of the modes. '
         'It reports the positive energies in ascending order, each with its loss, eigenvector, and photonic and excitonic fractions (sums over the two kinds of components), and leaves the options of the caller unchanged. Crystals without wells or with wells of different lattice constant are refused.',
         [], 'every photon field, frequency and loss, exciton wavefunction, energy, loss, oscillator strength and lattice constant; 1..3 wells, 1..2 photon modes, 1..2 exciton states, 1..2 wavevectors; every solver outcome',
         'The one test has a single well and checks three sums; blocks that matter only with several wells or complex couplings are not seen.',
         ['legume/pol/pol.py', UT], [('matrix', 'legume/pol/pol.py: _construct_Hopfield, _calculate_C_D'), ('selection and fractions', 'legume/pol/pol.py: run, _calculate_fraction'), ('units', 'legume/utils.py: from_freq_to_e')], ['eners', 'eners_im', 'fractions_ex', 'fractions_ph'])
    prop('C25', 'Optimisers follow their update rules and respect bounds',
         'Minimize.adam applies the Adam recursion (bias-corrected moments, step along minus the gradient) to the value and gradient of the objective at the current parameters, keeps parameters within the bounds after every step, returns the last parameters and the history of '
         'objective values, and never changes the starting parameters of the caller. Minimize.lbfgs hands scipy the objective, its gradient, the starting parameters and the bounds, records the objective once per accepted step, and returns the solution of scipy. '
         'The instance is passed to the objective when asked; malformed bounds raise.',
         ['optimisation histories'], 'every objective (an arbitrary value and gradient at each evaluation), bounds, start, step size and moment coefficients; one or two parameters, up to three epochs or accepted steps',
         'No test runs an optimiser.',
         [MI], [('Adam', 'legume/minimize.py: Minimize.adam, _step_adam'), ('L-BFGS', 'legume/minimize.py: Minimize.lbfgs'), ('bounds', 'legume/minimize.py: _parse_bounds')], ['returned parameters', 'objective history', 'caller arrays'])
    prop('C26', 'Hand-written gradients are the exact derivatives of their functions',
         'For every primitive with a custom vector-Jacobian product (eigh, eigsh, eig, inv, toeplitz_block, interp, extend, spdot, sqrt of complex numbers, fsolve, fmap) the product contracted with any perturbation of the inputs equals the backward signal contracted with the '
         'first-order change of the outputs, for the conventions of autograd with complex numbers.',
         [], 'all matrices, eigenpairs, perturbations and backward signals of size 2 and 3; all interpolation nodes and targets, inside and outside of the nodes; all Toeplitz blocks up to 3x3; all implicit functions of one unknown and two parameters',
         'Gradient tests compare a few derivatives at one point to finite differences at a loose tolerance; degenerate weights and off-diagonal phases are not seen.',
         [PR, BA], [('vector-Jacobian products', 'legume/primitives.py: vjp_*'), ('registration', 'legume/backend.py: AutogradBackend')], ['gradients of any objective'])
    prop('C27', 'The numpy and autograd backends compute the same results',
         'Every operation of the numpy backend exists in the autograd backend and both compute the value the operation stands for; whole computations (Fourier transforms of shapes, plane-wave and guided-mode expansions with losses and fields, with exact or approximate gradients) '
         'give the same matrices and results in both. set_backend selects the named backend for everything that follows, refuses unknown names, and leaves the current one in place then.',
         ['histories'], 'every operation on arbitrary arrays up to 2x3; every kind of shape with arbitrary parameters and wavevectors; expansions with arbitrary guided modes, permittivities and eigenvectors; sequences of up to four switches',
         'Tests compare a few numbers of one structure between backends.',
         [BA, PR, GM, PW], [('operations', 'legume/backend.py: NumpyBackend, AutogradBackend'), ('switching', 'legume/backend.py: set_backend')])
    prop('C28', 'Numerical utilities compute what they stand for',
         'ftinv is the inverse Fourier sum at every point (coefficients of duplicate reciprocal vectors counted once); find_nearest returns the indexes of the N values nearest to a number; grad_num and vjp_maker_num are central or forward differences in every parameter, exact for linear functions, for any kind of '
         'step and argument; RedhefferStar composes scattering matrices as cascaded sections; from_freq_to_e converts w a/(2 pi c) to eV and refuses malformed lattice constants; extend and fsolve put values back where they belong and return the root within the bounds given.',
         [], 'all Fourier coefficients and grids, all numbers, all 2x2 scattering matrices, all quadratic functions, steps and lattice constants; sizes up to 5',
         'Most of these helpers have no test.',
         [UT, PR], [('helpers', 'legume/utils.py: ftinv, find_nearest, grad_num, vjp_maker_num, RedhefferStar, from_freq_to_e, extend, fsolve_D22'), ('implicit root', 'legume/utils.py: fsolve')])
    prop('C29', 'GDS export writes the structure that was defined',
         'generate_gds writes one GDS layer per crystal layer, holding every shape of that layer at its position and size (circles as circles, polygonal shapes by their vertices) in the given unit and tolerance, and nothing else; shapes of any other kind are refused. '
         'generate_gds_raster writes every contour of every level of the raster, mapped to the unit cell (rows along a1, columns along a2, centred at the origin), plus the outline of the cell when asked, in the given unit.',
         ['structures', 'rasters'], 'crystals with up to three layers of arbitrary circles, squares, hexagons and polygons; arbitrary contours of rasters on any lattice, one to three levels, any unit',
         'No test covers the export.',
         ['legume/gds.py'], [('shapes', 'legume/gds.py: generate_gds'), ('rasters', 'legume/gds.py: generate_gds_raster')], ['library cells, layers and polygons'])
    prop('C31', 'Visualisation shows the computed data',
         'bands and pol_bands draw every computed frequency (in the unit asked for) at its wavevector, with its own quality factor, symmetry or exciton fraction, and the light line of the cladding with the higher index; field draws the requested component of the requested mode on the requested plane, as real part, imaginary part or modulus, '
         'with the phase exp(i k.r) when the full field is asked for, and the permittivity at the same points; eps_xy, eps_xz, eps_yz, eps, eps_ft, pot_ft, wavef and shapes draw the permittivity, potential, wavefunctions and outlines at the coordinates of the axes; structure puts every cross section asked for (and the wells) in its own panel with one colour scale. Ambiguous requests raise.',
         [], 'every frequency, loss, wavevector, cladding, field value, permittivity and outline; two modes at two or three wavevectors, grids of 2x3 and 3x2 points, all planes and quantities',
         'Tests never draw anything.',
         ['legume/viz.py'], [('bands', 'legume/viz.py: bands, pol_bands, calculate_x, _calculate_Q'), ('fields', 'legume/viz.py: field, wavef'), ('structures', 'legume/viz.py: structure, eps_xy, eps_xz, eps_yz, eps, eps_ft, pot_ft, shapes, reciprocal')], ['values handed to matplotlib'])
    prop('C30', 'The guided-mode search finds every mode',
         'guided_mode_given_g returns the frequencies and normalised coefficients of the first n_modes modes between the light lines in ascending order, none skipped, repeated or mixed up, whenever modes are separated by more than the search step; '
         'guided_modes does so at each of an ascending list of wavevectors, also where modes appear or wavevectors repeat, although it narrows the search by the previous result.',
         ['wavevector sequences'], 'every dispersion with up to three modes of any frequencies further apart than the step and group velocities up to the speed of light; 1..4 wavevectors, 1..3 modes requested, any thickness, both polarisations',
         'Tests run a few structures whose modes are far apart; a bracket or bound off by one step loses a mode only for particular frequencies.',
         [SM, UT], [('search', 'legume/gme/slab_modes.py: guided_mode_given_g'), ('narrowing and reuse', 'legume/gme/slab_modes.py: guided_modes'), ('root', 'legume/utils.py: fsolve')], ['guided mode frequencies and coefficients'])
    prop('C32', 'Progress reports and clocks never change or stop a calculation',
         'Whatever the clock shows (time passing, standing still, set back), with verbose on or off and with either print backend, guided-mode, exciton and polariton runs complete and give the results of their matrices. The times they store (total and per step, losses included) are those the steps took, each '
         'step counted once, and a verbose report shows these seconds and their share of the total for the step it names; a silent run prints nothing. set_print_backend selects the reports that follow, refuses unknown or missing backends and leaves the current one in place then. Every object can be described (repr).',
         ['schedules', 'histories'], 'every duration of every step; interpolated and exact guided modes, with and without symmetry separation and losses; progress bars of every length and fraction',
         'Tests run silently or do not look at what is printed, on a clock that always advances.',
         ['legume/print_utils.py', 'legume/print_backend.py', 'legume/gme/gme.py', 'legume/exc/exc.py', 'legume/pol/pol.py'],
         [('reports', 'legume/print_utils.py: print_GME_report, print_ESE_report, print_HP_report, load_bar'), ('timing', 'legume/gme/gme.py: GuidedModeExp.run, run_im'), ('selection', 'legume/print_backend.py: set_print_backend')], ['stored times', 'printed reports'])
