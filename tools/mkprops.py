"""Regenerates /verif/properties.jsonl (kept in one place so statements and anchors stay in step)."""
import json, os
P = []
SRC = 'atooms/postprocessing/'
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[f if '/' in f else SRC + f for f in files],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                               mechanism=[dict(name=a, where=SRC + b if '/' not in b else b) for a, b in mech],
                               observe_at=observe, hook_needed=hook)))

IN, CF, HI = 'inputs', 'configurations', 'histories'

prop('C01', 'Displacement and velocity correlations are exact time-origin averages',
     'In d dimensions, the mean square displacement, the velocity autocorrelation and the non-Gaussian parameter reported at a time t equal the average over the time origins t0 in use of (1/N) sum |r(t0+t)-r(t0)|^2, (1/N) sum v(t0+t).v(t0) and d<dr^4>/((d+2)<dr^2>^2)-1 (0 at t=0), where displacements are those of the unfolded particles. With all origins on an evenly sampled trajectory every pair of frames at that separation contributes exactly once, and with sampling in periodic blocks every block contributes its corresponding pair.',
     [IN, CF], 'any trajectory (2d or 3d, any cell shape, any species mix, even or block-logarithmic sampling, particles crossing boundaries), any requested time grid, any number of origins',
     'The tests compare a handful of entries of one or two Lennard-Jones files, within a loose tolerance; they cannot cover all sampling patterns, dimensions, origin selections and boundary crossings.',
     ['msd.py', 'vacf.py', 'alpha2.py', 'correlation.py', 'helpers.py'],
     [('gcf_offset', 'correlation.py'), ('setup_t_grid', 'helpers.py'), ('MeanSquareDisplacement._compute', 'msd.py'), ('VelocityAutocorrelation._compute', 'vacf.py'), ('NonGaussianParameter._compute', 'alpha2.py')],
     ['grid and value after compute()'])

prop('C02', 'Overlap functions and their dynamic susceptibility match their definitions',
     'At each reported time the self overlap is the origin-averaged fraction of particles that moved by less than a, the collective overlap is the origin-averaged number of pairs (i at t0+t, j at t0) closer than a per particle, and chi_4 is the variance over the origins of the number of self-overlapping particles divided by N, together with the unnormalized first and second moments it publishes. The plain and the optimized implementation of chi_4 report the same numbers, and all available origins contribute.',
     [IN, CF], 'any trajectory, overlap distance a, time grid and origin selection, including times at which a single origin exists',
     'Tests check two chi_4 entries and a few overlap values on one file; the optimized implementation is not exercised at all.',
     ['qt.py', 'chi4t.py', 'susceptibility.py', 'correlation.py', 'realspace.f90'],
     [('self_overlap/collective_overlap', 'qt.py'), ('Chi4SelfOverlap._compute', 'chi4t.py'), ('Chi4SelfOverlapOptimized._compute', 'chi4t.py'), ('Susceptibility.compute', 'susceptibility.py')],
     ['grid and value after compute()', 'average and variance sub-correlations of chi_4'])

prop('C03', 'Reported time grids are real, sorted and closest to the requested times',
     'Every time-dependent correlation reports strictly increasing times, each of which is the timestep times an existing difference of steps between two frames, and one value per time. Each requested time is represented by an available separation at minimal distance from it, no unrequested separation is added (except t=0 where normalization needs it), and t=0 yields the exact zero-time value.',
     [IN, CF], 'any list of steps (even, block-logarithmic, irregular), any timestep, any requested grid including duplicates, unsorted, non-representable and too large times',
     'Tests use a few fixed files whose requested times coincide with available ones.',
     ['helpers.py', 'correlation.py', 'msd.py', 'vacf.py', 'alpha2.py', 'qt.py', 'chi4t.py', 'fkt.py'],
     [('setup_t_grid/_templated', 'helpers.py'), ('gcf_offset', 'correlation.py'), ('IntermediateScatteringBase.__init__', 'fkt.py')],
     ['grid after compute()'])

prop('C04', 'The norigins option selects the documented set of time origins',
     'With norigins=-1 all frames (all blocks, for block sampling) serve as origins, with norigins=1 a single origin is used, with an integer n the origins are equally spaced by floor(M/n) frames or blocks, M being their number, so that at least min(n, M) are used, with a fraction f one origin every int(1/f) frames or blocks is used, and the reported average is the average over exactly those origins. Values given as strings from the command line mean the same as numbers, and the spacing between origins is always a whole number of sampling blocks when blocks repeat.',
     [IN, CF], 'all admissible values and types of norigins, any number of frames and block size, static and time-dependent correlations',
     'Tests only pass norigins in a few numeric forms and rarely check how many origins were really used.',
     ['helpers.py', 'correlation.py', 'gr.py', 'sk.py', 'vacf.py', 'ba.py'],
     [('adjust_skip', 'helpers.py'), ('Correlation.__init__', 'correlation.py')],
     ['value after compute()', 'frames read from the trajectory'])

prop('C05', 'g(r) is the normalized minimum-image pair histogram',
     'The radial distribution function at each reported distance r equals the number of distinct pairs (i in group 0, j in group 1) whose minimum-image distance falls in the bin [r-dr/2, r+dr/2), averaged over the frames in use and divided by the ideal-gas count of that shell at the mean density, in any dimension. Reported distances are bin centres spaced by dr, consistent with the requested grid when one is given, up to half the shortest cell side or to rmax when that is set; cells that do not repeat periodically use plain distances and count as centres only particles farther than rmax from the boundary.',
     [IN, CF], 'any particle configuration (clusters, crystals, overlapping boundaries, variable particle number), 2d/3d cells of any shape, bin width, user grid, rmax, origin selection',
     'Tests compare a few peaks of one LJ file; they cannot settle every geometry, boundary crossing and normalization.',
     ['gr.py', 'realspace.f90', 'linkedcells.py'],
     [('RadialDistributionFunctionLegacy._compute', 'gr.py'), ('RadialDistributionFunctionFast._compute', 'gr.py'), ('gr_self_c/gr_distinct_c', 'realspace.f90')],
     ['grid and value after compute()'])

prop('C06', 'Fast pair searches find exactly the pairs a full search finds',
     'Limiting the distance range so that linked cells are enabled never changes the g(r) values at the distances still reported, and the plain-Python and the compiled implementations agree bin by bin. With at least three cells along each periodic side, the cell-based neighbour search returns, for every particle, each other particle (or each particle of the other set) within the cutoff exactly once, under full, partial or no periodicity, also when the cell changes from one frame to the next or the same object is used for different searches.',
     [IN, CF, HI], 'any configuration including particles on cell borders and outside the central cell, any cutoff giving at least three cells per side, any order of frames',
     'Linked cells are never reached by the passing tests with the installed numpy, and agreement is tested on one configuration.',
     ['gr.py', 'linkedcells.py', 'realspace.f90'],
     [('LinkedCells.compute', 'linkedcells.py'), ('gr_neighbors_self_c/gr_neighbors_distinct_c', 'realspace.f90'), ('pairs_newton_hist/pairs_hist', 'gr.py')],
     ['grid and value of the three search strategies', 'neighbour lists'])

prop('C07', 'S(k) equals the density correlation at the wave-vectors it reports',
     'The structure factor reported at each k is the average, over the frames in use and over exactly the wave-vectors the object reports for that k, of Re rho_0(k) rho_1(k)* / sqrt(N_0 N_1) with rho(k) = sum exp(i k.r) over the particles of each group. This holds for total and cross-group calculations, for every implementation, in 2d and 3d, for elongated cells, and for cells that change along the trajectory, in which case wave-vectors compatible with each frame are used.',
     [IN, CF], 'any configuration, cell, wave-vector grid or explicit list of wave-vectors, origin selection, fluctuating cells and particle numbers',
     'Tests compare a few values on two files and only one implementation.',
     ['sk.py', 'fourierspace.py', 'fourierspace.f90'],
     [('StructureFactorLegacy._compute', 'sk.py'), ('StructureFactorFast._compute', 'sk.py'), ('expo_sphere', 'fourierspace.py'), ('sk_bare', 'fourierspace.f90')],
     ['grid, value and kvectors after compute()'])

prop('C08', 'Wave-vectors are valid, within their shell, capped, unique and reproducible',
     'Every wave-vector used is a non-zero integer combination of the reciprocal vectors of the cell, its norm lies within dk of the requested k (dk being widened only for shells that would be empty; the selection always ends, however close the requested k are), no vector repeats within or across shells, each shell holds min(nk, available) of them, and the reported k is the mean norm of its shell. The same request always yields the same wave-vectors, whatever filter or species is selected, whether computed before or after other correlations, and without altering the caller\'s grid; wave-vectors supplied explicitly are the ones used.',
     [IN, CF, HI], 'any cell (2d/3d, elongated), grid, nk, dk, order of calculations sharing arguments, partial and filtered calculations',
     'Tests use cubic cells and check only that the average k is close to the requested one.',
     ['fourierspace.py', 'partial.py', 'sk.py', 'fkt.py'],
     [('FourierSpaceCorrelation._setup', 'fourierspace.py'), ('_setup_grid_sphere', 'fourierspace.py'), ('kvectors property', 'fourierspace.py')],
     ['kvectors, kgrid, report() after compute()'])

prop('C09', 'F_s(k,t) equals the self density correlation at its wave-vectors',
     'The self intermediate scattering function at (k,t) is the average over particles, over the time origins in use and over exactly the wave-vectors reported for k, of cos k.(r(t0+t)-r(t0)), divided by its t=0 value (which makes it 1 at t=0) unless normalization is switched off, and lies in [-1,1]. The compiled and the plain implementation agree, and the result does not depend on the amount of memory granted for tabulation.',
     [IN, CF], 'any trajectory, wave-vector and time grid, number of particles relative to the internal blocking, memory limit, origin selection, normalization flag, 2d and 3d',
     'Tests compare a few entries for one system size and one memory setting.',
     ['fkt.py', 'fourierspace.py', 'fourierspace.f90'],
     [('SelfIntermediateScatteringLegacy._compute', 'fkt.py'), ('SelfIntermediateScatteringFast._compute', 'fkt.py'), ('fskt_kernel_2d/3d', 'fourierspace.f90')],
     ['grid, value and kvectors after compute()'])

prop('C10', 'F(k,t) equals the collective density correlation at its wave-vectors',
     'The coherent intermediate scattering function at (k,t) is the average over time origins and over exactly the reported wave-vectors of Re rho_0(k,t0+t) rho_1(k,t0)*, divided by its t=0 value unless normalization is switched off. It holds for total, like-species and cross-species calculations, and for particle numbers that change along the trajectory.',
     [IN, CF], 'any trajectory, wave-vector and time grid, species pair, origin selection, 2d and 3d',
     'Tests compare a few entries of one file.',
     ['fkt.py', 'fourierspace.py'],
     [('IntermediateScattering._compute', 'fkt.py')],
     ['grid, value and kvectors after compute()'])

prop('C11', 'The spectral density uses the physical wave-vector and radius of each particle',
     'The spectral density at k equals the average over frames and over the reported wave-vectors of |sum_j m(k;R_j) exp(i k.r_j)|^2 / V, where m(k;R) = 4 pi (sin kR - kR cos kR)/k^3 is evaluated at the norm of the wave-vector in the units of the trajectory and R_j is the radius of particle j in that frame. Rescaling all lengths by s rescales the result by s^3 at k/s.',
     [IN, CF], 'any 3d trajectory and radius trajectory, wave-vector grid, origin selection',
     'The only test of this quantity needs a missing data file.',
     ['ik.py', 'fourierspace.py'],
     [('SpectralDensity._compute', 'ik.py')],
     ['grid, value and kvectors after compute()'])

prop('C12', 'The bond-angle distribution counts every bonded triplet once, in the right bin',
     'The bond-angle distribution is the histogram of the angles k-i-j over all central particles i of group 0 and ordered pairs of distinct neighbours j,k in group 1 closer than the cutoff of their species pair (minimum image), normalized to unit area over the reported angles, straight angles included. The number of neighbours per particle is not limited, and computing it neither needs nor overwrites any g(r) output.',
     [IN, CF], 'any configuration, cutoffs per species pair, bin width, coordination number, crystals with exactly collinear bonds',
     'Tests run one disordered system with default cutoffs.',
     ['ba.py', 'realspace.f90'],
     [('BondAngleDistribution._compute', 'ba.py'), ('neighbors, bond_angle', 'realspace.f90')],
     ['grid and value after compute()', 'files written'])

prop('C13', 'Partial correlations are those of the species, and compose to the total',
     'The partial correlation of a species (or pair) equals the one computed directly on a trajectory containing only those particles, in the same cell and wave-vectors, and pair (B,A) reports what (A,B) does for symmetric functions. Concentration-weighted partials add up to the total: for the mean square displacement, self overlap, velocity autocorrelation and F_s at fixed wave-vectors linearly in c_a, for g(r) with c_a c_b, for S(k) and unnormalized F(k,t) with sqrt(N_a N_b) and 1.',
     [IN, CF], 'any number of species and composition (also a single particle of a species), species given by any label, any correlation class',
     'Tests compare a few numbers for one binary mixture.',
     ['partial.py', 'helpers.py', 'correlation.py', 'gr.py', 'sk.py', 'fkt.py', 'msd.py'],
     [('Partial', 'partial.py'), ('filter_species', 'helpers.py'), ('_setup_arrays_twobody', 'correlation.py')],
     ['partial[...].grid/value after compute()'])

prop('C14', 'A filter restricts a correlation to exactly the particles that satisfy it',
     'A correlation filtered by a condition equals the unfiltered correlation of a trajectory holding only the particles that satisfy the condition in each frame, for any condition on particle properties (the spectral density, which takes no filters, refuses them); two conditions select the two groups of a two-body correlation, and a single condition leaves the second group unfiltered. Conditions never leave a trace on the particles, a condition true for all particles changes nothing, and more filters than bodies are refused.',
     [IN, CF], 'any condition (species, coordinates, radius, arithmetic and boolean combinations), one- and two-body correlations, conditions whose selection changes from frame to frame where the correlation allows it',
     'Tests use one species condition on one file.',
     ['filter.py', 'correlation.py', 'gr.py', 'sk.py'],
     [('Filter', 'filter.py'), ('Correlation.add_filter', 'correlation.py')],
     ['grid and value after compute()', 'particle attributes before and after'])

prop('C15', 'Weights enter S(k) as per-particle factors, fluctuations relative to the mean',
     'With a weight field w the structure factor is <W_0 W_1*> - <W_0><W_1>* averaged over frames and reported wave-vectors with W = sum w_j exp(i k.r_j), normalized by sqrt(N_0 N_1); with fluctuations the frame-averaged mean of w is subtracted from w first. The field may come from the same or from another trajectory with the same steps (a mismatch in steps is refused), a unit weight reproduces the unweighted result when the average density vanishes, a constant weight c scales it by c^2, and filters pick the weights of the filtered particles.',
     [IN, CF], 'any weight field, same or separate weight trajectory, total and cross-species calculations, with or without fluctuations',
     'Tests compare one field on one file.',
     ['correlation.py', 'sk.py', 'helpers.py', 'partial.py'],
     [('Correlation.add_weight/_setup_weight_*', 'correlation.py'), ('copy_field', 'helpers.py'), ('StructureFactorLegacy._compute', 'sk.py')],
     ['value after compute()'])

prop('C16', 'Results do not depend on particle order, origin of space or periodic images',
     'Permuting the particles (consistently in all frames), translating all of them by a constant vector and folding back, replacing positions by periodic images, permuting or reflecting the axes together with the cell, or rescaling all lengths and times leaves every correlation (except weighted S(k), whose subtracted averages mix wave-vectors) unchanged up to the corresponding rescaling of grid and value. Displacements are those of the unfolded motion as long as particles move by less than half a cell side between frames, and folded or unfolded input describe the same motion.',
     [IN, CF], 'any trajectory and any such transformation, for every correlation in the package',
     'No test applies transformations; they are metamorphic relations over all inputs.',
     ['correlation.py', 'gr.py', 'sk.py', 'fkt.py', 'msd.py', 'qt.py', 'ba.py', 'realspace.f90'],
     [('_setup_arrays_onebody', 'correlation.py'), ('minimum image in kernels', 'realspace.f90'), ('CollectiveOverlap._compute', 'qt.py')],
     ['grid and value after compute() on both inputs'])

prop('C17', 'Fixing the centre of mass removes exactly the global drift',
     'With the centre of mass fixed, mean square displacement, F_s(k,t) and F(k,t) equal those of the trajectory whose mass-weighted centre of mass has been subtracted frame by frame, for the whole system, for species and for species pairs, whether or not unfolded positions are stored in the trajectory. Adding any time-dependent rigid translation to the input leaves them unchanged.',
     [IN, CF], 'any masses, drift (smaller than half a cell per frame), composition, stored or reconstructed unfolded positions',
     'Tests check one constant drift for the total MSD.',
     ['correlation.py', 'msd.py', 'fkt.py', 'partial.py', 'api.py'],
     [('_setup_arrays_onebody/_setup_arrays_twobody', 'correlation.py')],
     ['grid and value after compute()'])

prop('C18', 'Computing again gives the same answer',
     'Calling compute (or do) repeatedly on the same object returns the same grid and value every time (to floating-point rounding), and two objects built with the same arguments use the same wave-vectors and agree, to rounding, regardless of other correlations computed in between or of calls that consume random numbers, and whether or not progress bars and logging are enabled. Sharing argument lists (grids) between objects does not couple their results.',
     [HI, CF], 'any sequence of computations in one process on shared trajectories, grids and random state, for fixed cells',
     'Tests compute each object once, in a fresh state.',
     ['correlation.py', 'gr.py', 'fourierspace.py', 'chi4t.py', 'ba.py', 'msd.py', 'partial.py'],
     [('Correlation.compute/_setup_arrays', 'correlation.py'), ('random.seed in _setup', 'fourierspace.py')],
     ['grid and value after each compute()'])

prop('C19', 'Analysis never alters the trajectory or the arguments it is given',
     'After any computation the trajectory object (also when held in memory, cached or sliced) yields the same steps, particles, positions, velocities, species and cell in every frame as before, the trajectory file is byte-identical, and the lists or arrays passed as arguments are unchanged. Data arrays the caller passed in or reads later are not aliased to results.',
     [IN, HI, CF], 'any correlation, partial, filter, weight and centre-of-mass option, on in-memory views, cached, sliced and file trajectories',
     'Tests never look at the trajectory after the computation.',
     ['correlation.py', 'filter.py', 'helpers.py', 'fourierspace.py', 'gr.py', 'ba.py'],
     [('_setup_arrays_onebody', 'correlation.py'), ('_filter_generic', 'filter.py'), ('filter_species', 'helpers.py')],
     ['deep fingerprint of trajectory and arguments before and after'])

prop('C20', 'Output files faithfully record the result',
     'The file written for a correlation holds one row per grid point in order (all pairs, the first variable slowest, for functions of two variables) whose columns are grid variables and value to six significant digits, preceded by commented metadata naming columns, title, parent trajectory and the analysis results. Reading a one-variable file back gives the same grid and value to that precision, and relaxation-time files list one line per k with the time at which the function crosses 1/e of its initial value, if it does.',
     [IN, CF], 'any correlation and result, including single-row results, many k-points and missing relaxation times',
     'Tests check that files exist and read one of them.',
     ['correlation.py', 'fkt.py', 'helpers.py'],
     [('Correlation.write/read', 'correlation.py'), ('_write_tau/_extract_tau', 'fkt.py')],
     ['bytes of the files written'])

prop('C21', 'Each result has its own file, and update recomputes exactly when needed',
     'Different correlations, species, species pairs, filters and weight fields of one trajectory are written to different paths derived from the output pattern, all files requested are written (creating folders), nothing else is created or modified, and no file is written when the trajectory has no path. With update on, a result is recomputed and rewritten if its file is missing or not newer than the trajectory, for any member of a partial set, and otherwise left untouched and read back.',
     [IN, CF, HI], 'any output pattern, sequence of runs and touches, set of correlations on one trajectory',
     'Tests call update once, with one file state.',
     ['correlation.py', 'partial.py', 'filter.py', 'core.py', 'ba.py', 'fkt.py', 'chi4t.py'],
     [('_output_file/need_update/do', 'correlation.py'), ('Partial.do/need_update', 'partial.py')],
     ['file-system events and file contents'])

prop('C22', 'The high-level functions and command line compute what the classes compute',
     'For every input file, each api function and the matching pp.py sub-command write, for the total and (unless disabled) for each species or pair, exactly the numbers obtained by calling the correlation class directly with the documented meaning of the options (time window, k-grid, sampling, origins, first/last/skip frame selection, filter, centre-of-mass, weights, back-end choice). Several input files are treated independently of one another, and options reach both the total and the partial calculation.',
     [IN, CF], 'any trajectory file, any combination of options, several files per call',
     'Tests call api functions once with default options mainly to check they do not crash.',
     ['api.py', 'bin/pp.py', 'bin/acf.py', 'core.py'],
     [('api functions', 'api.py'), ('_get_trajectories/_compat', 'api.py'), ('pp.py', 'bin/pp.py')],
     ['files written by api/CLI versus class results'])

prop('C23', 'Compiled kernels never touch memory outside the arrays they are given',
     'No computation reachable through the package, and no direct call of the compiled kernels with consistent shapes, reads or writes outside the bounds of its arrays or triggers undefined behaviour, whatever the particle configuration, coordination number, distance range, grid or wave-vectors.',
     [IN, CF], 'any configuration including dense clusters, coincident particles, distances at the edge of the grid, user grids shorter than the cell, extreme wave-vectors',
     'Out-of-bounds accesses usually leave the tested values intact; no test runs with bounds checking.',
     ['realspace.f90', 'fourierspace.f90', 'gr.py', 'ba.py', 'sk.py', 'fkt.py', 'linkedcells.py', 'fourierspace.py'],
     [('gr_* kernels', 'realspace.f90'), ('neighbors/bond_angle', 'realspace.f90'), ('sk_bare/fskt_kernel_*', 'fourierspace.f90')],
     ['gfortran bounds checks, AddressSanitizer and UBSan reports'])

prop('C24', 'Compiled kernels compute the same numbers as their definition',
     'Each compiled kernel (pair histograms in both memory layouts, neighbour searches, bond angles, distances, minimum image, surface mask, overlap, density modes, self-scattering products) returns what an elementary evaluation of its definition gives, in any dimension it accepts. C-ordered and Fortran-ordered variants agree exactly.',
     [IN], 'any positions, boxes, cutoffs, species and index offsets',
     'Most kernels are not called by any test; others only through one system.',
     ['realspace.f90', 'fourierspace.f90'],
     [('module compute', 'realspace.f90'), ('module fourierspace_module', 'fourierspace.f90')],
     ['outputs of direct kernel calls'])

prop('C25', 'Derived quantities follow from the data they summarize',
     'Relaxation and diffusive times are the first crossing of the reported data with the threshold (1/e of the initial value for F(k,t) and F_s(k,t), 1/e for the self overlap, sigma^2 for the MSD) by linear interpolation, and absent when there is no crossing; the diffusion coefficient is the least-squares slope of the MSD beyond sigma^2 over 2d; peak time and height of chi_4 and alpha_2 are the parabolic vertex around the largest entry, or that entry at the border.',
     [IN], 'any computed data, including data that never cross, cross at a grid point or in the first interval, and extrema at the border',
     'Tests do not compare derived quantities with the data, apart from one tau.',
     ['helpers.py', 'msd.py', 'qt.py', 'chi4t.py', 'alpha2.py', 'fkt.py'],
     [('feqc, ifabsmm, linear_fit', 'helpers.py'), ('analyze methods', 'msd.py')],
     ['analysis dictionary after analyze()'])

prop('C26', 'Generic correlators and grids obey their contracts on any data',
     'acf, gcf and gcf_offset return, for sorted time differences, the average of the given function (for acf, of the product of deviations from the mean) over all origins at the given spacing that fit in the data, with the number of terms used. Linear grids start at the lower bound, are evenly spaced and reach the upper bound when the spacing divides the range; logarithmic grids increase monotonically from x1 to x2 with the requested number of points, for any positive x2 and x1>=0.',
     [IN], 'any series, times, spacing, lag grids, and bounds',
     'Tests use one short series and a couple of grids.',
     ['correlation.py', 'helpers.py', 'bin/acf.py'],
     [('acf, gcf, gcf_offset', 'correlation.py'), ('linear_grid, logx_grid', 'helpers.py')],
     ['returned lists'])

prop('C27', 'Different correlations of one trajectory are mutually consistent',
     'On the same wave-vectors, origins and particles: N S(k) equals the unnormalized F(k,0); 1-F_s(k,t) tends to k^2 MSD(t)/(2d) and S_4(k,t) to chi_4(t) as k goes to zero; the chi_4 moments reproduce the self overlap (average/N), which never exceeds the collective one for a below half the cell; the generic susceptibility is N times the variance of the single-origin correlation over all the starting frames (spaced as norigins says) from which the largest requested time can be reached, and coincides with chi_4 for the self overlap; 1 + rho times the integral of g(r) up to a equals the collective overlap at t=0, and all g(r) implementations and ranges agree where they overlap; particles at constant velocity give MSD = VACF(0) t^2, and VACF and the mean squared velocity change add up to <v^2>; F and F_s of a single particle coincide; I(k) = rho v(k)^2 S(k) for equal spheres.',
     [IN, CF], 'any trajectory (dimension, sampling, cell, species, filters), time and wave-vector grids, overlap distance and origins shared between the correlations',
     'Each test looks at a single correlation in isolation.',
     ['sk.py', 'fkt.py', 'msd.py', 'vacf.py', 'chi4t.py', 's4kt.py', 'qt.py', 'susceptibility.py', 'gr.py', 'ik.py'],
     [('compute of each class', 'correlation.py')],
     ['values of several correlations of one trajectory'])

prop('C28', 'The four-point structure factor is the fluctuation of the overlap modes',
     'S_4(t,k) at each reported time and k is the average over the reported wave-vectors of (<|W|^2> - |<W>|^2)/N over the time origins, where W = sum_j w_j exp(i k.r_j(t0)) and w_j is 1 if particle j moved by less than a between t0 and t0+t and 0 otherwise.',
     [IN, CF], 'any trajectory, time and wave-vector grid, overlap distance and origin selection',
     'No test calls it.',
     ['s4kt.py', 'fourierspace.py', 'qt.py'],
     [('S4ktOverlap._compute', 's4kt.py')],
     ['grid, value and kvectors after compute()'])
prop('C29', 'The stress autocorrelation averages the off-diagonal stress over all origins',
     'The stress autocorrelation at each reported time t is the average over the requested time origins, and over the distinct pairs of axes (a,b), a<b, of sigma_ab(t0) sigma_ab(t0+t) / V, where sigma_ab is the stress tensor stored by the interaction plus the kinetic term sum_j m_j v_ja v_jb. It holds in two and three dimensions, for any masses, and reported times are the actual ones between the frames used.',
     [IN, CF], 'any trajectory with velocities and a stress tensor per frame, particle masses, time grid and origin selection, 2d and 3d',
     'No test calls it.',
     ['sacf.py', 'correlation.py'],
     [('StressAutocorrelation._compute', 'sacf.py')],
     ['grid and value after compute()'])
prop('C30', 'Results depend on the frames, not on how the trajectory is accessed',
     'Every correlation computed from the path of a trajectory file, from a trajectory object in any supported format, cached or not, from frames held in memory (however their arrays are laid out), from a slice, or from a trajectory to which callbacks have been added equals the one computed from plain frames holding the same steps, particles and cell. Reading frames or computing other correlations from the same object in between does not change it.',
     [IN, CF], 'any trajectory, format, caching, slicing, callbacks and order of access',
     'Each test opens one file in one way; equality has to hold for each combination of correlation and way of access.',
     ['correlation.py', 'core.py', 'partial.py', 'helpers.py', 'fourierspace.py'],
     [('Correlation.__init__ and _setup_arrays', 'correlation.py')],
     ['grid, value and kvectors after compute()'])
prop('C31', 'User-defined correlations receive the phase-space data they ask for',
     'A correlation class written by the user on top of the base class, or of the Fourier-space base class, is handed for every frame and in the order of the particles the data named by its phasespace (positions up to periodic images, PBC-unfolded positions - those stored in the trajectory if any - velocities and species), whichever combination is asked for, for one or two groups selected by the filters, relative to the centre of mass of the whole system when this is fixed. Its results go through compute, do, write, read, filters, weights and partials as those of the correlations of the package.',
     [IN, CF], 'any subclass (phasespace, number of bodies, variables), trajectory, format, filters, partials, centre of mass fixed or not',
     'Tests never subclass the base classes; combinations of data, filters and kinds of trajectory are unbounded.',
     ['correlation.py', 'fourierspace.py', 'partial.py', 'filter.py', 'helpers.py'],
     [('_setup_arrays and its one- and two-body parts', 'correlation.py'), ('compute, do, read and write', 'correlation.py')],
     ['arrays handed to _compute(), grid and value after compute(), files'])
prop('C32', 'Results do not depend on how settings are given or the run is followed',
     'The same settings give the same results however they are given: grids and wave-vectors as lists, tuples or arrays (which are not modified), positional or keyword arguments, attributes (bin width, distances, wave-vector selection, sigma, grids of k) set after construction and before compute(), of a whole correlation or of one of its partials (which leaves the others alone). The global output path set when an object is built is used by that object only. Progress bars and log messages at any level do not change results. show() plots exactly the grid and value, labelled, and displays the figure only if asked to.',
     [IN, CF], 'any trajectory, correlation class, container of the grids, order in which settings are given, progress bars, log levels',
     'Tests give each setting in a single way.',
     ['correlation.py', 'fourierspace.py', 'partial.py', 'progress.py', 'gr.py', 'msd.py', 'core.py'],
     [('constructors and compute()', 'correlation.py'), ('show()', 'correlation.py')],
     ['grid, value, kvectors and analysis after compute()', 'calls to the plotting library', 'log records'])

prop('C33', 'An interrupted calculation leaves nothing behind',
     'If a calculation is interrupted at any point before its results are written - an error while reading a frame, or the user stopping it - the exception reaches the caller, the frames of the trajectory and its callbacks are as before, and so are all the files (for partial correlations, each file is either as before or complete). Whatever is done afterwards - compute(), do() or an update, with the same object or with another one - gives what it would have given without the interruption.',
     [IN, CF], 'any trajectory, correlation class (whole, partial, weighted, filtered), line of the package or access to the frames at which the calculation stops, first or later calculation',
     'Tests never interrupt a calculation.',
     ['correlation.py', 'fourierspace.py', 'partial.py', 'gr.py', 'sk.py', 'fkt.py', 'ba.py'],
     [('compute() and do()', 'correlation.py'), ('set up of wave-vectors', 'fourierspace.py')],
     ['exceptions raised', 'files, frames and callbacks after the interruption', 'grid, value, kvectors, analysis and files of the calculations done afterwards'])

prop('C34', 'Requests that cannot be honoured are refused and change nothing',
     'Requests that cannot be honoured - more filters or conditions than the correlation has bodies, a filter on an already filtered correlation, weights without a field, missing from the particles or given at other steps, unknown properties or numbers of origins, wave-vectors of unsupported dimensions, output files to be read or trajectory files that are missing or cut short, unknown options of the command line - raise an exception (the command exits with an error), at once or when computing. If a request is refused at once, the object then computes and writes what it would have without it, under the same tag and path; in any case trajectory, callbacks, particles, files and other objects are as before.',
     [IN, CF], 'any trajectory, correlation class, request that cannot be honoured, before or after a calculation',
     'Tests check at most that an exception is raised.',
     ['correlation.py', 'filter.py', 'fourierspace.py', 'helpers.py', 'api.py'],
     [('add_weight() and add_filter()', 'correlation.py'), ('Filter', 'filter.py'), ('input files', 'api.py')],
     ['exceptions raised, exit status', 'tag, grid, value and output files of the object afterwards', 'callbacks, particles and files'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as fh:
    for p in P:
        fh.write(json.dumps(p) + '\n')
for p in P:
    assert len(p['title']) <= 80, (p['id'], len(p['title']))
print(len(P), 'properties')
