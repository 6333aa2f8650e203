MAF = ['include/nuSQuIDS/marray.h']
P('A01', 'Array elements live at their row-major position',
  'Every in-range index tuple of a multidimensional array of any rank and extents names exactly one element, the one at its row-major position, whether it is reached by chained subscripts, iterators, reverse iterators, front/back or the raw buffer, mutable or const. Distinct index tuples name distinct elements, and recovering the coordinates of an iterator inverts the indexing.',
  'inputs', 'all extents (total up to the address space), all in-range index tuples, ranks 1 to 4, mutable and const access', 'tests build a few fixed small arrays; the offset arithmetic must be right for every extent combination, including products beyond 32 bits',
  MAF, [('chained subscript proxies accumulate the offset', 'include/nuSQuIDS/marray.h: detail::subscript_proxy, marray::operator[]'), ('iterator coordinate recovery', 'include/nuSQuIDS/marray.h: marray::getCoordinate')],
  state=[('extents', 'size of each dimension', 'include/nuSQuIDS/marray.h'), ('data', 'row-major buffer', 'include/nuSQuIDS/marray.h')], observe=['element addresses', 'getCoordinate result'],
  note='ranks 1-4 with symbolic extents; element type double; rank is a template parameter, so other ranks are not covered')
P('A02', 'Changing the shape of an array keeps the surviving elements',
  'Inserting, erasing or resizing along any dimension leaves every surviving element with its value at its correspondingly shifted index, fills the inserted positions with the given (or zero) value, and updates only the extent concerned. No element outside the array is read or written and no storage is lost.',
  'inputs histories', 'all extents, positions, counts and element values; each dimension of ranks 1 to 3; sequences resize(dim) ... over all dimensions', 'the data movement depends on four sizes at once; tests sample a handful',
  MAF, [('insert/erase segment copies', 'include/nuSQuIDS/marray.h: marray::insert, marray::erase'), ('resize', 'include/nuSQuIDS/marray.h: marray::resize')], observe=['element values after the call', 'extents'],
  note='symbolic extents, positions, counts and contents for ranks 1-3; element type double (move-insert path)')
P('A03', 'Array shape, size and content agree after construction and reshape',
  'A newly constructed array has the requested extents, its size is their product, and its elements are zero or the supplied initial values in row-major order; reshape keeps the elements and changes only the shape when the total matches. Wrong ranks, ragged or wrongly sized initialisers and ranges of the wrong length are refused with an exception.',
  'inputs', 'all extents and initial values, empty arrays included', 'tests never use empty arrays, ragged initialisers or ranges of the wrong length',
  MAF, [('constructors, nested initialiser checks', 'include/nuSQuIDS/marray.h: marray::marray, detail::initializer'), ('reshape', 'include/nuSQuIDS/marray.h: marray::reshape')], observe=['extents, size, elements, exceptions'],
  note='nested initialiser lists are checked at fixed shapes (their size is part of the type) with arbitrary values; everything else at symbolic extents')
P('A04', 'Arrays have value semantics, also when an element copy throws',
  'A copy is an independent array equal to its source, a move or swap transfers the elements without copying, and assignment replaces the old contents whatever the previous shapes were. If copying an element throws, no storage leaks, every object is destroyed exactly once, and an array being assigned to or extended keeps its previous contents.',
  'inputs fault_sequences', 'all shapes and contents; every position at which an element copy can throw', 'exceptions at an arbitrary element copy cannot be sampled by tests on plain doubles',
  MAF, [('copy/move/assignment/swap', 'include/nuSQuIDS/marray.h: marray::marray, operator=, swap'), ('roll-back on a throwing copy', 'include/nuSQuIDS/marray.h: copy_init_buffer, insert')], observe=['element values', 'count of live objects', 'allocated storage'],
  note='the throwing element type is a test double in the driver; the throw position is arbitrary')
P('A05', 'Array arithmetic acts element by element',
  'Arithmetic between two arrays of one shape, between an array and a scalar, the compound assignments and the elementary functions give, at every index, the result of the operation on the corresponding elements, leave their operands unchanged (except the target) and return the common shape. Shapes that differ by extents of one are broadcast; incompatible shapes are refused.',
  'inputs', 'all extents and element values; operand kinds const, mutable, temporary; broadcasting for small shapes (bounded)', 'the operator templates expand to many operand-kind combinations that tests never instantiate',
  MAF, [('operator templates and broadcasting', 'include/nuSQuIDS/marray.h: applyOp, operator+ - * /, exp, pow, ...')], observe=['result elements and extents'],
  note='same-shape and scalar operations proved for all extents; broadcasting between different shapes is a bounded stand-in (extents 1..3, run natively), not counted as proved; ' + 'transcendental functions are uninterpreted')
P('A06', 'Array sums add every element exactly once',
  'The sum of an array adds every element exactly once, and a sum along one dimension gives, for each remaining index tuple, the sum over the removed index, with or without keeping that dimension as an extent of one.',
  'inputs', 'all rank 1 extents and contents; axis sums for small shapes (bounded)', 'tests do not call the reductions', MAF, [('sum', 'include/nuSQuIDS/marray.h: marray::sum, sum_same_rank')], observe=['sum value'],
  note='the full sum is proved for all extents; axis sums of ranks 2 and 3 are bounded stand-ins (extents 1..3)')
P('B01', 'Aligned storage is aligned, disjoint, and released exactly once',
  'Every block handed out by the aligned allocator starts at a multiple of the requested power of two, provides the full requested number of elements, and does not overlap other live blocks. It can be released by any equal allocator in any order; oversized requests are refused with an allocation error and releasing nothing is harmless. Allocators compare equal exactly when they ask for the same alignment.',
  'inputs histories', 'all alignments 1 to 2^31, element types of several sizes, all element counts, all addresses the underlying heap may return', 'the heap returns only some residues of the address in a test run', ['include/nuSQuIDS/aligned_alloc.h'],
  [('offset stash in the padding before the block', 'include/nuSQuIDS/aligned_alloc.h: allocate, deallocate')], observe=['block address and extent', 'freed address'],
  note='the address returned by operator new is arbitrary (multiple of 16); alignments 2^0..2^31 enumerated, everything else symbolic')
TF = ['include/nuSQuIDS/tools.h', 'src/tools.cpp']
P('C01', 'Linear and logarithmic sample grids hit their limits and spacing',
  'A linear grid of n samples has its i-th sample at min+(max-min)*i/(n-1) and a logarithmic grid is linear in the logarithm, both starting exactly at min and ending exactly at max. One sample gives the upper limit and zero samples are refused.',
  'inputs', 'all limits and all sample counts', 'an off-by-one in the loop or the last sample only shows at particular counts', TF, [('linspace, logspace', 'src/tools.cpp: linspace, logspace')], observe=['returned samples'],
  note='exp/log are uninterpreted functions with their inverse law; real arithmetic')
P('C02', 'Akima interpolation: nodes, end slopes and cubic pieces',
  'The one-dimensional spline passes through every data point, its tabulated slopes are Akima\'s weighted means of the neighbouring secants (with the secants continued past both ends), and between two nodes it is the cubic with those node values and slopes. The node tables handed back equal the data it was built from.',
  'inputs', 'every number of points from 3 up, all strictly increasing abscissas, all ordinates, every evaluation point', 'only a dense set of special data (equal secants, ends, three or four points) reaches every branch', TF, [('AkimaSpline construction and evaluation', 'src/tools.cpp: AkimaSpline::initialize, operator()')], observe=['spline values', 'derivative table'],
  note='unbounded number of points; std::upper_bound is a trusted contract (partition precondition checked)')
P('C03', 'Akima interpolation: refused input, extrapolation, straight lines',
  'Fewer than three points, mismatched lengths and abscissas that do not strictly increase are refused. Outside the data the spline continues its first or last cubic, data on a straight line is reproduced everywhere, and initialising again discards all previous data.',
  'inputs histories', 'all data sets and evaluation points; initialise followed by initialise with any other data', 'the refusal and extrapolation branches are not tested', TF, [('input checks', 'src/tools.cpp: AkimaSpline::initialize'), ('segment lookup', 'src/tools.cpp: AkimaSpline::operator()')], observe=['spline values', 'exceptions'],
  note='as for the nodes and pieces property')
P('C04', 'Bicubic interpolation matches the tabulated grid and its slopes',
  'Inside every grid cell the bicubic interpolator is the Hermite patch of the values, slopes and mixed slopes at the four corners, so tabulated values are reproduced at the nodes; its slope tables are the Akima slopes along rows and columns. Beyond the grid the end cell is continued, an empty interpolator returns zero, and grids not matching the data are refused.',
  'inputs', 'every grid size, all strictly increasing coordinates, all tabulated values, every evaluation point', 'tests do not use the bicubic interpolator; the cell lookup, the corner numbering and sixteen coefficients must be right at every cell', TF,
  [('slope tables', 'src/tools.cpp: BiCubicInterpolator::BiCubicInterpolator'), ('cell lookup and patch', 'src/tools.cpp: BiCubicInterpolator::operator()')], observe=['interpolated values', 'exceptions'],
  note='grid sizes symbolic; the Akima slopes enter through their contract (a function of the two sequences), their values are C02; end-to-end reproduction of bilinear data is a bounded stand-in')
P('C05', 'Tricubic interpolation matches the tabulated grid and its slopes',
  'Inside every grid cell the tricubic interpolator is the Hermite patch of the values, slopes and mixed slopes at the eight corners, so tabulated values are reproduced at the nodes; its seven derivative tables are the Akima slopes along the respective directions. Beyond the grid the end cell is continued and grids not matching the data are refused.',
  'inputs', 'every grid size, all strictly increasing coordinates, all tabulated values, every evaluation point', 'the one existing test samples a polynomial that does not distinguish all mixed derivatives', TF,
  [('derivative tables', 'src/tools.cpp: TriCubicInterpolator::TriCubicInterpolator'), ('cell data, coefficients, polynomial', 'src/tools.cpp: TriCubicInterpolator::collect_data, get_coeffs, evaluate_polynomial')], observe=['interpolated values', 'exceptions'],
  note='grid sizes symbolic; the Akima slopes enter through their contract; the cell contracts use the proved contract of get_coeffs and evaluate_polynomial (C05_poly); end-to-end reproduction of trilinear data is a bounded stand-in')
QF = ['include/nuSQuIDS/AdaptiveQuad.h']
P('D01', 'Each quadrature rule is exact for its polynomials on any interval',
  'On any interval the three estimates of one quadrature step integrate polynomials exactly up to the degree of their rule (5, 9, and 13 or more to twelve digits), scale linearly with the interval and the integrand, are symmetric under reflection, and evaluate the integrand only inside the interval. The split points lie inside in order with their integrand values kept, and badness and divisibility report what they claim.',
  'inputs', 'all intervals, end point values and integrands (arbitrary functions)', 'a wrong weight or node changes results in late digits for sampled integrands only', QF, [('rule evaluation', 'include/nuSQuIDS/AdaptiveQuad.h: Interval::evaluate'), ('subdivision criteria', 'include/nuSQuIDS/AdaptiveQuad.h: canSubdivide, badness')], observe=['estimates', 'split points', 'number of evaluations'],
  note='the integrand is an uninterpreted function; square roots of constants are exact; 13 point rule to 12 digits because its constants are decimal')
P('D02', 'Adaptive integrals: limits, tolerances, end points and reported accuracy',
  'Exchanging the limits changes only the sign of an integral, tolerances below machine precision and limits too close together are refused without evaluating the integrand, and supplied end point values are used for their own limit. The integrand is evaluated only inside the limits, missing end point values are handed back, the uncertainty is reported, and out of tolerance is flagged exactly when subdivision stopped at an unacceptable uncertainty.',
  'inputs configurations', 'all limits, integrands, tolerances and option combinations, with any number of subdivisions; accuracy on concrete integrands as bounded stand-ins', 'the tests integrate four fixed functions with default options', QF, [('driver', 'include/nuSQuIDS/AdaptiveQuad.h: integrate'), ('options', 'include/nuSQuIDS/AdaptiveQuad.h: Options')], observe=['returned value', 'options', 'evaluations of the integrand'],
  note='Interval::evaluate enters through its contract (proved in D01); the subdivision loop is proved by cutting it at an invariant over the contract of its worklist (partial correctness: termination is not proved); accuracy on concrete integrands and agreement with a recursive reference are bounded stand-ins, not counted as proved')
DF = ['include/nuSQuIDS/taudecay.h', 'src/taudecay.cpp']
P('E01', 'Tau decay spectra are normalised, non-negative and end at their end points',
  'Every decay channel gives a non-negative spectrum in the energy fraction (neutrino energy no larger than the tau energy) that integrates to one and vanishes beyond its kinematic end point, and the total is the branching-ratio weighted sum of the channels with branching ratios adding to one. Spectra depend on the energies only through their ratio and are the same for taus and antitaus.',
  'inputs', 'all tau energies and all energy fractions', 'normalisation is a statement about the whole curve, not about sampled points', DF, [('channel formulas', 'src/taudecay.cpp: TauDecayToLepton ... TauDecayToAll')], observe=['spectrum values'],
  note='the integral is decided through the shape (linear below the end point / cubic) and exact quadrature of that shape')
P('E02', 'Tabulated tau decay spectra equal the formulas; bad indices are refused',
  'Each entry of the decay tables equals the channel formula at the two energies of its row and column with the Jacobian of its variable, for both tau charges and any energy grid, also after the tables were built again for another grid. Exactly the indices outside the table are refused with an exception.',
  'inputs histories', 'all grid sizes and energies, all index pairs and neutrino types', 'tests do not build the tables', DF, [('table filling', 'src/taudecay.cpp: TauDecaySpectra::Init'), ('bounds checks', 'src/taudecay.cpp: dNdEnu_All ... dNdEle_Lep')], observe=['table entries', 'exceptions'],
  note='grid size symbolic (1 .. 2^28)')
BF = ['include/nuSQuIDS/body.h', 'src/body.cpp']
P('H01', 'Bodies report the density and composition of their model at each position',
  'At every track position a body reports the density and electron fraction of its model: constants for vacuum and uniform bodies, the interpolated table at the position (or relative radius) for tabulated ones, clamped to the end rows or empty outside as documented, with the exponential atmosphere above the surface. Tables of different or too short lengths are refused, and tables read from a file use the documented columns.',
  'inputs configurations', 'all tables (any number of rows), tracks, positions, zenith angles and atmosphere heights', 'tests evaluate no body profile at all; geometry errors only show at particular radii and path lengths', BF,
  [('radius from the path length', 'src/body.cpp: Earth::density, SunASnu::density, EarthAtm::density'), ('table ends', 'src/body.cpp: Sun::density, VariableDensity::density'), ('file columns', 'src/body.cpp: Earth::Earth(std::string), Sun::Sun(std::string)')], observe=['density, ye'],
  note='number of table rows symbolic; the spline enters as an arbitrary function of its table (C02, C03), quickread by its contract; SQuIDS/const.h is a stand-in (unit constants only)')
P('H02', 'Tracks run between their documented end points and keep their parameters',
  'A track starts at its initial position, ends at its final one, and hands back the position that was set and the parameters it was made with. Zenith-angle tracks run from the top of the atmosphere to the surface point (the chord of the two spheres at that angle), impact-parameter tracks run the chord of the Sun, and the angle and cosine forms of a track agree.',
  'inputs configurations', 'all radii, heights, angles, impact parameters and positions', 'tests use one or two directions', BF, [('chord lengths', 'include/nuSQuIDS/body.h: EarthAtm::Track, SunASnu::Track'), ('track factories', 'src/body.cpp: EarthAtm::MakeTrack')], observe=['positions, baseline, track parameters'],
  note='cos and acos are uninterpreted with cos(acos(x))=x; SQuIDS/const.h is a stand-in')
P('H03', 'Saved bodies and tracks are restored with all their parameters',
  'Saving any of the seven bodies or their tracks to an HDF5 group and restoring it gives an object of the same kind with the same profile, radii, heights, end points, position and track parameters, also for reversed tracks and for files written before some parameters were saved. Saving and restoring leaves no HDF5 identifier open.',
  'histories configurations', 'all bodies and tracks with all their parameters and tables', 'tests save at most one configuration; a parameter that is dropped or taken for another shows only when it differs from its default', BF,
  [('Serialize/Deserialize of bodies and tracks', 'src/body.cpp: *::Serialize, *::Deserialize'), ('registry of kinds', 'src/body.cpp: GetBodyDeserializer, GetTrackDeserializer')], observe=['restored object'],
  note='the HDF5 library is an assumed contract (ghost store; the native run uses the real library); the registry lookup by name is a bounded stand-in')
P('F01', 'Arrays and attributes stored in HDF5 are read back unchanged or refused',
  'An array of any rank and shape written to an HDF5 group, compressed or not, is read back with the same extents and elements whatever the target held before, and numbers and texts stored as attributes are read back unchanged. Missing names, arrays of another rank, attributes of another type and names already taken are refused with an exception and leave the target and the stored data unchanged; no identifier stays open and owning handles close theirs exactly once.',
  'inputs histories', 'all extents, contents, compression levels, texts and values; previous content of the target', 'tests do not use the HDF5 helpers', ['include/nuSQuIDS/tools.h', 'src/tools.cpp'],
  [('arrays', 'include/nuSQuIDS/tools.h: writeArrayH5, readArrayH5'), ('attributes', 'include/nuSQuIDS/tools.h: addH5Attribute, readH5Attribute'), ('owning handles', 'include/nuSQuIDS/tools.h: H5Handle, H5File')], observe=['read values, exceptions, open identifiers'],
  note='ranks 1-3 of doubles; the HDF5 library is an assumed contract (ghost store; the native run uses the real library)')
XF = ['include/nuSQuIDS/xsections.h', 'src/xsections.cpp']
P('X01', 'Tabulated cross sections are those of the requested flavour, kind and current',
  'Total and differential DIS cross sections are interpolated in the table of their own flavour, neutrino or antineutrino, and current, whether the file has one set of tables, one per flavour, or flavours sharing tables, with any numbers of energies and inelasticities. Below the table the total falls in proportion to the energy or is neglected below 10 GeV, energies above it are refused, and sterile neutrinos do not interact.',
  'inputs configurations', 'all tables, energies, flavours, kinds and currents; all sharings of tables between flavours', 'no test evaluates a cross section; no table file is shipped with the tests', XF,
  [('lookup', 'src/xsections.cpp: NeutrinoDISCrossSectionsFromTables::TotalCrossSection, SingleDifferentialCrossSection'), ('reading the tables', 'src/xsections.cpp: NeutrinoDISCrossSectionsFromTables::ReadHDF, readFlavorHDF5')], observe=['cross section values', 'exceptions'],
  note='table sizes symbolic; the interpolators enter through their contracts (C02-C04), pow/log10 uninterpreted; HDF5 library and file streams are assumed contracts; unit constants from a stand-in header')
P('X02', 'The older cross section tables are interpolated within their own rows',
  'The older tables give total cross sections linear, and differential ones bilinear, in the logarithms of the energies between the tabulated values of the same flavour, kind and current, including both ends of the table. Next to the kinematic limit only allowed table entries are used; outgoing energies above the incoming energy, or a whole step below the table, give zero, and energies above the table are refused.',
  'inputs', 'all tables with any number of energies, all energies inside and outside of them', 'no test evaluates a cross section; index errors show only in the last interval or near the diagonal', XF,
  [('interpolation', 'src/xsections.cpp: NeutrinoDISCrossSectionsFromTables_V1::TotalCrossSection, SingleDifferentialCrossSection')], observe=['cross section values', 'exceptions', 'memory accesses'],
  note='table size symbolic; equidistant logarithmic energies as logspace makes them (contract); exp and log uninterpreted with log(exp(x))=x')
P('X03', 'Cross section files are read back as written; incomplete ones are refused',
  'Writing cross section tables to HDF5 and reading them gives the same energy range and the same total and differential cross sections for every flavour, kind and current, also for tables that are not square and flavours sharing tables, for both table formats; the file is closed afterwards. Files with a missing table, or tables whose sizes do not match their grids, are refused.',
  'histories inputs', 'all tables and sizes; all sharings of tables; each missing or mismatched table', 'no test writes or reads cross sections; a table lost for one flavour shows only when the flavours differ', XF,
  [('HDF5', 'src/xsections.cpp: WriteHDF, writeFlavorHDF5, ReadHDF, readFlavorHDF5'), ('text', 'src/xsections.cpp: WriteText, ReadText')], observe=['cross section values', 'exceptions', 'open identifiers'],
  note='table sizes symbolic; the HDF5 library is an assumed contract (ghost store, single precision storage exact; the native run uses the real library); text files are bounded stand-ins, not counted as proved')
P('X04', 'The Glashow resonance, null cross sections and the library of targets',
  'The Glashow cross section is the W Breit-Wigner resonance for electron antineutrinos and zero for everything else; its differential form vanishes above the incoming energy and integrates to the muon share of the total; copies agree. Null cross sections are zero. A cross section library returns for each target exactly the object added for it, refuses to redefine a target, and copies are independent.',
  'inputs histories', 'all energies, flavours, kinds and currents; a fixed sequence of additions with arbitrary cross sections', 'no test evaluates a cross section or builds a library', XF,
  [('Glashow resonance', 'src/xsections.cpp: GlashowResonanceCrossSection::*'), ('library', 'include/nuSQuIDS/xsections.h, src/xsections.cpp: CrossSectionLibrary')], observe=['cross section values', 'exceptions'],
  note='constants of nature from a stand-in header; library contracts use four concrete target codes')
P('X05', 'Averaged cross sections are the mean over the energy range',
  'The average of a total or differential cross section over an energy range is exact when it is linear there and within a tenth of a per cent when it is a monotone cubic, rising or falling. For tabulated cross sections the order of the limits does not matter, the average belongs to the same flavour, kind and current, and over a single energy it is the value there.',
  'inputs', 'all ranges and all non-negative monotone cubics; all tables', 'no test averages a cross section; a wrong weight shows only for curved integrands', XF + ['include/nuSQuIDS/AdaptiveQuad.h'],
  [('fast integration', 'src/xsections.cpp: fastInt'), ('averages', 'src/xsections.cpp: AverageTotalCrossSection, AverageSingleDifferentialCrossSection')], observe=['averages'],
  note='the adaptive fallback enters as a function of its limits, tolerance and end values (its own properties are D01, D02); for cubics it is never reached')
P('T01', 'Text tables are read line by line and written so that they read back',
  'Reading a text table gives one row per line that holds numbers, with the numbers of that line in order; blank lines and comments, also at the end of the file, do not change the shape, and rows of different lengths or a file that cannot be opened are refused. A written table has one line per row and reads back to fifteen digits. The data directory is the one named in the environment if any.',
  'inputs', 'all values; all shapes written; read: tables of up to four lines of up to two numbers (bounded)', 'no test reads or writes a text table', ['src/tools.cpp', 'src/resources.cpp'],
  [('quickread, quickwrite, fexists', 'src/tools.cpp'), ('getResourcePath', 'src/resources.cpp')], observe=['extents and elements', 'exceptions', 'text written'],
  note='writing is proved for all shapes and values; reading is a bounded stand-in (all values, small shapes), not counted as proved; text streams are a ghost model in verifier builds (parsing and formatting of numbers are library code, covered by native runs only)')
P('T02', 'Complex matrices change basis as U M U^dagger and U^dagger M U',
  'The two change-of-basis helpers replace M by U M U^dagger and by U^dagger M U for any complex square matrices (not only unitary U), leave U as it was and release their temporary storage; complex conjugation conjugates every element once.',
  'inputs', 'all complex matrices of dimension 2 to 6', 'no test changes a basis', ['src/tools.cpp'],
  [('change of basis', 'src/tools.cpp: gsl_matrix_complex_change_basis_UMUC, gsl_matrix_complex_change_basis_UCMU'), ('conjugate', 'src/tools.cpp: gsl_matrix_complex_conjugate')], observe=['matrix elements', 'memory'],
  note='dimensions 2 to 6 (the physical range) each for all entries; the GSL functions enter through their contracts')
P('K03', 'The thread pool runs every submitted task exactly once',
  'Under every interleaving of submitters and workers each accepted task is put into the queue and taken out under the lock, run exactly once outside of it, in the order of submission, and its result or exception reaches the submitter. A worker never sleeps while there is a task and ends only when the pool stops and no task is left, so that destroying a pool with workers runs all tasks, wakes and joins every worker; a stopping pool refuses new tasks.',
  'schedules', 'all interleavings (each thread against an arbitrary environment that respects the lock), all contents of the queue, arbitrary functions and arguments', 'tests see few schedules and no test uses the pool', ['include/nuSQuIDS/ThreadPool.h'],
  [('worker loop, enqueue, destructor', 'include/nuSQuIDS/ThreadPool.h')], observe=['tasks run, results, exceptions', 'lock and wake-up operations'],
  note='monitor invariant: worker loop and enqueue for all states and any number of other threads; number of joined workers 0..4 (bounded stand-in, not counted as proved); standard library threads, locks and futures are assumed contracts; absence of deadlock follows only with fair scheduling; native runs with real threads are additional')
NOSQ = 'needs the SQuIDS library (su(N) algebra and ODE driver), whose headers and sources are absent from this sandbox: the class cannot even be compiled here, so no contract on its code can be checked'
P('K01', 'Vacuum and matter evolution conserves probability', 'Evolving any initial neutrino ensemble through any body without absorption conserves the total flavour probability at every energy node to the integration tolerance.',
  'inputs configurations', 'all initial states, bodies, mixing parameters, tolerances', 'tests sample few configurations', ['src/nuSQuIDS.cpp', 'include/nuSQuIDS/nuSQuIDS.h'], [('evolution', 'src/nuSQuIDS.cpp: nuSQUIDS::EvolveState')], na=NOSQ)
P('K02', 'Saved states restore the full simulation', 'Writing a simulation to a file and reading it back restores every observable: energies, mixing parameters, body, track position and the flavour content at every node.',
  'histories configurations', 'all simulation states and configurations', 'tests sample few configurations', ['src/nuSQuIDS.cpp'], [('WriteStateHDF5/ReadStateHDF5', 'src/nuSQuIDS.cpp')], na=NOSQ)
