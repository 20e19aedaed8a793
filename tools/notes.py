TECH = dict(
 C01="solid-angle Taylor-jet reference, metamorphic plane transformations",
 C02="dipole-layer Taylor-jet reference, metamorphic relations",
 C03="explicit sum over image planes of the jet reference; limits of the series",
 C04="differential testing of the compiled against the interpreted kernels",
 C05="differential testing of mesh against polygon electrodes",
 C06="weighted sums of per-electrode references, metamorphic relations",
 C07="reference by the product rule on independently computed rf derivatives",
 C08="model-based histories of list, naming and voltage operations with injected failures",
 C09="reference binning; potentials of the groups compared",
 C10="constructed traps of known minima; stationarity and curvature of the result; injected failures",
 C11="constructed traps of known saddles; generated polynomial functions with recorded callbacks",
 C12="eigen-equation residuals; the printed analysis is parsed and recomputed",
 C13="monodromy matrix by integration; residuals of the truncated equations",
 C14="trace of the monodromy matrix by integration",
 C15="residual of the differential equation, Wronskian, initial values",
 C16="independently computed rows and an independent linear program (HiGHS); metamorphic relations",
 C17="recomputed responses of the returned vectors; minimality by linear programs",
 C18="independent linear program (HiGHS) of the whole problem; feasibility",
 C19="rotated full-tensor reference; admissible levels of every limit",
 C20="round trips and a full-tensor rotation reference",
 C21="projection of the Taylor polynomial on independently computed harmonics",
 C22="round trips, independently computed harmonics, complex-step Jacobians",
 C23="written-out nested loops",
 C24="trilinear and polynomial fields, finite-difference reference, generated data",
 C25="round trips; exact rational areas and point membership",
 C26="point membership before and after each operation",
 C27="point membership and areas of the pieces and gaps",
 C28="round trips through files, read back independently",
 C29="listings written from a model and parsed back",
 C30="action on points; recovery round trips; both implementations",
 C31="independent rotation matrices; round trips; both implementations",
 C32="composition round trips; registration residuals against known transforms",
 C33="differential testing of the compiled against the interpreted routines",
 C34="model-based histories of mouse and constraint operations",
 C35="recording integrator; known motions with a symplectic step integrator",
 C36="model-based histories of adjustments",
 C37="exact rational area and centroid; metamorphic relations",
 C38="rendered images, texts and contour lines compared with the model",
 C39="force and Hessian references with independent Coulomb terms",
 C40="a stand-in triangulator records and scripts the refinement history",
 C41="stateful histories against a trap built afresh; copies, pickles and threads",
 C42="metamorphic: analyses of a trap and of its turned, mirrored, shifted, scaled, cut and reordered copy",
)
NOTE = {}
