prop("C01", "Angular bins tile the hemispheres and the bin list indexes them one to one",
 """For every number of polar bins, azimuthal symmetry angle, azimuthal resolution and polar spacing, the angular bins cover polar angles 0..180 degrees
 and azimuths 0..symmetry angle without gaps or overlaps, with a polar bin edge at 90 degrees after exactly the requested number of bins.
 The list of bins contains each bin exactly once, ordered by polar then azimuthal bin, each at the centre of its bin, and the downward half mirrors the upward half.""",
 ["inputs", "configurations"], "all symmetry angles in (0, 2pi], all azimuthal resolutions in (0, 1], polar bin counts up to a bound, both polar spacings",
 "tests use a handful of (bin count, symmetry, resolution) triples; the guarantee quantifies over a continuous range of resolutions and symmetry angles",
 [ANG], [("make_angle_vector", ANG)])
prop("C02", "Azimuth folding lands in the symmetry element and preserves direction",
 """Folding an azimuthal angle returns a value in [0, symmetry angle) that differs from the original azimuth by a whole multiple of the symmetry angle, for every
 azimuth (negative or beyond a full turn) and every symmetry angle that divides a full turn; folding a folded azimuth changes nothing.
 Every part of the package that folds azimuths agrees on the result.""",
 ["inputs"], "all azimuths in [-2pi, 4pi] and all symmetry angles 2pi/m, m=1..8; scalars and arrays",
 "tests fold a few angles; the guarantee is over the whole continuous range incl. negative angles",
 [ANG, RCW], [("fold_phi", ANG), ("fold_phi", RCW)])
prop("C03", "Incident light enters exactly the bin containing its direction",
 """In the angular-matrix method the incident light carries total weight one and enters exactly the angular bin which contains the polar angle and the (folded) azimuth of
 incidence; an azimuth of 'all' spreads it evenly over every azimuthal bin at that polar angle and over no other bin.
 Directions on a bin edge still enter exactly one adjacent bin.""",
 ["inputs", "configurations"], "all polar incidence angles in [0, 90) degrees, all azimuths in [0, 360] degrees or 'all', bounded bin counts/resolutions/symmetries, both polar spacings",
 "tests use a few incidence angles; edges between bins and folded azimuths are not sampled",
 [MM, ANG], [("make_v0", MM), ("matrix_multiplication", MM)])
prop("C04", "Light leaving one surface arrives at the other in the mirrored, rotated bin",
 """When light crosses the bulk, all power leaving one surface in an angular bin arrives at the opposite surface in exactly one incidence bin: the one with the mirrored
 polar direction whose azimuth range contains the azimuth rotated by 180 degrees and folded into the symmetry element.
 No power is lost, duplicated or moved to another polar angle, in either direction of travel.""",
 ["inputs", "configurations"], "all bins, symmetry angles 2pi/m and azimuthal resolutions within the bounds, both directions, both polar spacings",
 "tests only exercise this through total R/T/A for a few options, where moved power can cancel",
 [MM, ANG], [("out_to_in_matrix", MM), ("overall_bin", ANG)])
prop("C05", "Matrix method conserves energy and per-pass results add up to the totals",
 """For any redistribution and absorption matrices whose columns conserve power, reflection + transmission + bulk absorption + interface absorption equals the incident power
 up to the power left when iteration stops, which is below the intensity threshold at every wavelength; no contribution is negative.
 The totals equal the sums of the per-pass results, and requesting absorption profiles does not change them.""",
 ["inputs", "configurations", "histories"], "all power-conserving matrices (entries symbolic), all bulk attenuations, all incidence bins, thresholds symbolic; up to a bounded number of internal passes and wavelengths",
 "tests check conservation for a few real structures at ~1% tolerance; the guarantee is over all matrices",
 [MM], [("matrix_multiplication", MM), ("append_per_pass_info", MM), ("dot_wl", MM)])
prop("C06", "Bulk absorption follows Beer-Lambert per angle and its profile integrates to it",
 """Power crossing the bulk in a direction is attenuated by exp(-absorption coefficient * thickness / |cos(polar angle)|) in that bin and moves to no other bin.
 The depth profile of a pass is non-negative, decays along the direction of travel as the Beer-Lambert sum over bins, and its integral over the stored depths equals the power absorbed in that pass.""",
 ["inputs"], "all absorption coefficients >= 0, thicknesses, bin powers; small numbers of bins, depths and wavelengths",
 "tests compare a few total absorptions; they cannot establish the relation for every absorption/thickness/angle combination",
 [MM], [("make_D", MM), ("bulk_profile_calc", MM)])
prop("C07", "Interface absorption profiles carry exactly the power absorbed in the interface",
 """In the matrix method, the depth profile reported for an interface is the power-weighted sum over incidence bins, passes and both sides of incidence of the stored per-bin profiles, scaled so that
 a bin's stored profile contributes in proportion to the interface power absorbed from that bin relative to its stored integral.
 Bins that absorb nothing contribute nothing, and the profile of one interface contains nothing absorbed in another.
 The profile which ray tracing stores for an incidence bin is the tabulated profile of the requested layers averaged over the local angles (by polar bin) at which that bin's rays were absorbed, seen from their side of incidence,
 at the layers' depths, and its stored integral is the mean absorptance of those rays.""",
 ["inputs"], "all stored profiles/integrals/absorptances and matrices (symbolic), bounded bins, passes and depths",
 "tests only check integrated absorption at a few percent for specific cells",
 [MM, RTF], [("matrix_multiplication", MM), ("RT", RTF), ("make_profiles_wl", RTF)])
prop("C08", "Ray-traced redistribution matrices count every ray once, in the right bins",
 """Each traced ray is counted exactly once, in the column of the bin containing its incidence direction and either in the row of the bin containing its outgoing direction or as absorbed, so that for every
 populated incidence bin the reflected, transmitted and per-layer absorbed fractions are non-negative and add up to one, and unpopulated bins are zero.
 Rear incidence uses the mirrored polar convention for both incoming and outgoing directions.""",
 ["inputs", "configurations"], "all outcomes (polar/azimuthal exit angle, absorbed or not, per-layer absorption) of every ray, all incidence angles; bounded number of rays and bins, front and rear incidence",
 "the outcome of each ray is random; tests sample a few runs and compare totals statistically",
 [RTF, ANG], [("RT_wl", RTF), ("RT", RTF), ("overall_bin", ANG)])
prop("C09", "Rays obey the laws of reflection and refraction at every facet",
 """At every facet a reflected ray keeps its tangential direction component and reverses its normal component and stays on its side; a transmitted ray satisfies Snell's law in the plane of incidence, ends up on the other side
 and travels away from the facet; the new direction is a unit vector.
 Beyond the critical angle the ray is always reflected.""",
 ["inputs"], "all ray directions, facet normals and refractive index pairs in the bounded ranges, all random draws; Fresnel and lookup-table interfaces",
 "random draws and continuous angles; tests only see aggregate R/T",
 [RTF], [("decide_RT_Fresnel", RTF), ("decide_RT_TMM", RTF)])
prop("C10", "Fresnel reflectance is a probability with the right polarisation and limits",
 """The reflection probability of a bare facet lies in [0,1], equals the Fresnel formula for s and p polarisation, is the average of s and p for unpolarised light, is zero for identical media at any angle, and equals
 the normal-incidence value ((n1-n2)/(n1+n2))^2 (with absorption, the complex generalisation) at normal incidence for every polarisation.
 A ray is reflected exactly when its random draw does not exceed that probability.""",
 ["inputs"], "all real index pairs and incidence angles below the critical angle; complex transmitted index at normal incidence; all random draws",
 "tests sample a few angle/index pairs of planar interfaces statistically",
 [RTF], [("calc_R", RTF), ("decide_RT_Fresnel", RTF)])
prop("C11", "Lookup-table interfaces decide a ray by the tabulated probabilities",
 """At an interface with a lookup table, a ray is reflected, transmitted or absorbed exactly when its random draw falls in the intervals [0,R], (R,R+T], (R+T,1] of the table entry for the requested polarisation, the side it arrives
 from, and the tabulated angle and wavelength nearest to the local incidence angle and the current wavelength.
 An absorbed ray delivers its whole remaining intensity to the interface layers, split in proportion to the table's per-layer absorption.""",
 ["inputs"], "all tables (symbolic R, T, per-layer A with R+T+A=1), all local angles, all draws, both sides, three polarisations",
 "tests compare integrated results statistically; a swapped side or polarisation can hide in tolerance",
 [RTF, LUT], [("decide_RT_TMM", RTF), ("single_ray_stack", RTF)])
prop("C12", "A ray meets the first facet in its path, at the true point and incidence angle",
 """Given a surface and a ray, the facet reported as hit is the nearest one in front of the ray whose triangle contains the intersection point, the reported point lies on both the ray and the facet,
 and the reported local angle is the angle between the ray and that facet's normal.
 If no facet lies in front of the ray, no hit is reported.""",
 ["inputs"], "all ray origins and directions; bounded set of facet geometries incl. symbolic apex heights (2-4 facets)",
 "tests trace rays on fixed grids and check totals",
 [RTF], [("check_intersect", RTF)])
prop("C13", "Interaction with a periodic surface ends with the right outcome and position",
 """A ray entering a periodic surface leaves it reported as reflected exactly when its vertical direction has flipped, as transmitted when it has not, or as absorbed, after alternating facet interactions with the media in the order seen from the side it arrives from.
 While leaving, it is only moved by whole unit cells, and the reported polar and azimuthal angles are those of its final direction.""",
 ["inputs", "histories"], "all incoming directions/positions over planar and bounded textured cells and all random draws up to a bounded number of facet interactions",
 "multi-interaction histories depend on random draws that tests only sample",
 [RTF], [("single_interface_check", RTF), ("single_cell_check", RTF), ("exit_side", RTF)])
prop("C14", "Each ray conserves its intensity and traverses surfaces and layers in order",
 """A ray traced through a stack visits surfaces and layers in physical order, each interaction using the optical constants of the two media adjoining that surface, and ends reflected, transmitted or absorbed exactly once.
 Its intensity is conserved: what it ends with plus what it deposited in bulk layers and interfaces is the unit it started with, each bulk pass absorbing 1-exp(-alpha*thickness/|cos theta|) of what entered, in that layer and at depths of that layer only,
 and tracing stops absorbed only when the intensity falls below the threshold.
 It enters at the sampled position; between surfaces it is moved by whole unit cells only (periodic) or not at all, and the surface it meets next lies ahead of it (when it starts outside the structure, it starts outside that surface's relief).""",
 ["inputs", "histories"], "all interaction outcomes (reflect/transmit/absorb, any exit angle) at every surface, all absorptions, widths and thresholds; 1-3 layers, bounded number of passes, both start directions",
 "the sequence of outcomes is random; tests sample a few and compare totals",
 [RTF], [("single_ray_stack", RTF), ("traverse", RTF)])
prop("C15", "Ray-tracing results are averages over rays that add up to one",
 """For a structure, reflection, transmission, per-layer absorption, interface absorption and the depth profile are the averages over all rays of the individual outcomes, with upward-leaving rays counted as reflected and downward-leaving
 rays as transmitted, at every wavelength independently and in wavelength order.
 They add up to one up to the intensity threshold, and the direct reflection never exceeds the total reflection.""",
 ["inputs", "configurations"], "all per-ray outcomes (intensity, exit angle, deposits, passes); bounded rays, layers, wavelengths; with and without interface layers",
 "ray outcomes are random; tests check sums on samples",
 [RTF], [("rt_structure.calculate", RTF), ("parallel_inner", RTF)])
prop("C16", "Planar-stack R, A and T add up to one and match the requested polarisation",
 """For a planar multilayer, R + A + T = 1 and the per-layer absorptions add up to A for every polarisation, coherent or not; s and p report that polarisation's result, and unpolarised light is the mean of s and p for every reported quantity.
 Per-layer results list exactly the layers of the stack in order, without the surrounding media.""",
 ["inputs", "configurations"], "all outputs of the underlying transfer-matrix kernel satisfying its energy contract (symbolic), 1-3 layers, 1-2 wavelengths, all polarisation/coherency modes",
 "tests run a few stacks; the assembly must be right for every kernel result",
 [TMMF], [("tmm_structure.calculate", TMMF)])
prop("C17", "Planar-stack absorption profiles and coefficients describe the requested layers",
 """The depth profile of a planar multilayer is non-negative, is evaluated at the depths of exactly the requested layers, and for unpolarised light is the mean of the s and p profiles, coherent or not.
 The analytic profile coefficients reported for the requested layers describe the same polarisation and the same light: an incoherent layer's starts from the fraction of incident light that actually reaches it.""",
 ["inputs", "configurations"], "all kernel outputs (symbolic) for 1-3 layers, all subsets of profile layers, all polarisation/coherency modes",
 "tests do not check the coefficients of incoherent or unpolarised stacks at all",
 [TMMF], [("tmm_structure.calculate.calculate_profile", TMMF)])
prop("C18", "Planar-interface redistribution matrices put each channel in its specular bins",
 """For a planar interface, each incidence bin's reflected power goes to the specularly reflected bin and its transmitted power to the bin of the refracted direction, with azimuth rotated by 180 degrees and folded, and with absorption listed per layer in front-to-rear order;
 together they carry all of the incident power of that bin.
 Rear incidence uses the reversed stack (media, layers and coherency) and stores layers and depth profiles in the front-referenced order.""",
 ["inputs", "configurations"], "all R/T/A kernel outputs per angle and polarisation (symbolic) and all real index ratios, 1-2 layers, bounded bins, both sides, s/p/u",
 "tests compare total R/T for a few stacks",
 [TMMF], [("TMM", TMMF)])
prop("C19", "Lookup tables hold the response for the labelled side, polarisation and layer",
 """Every lookup-table entry equals the planar-stack result for the labelled wavelength, angle, polarisation and side of incidence, the rear side being the reversed stack with exchanged media and reversed coherency, with layers labelled in front-to-rear order; unpolarised entries are the mean of s and p.
 No entry is negative, and profile coefficients belong to the layer they are labelled with.""",
 ["inputs", "configurations"], "all planar-stack results (symbolic), 1-3 layers, prof-layer subsets, coherent or not, bounded angles/wavelengths",
 "tests use tables only through statistical ray-tracing results",
 [LUT], [("make_TMM_lookuptable", LUT)])
prop("C20", "RCWA redistribution matrices conserve power and place every order correctly",
 """For every incidence bin, the reflected, transmitted and absorbed fractions obtained with the rigorous solver add up to one, each propagating order's power is added to the bin of its diffraction direction (orders sharing a bin add up), evanescent orders carry none, and both supported
 solvers are assembled identically.
 Rear incidence uses the reversed stack, including its patterns, and stores bins and layers in the front-referenced order.""",
 ["inputs", "configurations"], "all power fluxes returned by the solver (symbolic), bounded orders, bins, layers; both sides; both solver back ends",
 "the S4 solver is absent and tests use single runs; assembly errors between orders cancel in totals",
 [RCW], [("RCWA", RCW), ("RCWA_wl", RCW), ("RCWA_wl_inkstone", RCW)])
prop("C21", "RCWA structures hand the solver the right stack and report normalised results",
 """A periodic structure passes each layer's thickness, background and pattern materials and shapes, polarisation and incidence angle to the solver for the current wavelength unchanged every time it is evaluated, however often and in whatever order it is called,
 and reports R, T and per-layer absorption normalised to the incident power with negative absorption removed.
 Changing wavelengths, widths, cell size or patterns takes effect on the next evaluation, and field or permittivity queries address the layer they name.""",
 ["inputs", "histories", "configurations"], "all solver fluxes (symbolic), sequences of up to 3 evaluations with changed options, all shape types, both back ends",
 "tests evaluate once per structure",
 [RCW], [("rcwa_structure", RCW), ("initialise_S_inkstone", RCW), ("rcwa_rt", RCW), ("rcwa_absorption_per_layer", RCW)])
prop("C22", "Diffraction orders follow the grating equation and grouping conserves power",
 """Every diffraction order's in-plane momentum is the incident one plus that order's reciprocal-lattice vector, its polar angles in reflection and transmission follow from its in-plane momentum and the medium, and orders that do not fit are grazing.
 Grouping orders by in-plane momentum keeps total power and assigns every order to exactly one group with the same momentum magnitude.""",
 ["inputs"], "all wavelengths, incidence angles, indices and lattice vectors in range, orders up to a bound, all per-order powers",
 "tests use fixed gratings and angles",
 [DIF], [("get_order_directions", DIF), ("group_diffraction_orders", DIF)])
prop("C23", "The generation function places every profile at its depth in the right units",
 """The function handed to device simulators returns, at every stored depth of the whole structure, the absorption density in 1/m that the optical result gives for that depth, zero where no profile was requested, with interfaces and bulk laid out
 in physical order at their true positions in metres.
 This holds for every combination of layers for which profiles were requested in the redistribution-matrix and ray-tracing methods, and for planar and rigorous coupled-wave structures with profiles of all layers.""",
 ["inputs", "configurations"], "all profile values (symbolic), every subset of profile layers for small stacks, all four kinds of structure",
 "tests cover a few configurations",
 [UTL], [("make_absorption_function", UTL)])
prop("C24", "Stored matrices are reused only for the same surface, side and content",
 """Results stored for one project, surface and side of incidence are never returned or overwritten for another; they are reused only if all files the request needs exist and overwriting was not requested, and are otherwise recomputed and stored under the names the loader reads.
 A request with overwriting always recomputes.
What is stored for a surface and side (matrix, absorption, profile) always stems from a single calculation, also after an interruption between two file operations, and a lookup table without the requested profile information is calculated again.""",
 ["histories", "configurations", "crash_points"], "all presence/absence combinations of the stored files, both sides, profile requested or not, overwrite or not, two names; sequences of two and three requests to each of the five generators, an interruption before any file operation",
 "tests always start from one state of the results folder",
 [UTL, PST], [("get_matrices_or_paths", UTL), ("get_savepath", UTL)])
prop("C25", "Texture generators build closed periodic surfaces with the requested geometry",
 """Every texture covers its unit cell exactly, keeps its boundary heights matching across opposite edges so that the periodic surface has no holes, has the requested facet angle and height, and its front and rear versions describe the same physical surface (heights of opposite sign) with unit facet normals pointing upwards.
 Height maps place each height at its own x and y position.""",
 ["inputs", "configurations"], "all elevation angles, sizes, offsets, noise draws and height values (symbolic) for small point counts",
 "tests build a few textures and look at point counts",
 [TEX, DTX, RTF], [("regular_pyramids", TEX), ("V_grooves", TEX), ("rough_pyramids", TEX), ("heights_texture", DTX), ("RTSurface", RTF)])
prop("C26", "Placing, copying and re-randomising a surface keeps its geometry consistent",
 """Moving a surface down by some depth lowers every point, facet, extreme and coverage height by exactly that amount and changes nothing else; re-drawing a random height changes only heights, by a common factor about the coverage height at the surface's current position; copying yields an
 independent equal surface.
 After any sequence of these, facets, normals and limits agree with the points, and building a structure leaves the caller's surfaces unchanged.""",
 ["inputs", "histories"], "all depths, heights and drawn heights (symbolic), all sequences of up to 3 operations",
 "tests never combine a height distribution with a surface deeper in the stack",
 [RTF], [("RTSurface.shift", RTF), ("RTSurface.refresh", RTF), ("RTSurface.__deepcopy__", RTF), ("rt_structure.__init__", RTF)])
prop("C27", "Each interface is computed with its own media, method, layers and sides",
 """Processing a structure computes every interface with the method requested for it, between the media directly above and below it, with its own layers, profile layers, coherency, texture and widths in nm, for front incidence and, except for the last interface, rear incidence too.
 Every matrix the multiplication step later loads has been requested under exactly that name, and overwrite and save location are honoured.""",
 ["configurations"], "all assignments of the supported methods to 2-3 interfaces, coherent or not, overwrite or not, with distinct media",
 "tests run a few structure types",
 [PST, MM], [("process_structure", PST)])
prop("C28", "Ideal mirror and diffuse back surfaces conserve power and direction conventions",
 """A perfect mirror sends every incidence bin wholly into the bin with the same polar angle and the azimuth rotated by 180 degrees (folded), absorbing nothing; a perfect diffuser returns all power upwards, identically for every incidence bin, never negative, in proportion to
 cos(theta) times the polar bin width and evenly over azimuth.""",
 ["inputs", "configurations"], "all bins for symbolic symmetry angles and azimuthal resolutions within the bounds, both spacings",
 "tests use a couple of angle grids",
 [IDL], [("mirror_matrix", IDL), ("lambertian_matrix", IDL)])
prop("C29", "Summaries over azimuth preserve the power leaving per polar angle",
 """Summarising a redistribution matrix over azimuth gives, for each pair of incoming and outgoing polar angles, the power leaving into all azimuthal bins at that outgoing angle averaged over the incoming azimuthal bins, so that a power-conserving matrix summarises to a power-conserving one.""",
 ["inputs"], "all matrices (symbolic entries) on small angle grids, front and rear",
 "tests check one grid",
 [ANG], [("theta_summary", ANG)])
prop("C30", "Optical kernels converge to Maxwell's equations",
 """The planar-stack, rigorous coupled-wave and ray-tracing methods agree with each other on structures where all of them apply, for every stack, wavelength and angle.""",
 ["inputs"], "all stacks, wavelengths, angles",
 "a handful of stacks are compared",
 [TMMF, RCW, RTF], [("tmm_core_vec / S4 / Inkstone", "third-party")],
 na="The agreement is decided inside third-party numeric kernels (solcore/tmm transfer matrices, S4/Inkstone eigensolvers: compiled or heavy complex linear algebra with transcendental functions); they are not in this repository and cannot be encoded for an SMT solver within reach. The parts of it that are this repository's own code are C09-C22.")
