#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())), why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=list(observe), hook_needed=hook)))
O, S, G, N = "optics3d.py", "Shapes/shapes.py", "general_optics.py", "general.py"
RAYSTATE = [("ray", "position, direction, trajectory, absorbed flag", "optics3d.py Ray"),
            ("budget", "distance and interactions still allowed in this run", "optics3d.py Ray.run")]

prop("C01", "A ray's recorded trajectory is exactly the path it travelled",
 """The trajectory of a traced ray starts at its launch point, ends at its current position, and gains exactly one
 point per straight leg, in travel order, over any number of runs. The first leg follows the launch direction, every
 later leg follows the direction the ray was given by the interaction at the leg's start, and every leg has positive
 length. Flying a ray by a given distance moves it exactly that far along its direction.""",
 ["inputs", "histories", "configurations"],
 "all scenes, launch points, directions, and sequences of runs and single flights of one ray",
 "No test ever runs a ray through a scene; only single shape intersections are sampled.",
 [O], [("fly appends every new position", "optics3d.py Ray.fly"), ("one fly per loop turn", "optics3d.py Ray.run")],
 RAYSTATE, ["Ray.get_plot_repr()", "Ray.position", "Ray.direction"])
prop("C02", "A run spends exactly its travel budget",
 """In one run a ray travels a total path length exactly equal to the given maximum distance unless it is absorbed
 or reaches the interaction limit, and it never travels further; without budget nothing happens. A surface exactly at
 the end of the budget is still reached and acts; one beyond it is not. Splitting a run into consecutive runs whose
 distances add up gives the same end point, direction and absorption as the single run (no part ending between a
concave mirror's vertex disc and its surface).""",
 ["inputs", "histories", "configurations"],
 "all scenes, rays, distances (including zero, negative, infinite, exact ties) and all ways of splitting a run",
 "Budget accounting accumulates over legs; no test traces even one leg.",
 [O], [("remaining distance is decremented per leg; final free flight", "optics3d.py Ray.run")],
 RAYSTATE, ["Ray.get_plot_repr()"])
prop("C03", "Every leg ends at the nearest surface in front of the ray",
 """Among all optics given to a run, each leg ends at the nearest surface point in front of the ray within the
 remaining distance, and that optic alone acts there; if there is none the ray flies on freely. A ray neither skips
 an optic nor stops where no surface is, and it does not hit again the surface it has just left unless the surface
 curves back into its path. The outcome does not depend on the order in which optics are listed, except that an exact
 tie goes to the first listed, and annotations, filters and windows never affect a ray.""",
 ["inputs", "histories", "configurations"],
 "all scenes of any number and mix of optics in any list order, all rays, over whole multi-bounce paths",
 "Needs combinations of several optics, positions and orders; tests use one shape and one ray at a time.",
 [O, S], [("minimum over optics with a distance floor", "optics3d.py Ray.run"),
          ("per-optic nearest intersection", "optics3d.py *.test_intersect"),
          ("numerical clipping floors", "Shapes/shapes.py INTERSECT_CLIPPING_FLOOR")],
 RAYSTATE, ["Ray.get_plot_repr()"])
prop("C04", "Absorption is final and the interaction limit is respected",
 """Detectors and blocks absorb every ordinary ray that reaches them; an absorbed ray never moves, turns or affects
 anything again, in this run or any later one. A run performs at most the given number of interactions and then stops
 at the surface of the last one, after it acted. A surface-profiling (faerie fire) ray stops for good at the first
 surface it reaches, without turning and without being recorded by a detector.""",
 ["inputs", "histories", "configurations"],
 "all scenes, all interaction limits (0, 1, ..., unlimited) and all sequences of later runs",
 "History property of the run loop; no test runs a ray.",
 [O], [("loop condition on blocked and interaction count", "optics3d.py Ray.run"),
       ("blocked set by Detector/Block", "optics3d.py Detector.do_intersect, Block.do_intersect")],
 RAYSTATE, ["Ray.blocked", "Ray.get_plot_repr()", "Detector.hit_data"])
prop("C05", "Flat surfaces are hit exactly within their aperture",
 """A plane, disc or rectangle is hit by a ray exactly when the ray's forward half-line crosses its plane, for a disc
 at less than its radius from the centre and for a rectangle within half its height along its tangent and half its
 width across it, edges included. The reported point is that crossing point and the reported normal is the surface's
 unit normal. This holds from either side, for every position, orientation and size, and for every flat optic (mirror,
 lens, grating, detector) built on these shapes.""",
 ["inputs", "configurations"],
 "all placements, orientations and sizes of flat shapes and all rays, including exact edges",
 "Three rays against one axis-aligned unit rectangle are tested; discs, planes and tilted surfaces never.",
 [S, O], [("plane equation with orthogonality cut-off", "Shapes/shapes.py Plane.test_intersect"),
       ("aperture tests", "Shapes/shapes.py Circle/Rectangle.test_intersect")],
 (), ["Plane/Circle/Rectangle.test_intersect", "Ray.run legs"])
prop("C06", "Sphere and cylinder intersections are exactly the forward crossings",
 """Intersecting a ray with a sphere or an infinite cylinder reports exactly the points where the forward half-line
 crosses the surface (none, one or two), each with the unit normal pointing to the interior, and nothing behind the
 ray. The reported number of crossings is odd exactly when the ray starts inside and leaves. A line that touches the surface
 tangentially in front of the ray is a hit at the single touching point, and a ray parallel to a cylinder's axis
 never hits it.""",
 ["inputs", "configurations"],
 "all spheres and cylinders (any position, size, axis) and all rays, from outside, inside, behind, tangent, parallel",
 "Eight axis-aligned rays against one unit sphere are tested and no cylinder.",
 [S, G], [("sphere quadratic", "Shapes/shapes.py Sphere.test_intersect"),
       ("transform to unit cylinder and quadratic", "Shapes/shapes.py InfiniteCylinder.test_intersect")],
 (), ["Sphere.test_intersect", "InfiniteCylinder.test_intersect"])
prop("C07", "A point's membership and index follow the Boolean composition",
 """A point belongs to a solid built from primitives exactly when the Boolean expression (union, intersection,
 difference of left minus right, nested to any depth) over membership in its sphere and cylinder primitives is true.
 The refractive index at a point of the world is that of the first listed optic whose solid contains the point
 strictly, and that of the surrounding medium (1) if there is none.""",
 ["inputs", "programs", "configurations"],
 "all expression trees, primitives, points and lists of solids",
 "No test evaluates point membership or index; trees are unbounded.",
 [G, S, O], [("post-order point evaluation", "general_optics.py test_tree_point"),
      ("primitive membership", "Shapes/shapes.py Sphere.test_point, InfiniteCylinder.test_point"),
      ("world query", "optics3d.py get_index_at_point")],
 (), ["test_tree_point", "get_index_at_point"])
prop("C08", "A ray meets a Boolean solid exactly at its first real boundary",
 """A ray, started inside or outside, meets a solid composed by union, intersection and difference (nested to any
 depth) exactly at the first point ahead where membership in the composed solid changes; a crossing of a primitive
 that does not change membership is not met. If membership never changes ahead, the solid is missed. The reported
 normal is perpendicular to the primitive's surface at that point, and the inside/outside verdict reported with it agrees
 with point membership at the start.""",
 ["inputs", "programs", "configurations"],
 "all expression trees, primitives and rays from any start point",
 "No test intersects a compound; the case analysis depends on the interleaving of all primitives' crossings.",
 [G, O], [("combination of the children's crossings", "general_optics.py test_tree_intersect"),
      ("compound optic", "optics3d.py Compound.test_intersect")],
 (), ["Compound.test_intersect", "test_tree_intersect", "Ray.run legs"])
prop("C09", "Mirrors obey the law of reflection",
 """On reflection the component of a ray's direction along the surface normal is reversed and the component in the
 surface is kept, so the outgoing ray is coplanar with incident ray and normal at equal angle; which way the normal
 points does not matter. This holds for flat, concave and convex mirrors, reflective solids and totally reflected
 rays, at every point of the surface; a micromirror (DMD) mirror reflects about its tilted micromirror normal instead
 of its face normal.""",
 ["inputs", "histories", "configurations"],
 "all mirrors and reflective solids, incidence points and directions, at any step of a multi-bounce path",
 "No test reflects a ray.",
 [O], [("specular reflection", "optics3d.py Ray.reflect"), ("mirror dispatch", "optics3d.py Mirror.do_intersect")],
 RAYSTATE, ["Ray.direction after Ray.run"])
prop("C10", "Spherical mirrors act on their spherical surface",
 """A concave mirror of focal length f acts exactly when a ray crosses the disc of its diameter at its vertex, and
 then on the sphere of radius 2f centred 2f in front of the vertex along its normal, at the point of that sphere
 ahead of the ray that is nearest to the disc crossing. A convex mirror acts at the first point ahead on the sphere of
 its diameter around its position. A ray through the centre of curvature returns on itself.""",
 ["inputs", "histories", "configurations"],
 "all placements, focal lengths, diameters and rays, from the front, from behind, from inside",
 "No test builds a curved mirror.",
 [O, S], [("concave selection between sphere points", "optics3d.py Mirror.test_intersect"),
       ("sphere of radius 2f", "optics3d.py Mirror.__init__")],
 (), ["Mirror.test_intersect", "Ray.run legs"])
prop("C11", "Refraction obeys Snell's law with total internal reflection",
 """Entering or leaving a refractive ball lens or solid, the tangential part of the ray's direction scales by the
 ratio of the index left to the index entered, the ray continues to the other side, and beyond the critical angle it
 is reflected totally instead. The index pair is determined by the side the ray really is on at that point, whatever
 other optics are in the scene and wherever they are listed.""",
 ["inputs", "histories", "configurations"],
 "all refractive balls and solids (indices above, equal to and below 1), scenes, list orders, incidence angles, paths",
 "No test refracts a ray; entering/leaving depends on the other optics in the list and on path history.",
 [O, G], [("vector form of Snell's law and TIR", "optics3d.py Ray.refract snells_law"),
      ("side decided by crossing parity", "optics3d.py Lens.test_intersect/do_intersect, Ray.run"),
      ("side decided by index just ahead", "optics3d.py Compound.do_intersect")],
 RAYSTATE, ["Ray.direction after Ray.run"])
prop("C12", "Ideal lenses image perfectly",
 """An ideal thin lens sends all rays from any object point that cross it through one image point satisfying the
 lens equation with lateral magnification minus image distance over object distance (virtual images for diverging
 lenses or objects inside the focal length), leaves rays through its centre undeviated, and lets every ray continue to
 the other side. An ideal collimator sends every ray out along its axis; an ideal focuser sends every ray through
 (diverging: away from) its focal point on the outgoing side. This holds from both sides, for any placement and
 orientation.""",
 ["inputs", "configurations", "histories"],
 "all lens placements, focal lengths (both signs), object points and rays, chained lenses",
 "No test uses a lens; imaging is a relation over all rays of a bundle.",
 [O], [("construction of the conjugate 2f image point", "optics3d.py Ray.refract thin_lens"),
       ("collimate and focus", "optics3d.py Ray.refract")],
 RAYSTATE, ["Ray.direction after Ray.run"])
prop("C13", "Gratings diffract by the grating equation",
 """A ray of non-zero (not necessarily whole) order leaves a grating with its component along the grooves (tangent) unchanged and, in the
 plane across the grooves, at the projected angle satisfying groove density x order x wavelength = sin(incidence) +
 sin(diffraction), both measured from the struck face's normal and positive towards the incident side; it stays on
 the incident side. Order zero reflects specularly. An order that cannot propagate is absorbed and leaves no invalid
 numbers.""",
 ["inputs", "histories", "configurations"],
 "all grating placements, groove densities, orders of both signs, wavelengths, incidence on either side of the normal",
 "No test uses a grating; sign conventions differ by incidence side and order.",
 [O, G], [("grating equation and two rotations", "optics3d.py Ray.reflect grating"),
      ("order zero dispatch", "optics3d.py Grating.do_intersect")],
 RAYSTATE, ["Ray.direction after Ray.run"])
prop("C14", "A detector records exactly the rays it absorbs",
 """A detector's record gains exactly one row per ordinary ray absorbed by it, in order of absorption, holding the
 point of arrival on its surface and that ray's wavelength. No other event, ray type, optic or later run adds,
 changes or removes rows, on this or any other detector.""",
 ["inputs", "histories", "configurations"],
 "all scenes with any number of detectors and all sequences of rays traced through them",
 "No test uses a detector; the record is history dependent.",
 [O], [("hit row append", "optics3d.py Detector.do_intersect")],
 [("hit_data", "rows (x, y, z, wavelength)", "optics3d.py Detector")], ["Detector.hit_data"])
prop("C15", "Tracing is deterministic and leaves everything else untouched",
 """Tracing or querying changes nothing but the traced ray itself and the records of detectors that absorb it: no
 optic, shape, tree, other ray, or array supplied by the caller is modified. Hence the path of a ray depends only on
 its launch parameters and the scene as it then is (an index, focal length, groove density, behaviour or tree that the
 user has changed included), not on which other rays or queries came before or how often optics were used.""",
 ["histories", "inputs", "configurations"],
 "all sequences of runs and queries of several rays over shared optics and shared input arrays",
 "Needs histories of several rays on shared objects; tests use fresh objects once.",
 [O, S, G], [("positions are rebound, not updated in place", "optics3d.py Ray.fly"),
       ("normalisation makes copies", "general_optics.py unit_vector, rotation_matrix2, rotation_matrix")],
 RAYSTATE, ["attributes of optics, shapes, rays and input arrays before and after"])
prop("C16", "A ray's direction stays a finite unit vector",
 """Whatever direction it was launched with (any length between 1e-150 and 1e150), a ray's direction is a unit vector from launch on
 and after every interaction and run, however many interactions it has had. Its position, direction and trajectory
 never contain NaN or infinite values in a valid scene.""",
 ["inputs", "histories", "configurations"],
 "all rays, scenes with every interaction kind, and arbitrarily long paths",
 "Accumulates over long histories and over every interaction kind; untested.",
 [O], [("normalisation at launch and in each interaction", "optics3d.py Ray.__init__, reflect, refract")],
 RAYSTATE, ["Ray.direction", "Ray.position", "Ray.get_plot_repr()"])
prop("C17", "Ray sources generate exactly the promised bundles",
 """The profiling source appends exactly the requested number of rays (1000 when none is given) to the given list (returning it, keeping
 earlier entries), each starting on the sphere of the given radius around the given centre and aimed at the centre,
 in random directions. The image source yields, for every point of its x-z object grid centred on the axis and every
 fan angle in its symmetric range, one origin, one direction at that angle and one wavelength, with the disc pattern
 (edge included) deciding between 680 and 450 nm; non-positive resolutions are rejected.""",
 ["inputs"], "all sizes, resolutions, angles, radii and centres, all random seeds",
 "No test calls either source.",
 [O, G], [("normalised gaussian directions", "optics3d.py add_faerie_fire_rays"),
      ("grid construction", "general_optics.py image_rays")],
 (), ["returned lists"])
prop("C18", "Expression trees are built and printed faithfully",
 """Inserting a child into a tree node places the new node directly below it on the chosen side and pushes any
 previous subtree of that side down below the new node on that same side, touching nothing else; the value of a node
 can be replaced without touching the tree. Printing a fully built Boolean tree gives the fully parenthesised infix
 expression with operands in left-right order.""",
 ["programs", "histories"], "all sequences of insertions, value changes and prints",
 "No test touches the tree; behaviour depends on the history of insertions.",
 [G], [("push-down insertion", "general_optics.py BinaryTree"), ("post-order printing", "general_optics.py postOrderEval")],
 [("tree", "binary tree of operator names and primitives", "general_optics.py BinaryTree")],
 ["BinaryTree getters", "postOrderEval"])
prop("C19", "Rotation and transform matrices are what they claim",
 """Axis-angle rotation gives a proper rotation fixing the axis and turning by the angle counter-clockwise, for any
 axis length between 1e-150 and 1e150 and any angle. The aligning rotations are orthogonal and carry the first direction onto the
 second (one of them in row-vector convention) for all pairs of such vectors of any numeric type, including
 parallel, opposite and nearly opposite ones, and their 4x4 forms act the same on directions and leave the origin
 fixed; scaling and translation matrices scale and shift points exactly. None of them changes its arguments.""",
 ["inputs"], "all axes, angles and vector pairs including degenerate ones",
 "Four rotations about x are tested; the aligning rotations and 4x4 matrices never.",
 [G], [("Euler-Rodrigues", "general_optics.py rotation_matrix_axis_angle"),
      ("alignment formula", "general_optics.py rotation_matrix2, rotation_matrix"),
      ("4x4 matrices", "general_optics.py rotation_matrix4, scaling_matrix4, translation_matrix4")],
 (), ["returned matrices"])
prop("C20", "Vector angle, projection and distance helpers are exact",
 """The unsigned angle between two non-zero vectors lies in [0, pi] and has the right cosine, also for parallel and
 opposite vectors; the signed angle is the counter-clockwise angle, about the given unit plane normal, from the second
 vector to the first. Projection onto a plane removes exactly the component along the plane's normal, whatever the
 normal's length. Unit vectors have length one along their argument, and distances are Euclidean.""",
 ["inputs"], "all vectors of any length and numeric type",
 "Two angles and seven projections are sampled; parallel vectors never.",
 [G], [("arccos/arctan2 forms", "general_optics.py angle_between"), ("projection", "general_optics.py project_onto_plane")],
 (), ["return values"])
prop("C21", "File clean-up removes exactly the matching files",
 """Deleting files by extension removes every regular file in the folder whose name ends with the extension and, if
 asked, those in all its subfolders, and nothing else: no other file, no folder, nothing outside the folder or behind
 links (a link with a matching name may go itself, never what it points to). It completes for every folder content, whatever the names
 and whatever encoding the output has.""",
 ["inputs", "histories"], "all directory trees, names (including folders named like matching files) and both modes",
 "No test calls it; it is destructive.",
 [N], [("walk or listing with suffix test", "general.py delete_files_with_extension")],
 (), ["file system contents before and after"])
prop("C22", "Numbers and coordinate texts are printed correctly rounded",
 """Formatting a number to p significant digits yields exactly p significant digits of the number's nearest decimal
 value, correctly signed, in plain notation for magnitudes from 1/100 up to p integer digits and in exponent notation
 otherwise; zero and NaN have fixed forms. The printed form of a ray and of every optic shows its current position and
 direction (or normal) in this format. The ten-column table prints every value in order, ten per line, with the
 requested format, indent and padding; the spaced form of an array prints every value in order, formatted and padded as
 requested, in lines not longer than requested.""",
 ["inputs"], "all finite numbers, precisions, rays, optics and tables",
 "No test formats a number.",
 [N, O], [("digit extraction", "general.py to_precision"), ("table", "general.py prism10widetextarray"), ("spaced form", "general.py nparray2spacedstring"),
       ("repr", "optics3d.py Ray.__repr__ and optics")],
 (), ["returned strings", "repr()"])
prop("C23", "Wavelength colours follow the spectrum map",
 """Every wavelength maps to red, green and blue values within [0, 1]; wavelengths outside the floor and ceiling take
 the colour of the nearer limit. Within the visible range the colour is the piecewise linear spectrum (violet-blue-
 cyan-green-yellow-red with fading at both ends) raised to the gamma exponent; limits set
 beyond 380 and 750 nm add a dark violet (0.3, 0, 0.3) below and a dark red (0.3, 0, 0) above.""",
 ["inputs"], "all wavelengths, gammas and clamp limits",
 "No test calls it.",
 [N], [("piecewise map", "general.py wavelength_to_rgb")], (), ["return value"])
prop("C24", "Signal and table helpers compute their definitions",
 """Savitzky-Golay filtering returns, at every sample, the value (or requested derivative) of the least-squares
 polynomial over the window, with the documented mirrored padding at the ends (for signals longer than half the window),
 and rejects unusable windows. The moving average (over a window not longer than the signal) is the centred mean with zero padding (even
 windows reach one sample further back than ahead), the nearest-element search returns the first closest element
 and its index, logarithmic interpolation is linear in log-log space (continuing its end segments beyond the table), and wavelength-energy conversions are mutually
 inverse with product 1239.84 eV nm. All of this holds for arrays of any integer type as for floats.""",
 ["inputs"], "all signals, windows, orders, derivatives, tables and query points",
 "No test calls them.",
 [N], [("convolution with least-squares weights", "general.py savitzky_golay"),
       ("others", "general.py movingAverageFast, find_nearest, log_interp1d, wavelength_nm_to_energy_eV")],
 (), ["return values"])
prop("C25", "Inconsistent parameters are rejected, consistent ones and omitted ones completed",
 """A round shape given radius or diameter gets the other as the double or half; given neither, or a contradicting
 pair, construction is rejected. A rectangle is accepted exactly when height and width are given and not negative and
 tangent and normal are perpendicular. Optics with an unknown shape name, solids with an unknown surface behaviour,
 and unknown refraction or reflection kinds are rejected with an error instead of being traced wrongly. Parameters
 left out take the values of the signatures (rays of 532 nm in order zero, glass of index 1.5, reflecting solids, flat
 round mirrors, rectangular gratings and detectors, 1000 profiling rays, the 11 x 11 x 3 image rays).""",
 ["inputs", "configurations"], "all parameter combinations of the public constructors and interaction kinds",
 "No test builds an invalid object.",
 [S, O], [("check_R_and_D, check_h_and_w", "Shapes/shapes.py"), ("raise ValueError branches", "optics3d.py")],
 (), ["constructed attributes or ValueError"])
prop("C26", "Drawn outlines coincide with the optics",
 """In the 3D view every drawn optic coincides with the optic itself: a round flat optic (also the vertex disc of a
 concave mirror) is drawn as the circle of its diameter around its position in the plane across its normal, a
 rectangular optic as the rectangle between its four corners, a convex mirror or ball lens as the sphere of its
 diameter around its position. In the views along an axis a round flat mirror is marked at its position. A plane
 figure carried into space by hand keeps its form and sense, lies across the given normal (a vector or the name of an
 axis) and where the height and the translations put it. Equalising the axes keeps all limits centred and gives them the same span, as large as
 the largest former one. Drawing changes neither the optics nor the rays, for any orientation.""",
 ["inputs", "configurations"], "all placements, orientations and sizes",
 "No test draws.",
 [O, G, N], [("patch rotated to the normal and translated", "general_optics.py pathpatch_2d_to_3d, rotation_matrix"),
      ("draw methods", "optics3d.py draw"), ("axes", "general.py set_axes_equal")],
 (), ["artists added to the axes"])
prop("C27", "Light paths are reversible",
 """If a ray is traced through any scene of mirrors (concave ones met well inside their rim), ideal imaging lenses and
 refractive solids without being absorbed, then a ray launched from its end point in the opposite direction with the same travel distance retraces
 the same path backwards and arrives at the original launch point, travelling in the opposite of the launch
 direction.""",
 ["inputs", "histories", "configurations"],
 "all scenes without absorbers, collimators, focusers and gratings; all rays and path lengths",
 "Relates two whole runs; no test makes even one.",
 [O, G, S], [("symmetry of reflection, Snell's law and thin-lens mapping", "optics3d.py Ray.reflect/refract"),
      ("entering/leaving decision", "optics3d.py Lens/Compound")],
 RAYSTATE, ["Ray.get_plot_repr()", "Ray.direction"])
prop("C28", "Fermi-Dirac and gas helpers are accurate",
 """For half-odd orders j >= -1/2 and every reduced energy eta, general.FD_int_num returns the complete Fermi-Dirac
 integral of order j (fType "roman", the default) or that integral divided by Gamma(j+1) ("script"): within 1e-8 (and
 1e-10 absolute, as its convergence criterion is absolute) for
 -20 <= eta <= 20, the non-degenerate form exp(eta) (times Gamma(j+1) for "roman") below -20, and at least as near as
 the leading degenerate term eta^(j+1)/(j+1) above 20. general.FD_int_approx at order 1/2 agrees with it within 1e-4
 (relative) for -2 <= eta <= 10 and within 1e-6 elsewhere. general.get_nQ is (2 pi m T / h^2)^(3/2) in CGS units with
 T in eV, and general.sackurTetrode N kB (5/2 + ln(nQ / n)) with N = n V, to a relative 1e-6.""",
 ["inputs"], "all reduced energies, half-odd orders, masses, densities, volumes and temperatures",
 "No test calls them; accuracy must hold over the whole range of energies, across the joins of the piecewise forms.",
 [N], [("trapezoidal quadrature", "general.py FD_int_num"), ("series", "general.py FD_int_approx"),
       ("closed forms", "general.py get_nQ, sackurTetrode")], (), ["return values"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
