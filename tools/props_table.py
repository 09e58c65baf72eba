prop("C01", "Placements compose and invert exactly on every point",
     "Every placement (centre, orientation, scale, and for gears a rotation angle) maps a point to scale * orientation * z-rotation(angle) * point + centre, for single points and for arrays alike. Composing two placements acts on every point exactly like applying the right one and then the left one, the inverse undoes the placement, and the reported 4x4 matrix and axis vectors describe that same map.",
     ["inputs"], "all centres, rotation matrices, positive scales and angles, every point",
     "The tests compose a handful of fixed transforms; group laws must hold for every rotation, scale and angle.",
     ["gggears_base_classes.py"],
     [("apply / compose / invert", "gggears_base_classes.py: apply_transform, apply_gear_transform, Transform, GearTransform, TransformData")],
     "all obligations proved over the reals; no shape bound")
prop("C02", "Coordinate conversions are exact inverses and mean what they say",
     "Converting a point to cylindrical, spherical or gear-cone coordinates and back returns the same point, and likewise in the other direction for coordinates in the usual ranges, for single points and arrays and for any centre. The gear-cone coordinates measure the arc along the reference sphere away from the axis, the angle around it, and the depth towards the apex. Angles between vectors, between a vector and a plane, and rotated or projected vectors agree with their geometric definition.",
     ["inputs"], "all points off the axis, all centres, all cone angles of either sign",
     "Round trips are tested on a few sampled points and positive cone angles only.",
     ["function_generators.py", "gggears_core.py"],
     [("cylindrical/spherical", "function_generators.py: xyz_to_cylindrical, xyz_to_spherical and inverses"), ("gear polar transform", "gggears_core.py: GearPolarTransform")],
     "proved over the reals")
prop("C03", "Curves keep their geometry under trimming, reversing and copying",
     "For every curve, parameter 0 and 1 give its ends, the conversion between the external and the internal parameter is monotone and invertible, and array arguments give the same as one-by-one evaluation. Trimming a curve at two parameters keeps exactly the part between them, cutting it yields two pieces that cover it, reversing traverses the same points backwards, and a copy is equal but independent. Curve arithmetic acts point by point and derivatives, lengths and closedness describe the trimmed curve.",
     ["inputs", "histories"], "arbitrary curve functions, parameters and sequences of trimming/reversing",
     "Tests trim a few concrete curves at a few values; here the curve function itself is universally quantified.",
     ["curve.py"],
     [("parametrisation", "curve.py: Curve.s2t, t2s, __call__, update_lengths"), ("trimming", "curve.py: Curve.set_start_on, set_end_on, set_start_and_end_on, cut, reverse, copy")],
     "proved for arbitrary (uninterpreted) curve functions; number of length-sampling points fixed at the harness value")
prop("C04", "A chain of curves behaves as one curve made of its pieces",
     "A chain starts at its first active piece's start, ends at its last active piece's end, has the total length of its active pieces, and its parameter is proportional to accumulated length, nested chains included. Trimming, cutting and reversing a chain act on the whole as they do on a single curve, and editing it as a list changes exactly the named entries. Continuity and closedness are reported exactly when the pieces meet.",
     ["inputs", "histories"], "all lengths and pieces of chains with up to three pieces, all trim positions including reversed and inactive pieces",
     "Tests use one or two fixed chains and trim positions.",
     ["curve.py"], [("chain evaluation and editing", "curve.py: CurveChain")],
     "proved; chains unrolled to 2-3 pieces, everything real-valued unbounded")
prop("C05", "Line, arc and transformed curves are exactly what their inputs say",
     "A line runs straight between its two points and an arc stays at its radius around its centre in its plane, sweeping exactly its angle, however it was specified (two points and centre, point-centre-angle, curvature, radius). Mirrored, rotated and transformed curves are the pointwise images of the curve they were made from, and transforming an arc or line gives the arc or line of the transformed points. Lengths are exact after trimming.",
     ["inputs"], "all points, radii, angles, axes, transforms",
     "Tests compare sampled points for a few fixed inputs.",
     ["curve.py"], [("line and arc", "curve.py: LineCurve, ArcCurve and its constructors"), ("transformed curves", "curve.py: MirroredCurve, RotatedCurve, TransformedCurve")],
     "proved over the reals except arc_rca_axis (bounded)")
prop("C06", "Flank generating curves obey their rolling laws",
     "An involute's point lies on the tangent to the base circle at the roll angle at a distance equal to the rolled arc, its spherical counterpart obeys the same law on the sphere, cycloids are traced by a point fixed to a circle (or cone) rolling without slip on the pitch circle (or cone), and the octoid is the straight-sided crown gear envelope. Offsets (angle, radial, height) act as the rigid motion they name, and the conic curves go over to the planar ones when the cone flattens.",
     ["inputs"], "all radii, roll angles, offsets and cone angles in the stated sign ranges",
     "Tests check few sampled roll angles; the laws are identities in all parameters.",
     ["function_generators.py", "curve.py"],
     [("generators", "function_generators.py: involute_circle, involute_sphere, cycloid_circle, cycloid_cone, octoid"), ("curve classes", "curve.py: InvoluteCurve, SphericalInvoluteCurve, CycloidCurve, CycloidConicCurve, OctoidCurve")],
     "laws proved; continuity in the flat limit bounded")
prop("C07", "Rational Bezier evaluation, derivatives and exact arcs are correct",
     "Bezier and rational Bezier curves and surfaces evaluate to the Bernstein (rational) combination of their control points: they start and end at the end control points, are invariant under affine maps, and their parameter, point and weight derivatives are the true derivatives. The three-point rational arc lies exactly on the circle through its points, and interpolation helpers pass through the points given.",
     ["inputs"], "all control points, weights and parameters for degrees up to 5",
     "Tests sample single control polygons.",
     ["function_generators.py"],
     [("bezier", "function_generators.py: bezier, bezierdc, nurbezier, nurbezier_surface, *_diff_*"), ("arc", "function_generators.py: calc_nurbezier_arc")],
     "proved for control polygons of 2..5 points (bounded in the number of points), all reals")
prop("C08", "Conversion to NURBS keeps ends, exact shapes and structure",
     "Converting a curve to rational Bezier pieces reproduces lines, arcs and transformed curves exactly, keeps the ends of every other curve and of its pieces, and neither changes the source nor ignores its trimming. A NURB curve is continuous over its knots, its pieces join at the knots, and trimming, cutting, reversing, transforming and degree-preserving edits act on it as on any curve. A NURB surface interpolates the profile curves it was built from at its ends, and its corner, edge and patch queries agree with its evaluation.",
     ["inputs", "histories"], "all control points and weights for fixed small numbers of points, knots and surface sections; every parameter",
     "Tests compare sampled points on one converted gear with a tolerance; these are identities in all control points.",
     ["gggears_convert.py", "curve.py"],
     [("conversion", "gggears_convert.py: convert_curve_nurbezier and its per-type cases"), ("NURB curve", "curve.py: NurbCurve; gggears_convert.py: NURB surface helpers")],
     "proved for small fixed numbers of control points; accuracy of the fitted (non-exact) pieces is not claimed")
prop("C09", "Meshed parallel gears touch at the distance their teeth require",
     "Meshing a gear to another puts it on the requested side at the exact distance at which the flanks meet with the requested backlash: the working pressure angle satisfies the involute meshing equation for the actual tooth thicknesses (profile shifts included), whichever gear is a ring, and unshifted gears sit at the sum (or difference) of pitch radii times the module. The two base circles, tooth thicknesses and the backlash formula used for this describe the teeth actually generated. A positioning bias moves the gear within its backlash only, and the other gear never moves.",
     ["inputs"], "all tooth counts, modules, pressure angles, profile shifts, backlashes, helix angles, placements and directions",
     "Tests mesh a few pairs and check overlap volumes; the meshing equation must hold for every pair.",
     ["gearmath.py", "gggears_wrapper.py", "gggears_core.py"],
     [("distance", "gearmath.py: calc_involute_mesh_distance, involute-circle helpers"), ("meshing", "gggears_wrapper.py: InvoluteGear.mesh_to, HelicalGear.mesh_to, CycloidGear.mesh_to; gggears_core.py: Gear.mesh_to")],
     "proved with the root finder under contract (success implies the equation holds, on the branch bracketed by its start)")
prop("C10", "A meshed gear is rotated so its tooth meets a gap",
     "Whatever the positions, orientations and angles of two gears, and whichever is a ring, meshing rotates the first so that at the contact direction its tooth centre coincides with the centre of a gap of the other (for a ring: teeth and ring gaps coincide), to an integer number of pitches. Rotating the other gear rotates the meshed angle in the ratio of the teeth. Computing the mesh moves nothing but the gear that is meshed.",
     ["inputs"], "all placements in space, all tooth counts, all ring roles",
     "Tests check a handful of placements through solid overlap.",
     ["gearmath.py", "gggears_wrapper.py", "gggears_core.py"],
     [("phase", "gearmath.py: calc_mesh_angle"), ("meshing", "gggears_wrapper.py: mesh_to methods")],
     "proved, symbolic integer tooth counts")
prop("C11", "Meshed bevel gears share their apex and touch along a line",
     "Meshing two bevel gears of equal cone distance places the first so that both pitch cones have the same apex, its axis is turned from the other by the sum of the half cone angles (the difference for a ring), and the pitch circles touch in one point on the requested side, with teeth facing gaps there. A requested offset opens the axis angle about the common apex. Cone dimensions reported for a gear describe the placed cone.",
     ["inputs"], "all half cone angles below a right angle, placements, target directions, ring roles",
     "Tests use a few right-angle pairs in a standard placement.",
     ["gearmath.py", "gggears_base_classes.py", "gggears_wrapper.py", "gggears_core.py"],
     [("placement", "gearmath.py: calc_bevel_gear_placement_vector, calc_mesh_orientation"), ("cone", "gggears_base_classes.py: ConicData"), ("meshing", "gggears_wrapper.py and gggears_core.py: mesh_to")],
     "proved; half angles of 90 degrees and above are outside the precondition")
prop("C12", "Gear design formulas satisfy their defining equations",
     "The cone angles proposed for a pair of bevel gears add up to the axis angle and their sines are in the ratio of the tooth counts, whichever gear is named first. The backlash computed from a centre distance is the one whose mesh distance is that centre distance, for outside pairs and for rings in either role. The nominal centre distance is the sum (difference for rings) of the shifted pitch radii.",
     ["inputs"], "all tooth counts, axis angles, pressure angles, shifts and distances in the documented ranges",
     "Tests evaluate the formulas at isolated values.",
     ["gearmath.py"],
     [("formulas", "gearmath.py: cone_angle_from_teeth, backlash_from_ax_distance, calc_nominal_mesh_distance")],
     "proved; numeric root finding under contract")
prop("C13", "Gear shape follows its design inputs at every height",
     "At every height of every kind of gear the slice has the size, taper, twist (constant helix, or mirrored at the middle for herringbones), crowning, profile shift, tooth depth, fillets and tip treatment that the inputs ask for, inside gears and negative tooth counts included, and all slices of a bevel gear share one cone. Changing one input affects only what it names, evaluating the shape at one height never influences another, and gears built from a tooth path follow that path.",
     ["inputs", "histories"], "all tooth counts, modules, heights, anchors, helix and cone angles, coefficients; every height",
     "Tests build a few gears and look at volumes; here every slice height and input is quantified.",
     ["gggears_wrapper.py", "gggears_core.py", "gggears_base_classes.py"],
     [("gear classes", "gggears_wrapper.py: constructors and calc_params/update_tooth_param of InvoluteGear, SpurGear, HelicalGear, BevelGear, CycloidGear and ring variants"), ("recipes", "gggears_core.py: default_gear_recipe, gear_recipe_from_curve, ref_curve_2_param; gggears_base_classes.py: ZFunctionMixin")],
     "proved; number of extra sections of strongly twisted gears and slope rounding bounded")
prop("C14", "The dimensions a gear reports are those of the gear as placed",
     "The centre, angle, radii, cone data, reference circles, base circle and slice positions a gear reports describe the gear where it is: they scale with the module, move and turn with the gear, and at height ratio 0 and 1 refer to its bottom and top face, herringbone gears included. The largest radius bounds all reference circles, the reported cone angles belong to the reported circles, and none of the reports changes the gear.",
     ["inputs"], "all gear sizes, placements, anchors and heights",
     "Tests query a few gears in a standard placement.",
     ["gggears_wrapper.py"],
     [("reports", "gggears_wrapper.py: GearInfoMixin, InvoluteGear.circle_involute_base")],
     "proved with the slice profile under contract")
prop("C16", "A tooth's outline is joined, symmetric and repeats with the pitch",
     "The outline of one tooth runs without gaps from the root arc over the flank, the tip arc and the mirrored flank; it ends on its addendum and dedendum circles, or in its middle plane where it comes to a point, the second flank is the mirror image of the first, and one pitch later the outline continues exactly where it ended. Every closed outline offered closes, the whole boundary is the tooth repeated around the axis and placed with the gear, and tip reduction lowers a pointed tip by exactly the amount asked for. Fillets, reduction and limits are applied only where and as requested.",
     ["inputs"], "arbitrary flank curves, all pitches, radii, cone angles and heights",
     "Tests look at the volume and validity of a few solids; a gap or asymmetry of a rare profile escapes them.",
     ["gggears_core.py"],
     [("profile", "gggears_core.py: generate_reference_profile, trim_reference_profile, apply_tip_reduction, generate_reference_circles"), ("outlines", "gggears_core.py: generate_profile_extensions, GearRefProfileExtended, generate_profile_closed, generate_boundary_chain, generate_boundary")],
     "proved for arbitrary flank curves with the intersection searches under contract; real gears sampled (bounded)")
prop("C19", "The line of action touches both base circles at the pitch point",
     "The line of action reported for two involute gears (rings in either role, any common orientation, any height) lies in the gears' transverse plane, touches both base circles, passes through the pitch point that divides the centre distance in the ratio of the teeth, and there is one for each direction of rotation. Gears too close for a common tangent are refused. Involute flanks of two gears whose base circles it touches meet on it with a common tangent plane in every position, bevel gears included.",
     ["inputs"], "all tooth counts, modules, pressure angles, placements, heights and gear positions",
     "No test evaluates the line of action of tilted or ring gears, and conjugate action must hold in every position.",
     ["gggears_wrapper.py", "function_generators.py"],
     [("line of action", "gggears_wrapper.py: LineOfAction"), ("involutes", "function_generators.py: involute_circle, involute_sphere")],
     "proved; equal axis directions are the precondition")
prop("C20", "Adapted cycloid gears share rolling circles and keep contact",
     "After two cycloid gears are adapted to each other, the circle that rolls outside one pitch circle equals the one that rolls inside the other's and vice versa, bevel and ring gears included; adapting again changes nothing, and tooth counts, sizes and placements stay. Flanks traced by a common rolling circle touch in every position of the two gears, at a point of that circle.",
     ["inputs", "histories"], "all tooth counts, modules, coefficients, placements; every position",
     "Tests adapt one pair; contact must hold in every position.",
     ["gggears_wrapper.py", "function_generators.py"],
     [("adaptation", "gggears_wrapper.py: CycloidGear.adapt_cycloid_radii"), ("cycloids", "function_generators.py: cycloid_circle, cycloid_cone")],
     "proved")
prop("C22", "Tooth flanks pass the pitch circle at pressure angle and half pitch",
     "For every kind of tooth (involute, octoid, cycloid, undercut, straight, rack; cylindrical and conical) the flank crosses the pitch circle or cone at the angle the tooth thickness asks for, at the pressure angle, and reaches as far as the requested limits. An undercut flank starts on the path cut by the corner of the generating rack and joins the involute without a gap, and undercut is applied exactly when that rack would cut into the flank. Limits not given fall back to documented defaults.",
     ["inputs"], "all pitch radii, pressure angles, cone angles, profile references and limits in the sensible ranges",
     "Tests look at the volume of solids of a few gears.",
     ["gearteeth.py", "gggears_base_classes.py", "curve.py"],
     [("flanks", "gearteeth.py: InvoluteTooth, OctoidTooth, CycloidTooth, InvoluteUndercutTooth, OctoidUndercutTooth"), ("racks and undercut", "gearteeth.py: generate_flat_rack_curve, generate_involute_rack_curve, generate_undercut_curve, trim_involute_undercut"), ("limits", "gggears_base_classes.py: GearToothConicGenerator.check_lower_curve_limit")],
     "proved with the intersection searches under contract; whole flanks of real gears sampled (bounded)")
prop("C17", "CAD parts and edges are those of the gear as designed and placed",
     "The part built for a gear has the gear's flanks on its surface at every height and tooth, material between the flanks (beyond them for rings) and between its bottom and top only, and is scaled, turned and placed exactly like the gear, also after the gear is moved and the part updated. Boundary wires repeat the outline of one tooth once per pitch around the placed axis, and locations offered for a gear are at its slice centres with its orientation. Lines, arcs, chains and transformed curves become edges covering exactly their active, trimmed extent.",
     ["inputs", "histories"], "all placements, points, weights, arcs and trims; tooth counts of the faces 2-4",
     "Tests check that solids are valid and have volume; a part that is misplaced or lacks a section passes them.",
     ["gggears_build123d.py", "gggears_convert.py", "gggears_wrapper.py"],
     [("placement", "gggears_build123d.py: transform2Location, apply_transform_part; gggears_wrapper.py: update_part, center_location_*"), ("edges and faces", "gggears_build123d.py: gen_splines, generate_boundary_edges, arc_to_b123d, line_to_b123d, curve_to_edges, GearBuilder"), ("sections", "gggears_convert.py: GearToNurbs")],
     "proved against contracts of the CAD kernel's constructors and motions; whole solids sampled (bounded)")
prop("C18", "Racks have the pitch and shape asked for and mesh with their gear",
     "The outline of a rack repeats its tooth once per pitch of pi times the module (measured across the teeth for helical racks), has straight flanks at the pressure angle, the depth its coefficients ask for, half a pitch of tooth thickness less backlash on the pitch line, and the part built from it fills exactly that outline over the height asked for. A rack meshed to a gear has its pitch line on the gear's pitch circle, moved outwards by the profile shift, in the direction asked for, lies in the gear's plane at the gear's height whatever the gear's placement, and its flanks touch the gear's flanks without cutting into them.",
     ["inputs"], "all modules, tooth counts, pressure and helix angles, coefficients, backlash, fillets, gear placements and directions",
     "Tests build one default rack and check that a solid results.",
     ["gggears_wrapper.py"],
     [("racks", "gggears_wrapper.py: InvoluteRack, HelicalRack")],
     "proved against contracts of the CAD kernel's constructors; contact with real gears and fillets of real solids sampled (bounded)")
prop("C15", "Gears change only when asked and never through one another",
     "Asking a gear for a report, a line of action, an outline, a wire or a part leaves the gear, the arguments and the library's constants as they were, also when building the part fails. Meshing moves only the gear it is called on and changes nothing but its place. Gears and racks made from the same defaults, arrays, tooth generators or recipes, and copies of gears, are independent: moving one or changing its inputs never shows in another.",
     ["inputs", "histories"], "all gear kinds, sizes, placements; every order of moving, copying, rebuilding, failing",
     "Tests use each gear once; aliasing shows only when a second gear is changed later.",
     ["gggears_wrapper.py", "gggears_core.py", "gggears_base_classes.py", "gggears_build123d.py"],
     [("gear classes", "gggears_wrapper.py: constructors, calc_params, mesh_to, copy, GearInfoMixin, LineOfAction"), ("core", "gggears_core.py: Gear, default_gear_recipe, gear_recipe_from_curve"), ("builders", "gggears_build123d.py: GearBuilder, generate_boundary_edges")],
     "proved as frame conditions of each operation; real builds sampled (bounded)")
prop("C21", "Fillets are tangent arcs of the radius asked for",
     "Rounding a corner between two curves, of a chain or of a tooth's root or tip gives an arc of exactly the radius asked for that starts on the first and ends on the second curve and continues both without a kink, turning the way the corner turns, in the plane or on a cone alike. The rest of the curve follows the original unchanged up to and from the arc, and the original is left alone when a filleted copy is asked for. A root or tip too narrow for its own fillets gets one arc shared by both flanks, meeting in the middle plane.",
     ["inputs"], "arbitrary curves, radii, turning angles and planes in space; all flanks and circles",
     "Tests check that filleted gears yield valid solids; a wrong radius or kink passes.",
     ["curve.py", "gggears_core.py"],
     [("tangent arcs", "curve.py: calc_tangent_arc, fillet_curve"), ("chains", "curve.py: CurveChain.fillet, fillet_at_locations, fillet_at_index"), ("teeth", "gggears_core.py: apply_fillet")],
     "proved with the root search under contract; whole teeth sampled (bounded)")
