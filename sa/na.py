"""Properties worth stating that source analysis cannot decide here, with the reason."""

NOT_APPLICABLE = [
    dict(id="N01", title="Boolean operations compute the right solid",
         statement="Union, intersection and difference of two closed solids return a closed solid whose point set is the set-theoretic result.",
         over=["inputs"], text="all pairs of closed solids and all boolean engines",
         why="Tests compare volumes and bounding boxes of a few boxes, spheres and prisms.",
         files=["src/yapcad/boolean/native.py", "src/yapcad/geom3d.py"], mech=[("native boolean engine", "src/yapcad/boolean/native.py")],
         reason="Quantifies over floating-point intersection results; no structural part of the source is a necessary condition that a defect would visibly break."),
    dict(id="N02", title="Sampling and projection lie on the curve",
         statement="A point sampled from a curve at any parameter lies on that curve, and unsampling a point on the curve returns its parameter.",
         over=["inputs"], text="all lines, arcs, ellipses, splines, NURBS and polylines and all parameters",
         why="Tests sample a handful of parameters per curve kind.",
         files=["src/yapcad/geom.py", "src/yapcad/spline.py"], mech=[("curve evaluation", "src/yapcad/geom.py")],
         reason="A numerical identity over real parameters; a static argument in reach bounds neither the arithmetic nor its rounding."),
    dict(id="N03", title="Mate solving satisfies the mates it reports satisfied",
         statement="After solving an assembly, the transforms returned place every mated pair of datums coincident and aligned as the mate demands.",
         over=["inputs"], text="all assemblies and mates",
         why="Tests solve a few hand-made assemblies.",
         files=["src/yapcad/assembly/solver.py", "src/yapcad/kinematics/transform.py"], mech=[("placement arithmetic", "src/yapcad/assembly/solver.py")],
         reason="Correctness of matrix arithmetic over runtime values; the structural clauses (cache soundness, failure reporting) are separate properties."),
    dict(id="N04", title="Tessellations are watertight and oriented outward",
         statement="Every solid constructor returns a mesh in which each edge is shared by exactly two faces with consistent outward orientation.",
         over=["inputs"], text="all dimensions and segment counts of every solid constructor",
         why="Tests check particular parameter values.",
         files=["src/yapcad/geom3d_util.py"], mech=[("solid constructors", "src/yapcad/geom3d_util.py")],
         reason="Depends on loop index arithmetic combined with floating-point vertex identity; not visible in the shape of the code."),
    dict(id="N05", title="STEP and STL files reproduce the exported geometry",
         statement="Re-importing an exported STEP or STL file yields geometry equal to the exported one within tolerance.",
         over=["inputs"], text="all solids and export options",
         why="Tests export single shapes.",
         files=["src/yapcad/io/step.py", "src/yapcad/io/stl.py"], mech=[("exporters", "src/yapcad/io")],
         reason="Round-trip equality of numerical data through an external format; only record counts and table agreement are structural."),
    dict(id="N06", title="Collision results agree with exact geometry",
         statement="Two parts are reported as interfering exactly when their solids overlap by more than the tolerance.",
         over=["inputs"], text="all part pairs and placements",
         why="Tests use boxes at a few distances.",
         files=["src/yapcad/collision/detector.py"], mech=[("pair test", "src/yapcad/collision/detector.py")],
         reason="Quantifies over floating-point boolean and bounding-box results."),
    dict(id="N07", title="Viewer events reach every client in publication order",
         statement="Events published by the viewer are delivered to each subscriber in order and without loss.",
         over=["schedules"], text="all interleavings of publishers, subscribers and disconnects",
         why="No test covers the viewer event stream.",
         files=["src/yapcad/viewer/events.py"], mech=[("event bus", "src/yapcad/viewer/events.py")],
         reason="An ordering property of concurrent histories; lexical lock discipline alone neither implies nor is implied by it."),
    dict(id="N08", title="Generated gear and thread profiles satisfy the standards",
         statement="Generated gear teeth are involutes of the requested module and generated threads have the standard's pitch and diameters.",
         over=["inputs"], text="all modules, tooth counts and thread sizes",
         why="Tests check a few counts and radii.",
         files=["src/yapcad/contrib/figgear.py", "src/yapcad/threadgen.py"], mech=[("profile generators", "src/yapcad/threadgen.py")],
         reason="Numerical shape of generated curves; no structural necessary condition."),
]
