#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json (single source for both)"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
POLY, STA, CRS, DS = "geec/polyhedron.py", "geec/station.py", "geec/crs.py", "geec/dataset.py"
MASS, OBS, CFG, CLI, API = ("geec/mass.py", "geec/observer.py", "geec/config.py",
                            "geec/cli.py", "geec/api.py")
P = []


def prop(pid, title, statement, over, qtext, why, files, mech, observe, technique, note):
    assert len(title) <= 80, title
    P.append(dict(id=pid, title=title, statement=statement, over=over, qtext=qtext,
                  why=why, files=files, mech=mech, observe=observe,
                  technique=technique, note=note))


prop("C01", "Gravity equals the Newtonian attraction of the convex body",
     "For every body (the convex hull of the given points), every observation point "
     "outside, inside or on a face of it and away from its edges, the reported gravity "
     "vector is the Newtonian attraction of the homogeneous body, in mGal and pointing "
     "towards the mass. Errors stay at the level of floating-point round-off for the "
     "geometry at hand, at any size, position and orientation of the body.",
     ["inputs"],
     "all point sets with a non-empty interior (any number of points, scale 1e-3..1e6 m, "
     "offsets up to Earth-centred coordinates) and all observation points with a distance "
     "to the true edges above 1e-6 of the body size",
     "The tests compare one unit cube at 16 stations with stored numbers; the value for "
     "any other shape, orientation, scale, or side of the faces is never looked at.",
     [POLY, STA],
     [("solid angle plus edge line integrals per triangle (Singh & Guptasarma)",
       POLY + ": Face.get_gravity, Face._get_omega, Edge._line_integral_along_edge"),
      ("sum over faces and bodies", POLY + ": Polyhedron.get_gravity; " + STA)],
     ["Station.G", "Polyhedron.get_gravity"],
     "PBT against an independent extended-precision reference field",
     "Search over generated bodies and stations; oracle is a separately written hull + "
     "Werner-Scheeres closed form in long double, plus point-mass far-field bounds. "
     "Trusts numpy and a calibrated round-off bound.")
prop("C02", "The gradient tensor is the spatial derivative of gravity",
     "When the gradient is requested, the reported tensor is, in Eotvos, the derivative of "
     "the gravity vector with respect to the position of the observation point. It is a "
     "symmetric 3x3 matrix, whatever the body and wherever the station, inside or outside "
     "and away from the surface.",
     ["inputs"],
     "all bodies as in C01 and all observation points off the body's surface",
     "The tests look at the solid-angle and line-integral pieces for one station of one "
     "cube; no test looks at the assembled tensor at all.",
     [POLY, STA],
     [("derivative of solid angle and line integrals",
       POLY + ": Face._get_dangle, Edge._line_integral_along_edge"),
      ("assembly of the six components", POLY + ": Face.get_gravity")],
     ["Station.T", "Polyhedron.get_gravity"],
     "PBT: reference tensor and finite differences of the reported gravity",
     "Two oracles: the analytic reference tensor and central differences of the code's own "
     "gravity. Round-off bounds are calibrated; stations closer to the surface than 1e-9 of "
     "the size are excluded.")
prop("C03", "Gradient trace is 0 outside the body and -4*pi*G*density inside",
     "At every observation point outside a body the trace of the gradient tensor is zero "
     "(Laplace), and at every point strictly inside it is -4 pi times the gravity constant "
     "times the density (Poisson), in Eotvos, for one body as well as for the total of "
     "several overlapping bodies.",
     ["inputs"],
     "all bodies, densities and constants; observation points inside and outside, close to "
     "and far from faces",
     "No test looks at the tensor, and none puts a station inside a body.",
     [POLY, STA],
     [("solid angles sum to 0 / 4 pi over a closed surface", POLY + ": Face._get_omega"),
      ("tensor assembly", POLY + ": Face.get_gravity")],
     ["Station.T"],
     "PBT: physical invariant (Laplace/Poisson) on generated scenes",
     "Invariant check, independent of the closed-form oracle except for telling inside from "
     "outside; calibrated round-off bound.")
prop("C04", "Results move with the scene: rigid motions, mirrors and change of scale",
     "Rotating, translating or mirroring the bodies and the station together rotates, leaves "
     "or mirrors gravity and gradient accordingly. Enlarging the whole scene by a factor "
     "multiplies gravity by that factor and leaves the gradient unchanged.",
     ["inputs"],
     "all bodies and stations, all rotations (axis permutations and arbitrary), reflections, "
     "translations up to Earth-centred offsets, scale factors 1e-3..1e5",
     "The tests have one axis-aligned unit cube next to the origin.",
     [POLY],
     [("coordinates relative to the station", POLY + ": Face._get_dot_point1, Face._get_omega"),
      ("orientation of triangles", POLY + ": Polyhedron._get_faces")],
     ["Station.G", "Station.T"],
     "PBT: metamorphic relations",
     "Code compared with itself under transformations with known effect; round-off bounds of "
     "both sides added.")
prop("C05", "Gravity and gradient are proportional to density and gravity constant",
     "Gravity and gradient of a body are exactly proportional to its density and to the "
     "gravity constant, including negative contrasts, zero, fractional and very large or "
     "small values. The result depends on the two only through their product, and contrasts "
     "add up.",
     ["inputs"],
     "all finite densities of either sign and all gravity constants (SI, CGS, 1), for all "
     "bodies and stations",
     "The tests use one density and one constant.",
     [POLY, STA, MASS],
     [("single factor density*constant*unit", POLY + ": Face.get_gravity")],
     ["Station.G", "Station.T"],
     "PBT: metamorphic scaling and additivity",
     "Code compared with itself for generated pairs of densities and constants, and with the "
     "reference magnitude.")
prop("C06", "The field of several bodies is the sum of their fields",
     "A station accumulates the fields of all bodies it has been given, one by one, in lists "
     "or repeatedly, whatever their order and grouping; each body counts once for every time "
     "it is given. A body cut in two by a plane has the same total field as the uncut body.",
     ["inputs", "histories"],
     "all lists and sequences of calls with 0..5 bodies, with repetitions, mixed densities "
     "and gradient flags; all cutting planes",
     "The tests compute one body per station.",
     [STA, POLY],
     [("accumulation", STA + ": Station.compute_gravity")],
     ["Station.G", "Station.T"],
     "PBT: stateful accumulation model and cut-body metamorphic relation",
     "Model: sum of single-body fields from the reference; metamorphic: pieces of a body "
     "clipped by generated planes.")
prop("C07", "Results do not depend on what was computed before",
     "The field a body or station reports for a request is the same whether the objects are "
     "new or have served any sequence of earlier requests, with or without gradient, at other "
     "stations, interleaved with other bodies, or failed in between. No request changes the "
     "coordinates of bodies or stations or results handed out earlier.",
     ["histories", "fault_sequences"],
     "all interleavings of requests over shared bodies and stations, with failing requests "
     "(observation point at a vertex, invalid arguments) at any position",
     "Every test uses fresh objects; no test calls twice or after a failure.",
     [POLY, STA],
     [("intermediate values are reset after each request, also on failure",
       POLY + ": Polyhedron.get_gravity, Polyhedron.reset, Face.reset, Edge.reset"),
      ("twin edges share line integrals", POLY + ": Edge._set_twin_pqr")],
     ["Station.G", "Station.T", "Polyhedron.points"],
     "stateful PBT against fresh objects, with injected failing requests",
     "Generated operation sequences; oracle is the same request on fresh objects and bitwise "
     "snapshots of inputs and earlier results.")
prop("C08", "Only the convex body matters, not how its points are listed",
     "The field does not depend on the order of the points, on repeated points, on extra "
     "points inside the body or on its faces or edges, or on whether coordinates are "
     "integers or floats and how the array is laid out in memory.",
     ["inputs"],
     "all point sets and all such re-listings of them; stations in all positions",
     "The tests have one cube with one order of its eight corners.",
     [POLY],
     [("convex hull, orientation from the centroid", POLY + ": Polyhedron._get_faces")],
     ["Station.G", "Station.T"],
     "PBT: metamorphic relations on the point list",
     "Code compared with itself for two listings of one body, and with the reference.")
prop("C09", "The body's surface is the closed, outward-oriented hull boundary",
     "The faces of a body form the closed boundary of the convex hull of its points: unit "
     "normals point outwards, corners run counter-clockwise seen from outside, every edge is "
     "shared by exactly two faces in opposite directions. They enclose the hull's volume, have "
     "its area, and no given point lies outside.",
     ["inputs"],
     "all point sets with a non-empty interior, including many coplanar and collinear points",
     "The tests check the faces of one cube, where round-off and degenerate facets do not "
     "occur.",
     [POLY],
     [("hull facets, orientation", POLY + ": Polyhedron._get_faces"),
      ("edges and twins", POLY + ": Face._get_edges, Polyhedron._get_edge_twin")],
     ["Polyhedron.faces", "Face.un", "Face.points", "Face.edges", "Edge.start", "Edge.end",
      "Edge.vector", "Edge.length"],
     "PBT: structural invariants and independent hull",
     "Validity predicate over the reported faces (any triangulation is accepted) plus volume, "
     "area and faces of a separately written hull.")
prop("C10", "Asking for the gradient does not change gravity; not asking gives zeros",
     "Gravity is the same whether or not the gradient is requested. Without the request (the "
     "default) the tensor stays a 3x3 matrix of zeros and nothing is added to a tensor "
     "accumulated earlier; everything that can be computed without the gradient can be "
     "computed with it off the surface.",
     ["inputs", "histories"],
     "all bodies, stations (special positions included) and sequences of calls with mixed flags",
     "The tests never compare the two modes.",
     [POLY, STA, CLI],
     [("gradient branches", POLY + ": Face.get_gravity, Face._get_omega, "
       "Edge._line_integral_along_edge")],
     ["Station.G", "Station.T"],
     "PBT: differential (flag on versus off)",
     "Code compared with itself; gravity must agree to a fraction of the round-off bound, "
     "zeros must be exact.")
prop("C11", "Invalid bodies, stations and arguments are refused without side effects",
     "Points or coordinates that are not a numeric array, point sets without volume or with "
     "non-finite values, and anything that is not a body where bodies are expected are refused "
     "with an error. A refused request leaves the station's accumulated field and all other "
     "objects as they were.",
     ["inputs", "fault_sequences"],
     "all positions of an invalid item in a list; all flat, collinear, too small or non-finite "
     "point sets in any orientation; all non-array coordinate containers",
     "The tests check two wrong types, alone, on fresh objects.",
     [POLY, STA, "geec/utils.py"],
     [("type checks before any accumulation", STA + ": Station.compute_gravity"),
      ("hull construction refuses flat input", POLY + ": Polyhedron.__init__")],
     ["exceptions", "Station.G", "Station.T"],
     "PBT with generated invalid arguments, state compared before and after",
     "Generated invalid arguments at generated positions; error types as documented by the "
     "code (KeyError, TypeError), any exception for degenerate point sets.")
prop("C12", "Stations in special positions give finite, correct results",
     "At observation points in line with edges, in the planes of faces, on faces, vertically "
     "above corners or on grid positions where such coincidences are exact, gravity is finite "
     "and equals the limit from nearby points. The gradient is finite and correct there too "
     "whenever the point is off the surface.",
     ["inputs"],
     "all bodies; all stations on carrier lines of edges and face diagonals (outside the body), "
     "carrier planes of faces, intersections of such planes, and face interiors",
     "The tests have one station in the plane of a face, and none in line with an edge; the "
     "branches for these positions are taken depending on round-off.",
     [POLY],
     [("branch for edges in line with the station", POLY + ": Edge._get_ccw_line_integrals"),
      ("branch for stations in a face plane", POLY + ": Face._get_omega")],
     ["Station.G", "Station.T"],
     "PBT with constructed degenerate positions against the reference field",
     "Stations are constructed on the degenerate loci (exactly, and up to round-off on rotated "
     "bodies); reference field in extended precision.")
prop("C13", "Geographic positions become the right Earth-centred positions, and back",
     "Converting longitude, latitude and height on any supported or user-defined ellipsoid to "
     "Earth-centred coordinates gives the position defined by that ellipsoid, and converting "
     "Earth-centred or other-ellipsoid positions to WGS84 gives the WGS84 coordinates of the "
     "same position. Each point keeps its place in the list and the label of the result names "
     "the new system.",
     ["inputs", "configurations"],
     "all longitudes -180..360, latitudes -90..90, heights -10..100 km, all named ellipsoids and "
     "custom axes",
     "The conversion tests need geoid grids that are missing and do not run; they use a handful "
     "of points.",
     [CRS, DS],
     [("conversion functions", CRS + ": ellps_to_ecef, ecef_to_wgs84, ellps_to_wgs84")],
     ["Dataset.coords", "Dataset.crs"],
     "PBT: closed-form reference, inverse and round trips",
     "Own extended-precision geodetic formulae and a Newton inverse; trusts the ellipsoid table "
     "of pymap3d.")
prop("C14", "Local east-north-up coordinates are the topocentric frame at the origin",
     "Positions converted to or from local east-north-up coordinates relate to Earth-centred "
     "positions by the rotation and origin of the local frame at the given longitude, latitude "
     "and height, so distances are preserved and the origin maps to zero. Converting there and "
     "back returns the same position.",
     ["inputs", "configurations"],
     "all origins (poles and date line included), all ellipsoids for configured frames, all "
     "points within thousands of km",
     "The conversion tests do not run here and use a handful of points.",
     [CRS, DS],
     [("conversion functions", CRS + ": enu_to_ecef, enu_to_wgs84, ecef_to_enu, wgs84_to_enu")],
     ["Dataset.coords", "Dataset.crs"],
     "PBT: closed-form rotation reference, isometry, round trips",
     "Own topocentric rotation in extended precision; metamorphic distance preservation.")
prop("C15", "Orthometric heights become ellipsoidal heights exactly once",
     "Converting to ellipsoidal height adds the height of the named geoid (EGM84, EGM96 or "
     "EGM2008) at each point's own longitude and latitude, and adds nothing when heights are "
     "ellipsoidal already. Longitude and latitude do not change, the label afterwards says "
     "ellipsoidal, and repeating the conversion changes nothing.",
     ["inputs", "configurations", "histories"],
     "all geoid names, all longitudes and latitudes, all heights, any number of repetitions",
     "No running test touches heights; the grids of two geoids are missing.",
     [CRS, DS, MASS],
     [("geoid lookup", CRS + ": ellipsoid_height, VDATUMREF")],
     ["Dataset.coords", "Dataset.crs"],
     "PBT: independent geoid evaluation and idempotence",
     "EGM84 grid evaluated separately; EGM96/EGM2008 grids are missing in this copy and replaced "
     "by synthetic grids with analytic surfaces that tell the three apart.")
prop("C16", "Sequences of conversions keep every point where it is",
     "Through any sequence of coordinate conversions of a set of mass points or observers, the "
     "label always describes the coordinates that are stored, and together they always denote "
     "the same positions on Earth, point by point. Cartesian data are never changed, and "
     "conversions of a group of masses act on every mass and on nothing else, also when several share one description of their system.",
     ["histories", "configurations"],
     "all finite sequences of conversions from all starting systems, for datasets, masses, groups "
     "of masses and observers",
     "No test chains conversions.",
     [DS, CRS, MASS, OBS],
     [("dispatch on the current system", DS + ": Dataset.to_*"),
      ("label update with each conversion", CRS)],
     ["Dataset.coords", "Dataset.crs", "Mass.dataset", "Observer.dataset"],
     "stateful PBT with a physical-position model",
     "Model keeps the Earth-centred position of each point; after every step coordinates are "
     "decoded by the label with own formulae.")
prop("C17", "Longitudes wrap to -180..180 without moving any point",
     "Wrapping brings every longitude given in 0..360 or -180..180 into -180..180, changes it "
     "only by whole turns, and leaves latitude, height, order and already wrapped longitudes "
     "unchanged. Data that are not geographic are left alone.",
     ["inputs"],
     "all longitudes in -180..360 including the exact ends, any number of points, all systems",
     "The test that covers wrapping does not run here and has a few values.",
     [CRS, DS, MASS],
     [("wrap", CRS + ": wrap180"), ("dispatch", DS + ": Dataset.to_lon180")],
     ["Dataset.coords"],
     "PBT: exact modular-arithmetic oracle",
     "Exact comparison (subtraction of 360 is exact in the range).")
prop("C18", "Settings come from the argument file, then the user's, then the default",
     "For every setting, the value in force is the one in the configuration file given as "
     "argument if that file has it, else the one in the user's own configuration file, else the "
     "packaged default. The number of masses is that of the first of these files that lists "
     "masses.",
     ["configurations"],
     "all combinations of settings present or absent in the two user files",
     "No running test reads a configuration.",
     [CFG, "geec/cfg/config_default.yaml"],
     [("layered sources", CFG + ": setup, _default_setup")],
     ["geec.config.setup", "geec.mass.get_masses", "geec.observer.get_observer"],
     "PBT: generated configuration layers against a first-defined-wins model",
     "Layers are generated as partial trees; the model is an ordered lookup. Trusts PyYAML.")
prop("C19", "Coordinate system settings are understood as documented or refused",
     "Every documented reference (cart, ellps, enu, ecef), ellipsoid name, custom pair of axes "
     "and vertical datum (ellps, egm84, egm96, egm2008) is accepted, in upper or lower case "
     "where the setting is case-insensitive, and yields exactly that system with the documented "
     "defaults; a named ellipsoid goes before a pair of axes, one axis alone means the default. "
     "Any other name is refused with a configuration error, and a local system whose origin refers "
     "to another ellipsoid than its own is refused.",
     ["configurations"],
     "all documented names, letter cases, missing and empty settings, all unknown names",
     "The tests for this do not run here and cover a few names.",
     [CRS, "geec/cfg/config_template.yaml", "docs/usage.md"],
     [("parsing", CRS + ": get_crs, read_ref, read_vdatum, read_ellipsoid_parameters")],
     ["geec.crs.get_crs"],
     "PBT: generated settings against a table of documented meanings",
     "Reference and vertical datum are case-insensitive, ellipsoid names are not; axes compared "
     "exactly.")
prop("C20", "Inline points, point files and grids give the same coordinates",
     "The same points given inline, in a comma-separated file or (for regular positions) as a "
     "grid are read as the same coordinates in the same order; a grid runs over start, "
     "start+step, ... up to but without end (downwards for a negative step), with z varying "
     "fastest and x slowest. Inline points take "
     "precedence over a file, a file over a grid, and a missing file or no source at all is an "
     "error.",
     ["inputs", "configurations"],
     "all finite coordinates (integers, decimals, exponents), all combinations of sources, all "
     "grids",
     "No running test reads points from a configuration or a file.",
     [DS],
     [("source selection and reading", DS + ": _read_coords")],
     ["geec.dataset.get_dataset", "geec.mass.get_masses", "geec.observer.get_observer"],
     "PBT: differential between the three sources, grid model",
     "Coordinates written by own code; compared to 1e-13 relative (file parser of pandas).")
prop("C21", "A run reports the total field of all masses at every observer",
     "For Cartesian configurations the result table has one row per observer in the given order, "
     "with its coordinates, the gravity of all masses together (each with its own density and "
     "constant) in mGal and, if requested, the six gradient components in Eotvos, else zeros. "
     "Column names and units name what is in the column.",
     ["configurations", "inputs"],
     "all configurations with 1..6 masses and 1..many observers from points, files or grids, with "
     "and without gradient",
     "No running test executes the command.",
     [CLI, MASS, OBS, API],
     [("loop over masses and observers", CLI + ": run")],
     ["CSV written by 'geec run'"],
     "PBT of the command end to end against the reference field",
     "Generated YAML/CSV inputs, command run in-process and as a process of its own, result parsed by own reader and compared "
     "with the reference field of every mass.")
prop("C22", "A run gives the same field however the positions are described",
     "Describing masses and observers by geographic coordinates on any ellipsoid, heights above "
     "a geoid (masses), Earth-centred or local east-north-up coordinates gives the same field at "
     "the same places: that of the bodies at their positions in Earth-centred axes, with "
     "observers listed by WGS84 longitude, latitude and height.",
     ["configurations", "inputs"],
     "all mixtures of descriptions for several masses and observers",
     "No running test executes the command or converts coordinates.",
     [CLI, CRS, DS, MASS, OBS],
     [("conversion of masses and observers to one system", CLI + ": run")],
     ["CSV written by 'geec run'"],
     "PBT end to end: one physical scene, generated descriptions, reference field",
     "Own geodetic formulae give Earth-centred corners and stations; reference field there. Size "
     "of bodies 100 m and up, so that conversion round-off (1e-9 m) does not matter.")
prop("C23", "The result file holds exactly the computed numbers",
     "Writing results stores every number so that reading the file gives back the same floating-"
     "point value, in the same rows and columns, with both header lines. The file is the given "
     "path with extension .csv, missing folders are created, an older result is replaced, and no "
     "other file changes.",
     ["inputs", "histories"],
     "all finite values (tiny, huge, negative zero), table shapes, output paths, existing files",
     "No running test writes a file.",
     [API, CLI],
     [("writer", API + ": write_file")],
     ["file system", "CSV content"],
     "PBT: write/read round trip with own reader, directory snapshot",
     "Bit-exact comparison of parsed values; whole scratch tree compared before and after.")
prop("C24", "The configuration template is delivered unchanged and usable",
     "The template command writes the packaged template, byte for byte, to the requested path "
     "with extension .yaml (by default config_template.yaml in the current folder), whatever the "
     "user's own configuration says. Used as a configuration file it is accepted, and changing "
     "values in it changes just those settings.",
     ["configurations", "histories"],
     "all output names and folders, existing files, user configurations present or absent, all "
     "single edits of the template's values",
     "No running test executes the command.",
     [CLI, CFG, "geec/cfg/config_template.yaml"],
     [("copy of the template", CLI + ": config")],
     ["file written by 'geec config'"],
     "PBT: command histories with directory snapshots, template edited and loaded",
     "Template compared with the packaged file; edited copies are loaded through the "
     "configuration layer.")

prop("C25", "A run that fails leaves no result and changes no file",
     "A run whose configuration cannot be carried out (configuration file missing or not YAML, "
     "unknown coordinate system, ellipsoid or datum, missing local origin, points file missing "
     "or not numeric, no points, body without volume, density or constant that is no number, "
     "output path that cannot be written), or that is interrupted while fields are computed, "
     "ends with a non-zero exit status. It creates no result file and leaves an earlier result "
     "and every input file unchanged; a run that succeeds changes no file but its result.",
     ["configurations", "fault_sequences"],
     "all configurations of 1..3 masses with one such fault in any mass, in the observers or in "
     "the file itself, or interrupted at any of the computations, with or without an earlier result at the output path",
     "No running test executes the command, with or without faults.",
     [CLI, API, CFG, CRS, DS],
     [("errors propagate, file written last", CLI + ": run; " + API + ": write_file")],
     ["exit status of 'geec run'", "file system"],
     "PBT with injected configuration faults, directory snapshots",
     "Valid generated scenes with one of 24 faults, in-process and as 'python -m geec' in a "
     "process of its own; exit status and byte content of the whole "
     "scratch tree before and after.")
prop("C26", "Rows of a result depend on their own observer and the masses only",
     "Reordering, repeating, removing or adding observers, or reading them from a file, reorders, "
     "repeats, removes or adds rows and changes no number in the others. The order of the masses "
     "does not matter, the fields of runs with one mass each add up to those of the run with all "
     "of them, and the same run again, also in another process or after other runs, writes the "
     "same rows (all up to round-off).",
     ["configurations", "histories"],
     "all Cartesian and geographic scenes with 1..6 masses and 2..150 observers, all selections "
     "and orders of observers, all orders of masses",
     "No running test executes the command, let alone twice.",
     [CLI, MASS, OBS, DS, API],
     [("loop over masses and observers", CLI + ": run"),
      ("conversion of point lists", DS)],
     ["CSV written by 'geec run'"],
     "PBT: metamorphic relations between runs of the command",
     "5 to 10 runs per case, in one process and in one of its own; rows compared to 1e-13 plus a "
     "twentieth of the round-off bound.")
prop("C27", "The 3D view shows the edges of the body and changes nothing",
     "The view of a body draws every edge of its hull at its true coordinates and no line that "
     "leaves its surface, once for each call. Points and field of the body are the same "
     "afterwards.",
     ["inputs"],
     "all bodies as in C01",
     "No test looks at the view.",
     [POLY],
     [("one line per edge", POLY + ": Polyhedron.plot")],
     ["figure handed to plotly by Polyhedron.plot"],
     "PBT: drawn lines against the edges of the reference hull",
     "plotly's show is replaced by a stand-in that keeps the figure; lines may be in one trace or "
     "many.")
prop("C28", "The log of a run records the settings in force",
     "Every run, whether it succeeds or not, leaves one log file of its own that lists, for each "
     "mass in order and for the observers, the settings in force: density, gravity constant, "
     "points, file, grid and all parameters of the coordinate system. Earlier logs stay as they "
     "are, however many and old, and the option --log names the folder they are in.",
     ["configurations", "histories"],
     "all layered settings with 1..4 masses, one or two runs after up to 120 others",
     "No running test executes the command or reads a log.",
     [CFG, API, CLI],
     [("list of settings", CFG + ": show"), ("log file", API + ": setup_logger")],
     ["log file of 'geec run'"],
     "PBT: log read back and compared with a model of layered settings",
     "Only 'key: value' messages are looked at; values are parsed and compared as numbers, lists "
     "or names. The log folder is redirected to a scratch folder.")
prop("C29", "Separate bodies, stations and point sets can be worked on at the same time",
     "Requests made from several threads at the same time, each on bodies, stations or sets of "
     "points of its own, give the same results as when they are made one after the other, however "
     "the threads interleave, also when the bodies have the same corners or the sets of points "
     "share one description of their system.",
     ["schedules", "inputs"],
     "2..4 threads with one to four requests each (fields, gradients, conversions without geoid "
     "heights) and all interleavings at the lines of the package",
     "All tests run in one thread.",
     [POLY, STA, CRS, DS],
     [("all intermediate values belong to a face or an edge", POLY + ": Face, Edge"),
      ("conversions copy the label they change", CRS)],
     ["Polyhedron.get_gravity", "Station.G, Station.T", "Dataset.coords, Dataset.crs"],
     "PBT over drawn schedules: threads handed over at drawn lines, against sequential results",
     "A trace function in each thread makes it hand over after a drawn number of lines of geec, so "
     "a schedule is part of the case and is shrunk and replayed. Compiled code is not "
     "interrupted; the reader of geoid grids (pygeodesy) is left out.")

NOT_APPLICABLE = []

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
PY = "/opt/venv/bin/python run.py "
man = {"version": 1, "setup_cmd": PY + "--setup",
       "checks": [{"property": p["id"], "quick_cmd": PY + p["id"],
                   "thorough_cmd": "VERIF_TIER=thorough " + PY + p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": p["technique"], "level": "exploration",
                   "level_note": p["note"]}
                  for p in P if p["id"] not in [n["property"] for n in NOT_APPLICABLE]],
       "not_applicable": NOT_APPLICABLE,
       "notes": "No hooks in /repo. Repairs: see KNOWN_FINDINGS and DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
