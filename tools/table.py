I, C, H = "inputs", "configurations", "histories"
F = "hyperstatic/"
p("C01", "Three-point coordinate systems are right-handed orthonormal frames",
  "A Cartesian system built from an origin O and two points A and B has its x axis along OA, its y axis in the plane OAB on B's side and z = x × y, and the three axes are orthonormal. Its 3×3 transformation matrix has the axes as rows, so it is a proper rotation. Three points that are collinear within the tolerance are rejected.",
  [I], "all point triples (any scale and orientation, obtuse angles, mixed integers and floats)",
  "The tests build a handful of frames; the identity is over a nine-dimensional continuum.",
  [F + "common/csys.py"], [("Cartesian.__init__", F + "common/csys.py")], ["axes x, y, z, origin", "transform_matrix"])
p("C02", "Rotations of a coordinate system turn every axis by the stated angle",
  "Rotating a coordinate system about the global x, y or z axis, about one of its own axes, or about a given vector turns all three of its axes by the given angle, right-handed, about that axis. Length, orthogonality and the origin do not change, and rotations compose in the order they are applied.",
  [I, H], "all frames, axes and angles; all sequences of rotations",
  "The tests check few angles of few frames; sign and composition errors show only for particular combinations.",
  [F + "common/csys.py"], [("Cartesian.rotate_about_*", F + "common/csys.py"), ("scipy Rotation (contract)", F + "common/csys.py")], ["axes after rotation"])
p("C03", "Re-defining and moving coordinate systems keeps exposed axes consistent",
  "A system created from a normal and a guide vector has z along the normal, y along the part of the guide orthogonal to it and x completing the right-handed frame, and parallel vectors are rejected. Re-defining a system by three points or assigning its origin gives the same observable axes, matrix and origin as building it anew. A rejected re-definition leaves the system as it was.",
  [I, H], "all normals, guides, point triples and earlier states of the system",
  "Stale-state defects need a construction followed by a re-definition; the tests do not observe the system afterwards.",
  [F + "common/csys.py"], [("Cartesian.create_by_normal, set_by_3pts, origin setter, align_with_global", F + "common/csys.py")])
p("C04", "Nodes keep location, frame and nodal mass",
  "A node reports the coordinates it was created with, starts with the global frame at its location, and its 6×6 transformation is block diagonal with the frame's rotation. Rotations of its frame turn it about its own axes and re-initialising the frame restores the global one. Its mass matrix is diagonal in the three translations with the stored mass and negligible in the rotations.",
  [I, H], "all locations, masses and rotation sequences",
  "Tests construct single nodes and read the attributes back.",
  [F + "core/fe_model/node.py"], [("Node", F + "core/fe_model/node.py")])
p("C05", "Beam local frames, length and end transformation",
  "A beam's local x axis points from start to end; for a beam that is not vertical the local z axis is horizontal and y points up, for a vertical one the local y axis is global X, and a rotation turns y and z about x by exactly the last angle set. Its length is the distance of its end nodes, also after re-orientation. The 12×12 end transformation is four times the frame's rotation on the diagonal.",
  [I, H], "all pairs of distinct end points, all rotation angles and sequences of rotation settings, both beam element types",
  "Orientation errors need skew members, near-vertical members or repeated rotation settings; the tests use axis-parallel members.",
  [F + "core/fe_model/element/line/__init__.py", F + "core/fe_model/element/line/beam.py", F + "core/fe_model/element/line/simple_beam.py"],
  [("Line.__init__", F + "core/fe_model/element/line/__init__.py"), ("Beam.rotation", F + "core/fe_model/element/line/beam.py")])
B = F + "core/fe_model/element/line/beam.py"
SB = F + "core/fe_model/element/line/simple_beam.py"
LP = F + "core/fe_model/load/pattern.py"
LCF = F + "core/fe_model/load/__init__.py"
p("C06", "Beam stiffness is the exact Euler-Bernoulli space frame stiffness",
  "A beam's local stiffness matrix is that of the exact prismatic space-frame member for its material and section: symmetric, strain energy zero for every rigid-body motion, equal to the closed-form axial, torsional and bending terms. In global coordinates it is the local matrix transformed by the member's frame, so the stiffness of a rotated or translated member is the rotated matrix.",
  [I, H], "all end points, rotation angles, material constants and section constants",
  "Twelve by twelve entries depend on a dozen continuous parameters; the tests check one member.",
  [B, SB], [("Beam.integrate_K / SimpleBeam.integrate_K", B), ("transform_matrix", B)])
p("C07", "Beam mass matrices are the exact consistent / lumped ones",
  "A beam's consistent mass matrix equals the one obtained by integrating density times area times the products of the exact displacement interpolations, is symmetric and gives every rigid translation the mass rho*A*l. The lumped mass matrix is diagonal and carries the same total translational mass in each direction.",
  [I], "all lengths, densities and section areas",
  "A missing symmetric term is invisible unless the axial part is exercised.",
  [B, SB], [("integrate_M", B)])
p("C08", "End releases condense exactly and leave no force at released ends",
  "For every combination of released end forces that leaves the member stable, the condensed stiffness and load vector are the static condensation (Schur complement) of the unreleased ones over exactly the released degrees of freedom, and rows and columns of released ones vanish. Recovered end forces of the member are zero at every released one. Members without releases are unchanged.",
  [I, H], "all 2^12 release patterns that are not a mechanism, all members and loads; all sequences of setting releases",
  "The tests exercise one release pattern; order dependence and partial elimination need several releases at once.",
  [B], [("Beam.static_condensation", B), ("Beam releases", B), ("Model.set_beam_releases", F + "core/fe_model/model.py")])
p("C09", "Beam interpolation reproduces nodal displacements and exact shapes",
  "Interpolated displacements of a beam equal the end displacements at its ends (values and slopes), are linear for axial and torsional and cubic for bending parts, and reproduce every rigid-body motion and constant-curvature state exactly at every location.",
  [I], "all end displacements and all relative locations in [0,1]",
  "A continuum of locations and displacement states; tests do not call the interpolation.",
  [B], [("interpolate", B)])
p("C10", "Distributed beam loads become exact equivalent end loads",
  "A linearly varying distributed load gives the work-equivalent (fixed-end) end loads: axial, torsional and both transverse directions integrate the load against the exact interpolations. Total force and total moment about any point are those of the load, and equivalent loads are linear in the load.",
  [I], "all load intensities at both ends and all lengths",
  "Signs and coefficients of the moment terms show only for trapezoidal loads in both planes.",
  [LP], [("LoadPattern.get_beam_f (distributed)", LP)])
p("C11", "Concentrated beam loads become exact equivalent end loads",
  "Concentrated forces and moments at a relative location r of a beam give the work-equivalent end loads of the exact interpolations at r. Forces and moments are in equilibrium with the applied load, and at r=0 and r=1 the load goes to that end alone.",
  [I], "all forces, moments, lengths and locations 0..1",
  "Cubic dependence on the location; the tests use few values.",
  [LP], [("LoadPattern.get_beam_f (concentrated)", LP)])
p("C12", "Load patterns store and return exactly what was last set",
  "For every node, beam and load kind the pattern returns exactly the values last set, nothing if none were set, and setting one name or kind leaves all others untouched. Dictionaries list exactly the names loaded, and equivalent beam loads are the sum of the distributed and the concentrated one.",
  [I, H], "all sequences of load settings for any number of names",
  "Histories of repeated settings over several names and kinds are not sampled by tests.",
  [LP], [("LoadPattern setters and getters", LP)])
p("C13", "Load cases superpose their factored patterns",
  "The nodal loads, nodal displacements and beam loads of a case are the sums over its patterns of factor times the pattern's value, scaled for time-history cases by the pattern's curve at the step. The last factor set for a pattern counts, dictionaries contain every loaded name with the full sum, and queries change nothing.",
  [I, H], "any number of patterns, factors and curves (of different length), all query orders",
  "Superposition is over arbitrarily many patterns and steps; tests use one pattern.",
  [LCF, F + "core/fe_model/load/loadcase.py"], [("LoadCase.get_nodal_f / get_beam_f / dictionaries", LCF)])
p("C14", "Restraints are kept per node and handed out as copies",
  "A model or load case reports, for every node restrained, exactly the six flags last set for it, and nothing for other nodes. Dictionaries handed out are independent: changing them changes neither the model nor the case nor later answers. Setting a restraint of one node leaves all others untouched.",
  [I, H], "all sequences of restraint settings for any number of nodes, in models and every kind of load case",
  "Histories and aliasing of handed-out arrays are not exercised by tests.",
  [F + "core/fe_model/model.py", LCF, F + "core/fe_model/load/loadcase.py"], [("set_nodal_restraint / get_nodal_restraint_dict", F + "core/fe_model/model.py")])
MOD = F + "core/fe_model/model.py"
ASM = F + "core/fe_model/assembly.py"
p("C15", "Names map one-to-one onto consecutive hids, in order of addition",
  "Nodes, beams and shells of a model are numbered 0..n-1 in the order their names were first added, separately per kind; adding an existing name replaces the object and keeps its number. With the duplicate check a node at an existing location, or a beam between the same ends in either direction, is not added and the existing number is returned; without it nothing is merged. Failed additions and additions of one kind change nothing else.",
  [I, H], "all sequences of additions (repeated names, coincident locations) of any length",
  "Numbering defects need a history with repeated names or near-coincident nodes.",
  [MOD, ASM], [("add_node / add_beam / add_simple_beam / add_shell", MOD), ("get_*_hid, get_*_names, counts", MOD)])
p("C16", "Model and assembly queries report what was modelled",
  "Every query by name (location, mass, connection, length, hids, transformation, local and global stiffness and mass, condensed stiffness, interpolation) returns the quantity of that very object as it was defined last. Global element matrices are the local ones transformed by the element's own transformation, and queries change nothing. The assembly answers the same as the model it was made from.",
  [I, H], "all models, names and orders of definition and query",
  "Name/number mix-ups only show when hids, names and orders of definition differ.",
  [MOD, ASM], [("Model.get_*", MOD), ("Assembly.get_*", ASM)])
p("C17", "Global stiffness assembles every element exactly once at its dofs",
  "The assembled stiffness is the sum, over every beam and shell of the model, of the element's condensed stiffness transformed to global axes and placed at the six degrees of freedom of each of its end nodes, in end order. Its size is six per node. So it is symmetric, its energy is the sum of the elements' energies, it is zero for rigid-body motions of unsupported frames, and assembling again gives the same.",
  [I, C], "any number of nodes, beams and shells in any topology (including parallel members and reversed ends)",
  "Topology is unbounded: end order, several members on one node and mixed shells are not sampled by the few frames tested.",
  [ASM, MOD], [("Assembly.assemble_K", ASM)])
p("C18", "Global mass collects every nodal and element mass exactly once",
  "The assembled mass matrix is the sum of the nodal masses at the nodes' degrees of freedom and of every beam's mass matrix as the element reports it (condensed for releases, turned to global axes) at the degrees of freedom of its ends. Total mass in each translation equals the nodal masses plus rho*A*l of all beams. It is symmetric, and assembling again gives the same.",
  [I, C], "any number of nodes, beams and nodal masses in any topology",
  "Doubled or dropped contributions need several members or masses at one node.",
  [ASM, MOD, F + "core/fe_model/node.py"], [("Assembly.assemble_M", ASM), ("Node.integrate_M", F + "core/fe_model/node.py")])
p("C19", "Global load vector collects every nodal and beam load of the case",
  "The assembled load vector of a case at a step is the sum of the case's nodal loads, turned from the nodes' frames, and of each beam's equivalent end loads (condensed for releases, turned to global axes), at the degrees of freedom of the nodes. Its work in any displacement is the sum of the work of all loads, and only patterns of that case enter, with their factor and curve value.",
  [I, C], "any number of nodes, beams, patterns; every case and time step",
  "Sums over arbitrary models; sign or placement errors need skew loaded members with reversed ends.",
  [ASM, MOD], [("Assembly.assemble_f", ASM)])
p("C20", "Reduction drops exactly the restrained degrees of freedom",
  "Reducing a global matrix or vector for a case removes exactly the rows and columns of the restrained degrees of freedom and keeps all other entries in order, without changing its argument. Restraints of the case replace those of the model when the case has any. The degrees of freedom of the assembly are six per node less the model's restrained ones.",
  [I, C], "any restraint pattern on any number of nodes, any sparse matrix",
  "Index shifts go wrong only for particular orders and combinations of restraints.",
  [ASM], [("Assembly.assemble_boundary", ASM), ("restraintDOF", ASM), ("DOF", ASM)])
p("C21", "Linear static analysis solves equilibrium under the restraints",
  "For every stable model and case the stored displacements satisfy equilibrium of the assembled stiffness with the assembled load at every free degree of freedom, and are exactly zero at every restrained one (restraints of the case when it has any, else of the model). Results are stored per case with one value per degree of freedom, and solving one case leaves the others' results alone.",
  [I, C, H], "all stable models, loads and restraint patterns; any order of solving cases",
  "Tests solve a few cantilevers; re-insertion of restrained values depends on the restraint pattern.",
  [F + "core/fe_solver/static.py", F + "core/fe_solver/__init__.py", ASM], [("StaticSolver.solve_linear", F + "core/fe_solver/static.py")])
PO = F + "core/fe_post/"
p("C22", "Static results are those of the stored displacements",
  "Nodal displacements are the stored values of that node at the step asked for; nodal reactions are K d - f of the case there, and the total reaction is their sum over the restrained degrees of freedom. Beam end forces are the condensed stiffness times the local end displacements less the condensed equivalent loads, so they balance the member and vanish at released ends. Beam deformation at a location is the interpolation of the displacements of the beam's own ends, in end order (members without releases).",
  [I, C], "all models, cases, members (either drawing direction), steps and locations",
  "Reversed members, several steps and loaded or released members are not in the tests, which mostly only call the resolvers.",
  [PO + "__init__.py", PO + "node.py", PO + "beam.py", PO + "structure.py", ASM], [("NodeResultResolver", PO + "node.py"), ("BeamResultResolver", PO + "beam.py"), ("StructureResultResolver.resolve_structural_reaction", PO + "structure.py"), ("Assembly.get_beam_end_force", ASM)])
p("C23", "Modal analysis stores the lowest modes of the restrained structure",
  "For every stable model with mass, modal analysis stores the lowest eigenvalues (squared circular frequencies, ascending) and mass-normalised mode shapes of the stiffness and mass reduced by the restraints of the case, as many as requested but at most the free degrees of freedom. Circular frequencies, frequencies and periods reported are consistent with the stored eigenvalues. Mode shapes are reported at the nodes they belong to, zero at restrained degrees of freedom.",
  [I, C], "all models, masses, restraint patterns and numbers of modes",
  "Mode count against free dofs, restraint patterns and positions of components vary with the model; the tests look at one cantilever.",
  [F + "core/fe_solver/dynamic.py", PO + "__init__.py", PO + "structure.py"], [("ModalSolver.solve_eigen", F + "core/fe_solver/dynamic.py"), ("resolve_modal_frequency", PO + "structure.py"), ("ResultResolver.load_displacement", PO + "__init__.py")])
BSF = F + "core/fe_model/section/beam_section.py"
p("C24", "Section constants follow from the given sizes",
  "Rectangular, circular, pipe, box and I sections report area, both moments of inertia, elastic moduli W = I over half the size, shear areas and torsion constant of the shape given by their sizes (h along the 2 axis, b along the 3 axis), all positive, with radii of gyration i = sqrt(I/A); torsion is polar for circles and pipes, Bredt's formula for boxes and the Saint-Venant series of the plates for rectangles and I sections. General sections report what was given, and shape, sizes and material are those given. A section defined through the model gives its beams the same stiffness and mass as the section built directly.",
  [I], "all geometrically possible sizes and material constants (accuracy of the truncated torsion series: bounded, plates up to 1:100, 0.5 %)",
  "Formula errors show for particular proportions only; the tests read one section.",
  [BSF, F + "core/fe_model/section/shell_section.py", MOD], [("RectangleSection, ISection, BoxSection, CircleSection, PipeSection, BeamSection", BSF), ("Model.add_beam_section_*", MOD)])
p("C25", "Isotropic material constants and tensors are those of linear elasticity",
  "A material reports the constants given; shear modulus and Lamé's first parameter satisfy 2G(1+mu)=E and lamda(1+mu)(1-2mu)=E mu. The strain tensor is symmetric with half the engineering shear strains, and the stress tensor is lamda tr(eps) I + 2G eps, so that unit uniaxial stress is recovered from its strains and the energy is never negative.",
  [I], "all E > 0, -1 < mu < 1/2 and all strain states",
  "The tests construct one material and read no tensor.",
  [F + "core/fe_model/material/isotropy.py"], [("IsotropicMaterial.G, lamda, C, D", F + "core/fe_model/material/isotropy.py")])
p("C26", "Time curves have exactly the requested points and values",
  "A sine or cosine curve has exactly n points at 0, dt, 2 dt and so on, with the values A sin(w x + phi) or A cos(w x + phi). A curve made from points reports exactly these points. Its array form has the times in the first and the values in the second row.",
  [I], "all amplitudes, frequencies, phases, steps and numbers of points",
  "Off-by-one lengths depend on rounding of n*dt and on n.",
  [F + "common/curve.py"], [("Curve.sin / Curve.cos / to_array", F + "common/curve.py")])
p("C27", "GB 50011 design spectra follow the code's piecewise formula",
  "The seismic influence coefficient at every period is that of GB 50011: rising linearly up to 0.1 s, constant up to Tg, a power law up to 5 Tg and a straight line beyond, with the damping adjustments gamma, eta1 (not below 0) and eta2 (not below 0.55). The periods are 601 equidistant ones from 0 to 6 s, or the multiples of the step given below 6 s.",
  [I], "all alpha_max > 0, Tg >= 0.1 s, damping ratios in [0,1) and steps",
  "Branches and limits depend on period, Tg and damping together; no test evaluates the spectrum.",
  [F + "app/design/GB/seismic/spectrum.py", F + "app/seismic/wave2spec.py"], [("GB50010.spectrum", F + "app/design/GB/seismic/spectrum.py"), ("GB50011_spectrum", F + "app/seismic/wave2spec.py")])
API = F + "core/__init__.py"
p("C28", "Api calls build the model they describe, or refuse and change nothing",
  "Every building call of the Api (nodes, materials, sections, beams, shells, restraints, releases, masses, patterns, loads, cases) has the effect of the model operation it stands for, returns True or the value asked for, and is seen in the model assembled next. A request naming something that does not exist returns False or None and leaves everything as it was (loads and the restraints of a case refer to nodes and beams by name only, so these need not exist yet). Saving and loading restore the whole model, and clearing the work folder removes only what is inside it.",
  [I, H], "all values, renamings and the orders of calls stated; every kind of section, load and case",
  "Argument order and wiring errors hide behind the catch-all exception handlers of the Api, so tests that only call it pass.",
  [API, MOD, ASM], [("Api", API)])
p("C29", "Api analyses and results are those of the named case, or False/None",
  "After assembling, the Api runs the static analysis of the case named, or the modal analysis of the case with the number of modes given, on the saved assembly, and returns True. Result queries return the resolver's answer for exactly the node or beam, case and location asked for, and the query for all nodes gives every node its own. If the model is not assembled or an analysis fails, analyses return False and results None.",
  [I, H], "all names, locations and numbers of modes; before and after assembling; failing analyses",
  "The catch-all handlers turn wiring errors into False or None, which the tests do not look at.",
  [API], [("Api.solve_static / solve_modal / result_get_*", API)])
p("C30", "Load cases report exactly the settings they were given",
  "Every load case reports the options it was created with or given last: order and base case of static cases; number of modes, mass source, algorithm and base case of modal cases; modal case, spectrum and combinations of response spectrum cases; algorithm, parameters and base case of time-history cases. An order other than 1, 2 or 3 is rejected and leaves the case as it was, and changing settings that were handed out changes nothing in the case. The assembly reports the settings of the case named, and the longest and shortest number of curve steps of its patterns.",
  [I, H], "all values, the kinds of case, the sequences of settings stated; curves of any length",
  "Settings are copied between several dictionaries and read back by key elsewhere; no test reads them back.",
  [LCF, ASM], [("LoadCase subclasses", LCF), ("Assembly.get_loadcase_setting / get_max_min_step", ASM)])
p("C31", "Direct time integration satisfies the equation of motion at every step",
  "A time-history case solved by direct integration stores one row of displacements of the free degrees of freedom for time 0 and for every step of its shortest load curve, starting from rest (zero at time 0 and one step before). At every step t they satisfy the central difference equation M(u[t+1]-2u[t]+u[t-1])/dt² + C(u[t+1]-u[t-1])/(2dt) + K u[t] = f[t], with the reduced K and M of the case, its loads f[t] and its step size dt. C is Rayleigh damping a0 M + a1 K with the damping ratio of the case at the periods 2 s and 1 s.",
  [I, H, C], "models of any size, any number of steps, all step sizes and damping ratios",
  "A wrong row or coefficient shows only over several steps of a damped system; no test runs a time history.",
  [F + "core/fe_solver/dynamic.py"], [("TimeHistorySolver.solve_direct_time_integration", F + "core/fe_solver/dynamic.py")])
SHF = [F + "core/fe_model/element/quad/__init__.py", F + "core/fe_model/element/quad/DKGQ.py", F + "core/fe_model/element/tria/__init__.py", F + "core/fe_model/element/tria/DKT.py", F + "core/fe_model/section/shell_section.py", MOD]
p("C32", "Shell elements: local frame, area and stiffness composed of plate and membrane",
  "A three- or four-node shell element has its local z axis along its normal (right-hand rule of the node order), its local x axis horizontal, its origin at the centroid, the area of its polygon, and the same rotation at each of its nodes. Its local stiffness is built from the E, Poisson ratio and thickness of the section given to it, for its nodes in order: bending in w and the two tilts, membrane action in u, v (and drilling for quadrilaterals), uncoupled, bending only for a plate section, membrane only for a membrane section, both for a shell section. Rigid motions (drilling counted from the rigid rotation) produce no forces, constant strains and curvatures store their exact energy, and it does not matter at which node the numbering starts.",
  [I, C], "all positions and orientations of the nodes of plane elements, all materials, thicknesses and section types",
  "Errors of frame, area or orientation vanish for the unit squares in the horizontal plane that the tests use.",
  SHF, [("Quad, DKGQ", SHF[0]), ("Tria, DKT", SHF[2]), ("Model.add_shell", MOD)])
KN = F + "core/fe_model/meta/"
p("C33", "The compiled shell kernels are stiffnesses of exact linear elements",
  "The compiled kernels DKT, DKQ and GQ12, evaluated at any point of any element, return K = rho B^T D B with rho the Jacobian determinant (1 for the triangle) and D the plane-stress law times the thickness (bending: thickness cubed over 12). So K is symmetric and never negative for non-degenerate elements. The strains B vanish in rigid motions, equal the constant strain or curvature in the displacement states that have one, and do not depend on the position of the element.",
  [I], "all elements, points, materials and thicknesses, in exact arithmetic",
  "The kernels are a megabyte of generated C; the tests compare six numbers of one mesh of squares.",
  [KN + "plates/metaDKT/wrapped_code_0.c", KN + "plates/metaDKQ/wrapped_code_0.c", KN + "membranes/GQ12/wrapped_code_0.c"],
  [("autofunc (DKT)", KN + "plates/metaDKT/wrapped_code_0.c"), ("autofunc (DKQ)", KN + "plates/metaDKQ/wrapped_code_0.c"), ("autofunc (GQ12)", KN + "membranes/GQ12/wrapped_code_0.c")])
