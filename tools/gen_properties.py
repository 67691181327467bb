#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that titles, statements and anchors are edited in one place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Explicit runs follow the discrete equations of motion",
 "In an explicit run, the displacement, velocity, acceleration and force fields in the output are, to rounding, those of the central-difference (velocity-Verlet) scheme with the requested number of equal time steps, applied to the lumped-mass, fully integrated 8-node hexahedral total-Lagrangian finite-element model of the mesh with each block's own material. This holds for every valid mesh, any number of element blocks and materials, any initial condition and any boundary condition the input deck can express.",
 ["inputs", "configurations"], "all meshes (distorted, multi-block, arbitrary numbering), materials, boundary conditions, step counts and time intervals accepted by the code",
 "The unit tests exercise material-parameter parsing, one 3x3 inversion and two contact projections; no test runs a simulation, and a gold file would fix only one input.",
 ["src/integrators/explicit_time_integrator.cc", "src/nimble_kokkos_model_data.cc", "src/nimble_element.cc", "src/nimble_kokkos_block.cc", "src/nimble_material.cc", "src/nimble.cc"],
 [("velocity-Verlet loop", "src/integrators/explicit_time_integrator.cc"), ("gather/compute/scatter of internal force and lumped mass", "src/nimble_kokkos_model_data.cc"), ("element kernels", "src/nimble_element.cc")],
 ["Exodus output file of an explicit run"])

prop("C02", "Free bodies conserve mass, momentum, angular momentum and energy",
 "In an explicit run with no prescribed motion, the nodal masses add up to the material density times the volume of each body and never change, the internal forces have zero resultant and zero moment about any point, and total linear and angular momentum stay at their initial values to rounding. Kinetic plus strain energy stays constant up to an error that vanishes with the square of the time step.",
 ["inputs", "histories"], "all meshes, materials, initial velocity fields and step counts within the stability limit; every time step of every history",
 "No test runs a simulation or looks at a conserved quantity; conservation must hold along whole trajectories.",
 ["src/integrators/explicit_time_integrator.cc", "src/nimble_kokkos_model_data.cc", "src/nimble_element.cc", "src/nimble_material.cc"],
 [("row-sum lumped mass", "src/nimble_element.cc"), ("B^T sigma internal force with zero column sums", "src/nimble_element.cc"), ("symmetric stress from hyperelastic law", "src/nimble_material.cc")],
 ["Exodus output file of an explicit run"])

prop("C03", "Results do not depend on observer frame, axis naming or numbering",
 "Translating a model, rotating it rigidly, permuting or mirroring the coordinate axes, or renumbering its nodes, elements and blocks changes the computed motion only by the same transformation, for models whose material law is frame-indifferent and whose conditions are transformed alike. A rigid translation produces no stress and no internal force, and for the frame-indifferent law neither does a rigid rotation.",
 ["inputs", "configurations"], "all meshes and conditions; all rigid motions, axis permutations and renumberings of nodes, elements and blocks",
 "Tests hold single hand-computed values in one frame and one numbering.",
 ["src/nimble_material.cc", "src/nimble_element.cc", "src/nimble_kokkos_model_data.cc", "src/nimble_genesis_mesh.cc"],
 [("polar decomposition based law", "src/nimble_material.cc"), ("isoparametric element", "src/nimble_element.cc")],
 ["Exodus output file of an explicit run"])

prop("C04", "Splitting a mesh over MPI ranks does not change the results",
 "An explicit run of a model decomposed over any number of ranks produces, node by node and element by element (matched by global id), the same output as the single-rank run up to floating-point summation order, with the native reduction and with the Tpetra reduction alike. This covers nodes shared by any number of ranks, ranks that own only some element blocks, and boundary conditions whose node set lies on only some ranks.",
 ["inputs", "configurations", "schedules"], "all models, all decompositions over any number of ranks, both reduction back ends",
 "All unit tests are single-process; the decomposed gold tests of the repository are not part of the suite that runs.",
 ["src/nimble_vector_communicator.h", "src/nimble.mpi.reduction.cc", "src/nimble.mpi.reduction_utils.cc", "src/nimble.mpi.rank_clique_reducer.h", "src/nimble_tpetra_utils.cc", "src/nimble_kokkos_model_data.cc", "src/integrators/explicit_time_integrator.cc", "src/nimble_data_utils.cc"],
 [("shared-node force and mass reduction", "src/nimble_vector_communicator.h"), ("per-rank file naming", "src/nimble_data_utils.cc")],
 ["Exodus output files of parallel and serial runs"])

prop("C05", "Prescribed motion and initial conditions are applied exactly where stated",
 "At every written step after the start of an explicit run, each node of a node set named in a prescribed-velocity or prescribed-displacement condition carries the prescribed component, evaluated from the condition's expression at that node's reference position and at the time the scheme applies it, and every initial-velocity condition is present in the initial velocity. Nodes and components that no condition names are left to the equations of motion, and when several conditions name the same component the one listed last governs.",
 ["inputs", "configurations"], "all node sets (by name or nodelist_<id>, overlapping, with or without distribution factors), components, expressions of x, y, z and t, and mixtures of conditions",
 "No test applies a boundary condition.",
 ["src/nimble_boundary_condition.cc", "src/nimble_boundary_condition_manager.h", "src/nimble_boundary_condition_manager.cc", "src/nimble_expression_parser.cc", "src/integrators/explicit_time_integrator.cc", "src/nimble_genesis_mesh.cc"],
 [("condition parsing and node-set lookup", "src/nimble_boundary_condition.cc"), ("kinematic condition application", "src/nimble_boundary_condition_manager.h")],
 ["Exodus output file of an explicit run"])

prop("C06", "Output is written on schedule and never disturbs the solution",
 "An explicit run writes the initial state, the first step and every output_frequency-th step after it, and the final step, once each and in order, with the time value of that step; a frequency of zero writes no steps after the initial state. Changing the output frequency, the requested output fields or their order changes only what is written, never the value of anything that is written in both runs.",
 ["configurations", "histories"], "all combinations of step count, output frequency, initial and final time, and output field lists",
 "No test writes an output file.",
 ["src/integrators/explicit_time_integrator.cc", "src/nimble_exodus_output.cc", "src/nimble_kokkos_model_data.cc", "src/nimble_data_manager.cc"],
 [("output step selection", "src/integrators/explicit_time_integrator.cc"), ("time step write", "src/nimble_exodus_output.cc")],
 ["Exodus output file"])

prop("C07", "The output database reproduces the input mesh exactly",
 "The Exodus file a run writes contains the mesh it read: same dimension, node coordinates, element blocks (ids, names, element type, order and connectivity), node and element global ids, and node sets (ids and members), per rank in parallel. Every requested field appears under its own component names with values for exactly the nodes, or for exactly the elements of the blocks, it is defined on.",
 ["inputs", "configurations"], "all meshes, including sparse ids, several blocks in any id order, unused nodes, node sets with or without distribution factors, and decomposed meshes",
 "No test writes or reads a mesh.",
 ["src/nimble_exodus_output.cc", "src/nimble_genesis_mesh.cc", "src/nimble_data_manager.cc"],
 [("database initialisation", "src/nimble_exodus_output.cc")],
 ["Exodus output file"])

prop("C08", "Element output agrees with the nodal motion",
 "In every written step, the deformation gradient and stress reported at each integration point are those of the element's own material evaluated at that point for the nodal displacements, the element volume is the current volume, and an element-averaged quantity is the current-volume-weighted mean of its integration-point values. This holds whether a quantity is requested as an average or at single integration points, in any order and for any mix of blocks.",
 ["inputs", "configurations"], "all meshes, deformations and output field lists",
 "No test evaluates derived output; each gold file fixes one field list.",
 ["src/nimble_kokkos_model_data.cc", "src/nimble_element.cc", "src/nimble_data_utils.cc", "src/nimble_kokkos_block_material_interface.cc", "src/nimble_material.cc"],
 [("volume averaging and output labelling", "src/nimble_kokkos_model_data.cc"), ("component ordering", "src/nimble_data_utils.cc")],
 ["Exodus output file"])

prop("C09", "The reported stable time step is right for every mesh",
 "An explicit run reports as its approximate maximum stable time step the smallest, over all elements, of the element's characteristic length (the smaller of its shortest node-to-node distance and the shortest edge of its axis-aligned bounding box) divided by the bulk wave speed sqrt(K/rho) of its own material, and warns exactly when the time step in use exceeds it. The value does not depend on where the mesh sits in space, on numbering, on block order or on how the mesh is split over ranks.",
 ["inputs", "configurations"], "all meshes, positions in space, materials, block orders, decompositions and requested step counts",
 "No test computes a critical time step.",
 ["src/nimble_element.cc", "src/nimble_kokkos_model_data.cc", "src/nimble_block_base.cc", "src/integrators/explicit_time_integrator.cc"],
 [("characteristic length", "src/nimble_element.cc"), ("block minimum", "src/nimble_block_base.cc"), ("report and warning", "src/integrators/explicit_time_integrator.cc")],
 ["standard output of an explicit run"])

prop("C10", "A mesh file is read faithfully",
 "Reading a genesis file yields exactly its content: coordinates, element blocks with their ids, names and connectivity in file order, node and element global ids, node sets and the elements of side sets with their ids, names and order, and distribution factors where the file has them, whatever the ids, sizes and optional parts. The text mesh format carries the same nodes, ids, blocks and node sets through a write and a read, and the bounding box and its centre are those of the mesh's nodes.",
 ["inputs"], "all valid genesis meshes: sparse or permuted ids, named or unnamed blocks and sets, empty sets, sets with and without distribution factors",
 "No test reads a mesh.",
 ["src/nimble_genesis_mesh.cc", "src/nimble_genesis_mesh.h", "src/nimble_exodus_output.cc", "src/nimble_mesh_utils.cc"],
 [("genesis reader", "src/nimble_genesis_mesh.cc"), ("text writer", "src/nimble_exodus_output.cc")],
 ["mesh accessors after reading"])

prop("C11", "An input deck means what it says, however it is laid out",
 "Every keyword of the input deck sets its own setting and no other, settings not given keep their documented defaults, and material, element block and boundary condition lines are kept complete and in order. Spacing, indentation, blank lines, comments and the order of independent lines do not change the meaning.",
 ["inputs"], "all well-formed decks: any keyword subset, order, spacing, comments, expressions, line lengths",
 "The suite never reads an input deck.",
 ["src/nimble_parser.cc", "src/nimble_parser.h", "src/nimble_parser_util.h", "src/nimble_material_factory_base.cc"],
 [("line reader and keyword dispatch", "src/nimble_parser.cc")],
 ["parsed settings"])

prop("C12", "Bad input ends in a diagnosed failure, not a crash, a hang or a result",
 "A command line, input deck or mesh that is missing, malformed or inconsistent (unknown keyword, unknown material or parameter, missing material property, unparsable expression, block without material, unreadable mesh) makes the program stop promptly with a nonzero exit status and a message. It never causes a memory error, an endless loop, or a successful exit as if the input had been valid.",
 ["inputs", "fault_sequences"], "all erroneous command lines, decks, expressions and mesh files",
 "Tests check one rejected material parameter.",
 ["src/nimble_cli.cc", "src/nimble.cc", "src/nimble_parser.cc", "src/nimble_boundary_condition.cc", "src/nimble_expression_parser.cc", "src/nimble_material_factory_base.cc", "src/nimble_material_factory.cc", "src/nimble_genesis_mesh.cc"],
 [("exception to exit-status mapping", "src/nimble.cc"), ("keyword and material validation", "src/nimble_parser.cc")],
 ["exit status and standard error of the program"])

prop("C13", "Expressions evaluate to their mathematical value",
 "An expression in a boundary condition evaluates, at every x, y, z, t, to the value ordinary mathematical rules give it: operator precedence and associativity, parentheses, unary minus, the documented functions and constants, comparisons, boolean operators and the conditional operator. Re-evaluating, evaluating at other points or copying the expression does not change the result, and simplification at parse time never changes a value.",
 ["inputs", "histories"], "all expressions of the documented grammar, all argument values, all sequences of evaluations and copies",
 "No test evaluates an expression.",
 ["src/nimble_expression_parser.cc", "src/nimble_expression_parser.h"],
 [("recursive-descent parser and constant folding", "src/nimble_expression_parser.cc"), ("evaluation tree", "src/nimble_expression_parser.h")],
 ["value returned by the expression function"])

prop("C14", "Any text given as an expression is handled safely",
 "Whatever text is given as an expression, it is either accepted and can then be evaluated and copied any number of times, or rejected with a catchable error; it never reads or writes outside its memory, never recurses or loops forever, and leaves later expressions unaffected.",
 ["inputs", "histories"], "all byte strings up to some thousands of characters, and all sequences of accepted and rejected expressions",
 "No test parses an expression, and memory safety over all strings is beyond samples.",
 ["src/nimble_expression_parser.cc", "src/nimble_expression_parser.h"],
 [("parser and arena", "src/nimble_expression_parser.cc")],
 ["sanitizer reports and exceptions"])

prop("C15", "Material laws return the stress of their constitutive model",
 "For every admissible deformation, the linear elastic law returns Hooke's stress of the small strain and the neo-Hookean law returns the Cauchy stress of its stored-energy function: zero at the undeformed state, symmetric, frame-indifferent (neo-Hookean), the derivative of one energy, and with Hooke's stiffness at small strain. The tangent each law reports is its documented stiffness, parameters act as bulk modulus, shear modulus and density, and every points-at-once interface returns the same stress as the single-point one.",
 ["inputs"], "all deformation gradients with positive determinant and all positive material constants; all batch sizes",
 "Tests evaluate one deformation for construction purposes.",
 ["src/nimble_material.cc", "src/nimble_material.h", "src/nimble_kokkos_material_factory.cc", "src/nimble_material_factory.cc", "src/nimble_kokkos_block_material_interface.cc"],
 [("stress update", "src/nimble_material.cc")],
 ["stress returned by the material models"])

prop("C16", "Element kernels integrate the hexahedron correctly",
 "For every hexahedron with positive Jacobian, the element's deformation gradients reproduce any linear displacement field exactly and match the isoparametric map in general, its nodal forces do exactly the work of the stress (and vanish in sum and moment for symmetric stress), its lumped masses are positive and add up to density times volume, its volume and volume averages are those of the 2x2x2 rule, and its characteristic length is the smaller of its shortest node-to-node distance and the shortest edge of its bounding box.",
 ["inputs"], "all element shapes with positive Jacobian, all displacement and stress fields, all positions in space",
 "No test calls an element kernel.",
 ["src/nimble_element.cc", "src/nimble_element.h", "src/nimble_block.cc", "src/nimble_block_base.cc"],
 [("shape functions and quadrature", "src/nimble_element.cc")],
 ["values returned by the element"])

prop("C17", "Tensor utilities satisfy their defining identities",
 "For every argument in their domain, the small-matrix utilities return what defines them: determinant and inverse, products and transposes, symmetric/skew parts, eigenvalues with orthonormal eigenvectors, polar factors (rotation times symmetric positive definite), logarithms, rotation logarithms and exponentials, and interpolated or combined values. They do so for repeated, nearly repeated, diagonal and badly scaled arguments, and when input and output share storage where the code does so.",
 ["inputs"], "all 3-vectors and 3x3 full and symmetric tensors in each function's domain",
 "One test inverts two matrices.",
 ["src/nimble_utils.h"],
 [("closed-form tensor kernels", "src/nimble_utils.h")],
 ["values returned"])

prop("C18", "Linear systems are assembled and solved correctly",
 "Matrix containers return for each entry what was stored there, zero or set whole rows and columns as asked, and multiply vectors accordingly; the sparsity pattern derived from a mesh contains exactly the pairs of unknowns sharing an element. When the conjugate-gradient or LU solver reports success the returned vector solves the system to its tolerance, and it succeeds on every well-conditioned system in its domain.",
 ["inputs", "histories"], "all sizes and sparsity patterns, symmetric positive definite (CG) or nonsingular (LU) matrices, right-hand sides and start vectors, and sequences of modifications",
 "No test builds or solves a linear system.",
 ["src/nimble_linear_solver.cc", "src/nimble_linear_solver.h", "src/nimble_utils.h", "src/nimble_mesh_utils.cc"],
 [("compressed-row container", "src/nimble_linear_solver.cc"), ("preconditioned CG", "src/nimble_linear_solver.cc"), ("LU", "src/nimble_utils.h")],
 ["matrix entries, products and solutions"])

prop("C19", "Shared-node reductions give every rank the global sum",
 "After a reduction of a nodal field, each rank holds for each of its nodes the sum, component by component, of the values contributed by all ranks that have a node with that global id, and values of unshared nodes are unchanged. This holds for any distribution of global ids over any number of ranks, scalar and vector fields, both reduction back ends, any number of repeated reductions, and field storage of any kind the interface accepts.",
 ["inputs", "configurations", "histories", "schedules"], "all distributions of ids that are distinct within a rank over all rank counts, field sizes 1 to 3, sequences of reductions, message timings",
 "All tests are single-process.",
 ["src/nimble_vector_communicator.h", "src/nimble.mpi.reduction.cc", "src/nimble.mpi.reduction.h", "src/nimble.mpi.reduction_utils.cc", "src/nimble.mpi.rank_clique_reducer.h", "src/nimble_tpetra_utils.cc", "src/nimble_tpetra_utils.h"],
 [("clique construction", "src/nimble.mpi.reduction.cc"), ("clique reduction", "src/nimble.mpi.rank_clique_reducer.h"), ("import/export", "src/nimble_tpetra_utils.cc")],
 ["field values after the reduction"])

prop("C20", "Data passed between ranks arrives complete and unchanged",
 "Packing any supported value or nesting of containers and unpacking it returns an equal value and consumes exactly what was packed, and the collective helpers (gather, scatter, broadcast, all-gather, concatenation) deliver to each rank exactly the data the others contributed, in rank order, including empty contributions.",
 ["inputs", "configurations"], "all values of the supported types, all rank counts, all contribution sizes including zero",
 "All tests are single-process and none packs data.",
 ["src/nimble.mpi.serialization.h", "src/nimble.mpi.mpicontext.h", "src/nimble.mpi.reduction_utils.cc"],
 [("pack/unpack templates", "src/nimble.mpi.serialization.h"), ("collective wrappers", "src/nimble.mpi.mpicontext.h")],
 ["values received"])

prop("C21", "The contact surface is exactly the outside of the contact blocks",
 "Contact set-up takes as contact surface exactly the element faces on the outside of the primary (for triangles) and secondary (for nodes) blocks: each outside face once, no face shared by two elements of those blocks, whatever the numbering, and in parallel no face shared with another rank's element. Each quadrilateral face becomes four outward-oriented triangles meeting at its centre that together cover it, every surface node of the secondary blocks becomes one contact node, and entity ids are unique over all ranks and reveal the face they came from.",
 ["inputs", "configurations"], "all meshes with fewer than 60 million elements and nodes, choices of primary and secondary blocks, and decompositions over ranks",
 "Tests use hand-made contact entities; no surface is ever created from a mesh.",
 ["src/nimble_contact_manager.cc", "src/nimble_contact_manager.h", "src/nimble_contact_entity.h"],
 [("skinning", "src/nimble_contact_manager.cc"), ("removal of faces shared between ranks", "src/nimble_contact_manager.cc")],
 ["contact entities after set-up"])

prop("C22", "Contact geometry follows the deforming bodies",
 "After every update, each contact face and node sits at the reference position plus current displacement of its mesh nodes (the centre node at their average), its bounding box contains it with the stated inflation, and serialising it for another rank and restoring it changes nothing.",
 ["inputs", "histories"], "all meshes and displacement histories",
 "Tests never move a contact entity.",
 ["src/nimble_contact_manager.cc", "src/nimble_contact_manager.h", "src/nimble_contact_entity.h", "src/nimble_contact_entity.cc"],
 [("apply displacements", "src/nimble_contact_manager.cc"), ("bounding boxes", "src/nimble_contact_entity.h")],
 ["contact entities after an update"])

prop("C23", "Closest-point projection returns the true closest point",
 "Projecting a node onto a triangular contact face returns the point of the triangle closest to the node, the signed gap along the face normal, barycentric coordinates that reproduce that point, and whether it lies inside, on an edge or at a vertex, for any non-degenerate triangle in any orientation, position and scale and any vertex ordering.",
 ["inputs"], "all non-degenerate triangles and all points",
 "Two tests use one triangle and a few points.",
 ["src/nimble_contact_manager.cc", "src/nimble_contact_manager.h"],
 [("projection", "src/nimble_contact_manager.cc")],
 ["projection result"])

prop("C24", "Contact forces obey action and reaction",
 "Whenever penalty contact acts between a node and a face, the force on the node is the penalty times the penetration along the face normal, the face's nodes receive exactly the opposite resultant with the same moment, and the forces arriving at the mesh nodes have zero resultant. No force acts without penetration, and contributions of several contacts add up.",
 ["inputs", "histories"], "all contact configurations, gaps and penalties, and all orders and repetitions of contacts",
 "Tests never compute a contact force.",
 ["src/nimble_contact_manager.cc", "src/nimble_contact_manager.h", "src/nimble_contact_interface.h", "src/nimble_contact_entity.h"],
 [("penalty enforcement", "src/nimble_contact_interface.h"), ("force scatter", "src/nimble_contact_entity.h")],
 ["nodal contact forces"])

prop("C25", "All evaluation paths of the same model agree",
 "The performance-portable and the plain evaluation paths compute the same lumped mass, critical time step, internal force, deformation gradient, stress and averaged output for the same mesh, material and displacement, to rounding. Views of one field through any accessor show the same data.",
 ["inputs", "configurations"], "all meshes, blocks, materials and displacement fields",
 "Only a shared material stress call is compared on one state.",
 ["src/nimble_kokkos_model_data.cc", "src/nimble_model_data.cc", "src/nimble_block.cc", "src/nimble_kokkos_block.cc", "src/nimble_view.h", "src/nimble_model_data_base.cc"],
 [("two model-data implementations", "src/nimble_model_data.cc")],
 ["nodal and element fields"])

prop("C26", "Runs are free of memory errors and undefined behaviour",
 "No valid run, serial or parallel, with any combination of materials, blocks, conditions, contact options and output fields, reads or writes outside its data, uses freed or uninitialised memory to produce results, or executes undefined arithmetic.",
 ["inputs", "configurations", "schedules"], "all valid decks, meshes and rank counts",
 "The suite runs uninstrumented and covers a small part of the code.",
 ["src"],
 [("container and view bounds throughout", "src")],
 ["sanitizer and memcheck reports"])

prop("C27", "Runs are repeatable bit for bit",
 "Running the same deck on the same mesh with the same number of ranks gives bit-identical results every time, whatever the initial content of memory, the environment or previous runs, and output files left by earlier runs do not influence it.",
 ["schedules", "configurations", "histories"], "all decks, meshes and rank counts; all memory contents and message timings",
 "Each test runs once and compares nothing between runs.",
 ["src/nimble.cc", "src/integrators/explicit_time_integrator.cc", "src/nimble_kokkos_model_data.cc", "src/nimble.mpi.rank_clique_reducer.h"],
 [("field initialisation", "src/nimble_kokkos_model_data.cc"), ("rank-ordered reduction", "src/nimble.mpi.rank_clique_reducer.h")],
 ["Exodus output files of repeated runs"])

prop("C28", "Quasi-static load steps end in equilibrium",
 "A quasi-static run that reports success has, at each written load step, internal forces that balance to the requested relative tolerance at every unconstrained unknown, and prescribed displacements attained exactly at constrained ones (for a prescribed velocity, the displacement at the start of the step plus the velocity times the step; where several conditions name the same component, the one listed last governs); its displacements are those of the static solution of the model. A step that does not converge ends the run with a failure status instead of writing it.",
 ["inputs", "configurations", "histories"], "all meshes, materials, displacement-controlled load histories and tolerances",
 "No test runs a quasi-static simulation.",
 ["src/integrators/quasistatic_time_integrator.cc", "src/nimble_block.cc", "src/nimble_linear_solver.cc", "src/nimble_boundary_condition_manager.cc", "src/nimble_data_manager.cc", "src/nimble.cc"],
 [("Newton iteration with line search", "src/integrators/quasistatic_time_integrator.cc")],
 ["Exodus output and exit status of a quasi-static run"])

prop("C29", "The tangent stiffness is the derivative of the internal force",
 "For every mesh and material, the assembled tangent stiffness of the undeformed state equals the derivative of the assembled internal force with respect to the displacements; in every state it is symmetric, without negative energy and has the rigid motions of the current shape in its null space. It has exactly the entries that pairs of nodes of one element need. Constraining an unknown clears its row and column, sets its diagonal entry and its right-hand side entry, and leaves everything else untouched.",
 ["inputs"], "all element shapes, meshes, materials and node numberings",
 "No test assembles a stiffness.",
 ["src/nimble_element.cc", "src/nimble_block.cc", "src/nimble_boundary_condition_manager.cc", "src/nimble_material.cc"],
 [("element tangent and assembly", "src/nimble_block.cc")],
 ["matrix entries"])

prop("C30", "Field labels map one-to-one to field components",
 "Component labels of scalars, vectors, symmetric and full tensors are distinct, in storage order, and converting labels to components, lengths and integration-point prefixes and back returns the original; a label without such a prefix is left alone. Registered fields (at nodes, elements or integration points) keep their identity, size and data while others are registered, a second registration under the same name and kind is the same field, and unknown names are reported as unknown.",
 ["inputs", "histories"], "all field names, kinds, dimensions, integration-point numbers and registration orders",
 "No test looks up a field or a label.",
 ["src/nimble_data_utils.cc", "src/nimble_data_utils.h", "src/nimble_model_data.cc", "src/nimble_kokkos_model_data.cc"],
 [("label utilities", "src/nimble_data_utils.cc"), ("field registry", "src/nimble_model_data.cc")],
 ["labels and field ids returned"])

prop("C31", "A run reads and writes exactly the files its deck names",
 "A run reads the mesh file its deck names (on N ranks, rank r reads that name followed by N and r, r padded with zeros to the digits of N) and writes its databases next to the name given for them, whatever directories and characters the names contain. It creates, changes and removes no other file, except that a deck asking for timing data gets one timing data file in the working directory, which holds the number of ranks and the times the run reports. A name that cannot be opened ends the run with a failure.",
 ["inputs", "configurations"], "all file and directory names, relative and absolute paths, and rank counts",
 "Tests use a handful of plain names in the working directory.",
 ["src/nimble_parser.cc", "src/nimble.cc", "src/integrators/explicit_time_integrator.cc", "src/nimble_genesis_mesh.cc", "src/nimble_exodus_output.cc"],
 [("file names from the deck", "src/nimble_parser.cc")],
 ["files on disk before and after a run, exit status"])
prop("C32", "An ensemble run gives each sample the trajectory of its own run",
 "In a build with uncertainty quantification, a run with --use_uq reads an ensemble of samples of the bulk and shear moduli of any of its materials. The nominal state it writes is that of a run without the ensemble; every exact sample has, at every written time and on any number of ranks, the displacement, velocity and internal force that a run of its own with that sample's moduli in the material parameters gives (same conditions, same schedule, nominal density), whether a material is used by one block or several and whether or not all materials are uncertain; every interpolated sample moves under the combination, with its coefficients, of the nominal and the exact samples' forces. Columns of the sample file belong to the uncertain parameters in the order of the deck. A sample file or uq line that is missing, incomplete or malformed ends the run with a message.",
 ["inputs", "histories", "configurations"], "all models, sample sets, interpolation coefficients and distributions over ranks, without contact; inputs that do not form an ensemble",
 "No test of the pinned build runs an ensemble; the one deck in the repository compares one ensemble with stored output.",
 ["src/uq/nimble_uq.cc", "src/uq/nimble_uq_model_data.cc", "src/uq/nimble_uq_block.cc", "src/nimble_boundary_condition_manager.h", "src/nimble_material.cc", "src/nimble_parser.cc"],
 [("reading and scaling of samples, interpolation", "src/uq/nimble_uq.cc"), ("forces and motion of the samples", "src/uq/nimble_uq_model_data.cc")],
 ["sample fields in the output database at every written time", "parameter_samples.dat", "exit status and messages"])

prop("C33", "A material of the application's own is handed its own past",
 "A material registered by an application (through its own material factory) is evaluated at every integration point with the times at the beginning and end of the step, the deformation gradient, stress and state variables that this same point had when the previous step ended, and its present deformation gradient; before the first step these are the identity, zero stress and the declared initial values of the state variables. The stress it returns is the one whose forces move the body, and stress and state variables it returns are the ones written as output and handed back in the next step. This holds beside other materials, for explicit runs on both evaluation paths and any number of ranks, and for quasi-static runs, where iterations within a load step leave the past untouched.",
 ["histories", "inputs", "configurations"], "all step histories, meshes, mixtures of materials, state variables, evaluation paths and rank counts",
 "Materials shipped with the program have neither memory nor state variables, so no test notices what past is handed on.",
 ["src/nimble_block.cc", "src/nimble_model_data.cc", "src/nimble_kokkos_block_material_interface.cc", "src/nimble_kokkos_model_data.cc", "src/integrators/quasistatic_time_integrator.cc", "src/integrators/explicit_time_integrator.cc", "src/nimble_material_factory_base.cc"],
 [("previous and present state of element data", "src/nimble_block.cc"), ("integration-point data on the portable path", "src/nimble_kokkos_model_data.cc")],
 ["displacements, forces, stresses and state variables in the output database"])

prop("C34", "Contact visualization shows the surface where it is and in its state",
 "With contact visualization on, every rank writes at each output time of the main database the contact surface as it then is: each quarter triangle of every outside face of the primary blocks and each outside node of the secondary blocks exactly once over all ranks, under ids unique over the ranks, with the present position of the mesh nodes it belongs to (face centres: the mean of the corners), the contact state the search gave it and, per rank, the number of triangles in contact.",
 ["inputs", "histories", "configurations"], "all meshes, block selections, motions, visualization options and distributions over ranks",
 "One test compares the initial state of one small mesh with a stored file; nothing looks at a moving surface, at contact states or at several ranks.",
 ["src/nimble_contact_manager.cc", "src/integrators/explicit_time_integrator.cc", "src/nimble_exodus_output.cc"],
 [("contact visualization", "src/nimble_contact_manager.cc")],
 ["visualization database of every rank beside the main output database"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
