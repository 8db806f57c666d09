prop("P01", "Configuration lookups return what the document and the overrides say",
     "Looking up a slash-separated path in a configuration (a mapping of nested mappings, lists and scalars) yields exactly the value stored there, converted to the requested type, or the given default when the path is absent; a missing required option, a value that does not convert to the requested type (a scalar to a list, a word to a number), an override that is not of the form key=value, and nothing else stop the program. Setting an option, in code or by command-line overrides (applied in the order given), changes that path, creates missing intermediate mappings, and leaves every other path as it was; lookups never change the configuration. Looking an entry up in a list of mappings by the value of a key finds the first entry with that value or reports that there is none.",
     "inputs histories", "For every configuration document, every path of existing and missing keys, every requested type and every sequence of settings, overrides and lookups.",
     "The parser test reads one fixed file with a handful of keys; it samples neither documents nor sequences of settings and lookups.",
     "include/input_parser.hpp src/input_parser.cpp", [("path search", "InputParser::FindNode, FindNodeFromDict"), ("option access", "InputParser::GetOption, GetRequiredOption, SetOption"), ("overrides", "InputParser::OverwriteOption"), ("list lookup", "InputParser::LookUpFromDict, GetOptionFromDict")],
     "stateful model-based histories of lookups, settings and overrides on generated documents, against a tree model", "Lookups that descend through a list, null or scalar are outside the domain, as is an empty document.")
prop("P02", "Parameter sampling covers exactly the requested range and names the files",
     "A sampled real, logarithmic or integer parameter with n samples takes value number i at the i-th of the n equally spaced (or equally spaced in logarithm) positions from minimum to maximum inclusive, integers at multiples of the spacing rounded down; random samples lie in the configured range, and a sampled value is stored in the configuration under the parameter's key. File-name parameters format the value by their format string, and formatted strings equal what printf would print, whatever their length.",
     "inputs configurations", "For every minimum, maximum, sample count and index, every key and format, and every random draw.",
     "The tests never check the values of a sampled parameter; workflow tests use one or two fixed grids.",
     "include/parameter.hpp src/parameter.cpp include/etc.hpp src/etc.cpp", [("grids", "Parameter::SetParam in DoubleParam, IntegerParam, FilenameParam"), ("random draws", "UniformRandom, SetRandomParam"), ("formatting", "string_format")],
     "generated parameter definitions against closed-form grids and range/format oracles", "Integer grids use the library's integer division of the range; that rounding is part of the oracle.")
prop("P03", "Data written to HDF5 or text files reads back identical",
     "Every kind of object that can be written to a file (scalars, strings, tags, arrays, vectors, dense and sparse matrices, tensors, block matrices, sample lists) reads back with the same shape and the same bits, whatever the target held before, whatever else is in the file, including empty arrays, empty rows, infinities and denormals. Reading and writing leave no object of the file open. Order and equality of basis tags are consistent with each other.",
     "inputs histories", "For every set of objects of any shape and content written to one file in any order and read in any order.",
     "The tests write and read one small object of some kinds; empty, ragged or special content and several objects per file are not sampled.",
     "include/hdf5_utils.hpp src/hdf5_utils.cpp src/linalg_utils.cpp", [("HDF5 input/output", "hdf5_utils::ReadDataset, WriteDataset, ReadAttribute, WriteAttribute"), ("sparse files", "hdf5_utils::ReadSparseMatrix, WriteSparseMatrix, PrintMatrix, PrintVector")],
     "round-trip of generated collections of objects with bit equality", "Uses the installed serial HDF5.")
prop("P04", "Projections, submatrix products and tensor contractions equal their definitions",
     "Projecting a sparse or dense operator onto left and right bases, multiplying by selected rows or columns of a matrix, and contracting a third-order tensor with vectors along any axes give, up to rounding, what the defining sums give, for any shapes, any row or column selection (repeated or out of order included) and any scaling; the adding variants add to what is there and leave the inputs alone.",
     "inputs", "For every operator, pair of bases, selection of indices, vector and scaling factor of compatible sizes.",
     "The tests use square matrices of one fixed size and one fixed seed; several of the routines are not tested at all.",
     "include/linalg_utils.hpp src/linalg_utils.cpp", [("projection", "RtAP, SparseRtAP, DenseRtAP"), ("submatrix products", "AddMultTransposeSubMatrix, AddSubMatrixRtAP and the like"), ("tensors", "TensorContract, TensorAddMultTranspose and the like")],
     "generated operands against triple-loop reference sums", "Rounding tolerance 1e-10 relative.")
prop("P05", "Orthonormalisation yields an orthonormal basis of the combined space",
     "Orthonormalising new vectors against a given orthonormal set returns columns that are mutually orthonormal and orthogonal to the given set, and that together with the given set span exactly the space the inputs span; the given set is unchanged.",
     "inputs", "For every given orthonormal set and every set of linearly independent new vectors, of any scale.",
     "The test orthonormalises one random matrix of one size.",
     "include/linalg_utils.hpp src/linalg_utils.cpp", [("Gram-Schmidt", "modifiedGramSchmidt, Orthonormalize")],
     "generated vector sets with checks of orthogonality and span", "Vectors are generated with a bounded condition number, so that the tolerances are sound.")
prop("P06", "Block matrices hold exactly what was put in each block",
     "Adding or setting a block of a block matrix changes exactly that block by exactly the given values, wherever the block is, in whatever order blocks are put in and however often; copies and assignments of block containers are independent of the original, and turning a container into one matrix places every block at its offsets.",
     "inputs histories", "For every block layout, every sequence of additions and settings, every copy and assignment.",
     "The tests build one fixed block matrix; copies and repeated additions are not exercised.",
     "include/linalg_utils.hpp src/linalg_utils.cpp include/hdf5_utils.hpp", [("block insertion", "AddToBlockMatrix, SetBlock"), ("containers", "MatrixBlocks")],
     "stateful histories of block operations against a dense model", "")
prop("P07", "Block smoothers apply the inverse of the operator's blocks",
     "A block Gauss-Seidel or Jacobi type smoother, whenever and however often its operator is given or replaced, applies exactly the sweep that its definition prescribes for the current operator, and an iterative solver preconditioned with it converges to the solution of the current system.",
     "inputs histories", "For every block-structured operator with invertible diagonal blocks, every right-hand side and initial guess, and every history of setting and replacing operators.",
     "The test solves one fixed system with each smoother.",
     "include/block_smoother.hpp src/block_smoother.cpp", [("sweeps", "BlockSmoother, BlockGSSmoother, BlockDSmoother")],
     "generated block systems and operator replacements against dense block sweeps", "")
prop("P08", "The residual minimiser returns a solution and reports truly",
     "Minimising the residual of an operator never ends with a larger residual than the initial guess has, reports success exactly when the residual it ends with meets the absolute or relative tolerance, and finds the solution of a well-conditioned, mildly nonlinear system given enough steps: from any initial guess, the solution itself included, and however often it is called or given another operator.",
     "inputs histories", "For every well-conditioned operator with increasing nonlinear part, right-hand side, initial guess, tolerances and history of calls.",
     "No test runs the minimiser.",
     "include/linalg_utils.hpp src/linalg_utils.cpp", [("conjugate gradients", "CGOptimizer::Mult"), ("line search", "CGOptimizer::Brent"), ("objective", "CGOptimizer::Objective, Gradient")],
     "generated histories of solves with an invariant on the residual and the reported success", "Initial guesses within rounding of a solution, closer than the tolerances, are outside the domain.")
prop("P10", "Splitting a mesh accounts for every element, boundary and shared face once",
     "Splitting a two-dimensional mesh by element attribute gives one subdomain per attribute (one in all when decomposition is off) that together hold every element once; every face between elements of two subdomains is listed exactly once, under the one port of that pair of subdomains, by the two boundary elements that coincide with it, and nothing else is listed. Every boundary element of a subdomain has the boundary attribute of the original mesh or the attribute of its port, port attributes are unique and exceed all original ones, and both sides of a shared face map the same face point to the same physical point.",
     "inputs configurations", "For every conforming 2D mesh of triangles and quadrilaterals, straight or curved, numbered in any way, with any assignment of attributes 1..n, refined or not, from memory or file.",
     "The tests compare one 4x4 square mesh with a hand-written answer.",
     "include/topology_handler.hpp src/topology_handler.cpp", [("decomposition", "SubMeshTopologyHandler"), ("boundary of a submesh", "BuildSubMeshBoundary2D"), ("interfaces", "BuildInterfaceInfos, FindParentInterfaceInfo"), ("transformations", "TopologyHandler::GetInterfaceTransformations")],
     "generated meshes and attribute assignments against a face census of the parent mesh", "3D meshes are left out: with the installed MFEM the 3D submesh boundary differs from the version the code is written for (its own test fails).")
prop("P11", "Component subdomains are placed as configured and joined face to face",
     "Every subdomain of a component-wise assembly is a copy of its component's mesh moved by its configured rotation and translation, and each configured port pairs every face of the two named sides with the face of the other side that coincides with it, exactly once, whatever the numbering and orientation of the component meshes; sides farther apart than the configured gap are refused. Both sides of every pair map the same face point to the same physical point, on the subdomains and on the reference components; names, counts and component types are those configured, and unused components and ports in the input are ignored.",
     "inputs configurations", "For every assembly in 2D and 3D of any component meshes (triangles, quadrilaterals, tetrahedra, hexahedra) with matching sides, any placement (in 2D any rotation), any order of components, ports and interfaces, and either source of the port definitions.",
     "The tests check one 2D assembly of identical unrotated squares; the 3D one only prints.",
     "include/component_topology_handler.hpp src/component_topology_handler.cpp src/topology_handler.cpp", [("placement", "SetupMeshes, mesh_config::Transform2D/3D"), ("port matching", "BuildPortDataFromInput"), ("orientation", "GetOrientation, SetupReferenceInterfaces, GetInterfaceTransformations"), ("configuration", "ReadComponentsFromFile, ReadPortsFromFile, ReadPortDict")],
     "generated component assemblies (random numbering, rotation, placement) against geometric coincidence", "Sides match vertex by vertex, as the library requires.")
prop("P12", "Boundary attributes of assembled subdomains are the configured global ones",
     "In a component-wise assembly every boundary element of a subdomain carries the global attribute configured for that subdomain and component attribute, or the attribute of the port it belongs to; port attributes are unique and collide with no global or component attribute, the list of global attributes is exactly the configured set, each subdomain's list of attributes in use is exact, and the components' own attributes stay as they were.",
     "inputs configurations", "For every assembly, every boundary table (in the main or in a separate file, in any order) and every numbering of component attributes.",
     "The tests use one boundary table where component and global numbers nearly coincide.",
     "src/component_topology_handler.cpp src/topology_handler.cpp", [("attribute map", "ReadBoundariesFromFile, ReadPortsFromFile, SetupBdrAttributes"), ("lists", "UpdateBdrAttributes")],
     "generated assemblies and boundary tables against a table model", "")
prop("P13", "Port files reproduce the ports they were written from",
     "Ports written to files by one run and read by another, one per file or many in one file, all or some of them, in any order and next to ports nobody asked for, are the same ports as when computed, also when the reading configuration lists the components in another order. No file stays open after an assembly is set up, so files can be read and written again.",
     "inputs histories", "For every assembly and every way of distributing its ports over files and input, over write, read, and rewrite runs.",
     "One test writes and reads three ports of one cube.",
     "src/component_topology_handler.cpp src/hdf5_utils.cpp", [("port files", "WritePortDataToFile, ReadPortDatasFromFile"), ("choice of source", "SetupReferencePorts")],
     "write/read histories over generated assemblies with structural equality", "")
prop("P14", "A mesh split in subdomains and the same assembly of components agree",
     "The same 2D geometry given once as one mesh split by attribute and once as component meshes put together yields the same subdomains, the same ports with the same shared faces, and boundaries of the same extent under the same global attributes.",
     "inputs configurations", "For every 2D assembly and every numbering of both representations.",
     "The tests compare a single uniform square in both representations.",
     "src/topology_handler.cpp src/component_topology_handler.cpp", [("decomposition", "SubMeshTopologyHandler"), ("assembly", "ComponentTopologyHandler")],
     "differential testing of the two representations on generated assemblies", "2D only, see P10.")
prop("P15", "Subdomain solutions transfer to the global mesh unchanged",
     "Transferring the fields of all subdomains to the global mesh gives, for every variable, a global field that equals the subdomain's field at every point of that subdomain.",
     "inputs", "For every 2D mesh and split, every number of variables, continuous (with consistent data) or discontinuous spaces of order 1 to 3, and either vector ordering.",
     "No test compares a transferred field with its source.",
     "src/topology_handler.cpp", [("transfer", "SubMeshTopologyHandler::TransferToGlobal")],
     "generated splits and fields, compared point by point", "")
prop("P16", "Saved ROM element matrices load into any assembly that uses those components",
     "Matrices of components, masses, boundaries and ports saved to a file load back identical into a run whose assembly uses the same components and ports in another order, or only some of them, each under its own component, boundary and port; empty blocks stay empty and no file stays open.",
     "inputs histories", "For every assembly, every content and sparsity of the matrices, variables separate or together, and every reading assembly made of components and ports of the writing one.",
     "The storage of element matrices is only exercised by tests that need libraries that are not installed; none reorders or drops components.",
     "include/rom_element_collection.hpp src/rom_element_collection.cpp src/hdf5_utils.cpp", [("storage", "ROMLinearElement::Save, Load")],
     "save/load histories over generated assemblies with structural equality", "")
prop("P20", "Interface terms of linear operators assemble the weak form they stand for",
     "Assembling an interface form over the interfaces of an assembly adds to each pair of subdomains' blocks exactly the face integrals of the interface penalty terms of diffusion, vector diffusion, elasticity and mixed normal flux (jumps, averages, penalty, material coefficients of both sides), with every shared face counted once for each of the four blocks, and touches no other block.",
     "inputs configurations", "For every 2D and 3D assembly, element order, discontinuous or continuous space, coefficient, penalty and integration rule.",
     "The tests compare two subdomains of one fixed square mesh with a single-mesh form at one set of parameters.",
     "include/interfaceinteg.hpp src/interfaceinteg.cpp include/interface_form.hpp src/interface_form.cpp", [("integrators", "InterfaceDGDiffusionIntegrator, InterfaceDGVectorDiffusionIntegrator, InterfaceDGElasticityIntegrator, InterfaceDGNormalFluxIntegrator :: AssembleInterfaceMatrix"), ("assembly", "InterfaceForm::AssembleInterfaceMatrices, MixedInterfaceForm::AssembleInterfaceMatrices")],
     "generated assemblies, spaces and coefficients against independently written face integrals", "Straight interface faces; interface faces are curved in no input of the library.")
prop("P21", "Nonlinear interface fluxes and their gradients are consistent",
     "The interface contribution of the convective flux terms (Temam, Lax-Friedrichs) to the residual equals the face integral of the flux with the states of both sides, on either orientation of the shared face and for any coefficient; the assembled gradient is the derivative of that residual in every one of the four blocks, and finite for every finite state, at rest included.",
     "inputs", "For every assembly, space, state and direction, every coefficient and integration rule.",
     "The tests compare the gradient with finite differences for one mesh and random states that are never at rest.",
     "include/interfaceinteg.hpp src/interfaceinteg.cpp src/interface_form.cpp", [("flux", "InterfaceDGTemamFluxIntegrator, DGLaxFriedrichsFluxIntegrator :: AssembleInterfaceVector"), ("gradient", "AssembleInterfaceGrad"), ("assembly", "InterfaceForm::InterfaceAddMult, InterfaceGetGradient")],
     "generated assemblies and states against independent integrals and against differences of the residual", "States where the upwind choice switches are excluded from the derivative check.")
prop("P23", "Interface matrices on a reference port equal those on every interface using it",
     "The interface matrix assembled on a reference port from the component meshes equals, block by block, what assembling the interface form over that port's interface in the assembly gives, wherever and however the components are placed.",
     "inputs configurations", "For every assembly of translated components, every space, integrator and port.",
     "No test compares a reference port with its uses on an assembly that is not a uniform square.",
     "src/interface_form.cpp src/component_topology_handler.cpp", [("reference ports", "InterfaceForm::AssembleInterfaceMatrixAtPort, MixedInterfaceForm::AssembleInterfaceMatrixAtPort"), ("transformations", "TopologyHandler::GetInterfaceTransformations")],
     "differential testing of reference and assembled matrices on generated assemblies", "Components are translated only, as vector operators of rotated components differ by the rotation.")
prop("P24", "Convective volume and face terms and their gradients are those of the weak form",
     "The convection, skew-symmetric (Temam) convection and inviscid flux terms on elements, and the Temam and Lax-Friedrichs flux terms on interior and boundary faces, assemble the residual that the weak form defines for any coefficient, given convecting velocity and quadrature rule; their gradients are the derivatives of those residuals, and states at rest give finite results.",
     "inputs", "For every mesh (2D, 3D), space, state, direction, coefficient and rule.",
     "The tests compare gradients with finite differences on a few random states, never the residual itself, and no given convecting velocity.",
     "include/nonlinear_integ.hpp src/nonlinear_integ.cpp include/hyperreduction_integ.hpp src/hyperreduction_integ.cpp src/interfaceinteg.cpp", [("elements", "TemamTrilinearFormIntegrator, VectorConvectionTrilinearFormIntegrator, IncompressibleInviscidFluxNLFIntegrator"), ("faces", "DGTemamFluxIntegrator, DGLaxFriedrichsFluxIntegrator")],
     "generated meshes and states against independent integrals and against differences of the residual", "")
prop("P25", "Sampled quadrature evaluations equal the full integrals they replace",
     "Evaluating a convection or flux integrator at chosen quadrature points with chosen weights gives exactly those points' share of the integral, so that all points with the rule's weights give the full element or face term; the precomputed fast variants, for any basis, any sample points and any sequence of states and elements, give the same residual and gradient as the direct ones projected on the basis. Sample sets written to a file read back the same.",
     "inputs histories", "For every mesh, space, basis, selection and weights of sample points, given rule, and order of evaluations.",
     "Only tests that need libraries that are not installed use these variants, on one mesh each.",
     "include/hyperreduction_integ.hpp src/hyperreduction_integ.cpp src/interfaceinteg.cpp", [("pointwise", "HyperReductionIntegrator::AssembleQuadratureVector, AssembleQuadratureGrad"), ("precomputed", "AppendPrecomputeDomainCoeffs, AppendPrecomputeInteriorFaceCoeffs, AppendPrecomputeBdrFaceCoeffs, AddAssembleVector_Fast, AddAssembleGrad_Fast"), ("sample sets", "EQPElement::Save, Load")],
     "generated bases, samples and histories of evaluations against direct assembly and independent integrals", "Sets are read into empty ones.")
prop("P26", "Boundary data enter the right-hand side as the weak form prescribes",
     "The linear forms for boundary data (Dirichlet data of vector problems, normal flux, normal stress, Temam flux) integrate the given function over exactly the marked boundary faces, with outward normals, penalty and coefficient, each at its own boundary position.",
     "inputs configurations", "For every mesh, space, marker set, data function, coefficient and rule.",
     "No test computes one of these forms by itself.",
     "include/dg_linear.hpp src/dg_linear.cpp", [("linear forms", "BoundaryNormalStressLFIntegrator, DGBoundaryNormalLFIntegrator, DGVectorDirichletLFIntegrator, DGBdrTemamLFIntegrator")],
     "generated meshes and data against independent boundary integrals", "Forms that the library never uses are left out, see DESIGN.md.")
prop("P27", "Face matrices of single-domain discontinuous operators equal the weak form",
     "The interior and boundary face matrices of the vector diffusion operator and of the mixed normal flux operator, and the mixed form that assembles them over interior and marked boundary faces, equal the face integrals of jumps and averages that define them.",
     "inputs configurations", "For every mesh, spaces, coefficient, penalty, marker set and rule.",
     "The tests use one fixed square mesh.",
     "include/dg_bilinear.hpp src/dg_bilinear.cpp include/dg_mixed_bilin.hpp src/dg_mixed_bilin.cpp", [("face matrices", "DGVectorDiffusionIntegrator::AssembleFaceMatrix, DGNormalFluxIntegrator::AssembleFaceMatrix"), ("assembly", "MixedBilinearFormDGExtension::Assemble")],
     "generated meshes and coefficients against independent face integrals", "")
prop("P37", "Problem parameters act by name and problem functions follow them",
     "Every parameterised problem has exactly the parameters it documents; setting one by name, by index, or through the single-run section of the configuration sets that one and no other, unknown names are refused, and a new problem starts from its documented defaults. Source, boundary, initial and material functions evaluate to the problem's formulae at the current parameters, in every component, and boundary attributes and types are the documented ones and follow the parameters they depend on (inflow and outflow sides, chosen boundary).",
     "inputs histories configurations", "For every problem, every history of settings, several problems at once, and every point and time.",
     "No test evaluates a problem function or checks the effect of a parameter by itself.",
     "include/parameterized_problem.hpp src/parameterized_problem.cpp", [("parameters", "ParameterizedProblem::SetParams, SetSingleRun, GetParamIndex"), ("boundary types", "PoissonComponent::SetBattr, FlowPastArray::SetBattr"), ("functions", "namespace function_factory")],
     "stateful histories of problem settings against a model of the parameters and closed-form functions", "")
prop("P38", "Mesh tools write the mesh that was asked for",
     "The mesh tools write a mesh of the requested box, cells, element type, order, refinement and periodicity whose element attributes number the requested equal parts by position and whose boundary attributes name the sides, under the given or the documented default file name, and refuse parts of unequal size. Converting a Gmsh file keeps every element, boundary element, attribute and position, in two and three dimensions.",
     "configurations", "For every combination of the tools' options.",
     "No test checks a generated mesh; one conversion is run when a test mesh is built.",
     "utils/rectangle_mesh.cpp utils/cubic_mesh.cpp utils/1d_mesh.cpp utils/gmsh2mfem.cpp", [("box meshes", "main in rectangle_mesh.cpp, cubic_mesh.cpp, 1d_mesh.cpp"), ("conversion", "main in gmsh2mfem.cpp")],
     "running the tools with generated options and checking the written mesh against the box it should be", "")

prop("P30", "Linear solvers reproduce exact solutions of their spaces on any decomposition",
     "Solving Poisson, linear elasticity, advection-diffusion or Stokes on a decomposed domain returns, in every subdomain, the exact solution whenever that solution lies in the finite element space and its data are given as boundary conditions and forcing: with discontinuous or continuous spaces, direct or iterative solvers, boundary functions given per attribute or for all, and for Stokes with the pressure fixed by an outlet or normalised to zero mean.",
     "configurations inputs", "For every decomposition (submesh or components, 2D and 3D), order, space, solver, coefficient and polynomial solution.",
     "The tests need libraries that are not installed, and measure convergence rates of one smooth solution on uniform square meshes.",
     "src/poisson_solver.cpp src/linelast_solver.cpp src/advdiff_solver.cpp src/stokes_solver.cpp src/multiblock_solver.cpp", [("solvers", "PoissonSolver, LinElastSolver, AdvDiffSolver, StokesSolver :: BuildOperators, SetupBCOperators, Assemble, Solve"), ("boundary data", "AddBCFunction, SetBdrType, SetupRHSBCOperators, SetupDomainBCOperators")],
     "patch tests: generated polynomial solutions on generated decompositions", "Quadrature of the code limits the degree of data in some cases (3D velocity data, see DESIGN.md). MUMPS is a stand-in.")
prop("P31", "The steady Navier-Stokes solver reproduces exact flows",
     "When the steady Navier-Stokes solver converges, the velocity and pressure it returns are the exact flow whenever that flow lies in the spaces: for either form of the convection term, discontinuous or continuous spaces, any viscosity and convection coefficient, with an outlet or with velocity data everywhere.",
     "configurations inputs", "For every decomposition, order, operator type, coefficient and polynomial flow.",
     "The tests need libraries that are not installed, and measure convergence rates of one smooth flow on uniform square meshes.",
     "src/steady_ns_solver.cpp src/stokes_solver.cpp", [("operator", "SteadyNSOperator::Mult, GetGradient"), ("solver", "SteadyNSSolver::BuildDomainOperators, SetupDomainBCOperators, Solve")],
     "patch tests: generated polynomial flows on generated decompositions", "Runs whose Newton iteration does not converge from its random start are discarded.")
prop("P32", "The division into subdomains does not change the solution",
     "With discontinuous spaces, solving a problem on a domain divided into subdomains gives the same fields as solving it on the undivided mesh, for any data and any mix of Dirichlet, Neumann and free boundaries: Poisson, elasticity, Stokes, steady and unsteady Navier-Stokes.",
     "configurations inputs", "For every decomposition (submesh or components, any shape of elements), order, data, coefficient and choice of boundary conditions.",
     "The tests never compare a decomposed with an undivided solve.",
     "src/multiblock_solver.cpp src/poisson_solver.cpp src/linelast_solver.cpp src/stokes_solver.cpp src/steady_ns_solver.cpp src/unsteady_ns_solver.cpp src/interface_form.cpp", [("interfaces", "InterfaceForm::AssembleInterfaceMatrices, InterfaceAddMult, InterfaceGetGradient"), ("assembly", "MultiBlockSolver, SetupInterfaceBCOperators, AssembleInterfaceMatrices")],
     "metamorphic testing: the same generated problem with and without the division", "")
prop("P39", "Unsteady runs keep steady flows and continue from their restart files",
     "Time stepping leaves an exact steady flow unchanged for every step size. A run writes its restart files at the requested steps, each with that step's number, time and solution, and a run restarted from any of them ends in the same state as the uninterrupted one, whatever else is saved or shown on the way.",
     "histories configurations", "For every decomposition, step size, number of steps, saving interval and restart step.",
     "The tests need libraries that are not installed, and none restarts a run.",
     "src/unsteady_ns_solver.cpp src/multiblock_solver.cpp", [("time stepping", "UnsteadyNSSolver::Step, InitializeTimeIntegration"), ("restart", "UnsteadyNSSolver::Solve, SetupInitialCondition, MultiBlockSolver::SaveSolutionWithTime, LoadSolutionWithTime")],
     "histories of interrupted and restarted runs against the uninterrupted one", "First-order time stepping is the only one the code accepts.")

prop("P40", "A reduced model whose basis spans the solutions reproduces the full-order model",
     "When the basis trained from samples contains the solutions, the reduced model returns the full-order solution: for problems linear in their parameters at any parameters, seen or not, and for steady and unsteady flow at the training parameters. This holds for operators assembled, saved and loaded per domain, per component or not at all, every reduced linear solver, preconditioner and ordering of blocks, one basis or one per variable with supremizers, and tensorial or sampled nonlinear terms; the error reported against a computed or loaded full-order solution is zero.",
     "configurations inputs", "For every decomposition, problem, boundary conditions, sample grid and model reduction options.",
     "The tests need libraries that are not installed, and cover one mesh and few options.",
     "src/main_workflow.cpp src/rom_handler.cpp src/multiblock_solver.cpp src/poisson_solver.cpp src/linelast_solver.cpp src/stokes_solver.cpp src/steady_ns_solver.cpp src/unsteady_ns_solver.cpp src/rom_nonlinearform.cpp src/rom_interfaceform.cpp src/rom_element_collection.cpp",
     [("workflow", "GenerateSamples, TrainROM, TrainEQP, BuildROM, SingleRun"), ("projection", "MFEMROMHandler::ProjectOperatorOnReducedBasis, ProjectToRefBasis, LiftUpGlobal, LoadReducedBasis"), ("reduced systems", "MFEMROMHandler::Solve, NonlinearSolve; AssembleROMMat; SolveROM"), ("sampled terms", "ROMNonlinearForm, ROMInterfaceForm :: TrainEQP, AddMult, GetGradient")],
     "metamorphic testing over generated workflows: sampled, trained, built, and run with and without reduction", "libROM is a stand-in. Nonlinear problems with several solutions are discarded. Operators built per component are compared only where components are not turned against each other (known finding).")

prop("P41", "Sampling collects every sample once, in order, under its own tag",
     "A sampling run solves the problem at every point of the requested grid of parameters, or at random parameters within their ranges, and keeps the solution of every subdomain as one column under the tag of its component (and variable), in the order of samples, time steps and subdomains; solution files and the recorded pairs of columns on either side of every kind of port belong to the same solutions. Gathering several runs, by tag or by port, from lists or formats of file names, concatenates them with columns still paired, and the trained basis of every tag spans its snapshots. Samples are numbered and divided among processes without gap or overlap, each process taking exactly its own, and the configuration is left as it was.",
     "configurations inputs histories", "For every grid of parameters, problem, decomposition, time sampling option and collection of runs.",
     "The tests that sample need libraries that are not installed, and none looks into the collected files.",
     "src/sample_generator.cpp src/random_sample_generator.cpp src/main_workflow.cpp src/multiblock_solver.cpp src/unsteady_ns_solver.cpp src/parameter.cpp",
     [("sampling", "GenerateSamples, SampleGenerator::SetParamSpaceSizes, SetSampleParams, SaveSnapshot, SaveSnapshotPorts, MultiBlockSolver::SaveSnapshots"), ("gathering", "CollectSamplesByBasis, CollectSamplesByPort, FindSnapshotFilesForBasis, SampleGenerator::CollectSnapshotsByBasis, CollectSnapshotsByPort, FormReducedBasis")],
     "generated sampling runs against separately solved samples and a model of the collection", "libROM is a stand-in.")
prop("P42", "Stored, sorted, shown and compared solutions are the computed ones",
     "A solution file reads back the saved solution, step and time exactly and one of another size or a missing one is refused; fields of variables and subdomains are the blocks of the solution, and sorting them by variable, or taking and putting one variable, moves each block to its place and back; comparing two solutions gives the relative L2 error of every variable; visualization writes exactly the chosen subdomains, or the undivided mesh, with each field and error at its own place; the basis of every component is shown vector by vector as the fields it stands for.",
     "inputs configurations", "For every decomposition, problem, order, space and solution.",
     "The tests save solutions without looking at them again.",
     "src/multiblock_solver.cpp src/topology_handler.cpp", [("files", "MultiBlockSolver::SaveSolution, LoadSolution, SaveSolutionWithTime, LoadSolutionWithTime"), ("blocks", "SortByVariables, SortBySubdomains, GetVariableVector, SetVariableVector, SetupBlocks"), ("comparison and display", "CompareSolution, ComputeRelativeError, InitVisualization, SaveVisualization, TransferToGlobal")],
     "round trips and independent integrals on generated solutions", "")
prop("P43", "Reduced nonlinear forms sum their samples; training reproduces full sums",
     "A hyper-reduced form returns, for every reduced state, the basis-projected sum of its integrators at the sampled quadrature points with the sampled weights, and its gradient is the derivative of that sum, for terms in elements, on inner, boundary and interface faces, evaluated directly or from precomputed shape values, with samples set, viewed, stored or loaded; with all points and the weights of the rule it is the projection of the full form. Training evaluates every snapshot against every basis vector at every point of the places the integrator acts on, and keeps points with positive weights whose sums match the full ones within the given tolerance.",
     "inputs histories", "For every mesh, space, basis, state, set of samples, sequence of evaluations, decomposition and snapshot set.",
     "The tests of these classes need libraries that are not installed, and compare against a few trained samples on fixed meshes.",
     "src/rom_nonlinearform.cpp src/rom_interfaceform.cpp src/hyperreduction_integ.cpp include/rom_nonlinearform.hpp include/rom_interfaceform.hpp",
     [("evaluation", "ROMNonlinearForm::Mult, GetGradient, ROMInterfaceForm::InterfaceAddMult, InterfaceGetGradient, PrecomputeCoefficients"), ("training", "TrainEQP, TrainEQPForRefPort, SetupEQPSystem, SetupEQPSystemForDomainIntegrator, SetupEQPSystemForInteriorFaceIntegrator, SetupEQPSystemForBdrFaceIntegrator"), ("storage", "SaveEQPForIntegrator, LoadEQPForIntegrator")],
     "generated forms and samples against pointwise sums of the definition", "libROM (and its non-negative least squares) is a stand-in.")

prop("P44", "A problem object sets up the solver as its data set directly would",
     "Handing a problem object to a solver gives the solution that setting the same data directly gives: every boundary the problem lists gets its homogeneous, prescribed or flux condition, in whatever order they are listed; -1 stands for all of them; attributes the mesh does not have are skipped; a later entry or a problem set again replaces the earlier one. Velocity data prescribed on every boundary of a flow problem are balanced by a uniform expansion added on the boundaries with data; unsteady problems start from the given state; advection uses the solved, saved or loaded flow.",
     "configurations inputs", "For every list of boundary conditions, functions, decomposition and order.",
     "The tests run shipped problems only, with libraries that are not installed.",
     "src/multiblock_solver.cpp src/poisson_solver.cpp src/linelast_solver.cpp src/stokes_solver.cpp src/steady_ns_solver.cpp src/unsteady_ns_solver.cpp src/advdiff_solver.cpp",
     [("conditions", "SetParameterizedProblem of every solver, MultiBlockSolver::SetBdrType, AddBCFunction, AddRHSFunction"), ("balance", "StokesSolver::SetComplementaryFlux, ComputeBEFlux, ComputeBEIntegral"), ("flow", "AdvDiffSolver::SetFlowAtSubdomain, GetFlowField, UnsteadyNSSolver::SetupInitialCondition")],
     "differential testing: the same generated problem as an object and as direct settings", "Evaluating a flow on a mesh equal to its own is interposed, MFEM 4.5.2 refuses it.")
