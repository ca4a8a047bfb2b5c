MEM = "src/main/MemoryMan/"
MAIN = "src/main/main/"

prop("P01", "Threads working on one loop never touch the same data",
     "When the program is built with threads, two iterations of the same parallel loop, and everything they call, never write the same memory location, nor does one read a location another writes, unless the access is inside a critical section or an atomic update. No parallel loop calls a library function that is not thread safe.",
     ["schedules", "configurations"], "every interleaving of the iterations of every parallel loop, for every pragma level the build can switch on, every number of threads and every grid",
     "The test suite is built without threads, so no test ever runs two iterations at once; a race shows only under particular interleavings.",
     ["src/main/main/sgrid_main.h", "src/utility/Coordinates/cartesianDerivs.c", "src/utility/GridIterators/wrappers_for_JacobiPrecon.c", "src/utility/Spectral/derivs.c", "src/main/main/variables.c"],
     [("parallel loop over points or lines", "src/utility/Spectral/derivs.c"), ("parallel build of matrix blocks", "src/utility/GridIterators/wrappers_for_JacobiPrecon.c"), ("list arithmetic", "src/main/main/variables.c")],
     "interprocedural race dataflow analysis over OpenMP-lowered compiler IR",
     "Every OpenMP region in four pragma configurations is analysed with all resolved callees. Assumes an address that is an injective function of the iteration index stays inside its element, that mixed-radix (div/mod) index triples are disjoint, and that external libraries are thread safe on distinct arguments.")

prop("P05", "Numeric and boolean forms of a parameter always match its text",
     "Whenever a parameter is read as an integer, a floating point number or a flag, the value returned is the one computed from the text the parameter holds at that moment, however that text was last set: declared default, parameter file, command line, checkpoint, or a change made while running. A number the program stores in a parameter is the very number that is read back.",
     ["histories"], "every sequence of declarations, reads, file and checkpoint loads and changes of parameters",
     "Tests read a few parameters after start-up; no test changes a parameter through every write path and then reads every form of it.",
     ["src/main/main/parameters.c", "src/utility/checkpoint/checkpoint_read.c"],
     [("parameter table", "src/main/main/parameters.c"), ("cached reads", "src/main/main/parameters.c GetCachedNumValByParIndex")],
     "interprocedural must-follow dataflow analysis and slices of returned values over compiler IR",
     "Every store into, or through, a parameter's text is an obligation; the recomputation has to follow on every path. Assumes parameter records are only reached through their declared type.",
     state=[("parameter record", "name, text, description and two cached forms of the text")])

prop("P06", "Every parameter the program needs is declared before it is needed",
     "Whenever any part of the program looks up a parameter in a way that stops the run if the parameter is unknown, that parameter has been declared at start-up, under conditions that hold whenever the lookup can run.",
     ["configurations", "inputs"], "every parameter file, i.e. every combination of modules and options that can lead to a lookup",
     "Tests run a few dozen parameter files; most physics modules and most option values are never run, and a misspelled name only stops the run that reaches it.",
     ["src/main/main/parameters.c", "src/physics/BSSN/sgrid_BSSN.c", "src/physics/Z4secondO/sgrid_Z4secondO.c", "src/utility/Coordinates/sgrid_Coordinates.c", "src/utility/checkpoint/sgrid_checkpoint.c"],
     [("declaration", "src/main/main/parameters.c AddPar"), ("fatal lookup", "src/main/main/parameters.c findparameter")],
     "string-valued abstract interpretation with must-hold guard contexts over compiler IR",
     "All name strings (also those built with formatted prints) are approximated by patterns and unified with declared patterns; lookups whose name is unknown text are counted but not judged.")

prop("P02", "Temporary memory and variable lists are released exactly once",
     "Every block of memory or variable list that a function obtains and keeps to itself (in its own variables, not inside another object, and not handed over to anything that outlives the call) is released exactly once on every path to its return, including early and failing returns. Nothing is used or released again after it was released.",
     ["inputs", "fault_sequences"], "every path through every function, including early returns, convergence in zero steps and missing files",
     "A leak, double release or use after release on a rarely taken return path changes no test's output and the tests run too briefly for memory to matter.",
     ["src/main/MemoryMan/", "src/utility/Iterators/", "src/utility/GridIterators/", "src/utility/checkpoint/", "src/utility/ODE/", "src/utility/LinAlg/"],
     [("lists", "src/main/MemoryMan/lists.c"), ("iterative solvers", "src/utility/Iterators/bicgstab.c")],
     "typestate analysis with interprocedural ownership summaries and branch correlation over compiler IR",
     "Ownership of a parameter is summarised (released, may be released, kept, borrowed); a block that is stored anywhere that outlives the call is not followed further. A failing exit of the whole program counts as release.")

prop("P07", "Every grid variable the program needs is declared before it is needed",
     "Whenever any part of the program looks up a grid variable in a way that stops the run if it is unknown, that variable has been declared at start-up under conditions that hold whenever the lookup can run. No variable name is declared twice with the same components by one module.",
     ["configurations", "inputs"], "every parameter file, i.e. every combination of modules and options that can lead to a lookup",
     "Tests run few of the physics modules and option values; a wrong or undeclared name only stops the run that reaches it.",
     ["src/main/main/variables.c", "src/physics/", "src/utility/Coordinates/", "src/utility/output/"],
     [("declaration", "src/main/main/variables.c AddVar"), ("fatal lookup", "src/main/main/variables.c Ind")],
     "string-valued abstract interpretation with must-hold guard contexts over compiler IR",
     "Names are approximated by patterns and unified with the declared names including the suffixes made from the declared index string; lookups whose name is unknown text are counted but not judged.")

prop("P12", "Text input and output use formats that fit the data and buffers",
     "Every formatted read or write receives exactly the arguments its format asks for, with matching types, for every format that can reach it. Every word read from text into a fixed buffer is limited to the size of that buffer.",
     ["inputs"], "every input file and every path to a formatted read or write, including error messages",
     "Most formatted prints sit in error paths and options no test runs, and a long word in an input file is not something a test supplies.",
     ["src/main/main/parameters.c", "src/utility/output/", "src/utility/checkpoint/", "src/physics/ModeComputer/"],
     [("formatted io", "src/main/main/utilities.c"), ("readers", "src/physics/ModeComputer/")],
     "format string abstract interpretation over compiler IR",
     "Formats are resolved through wrappers that forward a format; a format that is unknown text is counted but not judged. Only reads into buffers of known size are bounded.")

prop("P14", "Tensor index strings expand to the right components and symmetries",
     "Every tensor index string the program accepts expands to exactly the independent components of a tensor with those symmetries, in a fixed order, and every component carries the sign with which it changes under reflection of each coordinate. Every index string with which a grid variable is declared is accepted.",
     ["inputs", "configurations"], "every index string any module can declare, also of modules no test uses",
     "Tests use only scalars, vectors and a few symmetric tensors, and reflection signs are only visible on grids with symmetries.",
     ["src/main/main/tensors.c", "src/main/main/variables.c"],
     [("decoder", "src/main/main/tensors.c tensorindexlist")],
     "constant propagation over compiler IR compared with the components computed from the index symmetries",
     "The decoder is walked with constants only; a decoder rewritten so that its tables are no longer constants is reported as undecided, not as wrong.")

prop("P25", "The equations Newton's method linearises are those it solves",
     "For every nonlinear system handed to the Newton solver the linearised function is the derivative of the nonlinear one: at every grid point, for every state of the unknowns and every choice of options, each equation for the correction is the derivative of the corresponding nonlinear equation in the direction of the correction, and each boundary or interface condition imposed on the correction is the homogeneous linear form of the condition imposed on the unknowns. Evaluating either does not change the unknowns. Newton's method passes the residual, the correction and the linearised function to the linear solver in their places, a step subtracts lambda times the correction from every unknown at every point, and with a line search the step finally taken is the one whose residual was found to be smallest.",
     ["inputs", "configurations"], "every state of the fields, every correction, every point, every option of the systems in the tree",
     "Newton's method converges with a slightly wrong linearisation, only more slowly or from fewer starting points; the tests look at the solution it converges to, where wrong terms may vanish.",
     ["src/physics/Poisson/", "src/physics/Poisson2/", "src/physics/Poisson3/", "src/utility/GridIterators/Newton.c", "src/utility/boundary/BCs_from_bfaces.c"],
     [("nonlinear and linearised equations", "src/physics/Poisson3/Poisson3.c F_Poisson3, J_Poisson3"), ("shared conditions", "src/utility/boundary/BCs_from_bfaces.c"), ("the step", "src/utility/GridIterators/Newton.c")],
     "value numbering of dual numbers over inlined compiler IR; homogeneity analysis of the shared boundary conditions",
     "Values are the same when their numberings agree in a prime field. Derivative operators are taken as linear (other properties follow them). In conditions that both functions share only the degree in the unknown and the dependence on the linear/nonlinear flag are decided, which is all that distinguishes the two.")

prop("P27", "Interface and boundary conditions connect the same field at the same point",
     "The condition an elliptic solve imposes where two boxes meet is the difference of the same field (or of the normal components of its gradient, with the outward unit normal of the face) on the two sides at the same physical point: it is set at all points of the face and nowhere else, the point in the other box is the one given by the coordinates, the plane or the index that belong to it, and each variable of a system gets the condition for itself with its own derivatives. On outer boundaries each unknown is compared with the boundary function at (x,y,z) of the point. Boundary conditions of an evolution do what the parameter 'boundary' says: radiative conditions are outgoing waves at the variable's speed towards its far limit, constant and excision conditions keep or shift the previous values, and the lists of boundary points hold the faces of the box they stand for, all of them.",
     ["inputs", "configurations"], "every pair of touching faces, every combination of face flags and boundary options, every field and every point",
     "Tests run a few grids, mostly with points that coincide and with smooth solutions for which a value taken at the wrong point or from the wrong derivative is hidden by the tolerance; evolution boundaries, planes with different points and excision are hardly run at all.",
     ["src/utility/boundary/", "src/physics/Poisson3/Poisson3_BCs.c"],
     [("interface conditions and normals", "src/utility/boundary/BCs_from_bfaces.c"), ("dispatch and point lists", "src/utility/boundary/boundary.c"), ("radiative", "src/utility/boundary/radiative.c"), ("excision, derivatives", "src/utility/boundary/excision.c, BCs.c"), ("a system of equations", "src/physics/Poisson3/Poisson3_BCs.c")],
     "value numbering of inlined compiler IR with the two boxes, the two faces and their point lists as separate memories; comparison with the conditions for every combination of flags",
     "Spectral interpolation and the differentiation operators are taken as exact here (other properties follow them). How the faces and their flags are found when a grid is set up is not part of this check. Faces matched along a line are refused by the code at run time.")

prop("P29", "Files and directories are tested before use and closed exactly once",
     "Every stream or directory that is opened is tested before it is used, so a file that cannot be opened is reported instead of crashing the run. It is closed exactly once on every path, or handed over to something that closes it, and never used after that.",
     ["inputs", "fault_sequences"], "every path through every function that opens a file or directory, including missing files and unwritable directories",
     "Tests run where every file can be opened, and a handle leaked once per output only matters after many thousand outputs.",
     ["src/main/main/utilities.c", "src/utility/output/", "src/utility/checkpoint/", "src/main/main/parameters.c"],
     [("open with message", "src/main/main/utilities.c fopen1"), ("output", "src/utility/output/")],
     "typestate analysis with interprocedural ownership summaries and branch correlation over compiler IR",
     "A handle stored in something that outlives the call is not followed further.")

prop("P08", "Checkpoints are written losslessly and read back to where they came from",
     "Everything a checkpoint holds (time, iteration, parameters, and the data of every variable to be saved in every box) is written with all its digits under the label under which the reader looks for it, in the order in which the reader looks for it. The reader puts each value back into the field, variable and box it was written from, with the number of values announced in front of the data. No box, parameter or variable with memory is left out.",
     ["inputs", "configurations"], "every grid, every set of variables and parameters and every value they hold",
     "No test in the suite restarts from a checkpoint; a value that loses its last digits or lands in a neighbouring variable only shows in a long restarted run.",
     ["src/utility/checkpoint/checkpoint_write.c", "src/utility/checkpoint/checkpoint_read.c"],
     [("writer", "src/utility/checkpoint/checkpoint_write.c checkpoint_write_local"), ("reader", "src/utility/checkpoint/checkpoint_read.c checkpoint_read_Vars_local")],
     "symbolic access-path dataflow matching of inlined writer and reader compiler IR",
     "Writer and reader are compared after inlining; values whose origin cannot be named are counted but not judged. The text of parameters is assumed to be free of newlines.")

prop("P09", "Only a completely written checkpoint replaces the previous one",
     "While a checkpoint is written the previous one stays untouched: the new data go to a file of another name, which is moved over the old one only after every write, and the final writing out of buffered data, is known to have succeeded. A checkpoint file that ends in the middle of its header, of a label or of the data of a variable stops the run instead of being continued from.",
     ["fault_sequences", "crash_points"], "a failure at any write, at the final flush or at any read, and a stop of the program at any point while the checkpoint is written",
     "Tests never run out of disk space and are never interrupted while writing.",
     ["src/utility/checkpoint/checkpoint_write.c", "src/utility/checkpoint/checkpoint_read.c", "src/main/main/utilities.c"],
     [("replacement", "src/utility/checkpoint/checkpoint_write.c checkpoint_write"), ("reader", "src/utility/checkpoint/checkpoint_read.c")],
     "path-sensitive fault propagation dataflow over inlined compiler IR",
     "Two faults (visible at once, visible when the buffer is written out) are followed from every write, one from every read. Loss of data inside the operating system after a successful close is outside.")

prop("P24", "Physics kernels compute the tensor equations they are generated from",
     "Each physics kernel that is generated from a tensor equation file next to it (right hand sides, constraints, initial data, algebraic constraints) stores, at every grid point and for every combination of its options, into each component exactly the value those equations give. Each derivative it uses is the derivative of the variable the equations name, and every point of the box is covered.",
     ["inputs", "configurations"], "every value of every field at every point, every path of options through each kernel",
     "Tests run one-dimensional data with one set of options; a wrong coefficient or component in a term that vanishes there changes no test output.",
     ["src/physics/BSSN/", "src/physics/Z4secondO/", "src/physics/ADMvars/", "src/physics/SingleBH/"],
     [("evolution equations", "src/physics/BSSN/BSSN_rhs.c"), ("constraints", "src/physics/ADMvars/ADMconstraints.c")],
     "algebraic value numbering of compiler IR compared with the tensor equations next to each kernel",
     "Two values are the same when their numberings agree in a prime field; different values agree with probability below 1e-15. The equation file is the specification. Normalisations used only to print relative constraint violations are accepted in every reading of an ambiguous index symmetry.")

prop("P16", "Derivatives of a coordinate transformation belong to the transformation",
     "For every choice of box coordinates, every function installed as a first or second derivative of the transformation (dX/dx, dx/dX, ddX/dxdx) is the derivative of the installed map from box coordinates to Cartesian coordinates at every regular point, and an installed inverse of a cubed sphere maps each point back to where it came from. The same holds for every function that returns a map together with its derivatives, for the derivatives of the complex functions used by them, and for the angles and the radius of cubed spheres. A surface and its derivatives are looked up at the same place.",
     ["inputs", "configurations"], "every regular point of every box for every choice of coordinates and every shape of its surfaces",
     "Tests sample some of the coordinate choices at the points of one grid with one surface; a wrong term of another choice, or one that vanishes there, changes no test output.",
     ["src/utility/Coordinates/Coordinates.c", "src/utility/Coordinates/Coordinates_AnsorgNS.c", "src/utility/Coordinates/coordtrans_CubedSphere.c", "src/utility/Coordinates/coordtrans_AnsorgNS0.c", "src/utility/Coordinates/ComplexFunctions.c"],
     [("installation", "src/utility/Coordinates/Coordinates.c init_CoordTransform_And_Derivs"), ("cubed spheres", "src/utility/Coordinates/coordtrans_CubedSphere.c"), ("two stars", "src/utility/Coordinates/Coordinates_AnsorgNS.c")],
     "algebraic value numbering of truncated Taylor series over inlined compiler IR",
     "Values are the same when their numberings agree in a prime field; different values agree with probability below 1e-20. Assumes regular points inside the domain, surface derivatives that belong to the stored surface, a surface of two-star coordinates that does not depend on phi on the axis, and the default Coordinates_AnsorgNS_Bshift=no.")

prop("P17", "Cartesian derivatives obey the chain rule",
     "First and second Cartesian derivatives of a field are, at every point of a box, what the chain rule gives from its derivatives along the box coordinates and the coordinate transformation of the box, whether the transformation is absent, computed, stored, or stored in part. Stored transformations hold, component by component, the function their name says, and are looked up under that name; transformations obtained numerically from x,y,z are the inverse derivatives. The conversions between derivative matrices fulfil their definitions. Derivatives of scalars, vectors and symmetric tensors put each derivative of each component in its own place, and the variables they are stored in are declared with the components in that order.",
     ["inputs", "configurations"], "every field, every point, every transformation and every combination of stored and computed transformations",
     "The tests differentiate a few functions in a few coordinates, always with the default choice of stored transformations, and never as vector or tensor with second derivatives.",
     ["src/utility/Coordinates/cartesianDerivs.c", "src/utility/Coordinates/transfDerivs.c", "src/utility/Coordinates/Coordinates.c"],
     [("chain rule", "src/utility/Coordinates/cartesianDerivs.c cart_partial_all"), ("stored transformations", "src/utility/Coordinates/Coordinates.c compute_xyz_dXYZdxyz_ddXYZddxyz"), ("matrices", "src/utility/Coordinates/transfDerivs.c")],
     "algebraic value numbering of inlined compiler IR against the chain rule, with arrays labelled by what they hold",
     "The functions of the transformation are taken as given (P16 decides them), likewise the derivatives along the box coordinates. Points at which the transformation is singular are outside; only the arrays given to the functions for them are checked.")

prop("P22", "Spectral operations act along the direction they are asked for",
     "Each spectral operation on a box (transformation to coefficients and back, in the box and in a plane, first and second derivatives one by one and all at once, filter, indefinite integral, interpolation, integrals over a direction, a surface and the volume) acts on every line of the box along the direction it is asked for, with the number of points, the interval, the matrices and the basis functions of that direction, stores each line where it was taken from, leaves its input as it was, and puts each result into the argument that stands for it, for every order of second derivatives and every kind of transform. Lines, matrix products and sums over coefficients leave out no index. Integrals over surfaces and volumes contain the element of the surface or volume. The functions of a basis belong to that basis, those of a direction to that direction, and when a grid is set up each box gets the interval, the points, the functions and all matrices of each direction, from the parameters of that direction.",
     ["inputs", "configurations"], "every field, number of points, interval, direction, basis, transform, order of derivatives",
     "The tests mostly use boxes with the same number of points, the same interval and the same basis in all directions, or differentiate functions of one coordinate, so an index, interval or matrix of another direction gives the same result; integrals, planes, filters and the fast transforms are not tested at all.",
     ["src/utility/Spectral/derivs.c", "src/utility/Spectral/spec_coeffs.c", "src/utility/Spectral/interpolate.c", "src/utility/Spectral/integrals.c", "src/utility/Spectral/filters.c", "src/utility/Spectral/diffmatrices.c", "src/utility/Spectral/matrices.c", "src/main/MemoryMan/grid.c"],
     [("derivatives", "src/utility/Spectral/derivs.c spec_allDerivs"), ("transformations", "src/utility/Spectral/spec_coeffs.c spec_analysis1"), ("lines", "src/utility/Spectral/derivs.c get_memline"), ("set-up", "src/main/MemoryMan/grid.c set_BoxStructures_fromPars")],
     "abstract interpretation of inlined compiler IR over arrays labelled by what they hold; sums and values by algebraic value numbering",
     "What the one-dimensional functions compute is taken from their names. Arguments that overlap are outside, except for the functions that are used in place. Loops and sums in a form the analysis does not know are reported as undecided, not as violations.")

prop("P15", "Time integrators have the order they are chosen for",
     "For every evolution method that can be chosen (icn, euler, each Runge-Kutta name), one step turns the state u at time t into a state at t + dt that agrees with the solution to the order of the method, for every right-hand side, also one that depends on time: the stages fulfil the order conditions and are evaluated at their own times. The algebraic conditions are applied to the result, with the old state as reference. Every variable list a step works on exists and has memory, in the first step of a run, after a restart and in later steps, and the right-hand side is never computed into the list it is computed from. Sums, copies, averages and swaps of variable lists give their result for every variable, box, point and for the time, also if the result is one of the operands.",
     ["inputs", "configurations", "histories"], "every right-hand side, step size, state and coefficient, every method, each kind of step of a run",
     "The tests integrate one autonomous equation with one method; a wrong coefficient of another method, or a stage at the wrong time, still gives plausible numbers.",
     ["src/utility/evolve/rk.c", "src/utility/evolve/icn.c", "src/utility/evolve/evolve.c", "src/main/main/variables.c"],
     [("step", "src/utility/evolve/evolve.c evolve"), ("Runge-Kutta", "src/utility/evolve/rk.c"), ("list operations", "src/main/main/variables.c vladd")],
     "algebraic value numbering of inlined compiler IR with variable lists as linear combinations; order conditions by rooted trees",
     "The registered right-hand side is assumed to return f(ucur) for c=0 and upre+c f(ucur) otherwise, and the method not to change within a run. Values are compared in a prime field.")

prop("P32", "A name finds its entry; an option is on if and only if it is a word of the text",
     "Looking up a parameter or a grid variable by name finds the entry with exactly that name, wherever it is in the table and wherever the search is told to start, and reports that there is none only if no entry has that name; the index a variable is found at is the one its data are stored under. Asking whether an option is chosen says yes exactly if the option is one of the words, separated by spaces, of the parameter's text, no matter which other words contain it. Declaring a parameter that is already set leaves its text alone.",
     ["inputs", "histories"], "every table, every name, every starting position and every text of a parameter",
     "Tests use a few names at a few places of the tables, none of them with a search that starts elsewhere, and hardly any option that is a part of another word in the same list.",
     ["src/main/main/parameters.c", "src/main/main/variables.c"],
     [("parameters", "src/main/main/parameters.c findparameterindex, findparameter, GetvFlag, makeparameter"), ("variables", "src/main/main/variables.c IndLax, Ind, AddVar")],
     "interval analysis of search loops and abstract interpretation of the word test over compiler IR",
     "The word test is interpreted with strstr as the way occurrences are found; written in another way it is reported as not decided.")
