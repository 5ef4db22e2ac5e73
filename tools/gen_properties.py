#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand; the committed file is what counts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}})

LA = "src/LinearAlgebra/"
FC = "src/FEM/Controller/"
FE = "src/FEM/Equation/"
PP = "src/PrePost/"
OP = "src/Optimize/"

prop("P01", "Dense vectors and matrices are values that obey linear algebra",
 "Every operation on dense vectors and matrices (construction, copy, assignment, sums, scalings, products, transpose, dot/cross product, norm, stacking, sub-blocks, printing) gives the mathematically defined result for every shape, leaves its operands unchanged unless it is a compound assignment, and stays right when operands alias. Copies are independent, and any sequence of constructing, assigning (also over empty and default-constructed objects), using and destroying objects touches only memory it owns and releases all of it.",
 ["inputs", "histories"], "all sizes (including empty), all values, all sequences of operations on a pool of objects, aliased operands included",
 "The only dense-algebra test prints a few 3x3 results and compares nothing; no test covers aliasing, empty objects, assignment histories or non-square shapes.",
 [LA + "Models/Vector.h", LA + "Models/Matrix.h"], [("Vector / Matrix arithmetic, copy constructor, assignment, destructor", LA + "Models/Vector.h, Matrix.h")],
 ["results of the public operators", "heap (sanitizer, allocation balance)"])

prop("P02", "Determinant, inverse and cofactors are exact inverses of each other",
 "For every square matrix the determinant equals the one of exact elimination, is multiplicative, invariant under transposition and changes sign under a row swap; for every non-singular matrix, multiplying by the computed inverse from either side gives the identity, and deleting a row and a column yields exactly the remaining entries in order. These hold up to rounding proportional to the conditioning.",
 ["inputs"], "all square matrices of order 1 to 6 with well separated conditioning, all row/column choices",
 "Element routines call them on 2x2 and 3x3 Jacobians of a few regular meshes only; orders above 3 and unsymmetric patterns are hardly reached.",
 [LA + "Models/Matrix.h"], [("Determinant, Inverse, Cofactor", LA + "Models/Matrix.h")], ["return values"])

prop("P03", "Sparse matrices act as the matrix their writes describe",
 "After any sequence of writes, a sparse matrix (row-compressed or list-of-lists) reports for every position the last value written there and zero elsewhere, and its products with vectors, its sums, differences and scalings by a number, and the conversion from the list form to the compressed form, equal those of the dense matrix with the same entries. Reading and multiplying never change the matrix, and copies are independent of the original.",
 ["inputs", "histories"], "all write/read/copy/convert/arithmetic histories over all shapes, orders of insertion and overwrites",
 "The samples only ever fill a matrix by assembly and multiply it inside a solver; overwrite orders, rectangular shapes, unsorted insertion, empty rows and the arithmetic operators are not asserted anywhere.",
 [LA + "Models/CSR.h", LA + "Models/LILCSR.h"], [("sorted insertion into the row lists", LA + "Models/CSR.h set/get"), ("list-of-lists and conversion", LA + "Models/LILCSR.h")], ["get, operator*, operator+/-, conversion constructors"])

prop("P04", "Results do not depend on the number of threads",
 "Sparse matrix-vector products give the same result (to rounding) whatever the number of threads, however the work is scheduled, in chains under changing thread counts and when several threads multiply by the same matrix at once; the iterative solvers built on them reach the same solution for every thread count. No run with several threads loses, duplicates or corrupts a contribution.",
 ["schedules", "inputs"], "all thread counts from 1 to twice the cores, all schedules the runtime picks, all matrices and vectors",
 "The whole test suite is run with one thread.",
 [LA + "Models/CSR.h", LA + "Models/LILCSR.h", LA + "Solvers/CG.h"], [("OpenMP row loop of the sparse product and of the vector kernels", LA + "Models/CSR.h, Solvers/CG.h")], ["product and solution vectors for different thread counts"])

prop("P05", "Iterative solvers return a solution or say that they failed",
 "Whenever a Krylov solver or the relaxation solver ends without reporting failure, the returned vector satisfies the linear system to about the requested relative accuracy (for symmetric, also indefinite, and for diagonally dominant unsymmetric systems). On well conditioned systems of the class it is meant for (symmetric positive definite for conjugate gradients, symmetric positive definite or diagonally dominant for the bi-conjugate family and its scaled variants) it does converge, within a small multiple of the order, for any right-hand side including zero; for a symmetric matrix with few different eigenvalues within about that many iterations. Conjugate gradients stopped early have the smallest error in the energy norm that so many matrix products allow, the stabilised bi-conjugate solvers the iterate that defines their method, and k relaxation sweeps the iterate of k sweeps in order. The inputs are not modified.",
 ["inputs", "configurations"], "all well conditioned SPD / unsymmetric diagonally dominant / FEM matrices, right-hand sides and tolerances, every solver",
 "The solver test runs one 3x3 system and checks nothing; samples exercise one or two matrices per solver.",
 [LA + "Solvers/CG.h"], [("CG, BiCGSTAB, BiCGSTAB2, SOR and their residual test", LA + "Solvers/CG.h")], ["returned vector, text on standard output"])

prop("P06", "Preconditioning changes the path, never the solution",
 "Every preconditioned solver (diagonal scaling, incomplete factorisation, symmetric relaxation) gives the solution of the original system, the same as a direct solve, and stopped early the iterate of the unpreconditioned method on the preconditioned system; the incomplete factorisation without fill reproduces the matrix on its own sparsity pattern, has no entry outside it, and is an exact factorisation when elimination creates no fill. Forward and backward substitution solve the triangular systems exactly, and diagonal scaling extracts and applies the diagonal.",
 ["inputs"], "all diagonally dominant or SPD sparse matrices with any pattern that contains the diagonal",
 "Preconditioners are used by two samples on regular meshes; the factorisation itself is never compared with anything.",
 [LA + "Solvers/CG.h"], [("incomplete LU, scaling, preconditioned CG and BiCGSTAB", LA + "Solvers/CG.h")], ["returned vectors and factors"])

prop("P07", "LU factorisation with pivoting solves every regular dense system",
 "For every non-singular dense matrix, including ones with zero or tiny diagonal entries that need row exchanges, factorising and solving returns the solution of the original system to rounding, and the recorded pivoting together with the triangular factors reproduces the original matrix.",
 ["inputs"], "all non-singular matrices of any order, permuted and badly scaled ones included, all right-hand sides",
 "One 3x3 system is run and printed; no pivoting case is asserted.",
 [LA + "Solvers/LU.h"], [("LU with partial pivoting", LA + "Solvers/LU.h")], ["solution vector, factors"])

prop("P08", "Lanczos routines return true eigenpairs",
 "Bisection finds the k-th smallest eigenvalue of any symmetric tridiagonal matrix, of any order and magnitude, and inverse iteration its normalised eigenvector. Each Lanczos routine (standard and generalised, plain and shifted-inverted with a shift below the spectrum, with and without restart) run to the full dimension returns all eigenpairs in ascending order, satisfying the (generalised) eigenvalue equation, with vectors orthonormal in the relevant inner product. The routines that reorthogonalise (Restart...) keep the vectors orthonormal to rounding over runs of any length, up to the full dimension of larger problems. With fewer steps the returned values are ascending Rayleigh-Ritz values inside the spectrum, belonging to orthonormal vectors, and the wanted end improves monotonically with the number of steps.",
 ["inputs", "configurations"], "all symmetric matrices (positive definite where an inverse is taken) with separated spectra, any subspace size and shift",
 "The tests run one fixed matrix and print the numbers.",
 [LA + "Solvers/Lanczos.h"], [("Lanczos iteration, bisection and inverse iteration on the tridiagonal matrix", LA + "Solvers/Lanczos.h")], ["eigenvalues, eigenvectors"])

prop("P09", "Shape functions interpolate: unity, nodal delta, exact derivatives",
 "For every element family (line, triangle, square, tetrahedron/cube, of all orders) the shape functions sum to one everywhere, each is one at its own node and zero at the others, the list of reference node positions has one entry per function, and the reported derivatives are the derivatives of the functions. Polynomials of the order of the family are reproduced exactly.",
 ["inputs"], "all points of the reference element, all families, all polynomials of the family's order",
 "Samples use three or four of the families through whole simulations at Gauss points only.",
 [FC + "ShapeFunction.h"], [("N, dNdr and Points of each family", FC + "ShapeFunction.h")], ["N(r), dNdr(r), Points"])

prop("P10", "Quadrature rules integrate polynomials exactly to their order",
 "Every integration rule has positive measure equal to the size of its reference domain, has as many points as weights inside the closed domain, and integrates every polynomial exactly up to the degree its point count is known for.",
 ["inputs"], "all rules, all polynomials up to the rule's degree",
 "Only the rules named by the samples run, and only on smooth integrands where a small error in a weight changes no digit that is compared.",
 [FC + "GaussIntegration.h", FC + "NewtonCotesIntegration.h"], [("Points and Weights tables", FC + "GaussIntegration.h, NewtonCotesIntegration.h")], ["weighted sums of monomials"])

prop("P11", "Assembly scatters every element entry once and only once",
 "For any mesh, any numbering of free, fixed and periodic degrees of freedom and any element matrices and vectors, the global matrix and vector are exactly the previous content plus the sum of the element contributions between free degrees of freedom, prescribed values move to the right-hand side with the right sign, point loads add up, and after solving every node receives its own component of the solution while fixed components keep their prescribed values. Degrees of freedom tied to a master share its equation (or its fixing), free ones get consecutive distinct equation numbers, removing conditions restores a map that can be numbered anew, and neither the order of the elements nor the choice of overload matters.",
 ["inputs", "histories"], "all meshes, mixed fields, orders of elements, sets of Dirichlet/Neumann/periodic conditions",
 "Samples assemble regular meshes with a handful of conditions; results are compared only as whole simulations, mostly with homogeneous Dirichlet data.",
 [FC + "Assembling.h", FC + "BoundaryCondition.h"], [("Assembling overloads, Disassembling", FC + "Assembling.h"), ("SetDirichlet, SetPeriodic, Renumbering, RemoveBoundaryConditions", FC + "BoundaryCondition.h")], ["global matrix/vector entries, node vectors"])

prop("P12", "Linear elastic elements: symmetric, rigid-motion free, exact for constant strain",
 "For every non-degenerate plane (3, 4, 6, 8 nodes) or solid (4, 8, 20 nodes) element, material and thickness, the linear elastic stiffness (plane strain, plane stress, general plane law, isotropic solid) is symmetric, positive semidefinite with only the rigid motions free of energy, gives the exact node forces of the constitutive law under any homogeneous strain, equals the integral of B^T D B by the chosen rule, and is linear in modulus and thickness, whatever the node numbers and degrees of freedom. The selective reduced and B-bar variants (isotropic or general law) give the volumetric energy by the one rule plus the deviatoric energy by the other and equal the full stiffness when both rules agree; the incompatible-mode variant is never stiffer than the compatible element, exact under homogeneous strain on parallelograms and in pure bending of rectangles.",
 ["inputs", "configurations"], "all element shapes, orders, distortions, orientations, Young's moduli, Poisson ratios and thicknesses, all variants",
 "The samples use rectangular elements, one material, thickness one.",
 [FE + "PlaneStrain.h", FE + "PlaneStress.h", FE + "Solid.h"], [("linear stiffness variants", FE + "PlaneStrain.h, PlaneStress.h, Solid.h")], ["element matrices and vectors"])

prop("P13", "Finite-deformation elements: consistent tangent and frame indifference",
 "For every admissible displacement field the tangent returned by the plane strain and solid, total and updated Lagrange elements is the derivative of the internal force they return, that force is the gradient of the stored energy of the material (Saint Venant-Kirchhoff for total Lagrange, logarithmic neo-Hookean for updated Lagrange), vanishes for any rigid motion including large rotations and turns with a superposed rotation; at zero displacement the tangent is the linear stiffness; both scale with the thickness.",
 ["inputs", "configurations"], "all element shapes, materials, displacement fields without element inversion, superposed rotations",
 "Two samples follow one load path of one cantilever; an inconsistent tangent still converges there and nothing checks objectivity.",
 [FE + "PlaneStrain.h", FE + "Solid.h"], [("total and updated Lagrange element routines", FE + "PlaneStrain.h, Solid.h")], ["element tangent and internal force"])

prop("P14", "Loads and masses preserve totals, moments and work",
 "Body forces, edge tractions and follower pressures of plane stress and plane strain are distributed to the nodes as the integral of the load with the shape functions, so constant loads keep exactly their total force and moment, and all are linear in load and thickness. A follower pressure acts along the normal of the displaced edge, its tangent is symmetric and on closed outlines minus the derivative of the force, and it exerts no net force or moment there. Mass matrices are symmetric, do not couple the directions, conserve total mass, centre of mass and momentum and give the exact kinetic energy of rigid motion.",
 ["inputs", "configurations"], "all element and edge/face shapes, orders, load fields, densities and thicknesses",
 "Samples apply one uniform load to one regular boundary; total force and moment are never checked.",
 [FE + "PlaneStrain.h", FE + "PlaneStress.h", FE + "Solid.h", FE + "Stokes.h", FE + "HeatTransfer.h"], [("body force, surface force, pressure and mass routines", FE + "*.h")], ["element vectors and matrices"])

prop("P15", "Heat, advection and reaction-diffusion operators conserve and reproduce",
 "The heat conduction, diffusion, advection, capacity, reaction-diffusion and boundary flux routines give exactly the weak-form integrals by the chosen rule on every element: conduction and diffusion matrices are symmetric, semidefinite, annihilate constants and give the exact fluxes of linear fields; capacity and mass matrices have the exact total, lumped ones diagonal with equal shares; advection is linear in the velocity and exact for linear fields; the streamline-upwind and shock-capturing matrices vanish on constants and on fields that do not vary along the stream, and use the documented stabilisation parameter on both sides of the Peclet switch; reaction and flux vectors carry exactly the prescribed totals. All are linear in their coefficients.",
 ["inputs", "configurations"], "all element shapes and orders, coefficients, velocity fields, source functions",
 "Samples use square elements and one coefficient set each; reaction-diffusion is not run at all.",
 [FE + "HeatTransfer.h", FE + "Advection.h", FE + "ReactionDiffusion.h"], [("element routines", FE + "HeatTransfer.h, Advection.h, ReactionDiffusion.h")], ["element matrices and vectors"])

prop("P16", "Flow elements: exact operators, consistent Newton tangent, discrete duality",
 "The Stokes matrix is symmetric, gives no force under rigid motion, exact tractions for linear flow with constant pressure, and its divergence rows are the transpose of its gradient columns. The Navier-Stokes Newton system has the weak form's residual on the right and its exact derivative as matrix; the adjoint's velocity block is the transpose of the tangent's. Mass, Brinkman friction, convection, continuity and body-force routines and the streamline/pressure stabilisation are exactly the integrals of their documented weak forms for any advecting field, time step and viscosity; the split-step operators conserve momentum, take the divergence of the predicted velocity exactly and give the exact gradient of linear pressures.",
 ["inputs", "configurations"], "all element shapes, velocity/pressure fields, viscosities, densities, mixed orders",
 "The Navier-Stokes samples are compiled but mostly not run, the Stokes result is not compared.",
 [FE + "Stokes.h", FE + "NavierStokes.h"], [("Stokes and Navier-Stokes element routines", FE + "Stokes.h, NavierStokes.h")], ["element matrices and residuals"])

prop("P17", "Truss, beam and shell elements: symmetric, rigid-motion free, textbook exact",
 "Truss, beam (2 and 3 nodes, straight, curved, twisted, tapering) and shell (3, 4, 6, 8 nodes, flat or curved, five or six unknowns per node) stiffness matrices are symmetric, positive semidefinite and free of force under all rigid translations and rotations for every orientation and size, equal the energy of the director displacement field, and reproduce the textbook responses: axial force of a bar, bending, torsion, shear and axial behaviour of a beam, membrane and plate bending states of a shell. They are linear in the modulus.",
 ["inputs", "configurations"], "all lengths, orientations, sections, materials, curved and flat shells",
 "One straight cantilever per element type is compared or merely run.",
 [FE + "Truss.h", FE + "Beam.h", FE + "Shell.h"], [("element stiffness routines", FE + "Truss.h, Beam.h, Shell.h")], ["element matrices"])

prop("P18", "Homogenised elasticity is exact for uniform cells and laminates, bounded for all",
 "For a periodic cell of uniform material the homogenised elasticity equals the constituent's, whatever the mesh; laminates give the exact laminate formulas; the homogenised tensor of any cell is symmetric, positive semidefinite (definite without holes), between the harmonic (without holes) and the arithmetic average of the constituents, and independent of where the cell is cut; the mean strain of the correctors vanishes on cells without holes. The element loads of unit macroscopic strains are the element stiffness times the displacement of that strain.",
 ["inputs", "configurations"], "all cell meshes, material distributions, periodic pairings",
 "One cell with one hole is compared as a whole.",
 [FE + "Homogenization.h", FC + "BoundaryCondition.h"], [("homogenisation element routines", FE + "Homogenization.h")], ["homogenised tensors, element vectors"])

prop("P19", "Geometric helpers: exact measures, centroids, interpolation and line integrals",
 "Areas and volumes computed for any element equal the geometric ones (signed by orientation), the centre of a set of nodes is the mean of their positions, element vectors gather the mapped component at each place, weak springs add exactly their stiffness on each listed degree of freedom and couple nothing, Lagrange interpolation and its derivative reproduce polynomials through their abscissae, node and element averages are means that keep constants and range, and integrals along lines are exact for polynomials the rule covers. Results do not depend on the order of nodes or elements (up to the sign of the area).",
 ["inputs"], "all meshes, shapes and nodal or elemental fields",
 "Most helpers are used by one sample or none.",
 [FE + "General.h", FE + "Numeric.h"], [("area, volume, interpolation, weak spring helpers", FE + "General.h, Numeric.h")], ["return values"])

prop("P20", "The whole chain solves the boundary value problem (patch test)",
 "Meshing, assembling, applying boundary conditions, solving and distributing the solution reproduces, on any structured, graded, perforated or distorted mesh and for any affine exact solution, that solution at every node for heat conduction, plane and solid elasticity and Stokes flow (linear velocity, constant pressure), with any solver, and the reactions balance the applied loads; Newton's method with the finite-deformation elements finds the affine deformation prescribed on the outline.",
 ["inputs", "configurations", "histories"], "all meshes, materials, affine fields, splits of the boundary into prescribed and loaded parts, solvers",
 "Each sample runs one problem on one mesh with (mostly) zero boundary data and compares with a stored run of the same code.",
 ["src"], [("the combination of mesher, element routines, assembly, boundary conditions and solvers", "src")], ["node solution vectors"])

prop("P21", "Optimality-criteria updates respect limits and the volume constraint",
 "An optimality-criteria update of variables in the unit interval keeps every variable in [0,1] and within the relative move limit of its previous value and is the optimality-criteria formula at the multiplier, found by bisection within the given range and accuracy, at which the resource constraint is met (or at the end of the range when it is slack or out of reach). Variables of equal efficiency change equally and more efficient ones grow at least as much; an update depends on its arguments only, not on earlier updates of the object; repeated updates of a convex problem reach its optimum. Convergence is reported exactly when the relative change of the objective since the last update is below the tolerance.",
 ["inputs", "histories"], "all sensitivities of admissible sign, designs, bounds, move limits, histories of objective values",
 "Three samples compare one final design each.",
 [OP + "Solver/OC.h"], [("bisection on the multiplier, move limits, convergence test", OP + "Solver/OC.h")], ["updated design, convergence flag"])

prop("P22", "MMA and CONLIN steps solve their convex subproblem within bounds",
 "Each step of the convex-approximation optimisers stays inside the variable bounds and move limits and solves the convex approximation (method of moving asymptotes with Svanberg's asymptote rule over the object's last steps; convex linearisation with direct or reciprocal variables by the sign of the derivative) in its extended form with elastic and min-max variables to optimality, for any number of variables and constraints, with variables and functions of ordinary size (bounds 0.03 to 30 apart, gradients up to about 1e5; far beyond that the interior iteration cannot reach its absolute tolerance). Repeated steps reach the constrained optimum of convex separable problems with decreasing objectives. Convergence is reported exactly when the relative change of the objective since the last step is below the tolerance.",
 ["inputs", "histories"], "all convex separable problems, numbers of variables and constraints, starting points, step histories",
 "Three toy problems are run and printed, three samples compare one final design.",
 [OP + "Solver/MMA.h", OP + "Solver/CONLIN.h"], [("dual/primal-dual interior solution of the subproblem, asymptote update", OP + "Solver/MMA.h, CONLIN.h")], ["updated design"])

prop("P23", "Filters preserve constants and range, and their sensitivities are consistent",
 "Density filtering returns the weighted mean of each element's neighbourhood and Heaviside filtering its smoothed projection with the current steepness; both map a uniform field to a uniform field, never leave the range (or projected range) of their input, are monotone and independent of the scale of the weights and of earlier calls. The density filter's sensitivity is the derivative of the filtered field's functional for any weights, the Heaviside filter's for symmetric weights with equal sums. The two sensitivity filters return their density-weighted means. A neighbourhood of only the element itself gives the identity (or the plain projection).",
 ["inputs", "configurations"], "all neighbour graphs, weights, fields, sharpness parameters",
 "The samples use one radius on one regular mesh.",
 [OP + "Filter/DensityFilter.h", OP + "Filter/HeavisideFilter.h", OP + "Filter/SensitivityFilter.h"], [("weighted averages and chain rule", OP + "Filter/*.h")], ["filtered fields and sensitivities"])

prop("P24", "Structured meshers produce conforming meshes of exactly the domain",
 "For every size and subdivision each structured mesher returns nodes inside the domain, elements of positive area that cover the domain exactly once and match along shared edges, boundary edges that are exactly the outline with the domain on the left (the outer outline only for the grid with a rectangular hole), nodes at the documented uniform, graded, concentric or mid-side places, and selections and condition lists that name exactly the nodes, elements or edges whose points satisfy the given predicate. The rectangle with a circular hole promises this for balanced subdivisions and nearly square rectangles. Ground structures connect exactly the pairs of different nodes closer than the given length, once.",
 ["inputs", "configurations"], "all lengths, subdivision counts, gradings, hole sizes, predicates",
 "One 4x3 grid is printed; samples use a few regular grids.",
 [PP + "Mesher/SquareMesh.h", PP + "Mesher/SquareAnnulusMesh.h", PP + "Mesher/AnnulusMesh.h", PP + "Mesher/SquareCircleAnnulusMesh.h", PP + "Mesher/GrandStructure.h"], [("node/element/edge index formulas", PP + "Mesher/*.h")], ["generated nodes, elements, edges, fixed lists"])

prop("P25", "Triangulation covers a polygon conformingly to the requested size",
 "For every simple polygonal outline (convex, star-shaped or concave) whose sides are not crossed more than once by the triangulation of its corners, with or without well separated holes, the unstructured mesher returns positively oriented triangles that cover exactly the region inside the outline and outside the holes, without overlap, cracks or hanging nodes, with no side longer than about one and a half times the requested size, all input corners present, boundary edges forming exactly the outlines, and condition lists naming exactly the selected nodes.",
 ["inputs"], "all simple polygons with convex or concave corners, hole placements and mesh sizes within floating-point resolution",
 "One L-shaped polygon is run and nothing is compared.",
 [PP + "Mesher/Delaunay.h"], [("incremental insertion with edge swapping, refinement, smoothing", PP + "Mesher/Delaunay.h")], ["nodes, triangles, edges"])

prop("P26", "Files round-trip: what is exported is what is imported",
 "Any mesh and fields written in the VTK format are a conforming file that the library's importers read back with the same points and cells and with the values to the printed precision, whichever fields are asked for and in whatever order. CSV tables of nodes, elements, prescribed values, loads, initial values and periodic pairs are read completely and in order, with or without a final newline, with either kind of line end and with blank lines, adding to what the lists held; entries marked free give no condition. A missing file is reported by the CSV importers and the VTK importer and leaves the data untouched.",
 ["inputs", "histories"], "all meshes, field names, numbers of fields, request orders, CSV tables",
 "The import test does not even compile; exports are only compared as files for the samples.",
 [PP + "Export/ExportToVTK.h", PP + "Import/ImportFromVTK.h", PP + "Import/ImportFromVTK2.h", PP + "Import/ImportFromCSV.h"], [("VTK writer", PP + "Export/ExportToVTK.h"), ("VTK and CSV readers", PP + "Import/*.h")], ["files, imported vectors"])

prop("P27", "Flow, transient and modal chains reproduce exact solutions",
 "Chaining mesher, element routines, assembly, boundary conditions and solver reproduces exact flow solutions with linear or parabolic velocity and linear pressure (Newton's method, an Oseen step, unsteady Stokes flow, the stabilised equal-order scheme), keeps a steady shear flow through the predictor, pressure and corrector steps of the split method, and follows fields that are linear in space and time through any number of time steps of any implicitness for heat conduction, advection-diffusion and reaction-diffusion, also with values prescribed anew in every step. The Lanczos methods applied to assembled stiffness and mass matrices return the vibration modes or decay rates of the discretised body, zero at the held places.",
 ["inputs", "configurations", "histories"], "all meshes, materials, exact fields, splits of the boundary, time steps, numbers of steps, supports, shifts",
 "Samples run one set of data each and compare with a stored run of the same code; the flow and vibration samples are only run.",
 ["src"], [("the combination of element routines, assembly, boundary conditions, solvers and eigensolvers over steps", "src")], ["node solution vectors after every step, eigenvalues and modes"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
