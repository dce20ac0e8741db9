IH = ["inputs", "histories"]
prop("P01", "Sparse block products are exact linear algebra for every pattern and block shape",
     "For compressed block-row matrices of any shape, block shape and sparsity pattern, the matrix-vector product adds A x to the output, the matrix product stores A B (columns ascending) and the matrix difference stores A - B, where a B with one row per node may address one row of every node's block. Operands that are not outputs are never modified, and operands whose shapes do not fit are rejected with an exception before anything is written. Repeated and chained operations compose exactly as the dense operations do.",
     IH, "every matrix shape, block shape (rectangular included), pattern (empty rows, unsorted columns), value and sequence of operations",
     "the tests multiply a handful of fixed square matrices; patterns with empty rows, rectangular blocks, unsorted columns and reuse of results are not reached",
     ["src/PlatoMathHelpers.hpp", "src/alg/CrsMatrix.hpp"],
     [("MatrixTimesVectorPlusVector, MatrixMatrixMultiply, MatrixMinusMatrix", "src/PlatoMathHelpers.hpp"), ("CrsMatrix accessors", "src/alg/CrsMatrix.hpp")],
     observe=["entries, column indices and row map of every matrix, values of every vector, exceptions"], spec="Sparse.tla, MC_Sparse.tla")
prop("P02", "Block and non-block matrix storage hold the same matrix in both directions",
     "Expanding a block matrix to plain compressed rows gives exactly the same matrix (every stored entry, at its place, rows delimited correctly), also when the block matrix holds one row per node and is expanded to a given row of a larger block. Building a block matrix from plain rows in any column order gives the same matrix with ascending columns, so the round trip is lossless. Sorting rows permutes column indices and values together and within the row only.",
     IH, "every pattern, block shape, row stride and offset, column order",
     "the tests convert a few hand-written matrices with sorted columns",
     ["src/PlatoMathHelpers.hpp"],
     [("getDataAsNonBlock, setDataFromNonBlock, sortColumnEntries", "src/PlatoMathHelpers.hpp")], spec="Sparse.tla, MC_Sparse.tla")
prop("P03", "Imposing essential boundary conditions keeps the rest of the system equivalent",
     "After prescribing values (times a scale) on any set of degrees of freedom, the constrained rows and columns of the matrix are those of the identity, the right-hand side holds the scaled value there and has the eliminated columns moved to it elsewhere, and every other entry is unchanged; a symmetric matrix stays symmetric. The result does not depend on the order or repetition of the constraints. Block and scalar variants agree.",
     IH, "every structurally symmetric matrix, block size, set, order and scale of prescribed values, and repeated imposition",
     "the existing tests impose one fixed set of conditions; scale factors, coupled and adjacent constrained nodes, unsymmetric values and repetitions are not reached",
     ["src/ApplyConstraints.hpp"], [("applyBlockConstraints, applyConstraints", "src/ApplyConstraints.hpp")], spec="Sparse.tla, MC_Sparse.tla")
prop("P04", "Row sums, lumped inverses and static condensation are exact",
     "Row sums of a block matrix are the sums of its stored entries row by row; multiplying by the inverse of the row sums, by the inverse of a diagonal, or dividing a vector by row sums or weights (times a scale) gives exactly that quotient, entry by entry. Condensation replaces A by A - B RowSum(C)^-1 D, applied to the requested row of every block, and leaves B and C untouched.",
     IH, "every compatible set of matrices, block shapes, offsets and weights with nonzero row sums",
     "the tests condense one system",
     ["src/PlatoMathHelpers.hpp", "src/PlatoMathFunctors.hpp"],
     [("Condense, RowSummedInverseMultiply", "src/PlatoMathHelpers.hpp"), ("RowSum, DiagonalInverseMultiply, RowSummedInverseMultiply, InverseWeighted functors", "src/PlatoMathFunctors.hpp")],
     spec="Sparse.tla, MC_Sparse.tla")
prop("P05", "Vector operations compute what they say, in place, and reject invalid arguments",
     "Dot product, norm, fill (whole vector or listed ordinals), copy, scale, axpy, linear update, sum, maximum, minimum and strided extraction return or store exactly the corresponding mathematical result for vectors of any length and sign, also when input and output are the same vector; entries that are not addressed keep their value. Lengths that do not match, empty operands and non-finite multipliers are rejected with an exception and without effect. Random fills lie within the requested bounds and are reproducible.",
     IH, "every length, value, sign, aliasing and sequence of calls",
     "tests call each function once on one or two vectors of non-negative numbers",
     ["src/BLAS1.hpp"], [("blas1 functions", "src/BLAS1.hpp")], spec="Blas.tla, MC_Blas.tla")
prop("P06", "Workset algebra acts cell by cell and rejects mismatched extents",
     "For any number of cells, the workset operations (extraction and accumulation at a degree-of-freedom offset, fill, scale, linear update, matrix-times-vector plain and transposed, identity, fill, linear update, product and inverse of matrix worksets) compute the specified result independently in every cell and leave entries and cells that are not addressed unchanged. The computed inverse times the original matrix is the identity. Empty worksets, mismatched extents and invalid transposition flags are rejected with an exception and without effect.",
     IH, "every number of cells, extents (non-square, excess storage), multipliers and sequences of calls",
     "tests use one to three cells of fixed square size with the default multipliers",
     ["src/BLAS2.hpp", "src/BLAS3.hpp"], [("blas2 functions", "src/BLAS2.hpp"), ("blas3 functions", "src/BLAS3.hpp")],
     note="Inverse: matrices that eliminate without pivoting (the routine's documented method).", spec="Blas.tla, MC_Blas.tla")

prop("P07", "Material expressions evaluate to their mathematical meaning",
     "Every well-formed expression (numbers, PI, named variables, + - * / ^, signs, factorial, absolute bars, parentheses, the functions sin cos tan exp log sqrt abs and pow(a,b), implicit products between parentheses, any white space) evaluates to its mathematical value under the usual precedence: powers bind tighter than products and are right associative, products and sums associate to the left, a sign binds tighter than a power, arguments of functions are complete expressions, names are matched as whole words. Division by zero yields zero. A reference to an undefined variable is rejected. Values do not depend on other evaluators or on what was evaluated before.",
     IH, "every well-formed expression, variable assignment, white space and history of evaluations",
     "tests evaluate a few dozen fixed strings",
     ["src/ExpressionEvaluator.hpp", "src/ExpressionEvaluator.cpp"],
     [("parse_expression, evaluate_expression", "src/ExpressionEvaluator.cpp")], spec="Expr.tla, MC_Expr.tla")
prop("P08", "Malformed material expressions are never given a value",
     "A text that is not a well-formed expression (unbalanced parentheses or bars, missing or repeated operands, malformed numbers, stray characters, misplaced commas, over-long names or numbers) is rejected by parsing or by validation; it never crashes, hangs or evaluates. A well-formed expression is always accepted. Whatever was parsed before, an evaluator behaves as its last successful parse says, and holds nothing after being cleared.",
     IH, "every text and every history of parse, validate, evaluate, clear on several evaluators",
     "the tests check a handful of malformed strings",
     ["src/ExpressionEvaluator.cpp"], [("parse_expression, validate_expression, delete_expression", "src/ExpressionEvaluator.cpp")],
     note="A function name followed by something other than an opening parenthesis (bar, sign, pow) is left open.", spec="Expr.tla, MC_Expr.tla")
prop("P09", "A custom material evaluates exactly the equation that was selected",
     "The value of a custom material equation is the value of the named equation when the parameter list holds it, otherwise of the equation at the requested (or BingoEquation, or first) index after the header of the Bingo file, whose text is everything after the second comma; parameters of the list are its variables. A missing equation, a missing or header-less file, an index past the end and a malformed equation are errors, never silently another equation.",
     IH, "every parameter list, Bingo file, index and equation text",
     "the tests read one file with one index",
     ["src/CustomMaterial.hpp", "src/CustomMaterial.cpp"], [("GetCustomExpressionValue, getEquationFromFile", "src/CustomMaterial.cpp")], spec="Expr.tla, MC_Expr.tla")

prop("P10", "A material model provides exactly the properties its input defines",
     "A material model created from an input list holds, for every name, the property the list defines (a value, a set of coefficients, an isotropic stiffness from Young's modulus and Poisson's ratio), as a constant in a linear model and as a function of temperature in a temperature-dependent one; the last definition of a name wins, names and models do not interfere, and names never defined are zero. Incomplete definitions, unknown materials and unknown kinds are errors. The heat flux is minus conductivity times gradient and the thermal content is density times specific heat times rate, at the cell's temperature, with exact derivatives. Parameters are looked up with their default only when absent.",
     IH, "every input list, dimension, order of definitions and temperature",
     "the tests build a few complete materials; missing entries, redefinitions, mixtures of constant and temperature-dependent definitions and derivatives are not reached",
     ["src/MaterialModel.hpp", "src/MaterialModel.cpp", "src/ThermoelasticMaterial.hpp", "src/ThermalConductivityMaterial.hpp", "src/ThermalMassMaterial.hpp", "src/ThermalFlux.hpp", "src/ThermalContent.hpp", "src/ParseTools.hpp"],
     [("MaterialModel parse*/get*/set*", "src/MaterialModel.hpp"), ("material factories", "src/ThermoelasticMaterial.hpp"), ("ThermalFlux, ThermalContent", "src/ThermalFlux.hpp")],
     spec="Material.tla, MC_Material.tla")
prop("P11", "Tensor and stiffness properties are the symmetric matrices that are specified",
     "A rank-2 or stiffness property read from coefficients cIJ is the symmetric matrix with every given coefficient at both its places, missing diagonal coefficients taken from the first of their group and missing couplings as documented or zero; a temperature-dependent one is C0 + C1 x + C2 x^2 with exact derivatives. An isotropic stiffness is the plane-strain, one- or three-dimensional isotropic matrix of E and v: E(1-v)/((1+v)(1-2v)) on the normal diagonal, Ev/((1+v)(1-2v)) between normals, E/(2(1+v)) on shear. Missing required coefficients are errors.",
     ["inputs"], "every subset of coefficients, values, dimension, temperature, E and v",
     "the tests check one isotropic stiffness per dimension and a few fixed coefficient lists",
     ["src/MaterialModel.hpp", "src/Rank4Voigt.cpp", "src/IsotropicStiffness.cpp"],
     [("TensorFunctor, TensorConstant, ScalarFunctor", "src/MaterialModel.hpp"), ("Rank4VoigtConstant, Rank4VoigtFunctor", "src/Rank4Voigt.cpp"), ("IsotropicStiffnessConstant, IsotropicStiffnessFunctor", "src/IsotropicStiffness.cpp")],
     spec="Material.tla, MC_Material.tla")

prop("P12", "Plastic and elastic return steps obey flow and hardening rules cell by cell",
     "A plastic return step of J2 plasticity adds sqrt(3/2) times the multiplier times the flow direction to the plastic strain (shear stored twice) and sqrt(2/3) times multiplier, hardening modulus and direction to the backstress; an elastic step copies them from the previous state; nothing else of the local state and no other cell changes. The flow direction is the deviatoric stress minus the backstress over its tensor norm. The residuals vanish exactly at the state the step produces, are zero nowhere else, and carry exact derivatives; the parts of the local state are read from their own places. This holds for every sequence of steps, in one, two (plane strain) and three dimensions.",
     IH, "every stress, local state, hardening modulus, multiplier, dimension and sequence of elastic and plastic steps",
     "the tests evaluate one step of fixed numbers per routine and no derivative",
     ["src/J2PlasticityUtilities.hpp", "src/ThermoPlasticityUtilities.hpp"],
     [("J2PlasticityUtilities members", "src/J2PlasticityUtilities.hpp"), ("ComputePlasticStrainMisfit", "src/J2PlasticityUtilities.hpp")],
     spec="Plasticity.tla, MC_Plast.tla")
prop("P13", "Elastic strain, deviators, stresses and work of elastoplasticity are consistent",
     "The deviator of a strain has no trace and the same shear; the deviatoric stress is 2 G times it (G times the stored shear); the Cauchy stress adds the bulk modulus times the volume change; the elastic work is G times the deviatoric contraction plus K/2 times the squared volume change; the elastic strain is the total minus the plastic strain and, with heat, minus the expansion at the interpolated temperature difference on the normal components only; the stabilization is the scaled difference of pressure gradients. Shear and bulk moduli are those of E and v, and incomplete constants are rejected. All carry exact derivatives.",
     ["inputs"], "every strain, local state, temperature, modulus, dimension and number of cells",
     "the tests evaluate fixed numbers in one or two cells",
     ["src/ComputeCauchyStress.hpp", "src/ComputeDeviatoricStrain.hpp", "src/ComputeDeviatoricStress.hpp", "src/ComputeElasticWork.hpp", "src/ComputeStabilization.hpp", "src/ThermoPlasticityUtilities.hpp", "src/IsotropicMaterialUtilities.hpp"],
     [("ComputeCauchyStress, ComputeDeviatoricStress, ComputeDeviatoricStrain, ComputeElasticWork, ComputeStabilization", "src/ComputeCauchyStress.hpp"), ("ThermoPlasticityUtilities::computeElasticStrain", "src/ThermoPlasticityUtilities.hpp"), ("compute_shear_modulus, compute_bulk_modulus, parse_elastic_modulus", "src/IsotropicMaterialUtilities.hpp")],
     note="The Cauchy stress in one and three dimensions is a known finding (F11, F12).", spec="Plasticity.tla, MC_Plast.tla")
prop("P14", "Stress and strain invariants and norms are those of the tensor itself",
     "Von Mises stress, principal values (with shear halved for strains), tensile energy density, tensor contractions, dot products and the tensor norms selected by an input list (p-norm, weighted, Barlat) equal their definitions on the symmetric tensor behind the Voigt components, in every dimension, for every sign of shear and for coinciding or zero principal values, with exact derivatives, cell by cell. A norm raised to its exponent and rooted uses the same exponent throughout. Incomplete lists are rejected.",
     ["inputs"], "every tensor, sign, dimension, exponent, weight and cell",
     "the tests evaluate positive tensors with distinct principal values and one exponent",
     ["src/ComputePrincipalStresses.hpp", "src/Eigenvalues.hpp", "src/VonMisesYieldFunction.hpp", "src/TensileEnergyDensity.hpp", "src/TensileEnergyDensity.cpp", "src/TensorPNorm.hpp", "src/VectorPNorm.hpp", "src/DoubleDotProduct2ndOrderTensor.hpp", "src/ScalarProduct.hpp", "src/DotProduct.hpp"],
     [("Eigenvalues", "src/Eigenvalues.hpp"), ("TensorNormBase, TensorPNorm, BarlatTensorPNorm, WeightedNorm, TensorNormFactory", "src/TensorPNorm.hpp"), ("VonMisesYieldFunction", "src/VonMisesYieldFunction.hpp")],
     note="Principal values in space are iterative: judged at 1e-9 from 16 sweeps on, at 1/20000 with fewer.", spec="Invariants.tla, MC_Inv.tla")
prop("P15", "Strains, gradients and divergences are mutually adjoint finite-element maps",
     "From nodal values and shape gradients, the strain is the symmetric gradient (shear doubled), the gradients of temperature, pressure and potential are those of their own degree of freedom, for single and mixed fields and for real and imaginary parts. The divergences of stress, pressure and flux are the adjoint maps: they add scale times volume times stress contracted with shape gradients to the degrees of freedom of the field at its offset, and touch nothing else. Rigid motions have no strain, forces of any stress balance. The Voigt map names the directions of each component.",
     ["inputs"], "every nodal state, shape gradient, volume, stress, scale, offset, dimension and number of cells",
     "the tests use one mesh, one state and the default offsets",
     ["src/Strain.hpp", "src/Kinematics.hpp", "src/TMKinematics.hpp", "src/EMKinematics.hpp", "src/ComplexStrain.hpp", "src/ComplexStressDivergence.hpp", "src/StressDivergence.hpp", "src/PressureDivergence.hpp", "src/FluxDivergence.hpp", "src/StrainDivergence.hpp", "src/PressureGradient.hpp", "src/VoigtMap.hpp"],
     [("Kinematics, TMKinematics, EMKinematics, StabilizedKinematics", "src/Kinematics.hpp"), ("GeneralStressDivergence", "src/StressDivergence.hpp"), ("GeneralFluxDivergence", "src/FluxDivergence.hpp"), ("PressureDivergence", "src/PressureDivergence.hpp")],
     note="Shear components of kinematics accumulate: judged on zero-initialised containers, as every caller provides.", spec="Kinem.tla, MC_Kinem.tla")
prop("P16", "Interpolation, projection, inertia, damping and quadrature are exact",
     "Values at a point are the basis-weighted nodal values of the addressed degrees of freedom; projection to the nodes is the adjoint map times volume and scale and touches only the addressed degrees of freedom; inertial and (real, complex, adjoint complex) Rayleigh damping forces, complex elastic and inertial energies, the frequency-domain residual and misfit follow their definitions with exact derivatives. The basis functions are the linear Lagrange basis with its gradients; every quadrature rule lies inside the simplex and integrates every polynomial up to its degree, and unsupported rules or wrongly sized containers are rejected.",
     ["inputs"], "every nodal state, basis value, offset, dimension, number of cells, quadrature degree",
     "the tests check a few fixed values and one quadrature rule",
     ["src/InterpolateFromNodal.hpp", "src/ProjectToNode.hpp", "src/StateValues.hpp", "src/InertialForces.hpp", "src/LinearStress.hpp", "src/ComplexRayleighDamping.hpp", "src/AdjointComplexRayleighDamping.hpp", "src/ComplexElasticEnergy.hpp", "src/ComplexInertialEnergy.hpp", "src/StructuralDynamicsCellResidual.hpp", "src/ComputeFrequencyResponseMisfit.hpp", "src/LinearTetCubRuleDegreeOne.hpp", "src/alg/Basis.cpp", "src/alg/Cubature.cpp"],
     [("InterpolateFromNodal", "src/InterpolateFromNodal.hpp"), ("ProjectToNode", "src/ProjectToNode.hpp"), ("Basis", "src/alg/Basis.cpp"), ("Cubature", "src/alg/Cubature.cpp")],
     spec="Interp.tla, MC_Interp.tla")

prop("P20", "Penalization and its continuation follow their law through every history",
     "SIMP, RAMP and Heaviside penalization of a density x are m + (1-m) y with y = x^p, y = x/(1+p(1-x)) and y = ((1+sin(pi x/2r))/2)^p (m below -r, 1 above r), with exact derivatives; no penalty is 1. The exponent, minimum and other parameters are the ones last given by input list, constructor, setter or parameter map, where whatever a list or map does not name takes its default. A continuation step raises the exponent by the continuation increment, at most to its upper bound. Applying a penalty multiplies every component of a cell's quantities by the penalty at the cell's density (in a weighting, the mean of the nodal densities), in place or into an output, and touches nothing else; models and weightings do not interfere.",
     IH, "every history of construction, parameter changes, continuation steps and applications, every density",
     "the tests evaluate one density per model and never a history of continuation and parameter changes",
     ["src/Simp.hpp", "src/Ramp.hpp", "src/Heaviside.hpp", "src/NoPenalty.hpp", "src/ApplyWeighting.hpp", "src/ApplyPenalty.hpp", "src/CellForcing.hpp"],
     [("MSIMP/RAMP/Heaviside operator(), update, setParameters", "src/Simp.hpp"), ("ApplyWeighting", "src/ApplyWeighting.hpp")],
     spec="Design.tla, MC_Design.tla")
prop("P21", "Projection of densities uses its current parameters, cell by cell",
     "The tanh projection of a density x with slope b and threshold e is (tanh(b e) + tanh(b (x-e))) / (tanh(b e) + tanh(b (1-e))), so 0 goes to 0, 1 goes to 1 and order is kept; the Heaviside projection of slope b is 1 - H(1-x) with H(a) = 1 - exp(-b a) + a exp(-b). Both carry exact derivatives, use the parameters last given by list, constructor or setter, and the projected density of a cell is the projection of the mean of its nodal densities.",
     IH, "every density, slope, threshold and history of parameter changes",
     "the tests evaluate one slope and threshold",
     ["src/HyperbolicTangentProjection.hpp", "src/HeavisideProjection.hpp", "src/ApplyProjection.hpp"],
     [("HyperbolicTangentProjection", "src/HyperbolicTangentProjection.hpp"), ("HeavisideProjection", "src/HeavisideProjection.hpp"), ("ApplyProjection", "src/ApplyProjection.hpp")],
     note="HeavisideProjection returns the complement of the documented projection: known finding F20.", spec="Design.tla, MC_Design.tla")

prop("P17", "Newton-Raphson convergence measures follow the history of norms",
     "At iteration 0 the current norm becomes the reference and no measure is formed; at every later iteration the measure is the distance of the current norm from the reference (absolute) or that distance over the current norm (relative), and the current norm becomes the reference. A norm that is not finite is an error that changes nothing. Stopping criteria are recognised regardless of case and unknown ones are errors; the reported message is that of the recorded stop reason, diagnostics show iteration, norm and measure; nothing is written when output is off, and a closed file is an error.",
     IH, "every sequence of norms, iterations, restarts and reports of several solves",
     "the tests compute two or three measures from fixed numbers",
     ["src/NewtonRaphsonUtilities.hpp"], [("compute_relative_residual_norm_error, compute_absolute_residual_norm_error, print_newton_raphson_*, newton_raphson_stopping_criterion", "src/NewtonRaphsonUtilities.hpp")],
     note="A relative measure at a zero norm, or beyond the range of doubles, is left open.", spec="Evolve.tla, MC_Evolve.tla")
prop("P18", "Time integrators advance motions by their rule, with matching derivatives",
     "The velocity and acceleration residuals of Newmark's method and the velocity residual of the trapezoid rule vanish exactly at the next velocity and acceleration of the rule with the given parameters and step, entry by entry, and leave their arguments alone; the reported derivatives are the derivatives of those residuals. A motion of constant acceleration is followed exactly by Newmark's method, and by the trapezoid rule with parameter 1/2; the trapezoid parameter defaults to 1/2, Newmark's parameters are required.",
     IH, "every state, step, parameter and sequence of steps",
     "the tests take one residual per integrator and never compare derivatives with residuals",
     ["src/hyperbolic/Newmark.hpp", "src/parabolic/TrapezoidIntegrator.hpp"],
     [("NewmarkIntegrator", "src/hyperbolic/Newmark.hpp"), ("TrapezoidIntegrator", "src/parabolic/TrapezoidIntegrator.hpp")], spec="Evolve.tla, MC_Evolve.tla")
prop("P19", "Rocket ballistics balance gas production and nozzle flow at every step",
     "A burn starts at the reference pressure without thrust at time 0 and reports times a step apart until the end of the burn. At every step the pressure is the one at which the gas produced by the burning surface, at the burn rate (p/pref)^alpha of the reference rate, leaves through the throat; the thrust is that of the pressure above ambient; and the chamber radius grows by burn rate times step, the length staying. The cylinder's area, production rate and gradient are those of its current radius and length. Parameters are those last given by inputs or setters, and a new solve starts a new profile from the current chamber.",
     IH, "every chamber, propellant, exponent below one, pressure, step and sequence of burns",
     "the tests run one rocket with default inputs",
     ["src/Plato_AlgebraicRocketModel.hpp", "src/Plato_Cylinder.hpp", "src/Plato_GeometryModel.hpp", "src/Plato_RocketMocks.hpp"],
     [("AlgebraicRocketModel::solve, newton", "src/Plato_AlgebraicRocketModel.hpp"), ("Cylinder", "src/Plato_Cylinder.hpp")], spec="Evolve.tla, MC_Evolve.tla")
prop("P22", "Saved states are the states that were current when they were saved",
     "Saving appends the current scalars, vectors, multivectors and arrays of a data map, without the saved ones; whatever is set, removed, saved, copied or cleared afterwards, the k-th saved state is what was current at the k-th save since the last clear. Asking for a state when none is saved gives the current one, asking for one outside those saved is an error, clearing keeps the current state. A solution holds the state and its rates in the order they are given.",
     IH, "every history of setting, removing, saving, clearing, copying and asking",
     "the tests save and read states in one fixed order",
     ["src/PlatoStaticsTypes.hpp"], [("DataMap, Solution", "src/PlatoStaticsTypes.hpp")],
     note="Views are shared handles, so histories replace fields rather than writing into them.", spec="Evolve.tla, MC_Evolve.tla")
prop("P23", "Reductions over a machine combine every process's value and give all the same",
     "For a machine on any communicator, size and rank are those of the communicator for both of its views of it; max, min and sum give every process of the machine the maximum, minimum and sum of the values of exactly its processes, whatever their signs, and the reduction of arrays gives the entrywise sums and leaves its input and everything outside the result alone. Machines on disjoint or nested communicators do not disturb each other, and no process waits for ever when all enter the same reductions in the same order.",
     IH, "every split of the processes into machines, every order of ranks, every sequence of reductions and every interleaving of the processes (the latter in the model)",
     "the tests run with one process",
     ["src/alg/ParallelComm.hpp", "src/alg/ParallelComm.cpp"], [("Machine, size, rank, max, min, sum, allReduce", "src/alg/ParallelComm.cpp")],
     note="Sums are judged up to the order of summation.", spec="Comm.tla, MC_Comm.tla")
prop("P24", "Element traits and evaluation types agree on sizes, offsets and derivatives",
     "For every physics and dimension the degrees of freedom per node are the fields of the physics in their order, the offsets point at those fields, degrees of freedom per cell are those per node times the nodes of the simplex, and the sizes of node state, local state and control follow. Each evaluation of each problem family (residual, derivatives by state, rate, previous, local and node state, control, configuration) carries derivatives of exactly the one argument it is named after, as many as that argument has entries in a cell, in the result and in every mixed type; computing with those types gives the derivatives.",
     IH, "every physics, dimension, family and evaluation (complete), and every value of the arguments",
     "the tests instantiate a few of the combinations and never compare the types with each other",
     ["src/SimplexFadTypes.hpp", "src/Simplex*.hpp", "src/elliptic/EllipticSimplexFadTypes.hpp", "src/parabolic/ParabolicSimplexFadTypes.hpp", "src/hyperbolic/HyperbolicSimplexFadTypes.hpp", "src/geometric/GeometricSimplexFadTypes.hpp"],
     [("SimplexStaticPhysics, fad_type_t, EvaluationTypes", "src/SimplexFadTypes.hpp"), ("SimplexMechanics, SimplexThermomechanics, SimplexPlasticity, ...", "src/Simplex*.hpp")],
     spec="Misc.tla, MC_Misc.tla")
prop("P25", "Expressions of time evaluate to their mathematical value at every time",
     "An expression of the time t, with parameters assigned before it, has at every time asked for, in any order and also next to other expressions, the value of the expression with t and the parameters replaced.",
     IH, "every expression, parameters and sequence of times",
     "no test evaluates an expression of time",
     ["src/PlatoMathExpr.hpp"], [("MathExpr::value", "src/PlatoMathExpr.hpp")],
     note="Time is passed on with 18 decimals, so values are judged up to the change of the expression over 1e-18 of time.", spec="Misc.tla, MC_Misc.tla")
prop("P26", "AmgX configurations ask for the requested solver, tolerance and iterations",
     "For every named configuration, tolerance, number of iterations and kind of tolerance the configuration string is a JSON object that asks for the named solver and preconditioner, converging in the L2 norm at the given tolerance, relative or absolute as asked, within the given number of iterations; without limits it asks for 1e-10 and 10000; an unknown name is an error.",
     IH, "every configuration, tolerance, number of iterations and kind of tolerance",
     "no test looks at a configuration",
     ["src/alg/AmgXConfigs.hpp", "src/alg/AmgXConfigs.cpp"], [("configurationString", "src/alg/AmgXConfigs.cpp")],
     note="Known finding F22: the configuration \"default\" ignores tolerance and number of iterations.", spec="Misc.tla, MC_Misc.tla")

prop("P27", "Elastic materials have the constants and responses of their definition",
     "A material list that completely defines an isotropic, cubic, custom-equation, orthotropic, electroelastic or thermoelastic material yields exactly the stiffness, coupling, permittivity, expansion, conductivity, density, scaling, damping and reference strain it states (documented defaults where it is silent); the orthotropic stiffness is the inverse of the compliance; an incomplete list, a constant of the wrong type or an orthotropic material that violates the stability bounds is rejected, and of several definitions the first in the documented order counts. Stress, heat flux, electric displacement, the mixed pressure form (deviatoric stress, volume change, stabilisation), damping, cell-problem forcing and homogenised stress are, cell by cell and with exact derivatives, the formulas of that material; cells that are not addressed are left alone.",
     IH, "every kind, dimension and set of constants of a material, every strain, field gradient and temperature, every subset of cells",
     "tests create a few materials with one set of constants, and most of them need a mesh library that is not available",
     ["src/LinearElasticMaterial.hpp", "src/IsotropicLinearElasticMaterial.cpp", "src/CubicLinearElasticMaterial.cpp", "src/CustomLinearElasticMaterial.cpp", "src/OrthotropicLinearElasticMaterial.cpp",
      "src/LinearElectroelasticMaterial.cpp", "src/LinearThermoelasticMaterial.cpp", "src/LinearStress.hpp", "src/EMKinetics.hpp", "src/TMKinetics.hpp", "src/Kinetics.hpp"],
     [("ElasticModelFactory::create", "src/ElasticModelFactory.hpp"), ("OrthotropicLinearElasticMaterial::setMaterialModel", "src/OrthotropicLinearElasticMaterial.cpp"),
      ("EMKinetics, TMKinetics", "src/EMKinetics.hpp")], spec="Elastic.tla, MC_Elastic.tla")
prop("P28", "Elastostatic residual, Jacobians and outputs are those of the described model",
     "For every mesh of linear segments, triangles or tetrahedra, every assignment of blocks to domains and materials, penalty, side load (uniform, by component, pressure; constants or expressions), body load and cell-problem forcing, the residual at any displacements and densities is the sum over the domains of the penalised internal forces minus the loads, whatever the numbering of nodes, cells, corners and sides; the returned Jacobians in the state (plain and transposed), in the design and in the node positions are its exact derivatives; the fields asked for as output are the strain, stress and von Mises stress of that state in every cell. A missing or contradictory part of the input (spatial model, block, material, load type, value, component, side set, penalty) is reported as an error.",
     IH, "every mesh, partition into domains, material, penalty, combination of loads, state, design and direction of differentiation",
     "tests evaluate one or two structured meshes with one material, compare with stored numbers, and cannot run here at all because they need a mesh library",
     ["src/elliptic/ElastostaticResidual.hpp", "src/elliptic/VectorFunction.hpp", "src/NaturalBCs.hpp", "src/NaturalBC.hpp", "src/SurfaceLoadIntegral.hpp", "src/SurfacePressureIntegral.hpp", "src/BodyLoads.hpp",
      "src/SpatialModel.hpp", "src/WorksetBase.hpp", "src/ToMap.hpp", "src/CellForcing.hpp"],
     [("VectorFunction value, gradient_u, gradient_u_T, gradient_z, gradient_x", "src/elliptic/VectorFunction.hpp"), ("ElastostaticResidual::evaluate", "src/elliptic/ElastostaticResidual.hpp"),
      ("assembly", "src/WorksetBase.hpp")],
     note="Known finding F23: the derivative in the node positions leaves out the body load and the turning of a pressure. The mesh is a small stand-in for Omega_h in harness/omega_h.", spec="FE.tla, MC_FE.tla")
prop("P29", "Thermal and coupled static residuals and Jacobians are those of the model",
     "As for static elasticity, for the scalar and coupled physics: for every mesh, partition into domains, material (temperature dependent ones included), penalty and combination of mechanical, thermal and electrical side loads and body loads, the residual at any state and design is the sum of penalised fluxes and stresses minus the loads, with the mechanical terms on the displacements and the thermal or electrical terms on the last degree of freedom of each node; all Jacobians are its exact derivatives; the output fields (strain, stress, temperature gradient, flux, electric field and displacement) are those of the state. Missing or contradictory input is reported as an error.",
     IH, "every mesh, partition, material, penalty, combination of loads, state, design and direction of differentiation",
     "tests evaluate one structured mesh per physics and cannot run here because they need a mesh library",
     ["src/elliptic/ThermostaticResidual.hpp", "src/elliptic/ThermoelastostaticResidual.hpp", "src/elliptic/ElectroelastostaticResidual.hpp", "src/elliptic/VectorFunction.hpp", "src/NaturalBCs.hpp",
      "src/SurfaceLoadIntegral.hpp", "src/BodyLoads.hpp", "src/ToMap.hpp"],
     [("ThermostaticResidual::evaluate", "src/elliptic/ThermostaticResidual.hpp"), ("ThermoelastostaticResidual::evaluate", "src/elliptic/ThermoelastostaticResidual.hpp"),
      ("ElectroelastostaticResidual::evaluate", "src/elliptic/ElectroelastostaticResidual.hpp")],
     note="Known finding F23, as for P28.", spec="FE.tla, MC_FE.tla")

prop("P30", "Essential boundary conditions constrain exactly the described unknowns",
     "For every list of essential boundary conditions (zero, fixed and time dependent values, constants or expressions of time, any index, overlapping node sets), every physics, mesh and time, the constrained degrees of freedom are, for each condition, those of that index at each node of its node set, with the value of the condition at that time, divided by the scaling of the unknown where one is given; nothing else is constrained. A condition without type or node set, with neither or both of value and function, with an index a node does not have, or on a node set the mesh does not have is reported as an error.",
     IH, "every combination of conditions, node sets, indices, times and scalings",
     "tests build a few lists on structured meshes and cannot run here because they need a mesh library",
     ["src/EssentialBCs.hpp", "src/elliptic/Problem.hpp"],
     [("EssentialBCs::get", "src/EssentialBCs.hpp"), ("EssentialBC::get", "src/EssentialBCs.hpp")], spec="Crit.tla, MC_Crit.tla")
prop("P31", "Mechanical criteria have the value and derivatives of their definition",
     "For every mesh, partition into domains, linear elastic material, penalty, state and design, each mechanical criterion (internal elastic energy; stress p-norm with plain, weighted or Barlat measure; effective energy of a cell problem; density penalty) and the volume has the value of its definition summed over all domains, and its derivatives in the state, the design and the node positions are the exact derivatives of that value; the stress is that of the residual, reference strain included. Fields asked for (strain, stress, effective stress, cell volume) are those of the cells. An unknown function or penalty type or missing data is reported as an error.",
     IH, "every mesh, partition, material, penalty, measure, exponent, state, design and direction",
     "tests compare a few structured meshes with stored numbers and cannot run here because they need a mesh library",
     ["src/elliptic/InternalElasticEnergy.hpp", "src/elliptic/StressPNorm.hpp", "src/elliptic/EffectiveEnergy.hpp", "src/IntermediateDensityPenalty.hpp", "src/elliptic/PhysicsScalarFunction.hpp", "src/elliptic/ScalarFunctionBaseFactory_def.hpp", "src/Mechanics.hpp"],
     [("PhysicsScalarFunction value, gradient_u, gradient_z, gradient_x", "src/elliptic/PhysicsScalarFunction.hpp"), ("InternalElasticEnergy::evaluate", "src/elliptic/InternalElasticEnergy.hpp"), ("StressPNorm::evaluate", "src/elliptic/StressPNorm.hpp")],
     spec="Crit.tla, MC_Crit.tla")
prop("P32", "Thermal and coupled criteria have the value and derivatives of their definition",
     "For every mesh, partition into domains, material (temperature dependent ones included), penalty, state and design, each criterion of the thermal, thermomechanical and electromechanical physics (internal thermal, thermoelastic and electroelastic energy, flux p-norm with any exponent, stress p-norm, volume) has the value of its definition summed over all domains, and its derivatives in the state, the design and the node positions are the exact derivatives of that value; fields asked for are those of the cells. An unknown function or penalty type or missing data is reported as an error.",
     IH, "every mesh, partition, material, penalty, exponent, state, design and direction",
     "tests compare one structured mesh per physics with stored numbers and cannot run here because they need a mesh library",
     ["src/elliptic/InternalThermalEnergy.hpp", "src/elliptic/InternalThermoelasticEnergy.hpp", "src/elliptic/InternalElectroelasticEnergy.hpp", "src/elliptic/FluxPNorm.hpp", "src/elliptic/EMStressPNorm.hpp", "src/elliptic/Volume.hpp", "src/VectorPNorm.hpp"],
     [("InternalThermalEnergy::evaluate", "src/elliptic/InternalThermalEnergy.hpp"), ("FluxPNorm::evaluate", "src/elliptic/FluxPNorm.hpp"), ("InternalElectroelasticEnergy::evaluate", "src/elliptic/InternalElectroelasticEnergy.hpp")],
     spec="Crit.tla, MC_Crit.tla")
prop("P33", "Composite, mass-property and solution criteria combine their parts exactly",
     "For every nesting of weighted sums, divisions and least-squares criteria over other criteria (of the physics, or purely geometric ones), every set of mass properties (mass, centre of gravity, moments and products of inertia; with all ten given, the inertia about the given centre in its principal axes) and every solution criterion (component along a normal, or length, averaged over a node set), the value is the defined combination of the values of the parts, with the documented normalisation by the target value, and the derivatives in state, design and node positions follow the chain rule exactly. Lists of unequal length, duplicate or unknown properties and names of undefined criteria are reported as errors.",
     IH, "every tree of criteria, weights, targets, meshes, densities, states, designs and directions",
     "tests evaluate a handful of fixed combinations and cannot run here because they need a mesh library",
     ["src/elliptic/WeightedSumFunction.hpp", "src/elliptic/DivisionFunction.hpp", "src/elliptic/LeastSquaresFunction.hpp", "src/elliptic/MassPropertiesFunction.hpp", "src/elliptic/MassMoment.hpp", "src/elliptic/SolutionFunction.hpp",
      "src/geometric/WeightedSumFunction.hpp", "src/geometric/DivisionFunction.hpp", "src/geometric/LeastSquaresFunction.hpp", "src/geometric/MassPropertiesFunction.hpp", "src/geometric/MassMoment.hpp", "src/geometric/GeometryScalarFunction.hpp"],
     [("LeastSquaresFunction value, gradient_x, gradient_u, gradient_z", "src/elliptic/LeastSquaresFunction.hpp"), ("MassPropertiesFunction", "src/geometric/MassPropertiesFunction.hpp"), ("SolutionFunction value, gradient_u", "src/elliptic/SolutionFunction.hpp")],
     spec="Crit.tla, MC_Crit.tla")

prop("P34", "A static problem is solved in equilibrium and criteria differentiate through it",
     "For every well posed static problem (mechanics, heat conduction with temperature dependent conductivity included, thermomechanics, electromechanics; any mesh, domains, materials, penalty, loads and supports), the returned state takes the prescribed values and leaves no residual at the other degrees of freedom after the Newton steps asked for (or, where a tolerance is given, as soon as it is met), for every design and however often the problem is solved; asked-for output is that of this state. The derivative of every criterion in the design and in the node positions is the total one, with the state following in equilibrium and held where it is prescribed, whichever derivative is asked for first and whether the state is the problem's own or a given one; a problem declared self-adjoint returns the negative of the partial derivative. Criteria declared linear depend on the design alone. Boundary conditions given directly as degrees of freedom and values, in any order, replace those read from the input, and a state given to the problem is the one it holds. Undefined criteria, incomplete boundary conditions and unavailable solvers are reported as errors.",
     IH, "every problem, design, state, criterion, direction and order of calls",
     "tests solve a few structured problems and compare single numbers, and cannot run here because they need a mesh library",
     ["src/elliptic/Problem.hpp", "src/elliptic/VectorFunction.hpp", "src/PlatoAbstractProblem.hpp", "src/alg/EpetraLinearSolver.cpp", "src/ApplyConstraints.hpp", "src/ParseTools.hpp"],
     [("Problem solution, criterionGradient, criterionGradientX", "src/elliptic/Problem.hpp"), ("VectorFunction gradient_u, gradient_u_T, gradient_x, gradient_z", "src/elliptic/VectorFunction.hpp")],
     spec="Prob.tla, MC_Prob.tla")

prop("P35", "Transient heat residuals and Jacobians are those of the described model",
     "For every mesh, partition into domains, thermal or thermomechanical material with its thermal mass (temperature dependent ones included), penalty and combination of side loads, the residual of the transient heat equation (alone or coupled with mechanics) at any state, rate of the state and design is the sum over the domains of the penalised stored heat, fluxes and stresses with the side loads; the Jacobians in the state, in its rate, in the design and in the node positions are its exact derivatives; the output fields are those of the state in every cell of every domain. A missing material, thermal mass, penalty, load value or side set is reported as an error.",
     IH, "every mesh, partition, material, penalty, combination of loads, state, rate, design and direction of differentiation",
     "tests evaluate a few structured meshes and cannot run here because they need a mesh library",
     ["src/parabolic/HeatEquationResidual.hpp", "src/parabolic/TransientThermomechResidual.hpp", "src/parabolic/VectorFunction.hpp", "src/ThermalContent.hpp", "src/ThermalMassMaterial.hpp", "src/NaturalBCs.hpp", "src/ToMap.hpp"],
     [("VectorFunction value, gradient_u, gradient_v, gradient_z, gradient_x", "src/parabolic/VectorFunction.hpp"), ("HeatEquationResidual::evaluate", "src/parabolic/HeatEquationResidual.hpp"), ("TransientThermomechResidual::evaluate", "src/parabolic/TransientThermomechResidual.hpp")],
     note="Known finding F23, as for P28.", spec="FE.tla, Trans.tla, MC_Trans.tla")
prop("P36", "Transient heat is solved step by step and criteria differentiate through it",
     "For every well posed transient heat problem (alone or coupled with mechanics; any mesh, domains, materials, penalty, loads, supports, number and size of time steps and trapezoid parameter), the solution starts from the initial state given as fields of position, and each further state takes the prescribed values and is in balance with the rate that the trapezoid rule gives, after the Newton steps asked for; solving again, with the same or another design, gives the same as solving once; the saved output of each step is that of its state. A criterion is the sum of its definition over the steps after the first, and its derivatives in the design and in the node positions are total ones, with every state following through all earlier steps, whether the states are the problem's own or given. Incomplete boundary conditions, criteria, initial states (unknown variables included) and unavailable solvers are reported as errors.",
     IH, "every problem, time integration, initial state, design, criterion, direction and order of calls",
     "tests solve a few structured problems for a few steps and cannot run here because they need a mesh library",
     ["src/parabolic/Problem.hpp", "src/parabolic/PhysicsScalarFunction.hpp", "src/parabolic/InternalThermalEnergy.hpp", "src/parabolic/InternalThermoelasticEnergy.hpp", "src/parabolic/TemperatureAverage.hpp", "src/parabolic/TrapezoidIntegrator.hpp",
      "src/ComputedField.hpp", "src/EssentialBCs.hpp", "src/PlatoStaticsTypes.hpp"],
     [("Problem solution, criterionGradient, criterionGradientX", "src/parabolic/Problem.hpp"), ("PhysicsScalarFunction value, gradient_u, gradient_z, gradient_x", "src/parabolic/PhysicsScalarFunction.hpp")],
     spec="Trans.tla, MC_Trans.tla")
prop("P37", "Elastodynamic residuals and Jacobians are those of the described model",
     "For every mesh, partition into domains, elastic material with mass density and Rayleigh damping, penalty and combination of side and body loads (constants or expressions of time), the residual of transient mechanics at any displacement, velocity, acceleration, design and time is the sum over the domains of the penalised inertia, damping and internal forces minus the loads at that time; the Jacobians in displacement, velocity, acceleration, design and node positions are its exact derivatives; the output fields are strain, stress and, where there is damping, the rate of the strain in every cell of every domain. Missing or contradictory input is reported as an error.",
     IH, "every mesh, partition, material, penalty, combination of loads, state, time, design and direction of differentiation",
     "tests evaluate a few structured meshes and cannot run here because they need a mesh library",
     ["src/hyperbolic/ElastomechanicsResidual.hpp", "src/hyperbolic/HyperbolicVectorFunction.hpp", "src/hyperbolic/InertialContent.hpp", "src/LinearStress.hpp", "src/NaturalBCs.hpp", "src/BodyLoads.hpp", "src/ToMap.hpp"],
     [("VectorFunction value, gradient_u, gradient_v, gradient_a, gradient_z, gradient_x", "src/hyperbolic/HyperbolicVectorFunction.hpp"), ("TransientMechanicsResidual::evaluate", "src/hyperbolic/ElastomechanicsResidual.hpp")],
     note="Known finding F23, as for P28.", spec="FE.tla, Trans.tla, MC_Trans.tla")
prop("P38", "Elastodynamics is solved step by step and criteria differentiate through it",
     "For every well posed problem of transient mechanics (any mesh, domains, materials, damping, penalty, loads, supports, number and size of time steps and Newmark parameters), the solution starts from the initial displacements and velocities given as fields of position, and each further state takes the values prescribed at its time and is in balance, under the loads of that time, with the velocity and acceleration that the Newmark rule gives; solving again gives the same; the saved output of each step is that of its state. A criterion is that of its definition over the steps after the first (a p-norm takes the root of the sum of all steps), and its derivatives in the design and in the node positions are total ones, with every state following through all earlier steps, whether the states are the problem's own or given. Incomplete time integration, boundary conditions, criteria and initial states are reported as errors.",
     IH, "every problem, time integration, initial state, design, criterion, direction and order of calls",
     "tests solve a few structured problems for a few steps and cannot run here because they need a mesh library",
     ["src/hyperbolic/HyperbolicProblem.hpp", "src/hyperbolic/HyperbolicPhysicsScalarFunction.hpp", "src/hyperbolic/HyperbolicInternalElasticEnergy.hpp", "src/hyperbolic/HyperbolicStressPNorm.hpp", "src/hyperbolic/Newmark.hpp", "src/ComputedField.hpp", "src/EssentialBCs.hpp"],
     [("HyperbolicProblem solution, criterionGradient, criterionGradientX", "src/hyperbolic/HyperbolicProblem.hpp"), ("PhysicsScalarFunction value, gradient_u, gradient_z, gradient_x", "src/hyperbolic/HyperbolicPhysicsScalarFunction.hpp")],
     spec="Trans.tla, MC_Trans.tla")

prop("P39", "Stabilized mixed residuals and projections are those of the described model",
     "For every mesh in the plane or in space, partition into domains, material, pressure scaling, penalty and combination of side and body loads, the residual of stabilized mechanics and thermomechanics at any displacement, pressure, temperature, nodal field of projected pressure gradients and design is the sum over the domains of the penalised deviatoric stresses, pressures, volume changes, heat fluxes and the stabilisation (the scaled pressure gradient less the projected one) minus the loads; the residual of the projection is the penalised difference of the nodal field and the scaled pressure gradient. The Jacobians in the state, in the nodal field, in the design and in the node positions, transposed ones included, are their exact derivatives, and evaluation leaves its arguments alone; the output fields are the pressure and the deviatoric stress of the state in every cell of every domain. The elastic energy of stabilized mechanics and its derivatives are those of the whole stress, penalised as its entry under Criteria says. Missing materials, unknown penalties, incomplete loads and side sets that do not exist are reported as errors.",
     IH, "every mesh, partition, material, penalty, combination of loads, state, nodal field, design and direction of differentiation",
     "tests evaluate a few structured meshes and cannot run here because they need a mesh library",
     ["src/VectorFunctionVMS.hpp", "src/StabilizedElastostaticResidual.hpp", "src/StabilizedThermoelastostaticResidual.hpp", "src/PressureGradientProjectionResidual.hpp", "src/StabilizedElastostaticEnergy.hpp", "src/Projection.hpp", "src/Kinetics.hpp", "src/SimplexStabilizedMechanics.hpp"],
     [("VectorFunctionVMS value, gradient_u, gradient_u_T, gradient_n, gradient_n_T, gradient_z, gradient_x", "src/VectorFunctionVMS.hpp"), ("StabilizedElastostaticResidual::evaluate", "src/StabilizedElastostaticResidual.hpp")],
     note="Known finding F23, as for P28.", spec="FE.tla, Mixed.tla, MC_Mixed.tla")
prop("P40", "A stabilized mixed problem is solved and differentiated as its input describes",
     "For every stabilized mechanics or thermomechanics problem that is well posed and asks for at least two time steps, every state after the first (which is zero) is the outcome of the given number of iterations from rest, each of which projects the gradient of the current pressure onto the nodes with the row sums of the weights of the design and solves the linearised equations with that gradient held, the prescribed degrees of freedom being moved to their values; the problem returns what it holds and leaves the design alone. The value of a criterion is that of its entry at the last state, and its gradients in the design and in the node positions are the total derivatives: the explicit part plus the change of a state that stays in equilibrium with the projected gradient of its own pressure, under supports that do not move and with the weights of the projection changing as well. Criteria of the design alone have their plain derivatives. Boundary conditions given directly as degrees of freedom and values replace those read from the input. Solving without any support, undefined criteria, incomplete or contradictory conditions and side sets that do not exist are reported as errors.",
     IH, "every mesh, partition, material, penalty, loading, support, iteration count, design, state and direction of differentiation",
     "tests solve one structured mesh and compare recorded numbers, and cannot run here because they need a mesh library",
     ["src/EllipticVMSProblem.hpp", "src/VectorFunctionVMS.hpp", "src/Projection.hpp", "src/Plato_Solve.hpp", "src/PlatoMathHelpers.hpp", "src/EssentialBCs.hpp", "src/PressureGradientProjectionResidual.hpp"],
     [("EllipticVMSProblem::solution, criterionGradient, criterionGradientX", "src/EllipticVMSProblem.hpp"), ("Plato::Solve::RowSummed", "src/Plato_Solve.hpp")],
     note="With the default of one step nothing is solved (the state is zero); criteria are judged with at most two steps.", spec="FE.tla, Crit.tla, Prob.tla, Mixed.tla, MC_MProb.tla")
