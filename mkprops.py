#!/usr/bin/env python3
"""Source of properties.jsonl (one place to edit; run to regenerate)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=False, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe, 'hook_needed': None}
    if state:
        a['state'] = state
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})

p('P01', 'Spectral transforms are exact on the span of the basis',
  "For every function space and tensor product space, the backward transform of any coefficient array gives, at every quadrature (or uniform, or user given) mesh point, the value of the expansion those coefficients define, and the forward transform of that array returns the coefficients. Forward is a projection (forward-backward-forward equals forward) and the scalar product equals the quadrature sum over the mesh. The fast, recursive and Vandermonde methods, padded or not, agree on all of this.",
  ['inputs', 'configurations'],
  "all families, quadratures, boundary conditions, sizes (odd, even, small), domains, data types, axes, methods, padding factors, coefficient arrays",
  "Tests sample a handful of sizes and one random array per basis; parity, Nyquist, domain scaling, axis and method-selection branches interact combinatorially.",
  ['shenfun/spectralbase.py', 'shenfun/*/bases.py', 'shenfun/tensorproductspace.py', 'shenfun/optimization/cython/transforms.pyx', 'shenfun/optimization/cython/evaluate.pyx'],
  [('1D transforms', 'shenfun/spectralbase.py:SpectralBase.forward/backward/scalar_product'), ('fast transforms', 'shenfun/chebyshev/bases.py:DCTWrap, shenfun/chebyshevu/bases.py:DCTWrap, shenfun/fourier/bases.py'),
   ('multidimensional transforms', 'shenfun/tensorproductspace.py:TensorProductSpace')],
  ['forward', 'backward', 'scalar_product', 'eval'])

p('P02', 'Composite bases satisfy their boundary conditions and stay complete',
  "For every set of boundary conditions the package accepts, every function of the space built for it (in particular the backward transform of any coefficients) satisfies the conditions, in the true domain and including inhomogeneous values, to rounding error. The basis functions are linearly independent and, with the boundary lift, span all polynomials of the nominal degree that satisfy the conditions. The stencil matrix, pointwise evaluation, derivative evaluation, symbolic basis functions and the map to the orthogonal basis all describe the same functions.",
  ['configurations', 'inputs'],
  "all families, predefined and generic boundary conditions (tuple, dictionary, string), values, domains, sizes",
  "The set of boundary-condition combinations is open ended (any derivative, either end, any values, any domain); tests check a few hard-wired cases, mostly on the reference domain.",
  ['shenfun/spectralbase.py', 'shenfun/utilities/findbasis.py', 'shenfun/forms/arguments.py', 'shenfun/chebyshev/bases.py', 'shenfun/legendre/bases.py', 'shenfun/jacobi/bases.py', 'shenfun/ultraspherical/bases.py', 'shenfun/chebyshevu/bases.py', 'shenfun/laguerre/bases.py', 'shenfun/fourier/bases.py'],
  [('stencils', 'shenfun/utilities/findbasis.py:get_stencil_matrix, get_bc_basis'), ('condition parsing', 'shenfun/spectralbase.py:BoundaryConditions'), ('space selection', 'shenfun/forms/arguments.py:FunctionSpace')],
  ['FunctionSpace', 'eval', 'evaluate_basis', 'evaluate_basis_derivative', 'basis_function', 'stencil_matrix', 'to_ortho'])

p('P03', 'Assembled bilinear-form matrices equal the integrals they stand for',
  "Every matrix assembled from a bilinear form equals the weighted integral of the product of the (differentiated) test and trial functions and coefficient, for every pairing of test and trial spaces including Petrov-Galerkin test spaces, boundary bases, variable coefficients and mapped domains. Precomputed closed forms, recursion matrices, numerical quadrature, exact and adaptive integration give the same matrix wherever they apply. Assembling again, in any order and after other assemblies, gives the same matrix.",
  ['configurations', 'inputs', 'histories'],
  "all (test, trial, derivative, derivative) pairs of all families, all sizes and domains, scales and variable coefficients, assembly methods, tensor products",
  "Hundreds of hand-derived closed-form matrices with parity, quadrature and size dependent corner entries; the tests compare some with quadrature at one size and on one domain.",
  ['shenfun/matrixbase.py', 'shenfun/spectralbase.py', 'shenfun/forms/inner.py', 'shenfun/chebyshev/matrices.py', 'shenfun/legendre/matrices.py', 'shenfun/jacobi/matrices.py', 'shenfun/ultraspherical/matrices.py', 'shenfun/chebyshevu/matrices.py', 'shenfun/laguerre/matrices.py', 'shenfun/hermite/matrices.py', 'shenfun/fourier/matrices.py', 'shenfun/jacobi/recursions.py'],
  [('matrix lookup and assembly', 'shenfun/spectralbase.py:inner_product, shenfun/matrixbase.py:assemble_sympy, get_dense_matrix*'), ('closed forms', 'shenfun/*/matrices.py'), ('tensor products', 'shenfun/forms/inner.py:inner')],
  ['inner', 'inner_product', 'assemble_sympy', 'matrix.diags'])

p('P04', 'Linear forms, integrals and projections equal the integrals they stand for',
  "The inner product of a test function with an array, function or expression equals the weighted integral over the true domain with the coordinate measure, whenever the quadrature is exact, on Cartesian, mapped and curvilinear domains. Inner products of an array with a constant and plain integration equal the integral over the domain, and projecting any expression of functions onto a space gives the best approximation in its inner product, exactly when it lies in the space.",
  ['inputs', 'configurations'],
  "all spaces, domains, coordinate systems, expressions, tensor ranks, quadratures, padding",
  "Tests verify a few integrals with hand-picked integrands; the measure, domain factor and weight handling differs between 1D, tensor product, vector and curvilinear paths.",
  ['shenfun/forms/inner.py', 'shenfun/forms/project.py', 'shenfun/spectralbase.py', 'shenfun/utilities/__init__.py', 'shenfun/forms/arguments.py'],
  [('linear forms', 'shenfun/forms/inner.py:inner'), ('projection', 'shenfun/forms/project.py:project, Project'), ('integration', 'shenfun/utilities/__init__.py:dx')],
  ['inner', 'project', 'Project', 'dx', 'scalar_product'])

p('P05', 'Vector calculus operators equal their symbolic definitions',
  "grad, div, curl and Dx of functions and test or trial functions, in any composition and linear combination, give the same fields as symbolic differentiation of the analytic fields, and dot, cross and outer products of fields equal the metric products, in Cartesian and in every curvilinear coordinate system, with covariant or normalised basis vectors and in mapped domains. The identities curl(grad f)=0, div(curl u)=0, div(grad f)=laplacian and product/linearity rules hold for all fields.",
  ['inputs', 'configurations'],
  "all coordinate systems, dimensions, tensor ranks, operator compositions, fields, domains",
  "Every composition of operators creates a new symbolic expression with its own metric terms; the tests hit a few fixed compositions, largely Cartesian, cylindrical or spherical.",
  ['shenfun/forms/operators.py', 'shenfun/forms/arguments.py', 'shenfun/coordinates.py', 'shenfun/utilities/__init__.py'],
  [('operators', 'shenfun/forms/operators.py:div, grad, Dx, curl'), ('expression algebra', 'shenfun/forms/arguments.py:Expr'), ('pointwise tensor products', 'shenfun/utilities/__init__.py:dot, cross, outer')],
  ['project(operator(function))', 'Expr.eval', 'inner'])

p('P06', 'Curvilinear coordinate metrics obey the identities of tensor analysis',
  "For every admissible position vector, the covariant and contravariant basis vectors are reciprocal, the metric tensors are their dot products and mutual inverses, scaling factors and the Jacobian determinant are the positive square roots of the metric, Christoffel symbols are symmetric and equal the projected derivatives of the basis vectors, and the Cartesian mesh is the position vector evaluated on the mesh. Simplification, assumptions and caching never change values.",
  ['configurations'],
  "all coordinate systems in one, two and three parameters, including embedded curves and surfaces and non-orthogonal systems",
  "Users supply arbitrary symbolic position vectors; tests check a few textbook systems through the PDE results.",
  ['shenfun/coordinates.py'],
  [('metrics', 'shenfun/coordinates.py:Coordinates'), ('meshes', 'shenfun/tensorproductspace.py:TensorProductSpace.cartesian_mesh')],
  ['Coordinates.get_covariant_basis', 'Coordinates.get_contravariant_basis', 'Coordinates.get_covariant_metric_tensor', 'Coordinates.get_christoffel_second', 'cartesian_mesh'])

p('P07', 'One-dimensional solvers return the solution of the linear system',
  "For every nonsingular matrix or sum of matrices assembled by the package, the solver the package selects returns u with A u = b to rounding error, along any axis of a multidimensional array, in place or not, for real or complex data, for repeated solves with one factorisation, and with the documented meaning of constraints on singular problems. Every matrix-vector product format agrees with the dense matrix.",
  ['inputs', 'configurations', 'histories'],
  "all matrix types and sums of them, sizes, axes, array ranks, data types, in-place use, constraints, sequences of solves",
  "Specialised banded elimination kernels are selected by sparsity pattern; sizes, axes and sequences outside of the tested handful reach separate code.",
  ['shenfun/la.py', 'shenfun/matrixbase.py', 'shenfun/chebyshev/la.py', 'shenfun/legendre/la.py', 'shenfun/optimization/cython/la.pyx', 'shenfun/optimization/cython/Matvec.pyx'],
  [('solver classes', 'shenfun/la.py:Solve, TDMA, TDMA_O, DiagMA, PDMA, FDMA, TwoDMA, ThreeDMA, HeptaDMA, Solve'), ('Chebyshev solvers', 'shenfun/chebyshev/la.py:Helmholtz, Biharmonic, ADDSolver'), ('matrix products', 'shenfun/matrixbase.py:SparseMatrix.matvec, SpectralMatrix.matvec')],
  ['Solver(u,b)', 'SparseMatrix.solve', 'SparseMatrix.matvec'])

p('P08', 'Multidimensional and block solvers satisfy every wavenumber and every block',
  "For tensor product operators with any number of non-periodic directions, and for block systems of mixed spaces, the solution returned by the general, generic, diagonalising and block solvers satisfies the assembled operator applied to it equal to the right-hand side, including inhomogeneous boundary values, non-separable and coupled terms, and constraints, and all solvers that apply agree.",
  ['inputs', 'configurations'],
  "all tensor product operators and block systems, spaces, sizes, boundary values, constraints, right-hand sides, repeated use",
  "Solvers are chosen by the number of diagonal axes and coupling; tests run a few canonical PDEs rather than checking residuals of arbitrary operators.",
  ['shenfun/la.py', 'shenfun/matrixbase.py', 'shenfun/legendre/la.py', 'shenfun/chebyshev/la.py'],
  [('tensor product solvers', 'shenfun/la.py:SolverGeneric1ND, SolverGeneric2ND, SolverND, SolverDiagonal, Solver2D, Solver3D'), ('block solvers', 'shenfun/la.py:BlockMatrixSolver'), ('operators', 'shenfun/matrixbase.py:TPMatrix, BlockMatrix')],
  ['solver(b)', 'TPMatrix.matvec', 'BlockMatrix.matvec'])

p('P09', 'Matrix algebra behaves like dense matrix algebra over any history',
  "Any sequence of additions, subtractions, scalings, divisions, negations, products, transpositions, in-place updates, copies, format conversions and solves on the sparse, tensor-product and block matrices gives the same matrices as the same sequence on dense arrays. No operation other than an explicit in-place one changes an operand, and results computed earlier (cached solvers or formats) never become visible in later results.",
  ['histories', 'inputs'],
  "all finite sequences of matrix operations on all matrix types and formats",
  "State (lazy diagonals, scale factors, cached solvers, shared arrays) makes results history dependent; tests call each operator once on fresh operands.",
  ['shenfun/matrixbase.py'],
  [('sparse algebra', 'shenfun/matrixbase.py:SparseMatrix, SpectralMatrix, SpectralMatDict'), ('tensor and block algebra', 'shenfun/matrixbase.py:TPMatrix, BlockMatrix, BlockMatrices, Identity')],
  ['SparseMatrix.diags', 'matvec', 'TPMatrix.diags', 'BlockMatrix.diags'])

p('P10', 'Results do not depend on the number of MPI processes or the decomposition',
  "Every distributed computation - transforms (padded or not), scalar products, inner products, projections, solvers, pointwise evaluation, integration, file output and convolution - gives the same global result for any number of processes, slab or pencil decomposition, and axis order as it does on one process, and also on sub-communicators. No number of processes leads to deadlock or an error.",
  ['schedules', 'configurations'],
  "all process counts, decompositions, axis orders, communicators, spaces and operations",
  "The test suite runs on one process only; every distributed code path with empty or uneven blocks is untested.",
  ['shenfun/tensorproductspace.py', 'shenfun/forms/inner.py', 'shenfun/forms/arguments.py', 'shenfun/la.py', 'shenfun/utilities/__init__.py', 'shenfun/io/__init__.py', 'shenfun/fourier/bases.py'],
  [('distribution', 'shenfun/tensorproductspace.py:TensorProductSpace.__init__, eval, local_slice'), ('collective reductions', 'shenfun/forms/inner.py:inner, shenfun/utilities/__init__.py:dx'), ('solvers on distributed arrays', 'shenfun/la.py:SolverGeneric1ND, SolverGeneric2ND')],
  ['global arrays gathered over ranks'])

p('P11', 'All optimisation modes compute the same results',
  "Every routine for which an optimised implementation exists (Cython or Numba) gives the same result as the Python implementation, to rounding error, for all array shapes, axes, data types, memory layouts and sizes that the Python implementation accepts, or refuses them with an exception. Switching modes at run time takes effect for all later calls and never changes what a program computes.",
  ['configurations', 'inputs'],
  "all optimised routines, modes, shapes, axes, data types, sizes",
  "The test suite runs essentially in one mode; the other implementations, and shapes and axes off the beaten path, are never compared.",
  ['shenfun/optimization/__init__.py', 'shenfun/optimization/cython/*.pyx', 'shenfun/optimization/numba/*.py'],
  [('dispatch', 'shenfun/optimization/__init__.py:runtimeoptimizer, optimizer'), ('kernels', 'shenfun/optimization/cython, shenfun/optimization/numba')],
  ['runtimeoptimizer-decorated functions', 'transforms, solvers, matvecs, convolutions under each mode'])

p('P12', 'Pointwise evaluation gives the value of the expansion anywhere',
  "Evaluating a function at arbitrary points of the true domain, by any available method, equals the sum of coefficient times basis function there, for scalar, vector, tensor and mixed spaces, real and complex data, padded spaces and mapped domains; at mesh points it equals the backward transform. It changes neither coefficients nor points.",
  ['inputs', 'configurations'],
  "all spaces, coefficients, point sets (interior, boundary, repeated, single), evaluation methods",
  "Tests evaluate smooth projected functions at a few points; conjugate symmetry, Nyquist and axis handling is only visible for general coefficients.",
  ['shenfun/tensorproductspace.py', 'shenfun/spectralbase.py', 'shenfun/fourier/bases.py', 'shenfun/optimization/cython/evaluate.pyx', 'shenfun/forms/arguments.py'],
  [('evaluation', 'shenfun/tensorproductspace.py:TensorProductSpace.eval, _eval_lm_python, _eval_lm_cython, _eval_python'), ('Function call', 'shenfun/forms/arguments.py:Function.eval')],
  ['Function.__call__', 'Function.eval', 'TensorProductSpace.eval', 'SpectralBase.eval'])

p('P13', 'Padding, dealiasing, refinement and convolution keep the represented modes',
  "Transforming to a padded grid evaluates the same function on the finer grid, and back-transforming truncates exactly; products of band-limited functions computed with 3/2-rule padding have no aliasing error, and convolution equals the exact truncated convolution sum. Refining, assigning to a larger or smaller space and masking Nyquist modes keep exactly the modes they are documented to keep.",
  ['inputs', 'configurations'],
  "all spaces, padding factors, sizes (odd and even), ranks, coefficient arrays, target sizes",
  "Off-by-one and factor-two errors at the Nyquist and truncation boundary only show for full-spectrum data at particular parities.",
  ['shenfun/fourier/bases.py', 'shenfun/spectralbase.py', 'shenfun/tensorproductspace.py', 'shenfun/forms/arguments.py', 'shenfun/optimization/cython/convolve.pyx'],
  [('padding', 'shenfun/fourier/bases.py:FourierBase._padding_backward, _truncation_forward, shenfun/spectralbase.py:SpectralBase._padding_backward'), ('dealiasing', 'shenfun/tensorproductspace.py:get_dealiased, Convolve'), ('refinement', 'shenfun/forms/arguments.py:Function.refine, Function.assign'), ('masking', 'shenfun/fourier/bases.py:get_mask_nyquist, mask_nyquist')],
  ['backward/forward with padding_factor', 'get_dealiased', 'Function.refine', 'Function.assign', 'Convolve', 'mask_nyquist'])

p('P14', 'Stored fields and checkpoints read back exactly, also after a crash',
  "Whatever is written to a result file or checkpoint - scalar, vector, tensor and mixed fields, arrays and coefficients, full or sliced, at any step - reads back bit for bit into a matching space, and time, step and domain data are preserved. If the process dies at any point while a checkpoint is written, a complete earlier or the new checkpoint remains recoverable, and a computation restarted from a checkpoint continues as if it had not been interrupted.",
  ['inputs', 'crash_points', 'histories'],
  "all spaces and ranks, write sequences, slices, steps, crash points during checkpoint writes",
  "Tests write and read once without faults; crash points and overwrite sequences are not sampled.",
  ['shenfun/io/__init__.py', 'shenfun/io/generate_xdmf.py', 'shenfun/forms/arguments.py'],
  [('files', 'shenfun/io/__init__.py:ShenfunFile, ShenfunBaseFile'), ('checkpoints', 'shenfun/io/__init__.py:Checkpoint'), ('index', 'shenfun/io/generate_xdmf.py')],
  ['ShenfunFile.write/read', 'Checkpoint.update/read', 'files on disk'])

p('P15', 'Time integrators converge at their order and integrate step by step',
  "Each time integrator reproduces, at its documented order, the solution of the semi-discrete system for every linear and nonlinear operator it accepts, real or complex, and exponential integrators are exact for purely linear problems. Integrating over one interval equals integrating over its pieces, update hooks are called once per step with the current time, and the result does not depend on what was integrated before with other objects.",
  ['inputs', 'histories', 'configurations'],
  "all integrators, linear/nonlinear operators, step sizes, intervals, spaces, restart points",
  "Tests run each integrator on one equation; order conditions, dispersive operators and multi-call histories are not checked.",
  ['shenfun/utilities/integrators.py'],
  [('integrators', 'shenfun/utilities/integrators.py:IRK3, BackwardEuler, RK4, ETD, ETDRK4, IMEXRK*')],
  ['integrator.solve'])

p('P16', 'Native kernels never access memory out of bounds or execute undefined behaviour',
  "For every input the Python interface accepts - any size down to the smallest, any axis, data type, stride and quadrature - the compiled kernels read and write only inside the arrays they are given, never read uninitialised or freed memory, and execute no undefined arithmetic. Degenerate sizes give a result or a Python exception, never a crash.",
  ['inputs', 'configurations'],
  "all compiled kernels, array shapes and strides, data types, sizes and axes reachable from the public interface",
  "The kernels are compiled with bounds checks disabled; an out-of-bounds read of a neighbouring value often goes unnoticed in tests.",
  ['shenfun/optimization/cython/*.pyx', 'shenfun/legendre/fastgl/*'],
  [('kernels', 'shenfun/optimization/cython/la.pyx, Matvec.pyx, transforms.pyx, evaluate.pyx, convolve.pyx, outer.pyx, cross.pyx, applymask.pyx, Cheb.pyx, leg2chebm.pyx'), ('fast Gauss-Legendre', 'shenfun/legendre/fastgl/fastgl.cpp')],
  ['AddressSanitizer', 'UndefinedBehaviorSanitizer'])

p('P17', 'Operations leave their operands intact and are repeatable',
  "No operation changes its inputs unless it is documented to work in place: transforms, evaluation, inner products, projections, operators, matrix products, solvers, dealiasing and copying leave arrays, coefficients, expressions, spaces and matrices as they were. Repeating any operation, interleaving operations on other spaces of the same or different size, or using derived (dealiased, refined, homogeneous, orthogonal, copied) objects in between gives the same results to the last rounding.",
  ['histories'],
  "all interleavings of public operations over sets of live spaces, functions, matrices and expressions",
  "Class-level and instance-level caches, shared work arrays and in-place FFT buffers make results depend on history; tests use fresh objects.",
  ['shenfun/spectralbase.py', 'shenfun/forms/arguments.py', 'shenfun/forms/inner.py', 'shenfun/utilities/__init__.py', 'shenfun/tensorproductspace.py', 'shenfun/matrixbase.py'],
  [('caches', 'shenfun/spectralbase.py, shenfun/utilities/__init__.py:CachedArrayDict, shenfun/forms/arguments.py:Function.backward'), ('expression arithmetic', 'shenfun/forms/arguments.py:Expr')],
  ['snapshots of operands before and after every call', 'repeat-call results'])

p('P18', 'Galerkin solutions of differential equations reproduce manufactured solutions',
  "For any linear variational problem with constant or variable coefficients that the package can assemble and solve, in any of its spaces, domains, dimensions and coordinate systems, with any inhomogeneous boundary data, the computed solution equals a manufactured solution that lies in the approximation space and converges spectrally to a smooth one that does not.",
  ['inputs', 'configurations'],
  "all families, Galerkin and Petrov-Galerkin methods, orders, coefficients, boundary data, domains, coordinate systems",
  "Demos used as tests solve fixed equations on mostly reference domains; interactions of boundary lifting, domain scaling and variable coefficients are not covered.",
  ['shenfun/forms/inner.py', 'shenfun/la.py', 'shenfun/matrixbase.py', 'shenfun/forms/arguments.py', 'shenfun/forms/operators.py', 'shenfun/tensorproductspace.py', 'shenfun/spectralbase.py'],
  [('assembly', 'shenfun/forms/inner.py:inner'), ('boundary lifting', 'shenfun/tensorproductspace.py:BoundaryValues'), ('solution', 'shenfun/la.py')],
  ['solution evaluated at mesh and random points'])

p('P19', 'Legendre-Chebyshev and discrete Legendre transforms are exact for every size',
  "The fast Legendre-to-Chebyshev and Chebyshev-to-Legendre conversions (direct, fast multipole and Hale-Townsend) and the discrete Legendre transform equal the exact dense conversion for all sizes, levels, directions, axes and real or complex data, are inverse to each other and linear, and transposed application equals the transposed matrix. Gauss-Legendre points and weights are accurate for every size.",
  ['inputs', 'configurations'],
  "all sizes (block boundaries, odd, even, small), levels and block sizes, axes, data types, directions",
  "The hierarchical block layout depends on size through integer arithmetic; tests sample a few sizes.",
  ['shenfun/legendre/dlt.py', 'shenfun/legendre/fastgl/fastgl.cpp', 'shenfun/legendre/lobatto.py', 'shenfun/optimization/cython/leg2chebm.pyx'],
  [('conversions', 'shenfun/legendre/dlt.py:Leg2Cheb, Cheb2Leg, FMMLeg2Cheb, FMMCheb2Leg, Leg2chebHaleTownsend'), ('discrete Legendre transform', 'shenfun/legendre/dlt.py:DLT'), ('quadrature', 'shenfun/legendre/fastgl, shenfun/legendre/lobatto.py')],
  ['conversion results', 'quadrature points and weights'])

p('P20', 'Lagrangian particles and field probes follow the interpolated velocity',
  "Particles advanced through a velocity field move by the time step times the field's expansion evaluated at their own position, independent of the number and order of particles, the component count and the evaluation method, and particle storage reads back what was written.",
  ['inputs', 'histories'],
  "all velocity fields, particle sets, step sequences",
  "One test advances one set of particles.",
  ['shenfun/utilities/lagrangian_particles.py'],
  [('particles', 'shenfun/utilities/lagrangian_particles.py:LagrangianParticles')],
  ['LagrangianParticles.x'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl')
with open(out, 'w') as f:
    for q in P:
        assert len(q['title']) <= 80, q['title']
        f.write(json.dumps(q)+'\n')
