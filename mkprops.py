"""Writes properties.jsonl (kept as a script so that the texts stay in one reviewable place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state='', mechanism=mech, observe_at=observe,
                               hook_needed=False)))

p('C01', 'Chart conversions never move a projective point',
  'Converting between homogeneous coordinates, affine coordinates of any chart and affine coordinates of any other chart (including the same chart) never changes the projective point, and any chain of conversions agrees with the direct one. If no chart is requested, the chosen chart is one whose homogeneous coordinate has the largest modulus, and the translations between homogeneous and affine coordinate positions agree with where a coordinate really ends up. This holds for single points and for every batch layout of points and charts.',
  ['inputs', 'histories', 'configurations'],
  'All projective dimensions, all (old, new) chart pairs, all chains of conversions, all points for which the target chart is defined (including zero coordinates and modulus ties), all batch layouts and integer types of chart arguments.',
  'Tests check a handful of fixed charts in one direction; chart change is covered by no passing test, and no test follows a chain of conversions or mixes batched and scalar charts.',
  ['cyjax/projective.py', 'cyjax/util.py'],
  'Roll-based removal/insertion of one coordinate, with off-by-one index shifts depending on which chart index is larger.',
  'values returned by the public chart conversion functions')

p('C02', 'Fubini-Study potential, metric and mixed Hessians are exact',
  'The Fubini-Study potential and metric equal their closed form at every point, for affine and (potential only) homogeneous input, with the conjugate coordinates either implied or passed explicitly as independent values. The mixed Hessian operator returns the matrix of derivatives holomorphic in the row index and antiholomorphic in the column index, for any potential, any argument positions and any extra arguments, and reproduces the metric from the potential. Results are the same for single points and for any batch shape.',
  ['inputs', 'configurations'],
  'All dimensions, all points, all independent conjugate arguments, all polynomial/logarithmic potentials, all argument positions, all batch shapes.',
  'Tests compare a few random points with a second implementation, never with non-conjugate second arguments or with permuted argument positions.',
  ['cyjax/projective.py', 'cyjax/differential.py', 'cyjax/util.py'],
  'Closed formula over flattened batches; derivative operator composition in a fixed order.',
  'arrays returned by the public functions')

p('C03', 'Polynomial objects evaluate to the polynomial they were built from',
  'A polynomial object built from a string, a symbolic expression, a symbolic polynomial or coefficient/power arrays evaluates, for every supported way of passing variables and parameters, to the value of that polynomial, with each vector component and each parameter bound to the position the object reports. Direct evaluation, compiled batched evaluation and symbolic (or partly symbolic) evaluation agree. Variables and parameters that are found rather than declared come in the order of the generators of the symbolic polynomial, else alphabetically. Coefficients may be real or complex numbers. Names given by the user keep that meaning even if the symbolic library reserves them (E, S, N, beta).',
  ['inputs', 'programs', 'configurations'],
  'All polynomials over scalar and vector variables with arbitrary (also non-consecutive) subscripts and ordered parameter lists, all construction routes, positional/keyword/mixed calls, all batch layouts, all numeric and symbolic arguments.',
  'Tests evaluate a few fixed real polynomials; they do not vary construction route, parameter order, calling convention and batching together, and never evaluate complex coefficients numerically.',
  ['cyjax/polynomial.py'],
  'Recursive translation of the symbolic expression to closures with index tables per variable and parameter.',
  'return value of calling the object or its compiled evaluator')

p('C04', 'Affine evaluation of homogeneous polynomials is coherent in every patch',
  'Evaluating a homogeneous polynomial in an affine patch equals evaluating it at the homogeneous point whose patch coordinate is 1, for one or several vector variables, for every patch (given by position), and for patches given as integers of any kind (also zero-dimensional arrays), tuples or batched arrays. Patch tuples are numbered without collisions, and the answers do not depend on which patches were requested earlier. The built-in Fermat and Dwork families agree with the generic polynomial of the same expression.',
  ['inputs', 'histories', 'configurations'],
  'All homogeneous and multi-homogeneous polynomials, all patches, all orders of earlier patch requests, all points and parameters, all batch layouts.',
  'Tests use one or two polynomials whose subscripts start at zero and request patches in one order on fresh objects.',
  ['cyjax/polynomial.py'],
  'Lazily filled table of affine polynomials indexed by a mixed-radix patch number; switch over patches in compiled evaluation.',
  'return values of evaluation with a patch, patch numbering')

p('C05', 'Polynomial arithmetic and differentiation are algebraically correct',
  'Adding, subtracting or multiplying a polynomial object with another one, a symbol or a number, and differentiating it, gives an object that represents the algebraic result. The variables, their subscripts and the parameters of the result are the union of those of the operands in order of first appearance (subscripts ascending), so evaluation still binds inputs correctly. Both spellings of a subscripted symbol (z1 and z_1) name the same component. Operands are not changed.',
  ['inputs', 'programs', 'histories'],
  'All expression trees over the operations with overlapping and disjoint variables, subscripts and parameters; all numeric scalar types.',
  'Tests perform single operations on fixed operands; chains, unions of subscripts and operand immutability are not explored.',
  ['cyjax/polynomial.py'],
  'Merging of metadata lists next to the symbolic operation.',
  'variables, parameters, symbolic terms and evaluated values of results and operands')

p('C06', 'Polynomial decompositions reassemble to the same polynomial',
  'Splitting a polynomial into coefficients, parameter factors and powers and building a polynomial from them again gives the same polynomial, and the coefficient polynomials in one chosen variable, listed from highest degree to constant, sum back to the original and do not contain that variable (spelled z1 or z_1). Evaluating monomials from coefficient and power arrays gives the exact monomial values in every evaluation mode (logarithmic mode: for nonzero complex values).',
  ['inputs', 'configurations'],
  'All polynomials with numeric (also complex) and parametric coefficients, all choices of single variable, all power arrays including zero powers, all evaluation modes.',
  'Tests round-trip one polynomial with simple real coefficients and compare modes on one array.',
  ['cyjax/polynomial.py'],
  'Term walk over the symbolic polynomial, separate treatment of numeric and symbolic factors.',
  'returned coefficient, parameter and power lists; coefficient objects; monomial arrays')

p('C07', 'Line-bundle section bases are complete, minimal and evaluated exactly',
  'The full basis of a given degree lists every monomial of that degree exactly once, and the reported sizes equal the number of listed sections. The reduced basis is a linear basis of the degree-k forms modulo the defining polynomial at the given parameters, and has the size announced for a Calabi-Yau hypersurface. Evaluating sections at homogeneous or affine coordinates (any patch, either evaluation mode, any batch shape) gives the values of exactly these monomials.',
  ['inputs', 'configurations'],
  'All dimensions and degrees, all defining polynomials and parameter values, all points, patches and batch shapes.',
  'Tests check sizes and a few values for one dimension; linear independence modulo the polynomial is never tested.',
  ['cyjax/donaldson.py', 'cyjax/util.py'],
  'Combinatorial enumeration, greedy removal of one monomial per relation, two monomial evaluation schemes.',
  'power matrices, sizes and section values')

p('C08', 'Sampled points lie on the variety, in the requested number and form',
  'Sampling returns exactly the requested number of points, all finite, pairwise different, all satisfying the defining equation for the given parameters, for any homogeneous defining polynomial (the degree need not match the dimension), count and parameter value. With the same key the affine, homogeneous and weighted variants describe the same points, patches are those of largest modulus, and returned weights are the weights of exactly these points; different keys give different points. On a hyperplane, whose Fubini-Study distribution is known in closed form, the sample moments agree with it.',
  ['inputs', 'configurations'],
  'All defining polynomials, parameters, counts (also not divisible by the degree), keys and output flag combinations.',
  'Tests sample one family with one key; count, flag combinations and degree/dimension mismatches are not varied.',
  ['cyjax/variety.py', 'cyjax/random.py'],
  'Intersection with random lines, polynomial root finding, truncation to the requested count.',
  'returned points, patches and weights')

p('C09', 'Monte Carlo weights equal the ratio of the two volume forms',
  'The weight of a point equals the holomorphic volume density divided by the (normalised) determinant of the induced Fubini-Study metric, and equals the quotient of the two measures when they are requested separately. It does not depend on which coordinate is treated as dependent nor on the affine patch used for the point. This holds for every dimension, volume argument and batch layout.',
  ['inputs', 'configurations'],
  'All points on all varieties, all dependent coordinates and patches, all volume arguments, all batch layouts.',
  'Tests check weights only through noisy volume estimates in one configuration.',
  ['cyjax/variety.py'],
  'Gradient, embedding Jacobian, pullback determinant and normalisation factor.',
  'returned weights and separate measures')

p('C10', 'Defining gradient, embedding Jacobian and induced metrics are exact',
  'The gradient of the defining equation, the Jacobian of the embedding for any dependent coordinate, and the pullback of any ambient metric (also with independent conjugate data) equal the exact algebraic expressions. When no dependent coordinate is given, the chosen one maximises the modulus of the gradient and is reported together with the result. Results do not depend on batch layout.',
  ['inputs', 'configurations'],
  'All varieties, points, patches, dependent coordinates, ambient metrics and batch layouts.',
  'Tests cover fixed dependent indices for one variety; the automatic choice and independent conjugate data are mostly untested.',
  ['cyjax/variety.py', 'cyjax/differential.py', 'cyjax/util.py'],
  'Automatic differentiation of the patch switch, roll-based insertion of the dependent column.',
  'returned gradients, Jacobians, metrics and indices')

p('C11', 'Solving for the dependent coordinate returns all solutions in place',
  'Given all coordinates but one (in an affine patch or homogeneous), solving the defining equation returns one point per root, i.e. exactly the complete set of roots with multiplicity. Each returned point keeps the given coordinates at their positions, has the root at the dependent position, and satisfies the defining equation, also for very large, very small or nearly real coordinates. Batched inputs give the batch of individual results.',
  ['inputs', 'configurations'],
  'All varieties, parameters, patches (or none), dependent positions, given coordinates, batch layouts.',
  'Tests solve in one patch and check only that the equation vanishes.',
  ['cyjax/variety.py', 'cyjax/polynomial.py'],
  'Coefficient extraction in the dependent variable, root finding, roll-based insertion.',
  'returned array of points')

p('C12', 'Algebraic Kaehler potential, metric and eta follow from H and sections',
  'For a Hermitian positive matrix H and a set of sections, the Kaehler potential, the metric on the variety and the eta ratio equal the values defined by the algebraic ansatz, exactly up to rounding. The metric is reported with the affine patch and dependent coordinate it refers to. This holds for every degree, dimension, point, H (also non-diagonal complex) and for any mix of batched and unbatched arguments.',
  ['inputs', 'configurations'],
  'All varieties, section bases, H matrices, points (homogeneous or affine), dependent choices and batch layouts.',
  'Tests compare against automatic differentiation at a few points in one dimension.',
  ['cyjax/donaldson.py', 'cyjax/differential.py'],
  'Lazy computation graph of contractions of H with sections and their derivatives.',
  'values returned by the metric object')

p('C13', 'Derivatives of the metric and Ricci curvature are exact',
  'Every intermediate derivative the geometry object offers (of sections, contractions, projective and local metric) equals the corresponding exact derivative, and the Ricci tensor and scalar equal minus the mixed derivative of the logarithm of the metric determinant along the variety and its trace. This holds for full and for diagonal H.',
  ['inputs', 'configurations'],
  'All varieties, degrees, points, H matrices (full and diagonal), patches and dependent coordinates.',
  'Tests check some quantities against automatic differentiation for one small case; diagonal H is untested.',
  ['cyjax/donaldson.py'],
  'Hand-written index formulas for up to fourth mixed derivatives.',
  'attributes of the geometry object, Ricci outputs of the metric object')

p('C14', 'Geometric results do not depend on coordinates or access history',
  'The eta ratio (for a Calabi-Yau hypersurface; otherwise up to the known power of the homogeneous coordinate) and the Ricci scalar are the same for every affine patch, every dependent coordinate and every rescaling of homogeneous input, while potential, metric and Ricci tensor change by exactly the corresponding coordinate transformation. Supplying the gradient or the dependent coordinate explicitly does not change results. Values read from one geometry object do not depend on the order or repetition of earlier reads.',
  ['inputs', 'histories', 'configurations'],
  'All points in all charts, all dependent coordinates, all rescalings, all sequences of reads.',
  'Tests evaluate one chart at a time and each quantity on a fresh object.',
  ['cyjax/donaldson.py', 'cyjax/projective.py', 'cyjax/variety.py'],
  'Chart selection, dependent selection and cached lazy evaluation.',
  'values returned for equivalent descriptions of the same point and for different read sequences')

p('C15', 'A Donaldson step applies the balanced-metric operator to the samples',
  'One step returns the inverse transpose of the weighted average, over all sampled points of all batches, of section products divided by the current metric density, scaled by the number of sections over the volume. The result is Hermitian, depends only on the Hermitian part of the input matrix, and points with non-finite weight do not contribute. Repeated steps use exactly the sampled points of the given keys.',
  ['inputs', 'histories', 'configurations'],
  'All varieties, bases, H matrices, volumes, numbers and sizes of batches, keys, injected non-finite weights.',
  'Tests run a few steps and look at convergence of a noisy accuracy only.',
  ['cyjax/donaldson.py'],
  'Accumulation over batches in a compiled loop, inversion and transposition.',
  'returned matrix compared with the points drawn during the step')

p('C16', 'Accuracy measure and training loss equal their sample formulas',
  'The sigma accuracy equals the weighted mean deviation of eta from its weighted average over the sampled points, is non-negative, and does not change when H is multiplied by a positive number. The training loss equals the weighted squared deviation of the normalised eta plus the penalty for negative eta on the given sample, and its derivative with respect to H treats the normalisation of eta as constant. Batched parameters and matrices give the individual results.',
  ['inputs', 'configurations'],
  'All varieties, bases, H matrices (also indefinite for the loss), parameters, sample counts, batch layouts.',
  'The loss is covered by no passing test; the accuracy is only checked to be small.',
  ['cyjax/donaldson.py', 'cyjax/ml.py'],
  'Sample means of eta and weights; stop-gradient on the normalisation.',
  'returned scalars compared with the drawn or given sample')

p('C17', 'Monte Carlo integration averages the weighted integrand over all samples',
  'The integral estimate is the mean of integrand times weight over the requested samples, and the variance estimate is the matching variance of that mean, for scalar and array-valued, real and complex integrands. Integrating in batches uses the requested number of batches of the requested size with independent randomness per batch and equals the estimate over the union of their samples. The variety volume is this estimate for the constant integrand.',
  ['inputs', 'configurations'],
  'All integrands, samplers, counts, batch numbers and sizes, with and without variance.',
  'Tests integrate only the constant function, for which several wrong formulas agree.',
  ['cyjax/util.py', 'cyjax/variety.py'],
  'Sample means, scan over batches with key splitting.',
  'returned estimates compared with samples handed out by the sampler')

p('C18', 'The buffered sample stream is reproducible, gap-free and never repeats',
  'The stream delivered by the buffered sampler is determined by its seed alone: every element is delivered exactly once and in order, independent of buffer size and of where refills happen, and no element repeats. Each element holds the requested number of parameter sets drawn from the given parameter sampler, and for each of them the requested number of independently drawn points on that variety with their patches and weights. The key sequence behind it never hands out a key twice and is the same for an integer seed and the key made from it.',
  ['histories', 'configurations', 'inputs'],
  'All seeds (integers or keys), buffer sizes, batch sizes, numbers of requested elements.',
  'No passing test creates the sampler.',
  ['cyjax/ml.py', 'cyjax/util.py'],
  'Index into a list buffer that is refilled when exhausted; splitting key sequence.',
  'tuples returned by iteration')

p('C19', 'Cholesky parametrisation yields the stated Hermitian positive matrix',
  'Decoding diagonal and row-major upper entries gives M times its conjugate transpose for the upper triangular M they describe, and decoding the flat real parameter vector uses diagonal, real parts, then imaginary parts. The result is Hermitian and, for nonzero diagonal, positive definite, for every size from one upwards. The default initialisation decodes to the identity, and requested fluctuations change only the diagonal, uniformly within the stated amount, in the requested number format. Decoding is differentiable with the exact derivative.',
  ['inputs', 'configurations'],
  'All sizes, all real/complex parameter values, batching by mapping, number types.',
  'No passing test covers these functions.',
  ['cyjax/ml.py'],
  'Triangular index assignment and splitting of a flat vector by its square-root size.',
  'returned matrices and parameter vectors')

p('C20', 'The moduli network maps each modulus set to its own parameter vector',
  'The network returns one real parameter vector of squared-basis-size length per set of moduli, and a batch gives the same as the individual sets. Its features are the moduli angles and the moduli, real and imaginary parts of all products of the chosen powers, as selected by the feature switches. Freshly initialised, the output does not depend on the moduli and decodes to a positive multiple of the identity up to the chosen fluctuation; with deterministic evaluation, repeated calls agree. With given weights, the output is the exact result of the dense layers with the chosen activation (and of the sigmoid-suppressed product if chosen), also its derivatives by the weights, and dropout leaves out or rescales each unit of each layer independently at the rate of that layer only.',
  ['inputs', 'configurations'],
  'All numbers of moduli, power lists, feature switches, layer sizes, sigmoid suppression on/off, batch shapes.',
  'No passing test instantiates the network.',
  ['cyjax/ml.py'],
  'Cartesian product of powers, concatenation of features, reshape of the final layer.',
  'outputs of applying the network with chosen weights')

p('C21', 'Random samplers have the stated range, shape and distribution',
  'Every sampler returns arrays of the requested shape and kind whose values lie in the stated region (square, annulus, unit circle, unit sphere, overlap of two patches), for every shape, radius, dimension and patch pair. The same key reproduces the same values and different keys differ. Low moments and correlations agree with the stated uniform distribution, and for the overlap sampler with invariance under changing the chart.',
  ['inputs', 'configurations'],
  'All keys, shapes (also empty and scalar), radii, dimensions, patch pairs and patch sizes.',
  'Tests check one range per function; several are covered by no passing test, distribution is not checked.',
  ['cyjax/random.py'],
  'Transformations of uniform and normal variates.',
  'returned arrays')

p('C22', 'Array utilities remove, insert, shuffle and reshape exactly as stated',
  'Removing an element returns it and the others in order; inserting values or columns puts them at the stated position (negative positions count from the end of the result); flattening and unflattening coordinates is lossless; shuffling permutes along the given axis only, keeping slices intact; products and binomials are exact. Key sequences are reproducible, start from integers or keys alike, and never repeat a key. Inputs are never modified.',
  ['inputs', 'histories', 'configurations'],
  'All arrays, ranks, positions (static or traced), seeds, shapes.',
  'Tests cover a few fixed positions and never check input immutability.',
  ['cyjax/util.py'],
  'Roll-based implementations with traced indices.',
  'returned arrays and unchanged inputs')

p('C23', 'The training script records consistent artefacts',
  'A training run writes, at every logging step, all losses so far, one row of validation accuracies per logging step so far for the recorded validation parameters, and network parameters that reproduce the network; after the run, losses and parameters include the last step. Recorded losses are those of the sample and network of each step, and all sampled moduli lie within the configured bounds. The optimiser is handed the gradient of that loss, randomness is fresh in every step, and a run is determined by its seed. The final evaluation pairs every grid point of the moduli grid with the accuracy of the metric the trained network gives for exactly that modulus, whatever the evaluation batch size, and the saved figures show their minimum, maximum and mean. Grids span exactly the configured bounds with the configured number of points.',
  ['configurations', 'histories'],
  'All configurations of varieties, batch sizes, grid sizes, logging intervals, seeds and run lengths.',
  'The script is not run by any test.',
  ['scripts/train.py', 'scripts/conf/quintic.yaml', 'scripts/conf/dwork.yaml'],
  'Loop with modulo logging, flattened grid evaluated in slices and reshaped.',
  'files written in the run directory')

p('C24', 'Values do not depend on number format or transformation',
  'Every public numerical function gives, for the same numbers, the same value (to the working precision) in every supported form of call: single or double precision mode, jax or numpy arrays of any complex width, real, integer or complex parameters, any kind of integer for charts and positions, called directly, compiled, vectorised over a batch, vectorised and compiled, mapped sequentially, or one item at a time. Shapes are those of the direct call and results are finite wherever the value is.',
  ['inputs', 'configurations'],
  'All functions of charts, metrics, polynomials, varieties, algebraic metrics, curvature and losses; all combinations of precision mode, array kind, parameter kind, integer kind and transformation; all regular points.',
  'Tests run in one precision mode with jax arrays of the default type and mostly one way of calling.',
  ['cyjax/projective.py', 'cyjax/util.py', 'cyjax/polynomial.py', 'cyjax/variety.py', 'cyjax/donaldson.py', 'cyjax/differential.py', 'cyjax/random.py'],
  'Automatic vectorisation by declared ranks, integer indexing under tracing, promotion rules.',
  'values and shapes of results')

p('C25', 'Objects describe themselves truthfully',
  'The description of a polynomial object agrees with what it is: its call signature, the positions of variables and parameters, the lists of its symbols (grouped or flat, with or without parameters), its printed form and its typeset form name the same variables, subscripts and parameters in the same order, and the printed and typeset polynomial read back is the polynomial (integer coefficients written as integers). This holds for built objects and for results of arithmetic, differentiation and affine restriction. A variety reports the dimensions of the ambient space and of itself, its parameters, and prints as the zero set of its polynomial. Splitting a merged name gives back name and subscript.',
  ['inputs', 'programs'],
  'All polynomial objects with scalar and vector variables, arbitrary subscripts and parameters, all constructors and operations; all varieties; all names and subscripts.',
  'Tests never look at signatures, positions of symbols, printed or typeset forms.',
  ['cyjax/polynomial.py', 'cyjax/variety.py'],
  'Text assembled from lists of names kept next to the symbolic expression.',
  'signatures, attributes, printed and typeset text')

p('C26', 'Accuracy plots show the marginals of the data at the right place',
  'The figure drawn from accuracies on a grid of moduli shows in its triangular array: for every real direction (real and imaginary part of each parameter, in order) the mean as a line and minimum and maximum as a band over all other directions, at the grid values of that direction; for every pair of directions an image of the chosen marginal (minimum, maximum or mean over the remaining directions), each pixel centred at its grid values, first direction across and second upwards. Vertical limits and colours use the given limits or the extremes of the data, the outer axes are labelled with part and name of their parameter, and a given figure is the one drawn into.',
  ['inputs', 'configurations'],
  'All numbers of parameters, all grid shapes (also unequal), all ranges, values, marginal functions, given or automatic limits.',
  'The script is not run by any test.',
  ['scripts/train.py'],
  'Nested loops over pairs of directions, transposed images, shared axes.',
  'the figure object: lines, bands, images, extents, limits, labels')

p('C27', 'Declarations and calls that do not fit are rejected, fitting ones accepted',
  'A polynomial declaration is accepted exactly if it is consistent: subscript lists only together with names, every symbol either a parameter or a component of a named variable when both are given, no name both with and without subscript, only declared subscripts; an accepted declaration has exactly the declared (or detected) variables, subscripts and parameters. A call is accepted exactly if every variable is given once and the number of parameters is right. Mixing scalar and vector variables of one name, non-polynomial expressions, non-integer charts, arrays of the wrong rank, conjugates of another shape and points with the wrong number of coordinates are rejected instead of giving a number.',
  ['inputs', 'programs', 'configurations'],
  'All small declarations over a universe of scalar, subscripted and parameter symbols with all combinations of options; all calling patterns; all listed kinds of misuse next to their nearest valid use.',
  'Tests contain almost no negative cases.',
  ['cyjax/polynomial.py', 'cyjax/projective.py', 'cyjax/util.py', 'cyjax/variety.py', 'cyjax/donaldson.py', 'cyjax/ml.py'],
  'Assertions and bookkeeping flags in a loop over the symbols of an expression.',
  'whether an exception is raised; variables, subscripts and parameters of accepted objects')

p('C28', 'Differentiating through the library gives the exact derivatives',
  'Values computed by the library can be differentiated with the means of the array library, in forward and reverse mode, compiled or not, for single points and batches: the rates of change of polynomial values, gradients, chart conversions, potentials, metrics, Jacobians, sampling weights, sections and eta along any direction of the points, the moduli and the Hermitian matrix are the exact derivatives. Roots returned by solving for the dependent coordinate move as the implicit function theorem says, and sampled points stay on the variety when the moduli move. Induced metric and Ricci tensor obtained by repeated mixed derivatives of a written-out potential are the exact ones.',
  ['inputs', 'configurations', 'programs'],
  'All families of varieties, all patches and dependent coordinates, arbitrary points, moduli, H and directions, any subset of arguments moving, compiled and not, single and batched.',
  'Tests look at values; the only derivatives they take are those inside the library.',
  ['cyjax/projective.py', 'cyjax/polynomial.py', 'cyjax/variety.py', 'cyjax/donaldson.py', 'cyjax/differential.py'],
  'Index operations, conditionals, square roots and logarithms under automatic differentiation; real-valued results of complex arguments.',
  'results of jvp and vjp through the public functions')

p('C29', 'Any line bundle sections can define the algebraic metric',
  'The algebraic metric, its geometry object and the Donaldson step use nothing of the sections but their degree and their values: for user-defined sections, such as arbitrary linear combinations of monomials in any number, potential, metric, eta, Ricci tensor and scalar are those of the ansatz with these sections, the Donaldson step gives the inverse transpose of the weighted average of their products with the number of sections as factor, and additional section arguments given to the geometry object reach the sections.',
  ['inputs', 'configurations', 'programs'],
  'All families, section degrees 1..3, complex linear combinations (more, as many or fewer than the monomials), arbitrary Hermitian H, points, patches, dependent coordinates, single and batched, compiled or not.',
  'Tests only use monomials.',
  ['cyjax/donaldson.py'],
  'Intermediate quantities are registered per object from a function of the sections; optimisations may assume monomials.',
  'results of the metric object, of the geometry object and of a Donaldson step on the recorded sample')

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
