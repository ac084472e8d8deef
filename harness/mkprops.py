"""Writes properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def prop(i, title, st, over, text, why, files, mech, observe, state=()):
  P.append({'id': i, 'title': title, 'statement': st,
            'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
            'anchors': {'files': files, 'state': [dict(zip(('name','meaning','where'), s)) for s in state],
                        'mechanism': [{'name': a, 'where': b} for a, b in mech],
                        'observe_at': observe, 'hook_needed': None}})

prop('C01', 'Tensor-product layers are O(3)-equivariant and couple exactly what is allowed',
 'For every choice of input/output maximum degrees, parity channels, feature counts and every parameter value, the coupled-tensor layers (general, fused, and dense-tensor products) commute with every rotation and reflection of their inputs. An output (parity, degree) channel is non-zero exactly when some allowed combination of input channels (triangle rule on degrees, product rule on parities) feeds it, and the output has the documented shape, dropping the pseudotensor channel only when nothing can reach it.',
 ['inputs','configurations'], 'all group elements, all degree/parity/feature configurations, all parameters, both degree orders',
 'the tests use a handful of degree combinations with freshly initialised parameters and one random rotation each; couplings that need asymmetric degrees, missing parity channels or non-initial parameters are never exercised',
 ['e3x/nn/modules.py','e3x/so3/irreps.py'], [('Tensor/FusedTensor/TensorDense','e3x/nn/modules.py'),('coupling masks','e3x/nn/modules.py: _make_tensor_product_mask'),('Clebsch-Gordan coefficients','e3x/so3/irreps.py: clebsch_gordan')],
 ['module outputs for x and g.x with the same parameters'])
prop('C02', 'Pointwise layers and their compositions are O(3)-equivariant',
 'Dense layers, embeddings, activation functions, degree/parity changes and feature addition, and every composition of them, commute with every rotation and reflection of the input features, for all parameter values (biases included). Each parity and degree keeps its own type: nothing but the scalar channel ever receives a bias or an ungated nonlinearity.',
 ['inputs','programs','configurations'], 'all group elements, inputs, parameters and all programs composed of the operations',
 'tests check single layers at initial parameters (zero bias) and a few degrees; compositions and non-initial parameters are not covered',
 ['e3x/nn/modules.py','e3x/nn/activations.py','e3x/nn/features.py'], [('Dense per (parity, degree) weights','e3x/nn/modules.py: Dense'),('gated activations','e3x/nn/activations.py'),('feature utilities','e3x/nn/features.py')],
 ['outputs for x and g.x with the same parameters'])
prop('C03', 'Message passing and attention are O(3)-equivariant',
 'Message-passing and (multi-head, self-) attention layers, with the basis expansion computed from displacement vectors, commute with every rotation and reflection of the node features and positions, for dense and sparse neighbour lists, all parameters, and every combination of optional features (relative positional encodings, cutoffs, coupled degrees).',
 ['inputs','configurations'], 'all group elements, graphs, positions, parameters and layer options',
 'tests fix one graph and a few options with initial parameters',
 ['e3x/nn/modules.py','e3x/nn/functions','e3x/nn/wrappers.py'], [('MessagePass/MultiHeadAttention/SelfAttention/MultiHeadSelfAttention','e3x/nn/modules.py'),('basis','e3x/nn/wrappers.py: basis')],
 ['module outputs for the original and the transformed point cloud'])
prop('C04', 'Message passing depends only on the graph, not on how it is written down',
 'For message-passing and attention layers, relabelling the nodes relabels the outputs, reordering edges or adding padding entries changes nothing, dense and sparse lists of the same graph give the same result, and batch elements do not interact. The output of a node depends only on the node itself and the sources of its edges; a node without edges (or whose edges are all cut off) gets a neutral, finite output and finite derivatives.',
 ['inputs','configurations'], 'all graphs (loops, repeated edges, isolated nodes), orders, paddings, batch shapes and layer options',
 'tests compare a few fixed lists; isolated nodes, padding positions and derivatives are not covered',
 ['e3x/nn/modules.py','e3x/ops/indexed.py'], [('indexed operations','e3x/ops/indexed.py'),('mask/segment inference','e3x/nn/modules.py')],
 ['module outputs and gradients on equivalent descriptions of a graph'])
prop('C05', 'Indexed operations mean the same on dense and sparse lists, padding is inert',
 'Gathering, sum, min, max and softmax over index lists equal their mathematical definition on the edges of the graph, for every list, batch shape, feature shape and dtype: entry k is read from the node it names, each node reduces over exactly its own entries, padded or masked entries never contribute, and a node without entries gets the identity of the reduction. Softmax weights of the entries of a node are normalised, shift invariant, never overflow, vanish where the multiplicative mask does, and have finite derivatives.',
 ['inputs','configurations'], 'all index lists (any order, loops, repeats, empty nodes, padding anywhere), values, batch shapes, dtypes',
 'tests check a few literal lists; batch dimensions combined with padding, empty neighbourhoods, masks and large logits are not covered',
 ['e3x/ops/indexed.py'], [('segment/masked reductions','e3x/ops/indexed.py: _indexed_reduce'),('gather','e3x/ops/indexed.py: gather_src, gather_dst'),('softmax','e3x/ops/indexed.py: indexed_softmax')],
 ['return values and derivatives of the indexed operations'])
prop('C06', 'Index-list conversions preserve the edges of the graph',
 'Converting between dense and sparse index lists keeps, for every batch element, exactly the same edges with the same multiplicity, marks everything else as padding, keeps batch dimensions and yields one row per node; converting back returns the same edges. All-pairs lists contain every ordered pair exactly once, with or without self pairs as requested.',
 ['inputs'], 'all index lists, padding indices (given or inferred), batch shapes',
 'tests use five literal lists; sources beyond the largest destination, nodes without edges or batches of different fill are not covered',
 ['e3x/ops/indexed.py'], [('conversions','e3x/ops/indexed.py: dense_to_sparse_indices, sparse_to_dense_indices'),('pair lists','e3x/ops/indexed.py: dense_pairwise_indices, sparse_pairwise_indices')],
 ['returned index lists'])
prop('C07', 'Coefficient caches are transparent under any history, crash or concurrency',
 'Whatever the history of requests, cache settings and cache file contents (absent, smaller, larger, written by another process, or cut short by a crash at any point while being written), every lookup of precomputed coefficients returns the same table it would return without a cache, and never fails because of the cache. Tables for different maximum degrees agree on their common part, and a cache file on disk is always a complete table.',
 ['histories','crash_points','schedules','fault_sequences'], 'all sequences of requests and cache settings by several processes, all crash points during a write',
 'tests write one table and read it back; growth, shrinkage, crashes, concurrent writers and corrupt files are never exercised',
 ['e3x/so3/_lookup_table_generation_utility.py','e3x/so3/_clebsch_gordan_lut.py','e3x/so3/_spherical_harmonics_lut.py','e3x/so3/_wigner_d_lut.py','e3x/so3/_tensor_conversion_lut.py','e3x/config.py'],
 [('load/generate/save','e3x/so3/_lookup_table_generation_utility.py'),('per-table lookup','e3x/so3/_*_lut.py')],
 ['public so3 functions under a configured cache; the cache file'], [('cache file','table persisted for later processes','Config.*_cache'),('config','which cache path is active','e3x/config.py')])
prop('C08', 'Configuration changes take effect and explicit arguments win',
 'After any sequence of configuration changes, every function and layer that documents a configurable default (degree order, normalization, fused tensor products) behaves as if the current configured value had been passed explicitly, and an explicitly passed value always wins. Invalid values are rejected and leave the configuration as it was.',
 ['histories','configurations'], 'all interleavings of configuration changes and calls, all call sites',
 'tests only check that the setters store the value; that a later call actually uses it is never observed',
 ['e3x/config.py','e3x/so3/irreps.py','e3x/so3/rotations.py','e3x/nn/modules.py','e3x/nn/wrappers.py'], [('Config','e3x/config.py'),('default arguments','call sites')],
 ['results of calls without the keyword versus with it'], [('Config','current defaults','e3x/config.py')])
prop('C09', 'Spherical and solid harmonics are the documented functions',
 'For every vector and maximum degree, spherical and solid harmonics equal the real harmonic polynomials of the documented convention (ordering, signs and all normalizations, Cartesian or standard order), in particular solid harmonics are harmonic and homogeneous and spherical harmonics depend only on direction. Values and derivatives are finite everywhere (including the zero vector), and results for a smaller maximum degree are a prefix of those for a larger one.',
 ['inputs','configurations'], 'all vectors (including zero, axes, tiny, huge), degrees, orders, normalizations, batch shapes',
 'tests compare degrees up to 3 at a few random points; higher degrees, special directions and option combinations are not covered',
 ['e3x/so3/irreps.py','e3x/so3/_spherical_harmonics_lut.py','e3x/so3/_normalization.py','e3x/so3/_common.py'], [('coefficient table','e3x/so3/_spherical_harmonics_lut.npz'),('evaluation','e3x/so3/irreps.py')],
 ['values of spherical_harmonics and solid_harmonics'])
prop('C10', 'Wigner-D matrices are an orthogonal representation of the rotation group',
 'For every rotation and maximum degree, the Wigner-D matrix is orthogonal, block diagonal with one block per degree, multiplicative under composition of rotations, and rotates the harmonics exactly as rotating their argument does, in both degree orders. Blocks do not depend on the requested maximum degree.',
 ['inputs','configurations'], 'all rotations (identity, axis permutations, half turns, generic), degrees, orders, batch shapes',
 'tests use random rotations at low degree; special rotations and batch shapes are not covered',
 ['e3x/so3/rotations.py','e3x/so3/_wigner_d_lut.py','e3x/so3/_symbolic.py'], [('monomial contraction','e3x/so3/rotations.py: wigner_d')],
 ['value of wigner_d'])
prop('C11', 'Clebsch-Gordan coefficients intertwine the representations',
 'For all maximum degrees and both degree orders, the coupling coefficients form, for each allowed triple of degrees, an intertwiner between the product of two irreps and the third, are normalised (unitary) and vanish for every disallowed triple; the coefficients for individual degrees are the corresponding blocks. Blocks do not depend on the requested maximum degrees and respect the symmetry under exchanging the two inputs.',
 ['inputs','configurations'], 'all degree triples, orders and requested maxima',
 'tests check a few literal blocks and low-degree orthogonality',
 ['e3x/so3/irreps.py','e3x/so3/_clebsch_gordan_lut.py','e3x/so3/_symbolic.py'], [('symbolic generation','e3x/so3/_symbolic.py'),('block assembly','e3x/so3/irreps.py')],
 ['values of clebsch_gordan and clebsch_gordan_for_degrees'])
prop('C12', 'Cartesian tensors and irreps convert without loss and equivariantly',
 'An irrep converted to a Cartesian tensor is a symmetric traceless tensor of the same degree, converting it back returns the irrep, and both conversions commute with rotations of the tensor and of the irrep, for every degree, order, normalization and batch shape. Traceless symmetric tensors (and only those) are recognised as such.',
 ['inputs','configurations'], 'all tensors, degrees, orders, batch shapes',
 'tests round-trip random inputs; tracelessness, symmetry, projection and equivariance per component are not covered',
 ['e3x/so3/irreps.py','e3x/so3/_tensor_conversion_lut.py'], [('conversion tables','e3x/so3/_tensor_conversion_lut.npz'),('conversion','e3x/so3/irreps.py: tensor_to_irreps, irreps_to_tensor')],
 ['values of tensor_to_irreps and irreps_to_tensor'])
prop('C13', 'Rotation constructors return the rotation they promise',
 'Every constructed rotation matrix (from axis and angle, Euler angles, alignment of two vectors, random with optional angle perturbation) is a proper rotation; rotating by an axis and angle fixes the axis and turns by the angle in the documented sense, Euler angles survive the round trip through a matrix (as a rotation, also in gimbal lock), and the alignment rotation takes the first direction to the second for every pair of non-zero vectors, parallel and antiparallel ones included. Batch elements are treated independently.',
 ['inputs'], 'all axes, angles, vectors (any scale; parallel, antiparallel, axis aligned), keys, batch shapes',
 'tests use random vectors; degenerate configurations and batches mixing them are not covered',
 ['e3x/so3/rotations.py','e3x/ops/safe.py'], [('constructors','e3x/so3/rotations.py')], ['returned matrices'])
prop('C14', 'Quadrature rules are chosen as requested and integrate exactly',
 'For each requested precision or (for Lebedev grids) number of points the smallest rule of the family that reaches the precision, or the largest rule within the number of points, is returned; requests outside the tables fall back to the nearest available rule with a warning; points lie on the unit sphere, weights sum to one, and every polynomial up to the precision of the rule is integrated exactly over the sphere.',
 ['inputs','configurations'], 'all requested precisions, counts and rule families; all polynomials up to the promised degree',
 'tests integrate a few functions on a few rules',
 ['e3x/so3/quadrature.py'], [('grid tables','e3x/so3/_lebedev_grids.npz, _delley_grids.npz'),('selection','e3x/so3/quadrature.py')], ['returned grids and weights'])
prop('C15', 'Safe norms are accurate and have finite derivatives everywhere',
 'Norms and normalized vectors agree with their mathematical value to floating-point accuracy for every vector of any representable scale (vectors whose squared norm underflows excepted when normalising), each element of a batch being treated independently; zero vectors normalise to zero and every first (and second) derivative is finite, including at zero and at very large scales.',
 ['inputs'], 'all inputs (zero, tiny, huge, mixed scales in one batch), axes, keepdims, derivatives',
 'tests cover one scale per call; batches of mixed scales and derivatives at special points are not covered',
 ['e3x/ops/safe.py'], [('norm','e3x/ops/safe.py')], ['values and derivatives of norm, normalize, normalize_and_return_norm'])
prop('C16', 'Radial, cutoff, window and switching functions keep their defining identities',
 'Every radial function set and cutoff/switch/window function equals its defining formula for all arguments in its domain (non-negative distances), stays finite with finite derivatives at and beyond the ends of the domain, and keeps its structural identities: Bernstein-type sets are non-negative and sum to one, window sets sum to one where promised, cutoff and switch functions run monotonically between zero and one and vanish (or saturate) outside their range.',
 ['inputs','configurations'], 'all distances (zero, cutoff, beyond, negative where allowed), counts, limits',
 'tests compare with reference values at a few points',
 ['e3x/nn/functions'], [('functions','e3x/nn/functions/*.py')], ['values and derivatives'])
prop('C17', 'Activations act on scalars and only rescale everything else',
 'Every activation function equals its documented scalar function on the scalar (degree zero, even parity) channel and multiplies all other channels of the same feature by the matching gate factor, so that features with only scalars behave like ordinary activations; no feature or batch element influences another. Values and derivatives are finite for all finite inputs.',
 ['inputs','configurations'], 'all activations, inputs (large, tiny, negative, zero), degrees, parities',
 'tests compare with flax activations on moderate inputs',
 ['e3x/nn/activations.py'], [('gating','e3x/nn/activations.py')], ['activation outputs and derivatives'])
prop('C18', 'Initializers produce equivariant-layer weights of the promised shape and scale',
 'Weight initializers for coupled-tensor weights produce zeros exactly at the couplings that are not allowed and, elsewhere, independent values whose variance follows the documented fan rule per output channel, for all degree/parity/feature configurations; the same key reproduces the same weights and dtype and shape are as requested.',
 ['configurations'], 'all configurations and keys', 'tests check shapes and a few statistics',
 ['e3x/nn/initializers.py'], [('variance scaling and masks','e3x/nn/initializers.py')], ['sampled weights'])
prop('C19', 'Matrices of irreducible blocks are complete, exact and equivariant',
 'For every list of degrees, multiplicity and maximum degree, the number of irreps of each degree is that of the block structure, the assembled square matrix places each irrep in exactly one block and pair of copies as its Clebsch-Gordan combination (plus the identity if requested), traces of the diagonal parts read back the scalar irreps, and rotating the irreps or features rotates the matrix by the block representation on both sides; weights have one column per irrep and the documented scale.',
 ['inputs','configurations'], 'all lists of degrees, multiplicities, inputs and rotations',
 'its test module does not run in this setup; it samples few structures',
 ['e3x/matrix/matmat.py'], [('coupling of blocks','e3x/matrix/matmat.py')], ['assembled matrices, weights and traces'])
prop('C20', 'Feature arithmetic keeps every component in its (parity, degree) slot',
 'Adding features and changing maximum degree or parity content keep every common component unchanged in its own (parity, degree, order) slot, fill missing components with zero and drop exactly the excess ones, for every combination of feature types; features that cannot be added (different batch shapes or feature counts) are rejected; parity and degree slots are those the conventions promise.',
 ['inputs','configurations'], 'all combinations of maximum degrees and parity content', 'tests cover a few combinations',
 ['e3x/nn/features.py'], [('add, change_max_degree_or_type','e3x/nn/features.py')], ['returned features'])
prop('C21', 'Invalid requests are rejected, valid ones are not',
 'Every public entry point that documents a rejection (bad shapes, degrees, index-list combinations, normalizations, precision requests) raises the documented error for every invalid request and none for any valid one, before producing a result.',
 ['inputs','configurations'], 'all requests over the documented argument domains', 'tests cover one or two invalid requests per function',
 ['e3x'], [('argument checks','all modules')], ['exceptions of public calls'])
prop('C22', 'Results do not depend on jit, vmap or batching',
 'Every public numerical function and layer gives the same result eagerly, under just-in-time compilation, under vectorised mapping and when elements are processed one at a time, with configuration arguments (degrees, counts, cutoff radii) static; the elements of a batch do not influence each other; first and second derivatives, in forward and reverse mode, agree with finite differences wherever the function is smooth.',
 ['programs','inputs'], 'all public operations, transformations and batch shapes', 'tests run most functions under jit only or eagerly only',
 ['e3x'], [('pure functions','all modules')], ['values under each transformation'])
prop('C23', 'Basis expansion is radial function times harmonic times cutoff',
 'The basis expansion of every displacement vector equals, component by component, the product of the chosen radial functions of its length, the spherical harmonics of its direction and the optional cutoff, in the documented layout, for every option combination; it vanishes beyond the cutoff, and is finite with finite first derivatives everywhere including zero and tiny displacements (those whose squared length underflows count as zero). Cutoff values and lengths are returned as requested; the trainable variant uses one positive width parameter as gamma of its radial function.',
 ['inputs','configurations'], 'all displacement vectors (zero, tiny, beyond cutoff), degrees, options', 'tests cover a few option combinations at random points',
 ['e3x/nn/wrappers.py'], [('basis','e3x/nn/wrappers.py: basis, ExponentialBasis')], ['values and derivatives of basis'])
prop('C24', 'Results keep the precision of their inputs',
 'Every public numerical function returns a result whose floating-point type is never narrower than that of its inputs, and a layer computes in the type given by its dtype argument (or, without one, in a type at least as wide as that of inputs and parameters) and creates its parameters in param_dtype. Results computed in a narrow type (half, single) agree with those computed in double precision up to a moderate number of roundoffs of that type, and defining identities (orthogonality, unit norms, closed formulas, exact quadratures, contraction of coupling tables) hold up to roundoff of the type in use, in single and in double precision; nowhere is an intermediate value silently rounded to a narrower type.',
 ['inputs','configurations'], 'all functions and layers, floating-point types of inputs, parameters and dtype arguments, with 64-bit types enabled or not',
 'the tests run in single precision with loose tolerances, so that a constant, table or intermediate value of too low precision goes unnoticed',
 ['e3x'], [('dtype handling of layers','e3x/nn/modules.py'),('tables and constants','e3x/so3'),('thresholds that depend on the type','e3x/nn/functions, e3x/ops/safe.py')], ['types and values of results'])

if __name__ == '__main__':
  out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
  with open(out, 'w') as f:
    for p in P:
      assert len(p['title']) <= 80, p['id']
      f.write(json.dumps(p) + '\n')
  print(len(P))
