import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if state:a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs:a["observe_at"]=obs
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

G="e2cnn/group/groups/"
M="e2cnn/nn/modules/"
p("P01","Symmetry groups obey the group axioms and denote planar isometries",
 "For every cyclic, dihedral, SO(2) and O(2) group the composition, inverse, identity, membership test and equality satisfy the group axioms, and the enumerated elements of a finite group are exactly its distinct elements. Composing elements composes the planar rotations and reflections they stand for (moving a rotation past a reflection inverts it), results are again elements of the group, and repeated requests for a group yield an equal group.",
 ["inputs","configurations"],"All groups C_N, D_N, SO(2), O(2); all element pairs and triples (finite groups exhaustively for small N, angles on a fine lattice for the continuous groups).",
 "The tests sample a few groups and mostly check matrices of representations; the axioms range over all triples of elements of all orders and over angles near 0 and 2*pi where wrap-around matters.",
 [G+"cyclicgroup.py",G+"dihedralgroup.py",G+"so2group.py",G+"o2group.py",G+"factory.py","e2cnn/group/group.py"],
 [("combine/inverse/equal/is_element",G+"*.py"),("group factories",G+"factory.py")],obs=["combine, inverse, equal, is_element, elements, order, identity"])
p("P02","Subgroup inclusion and restriction maps are faithful",
 "For every group and every valid subgroup identifier, the inclusion map of the subgroup is an injective homomorphism onto the subgroup the identifier documents, the map back is its inverse on members and rejects every non-member, and the order and kind of the returned subgroup match the identifier. Subgroups of subgroups compose: going down in two steps denotes the same elements of the big group as the corresponding single step.",
 ["inputs","configurations","histories"],"All groups, all subgroup identifiers (rotation order, reflection axis or none), all elements of the big group and of the subgroup, before and after other subgroups of the same group were requested.",
 "Tests restrict a handful of representations to a handful of subgroups; membership of every parent element and every (axis, order) pair is never enumerated.",
 [G+"cyclicgroup.py",G+"dihedralgroup.py",G+"so2group.py",G+"o2group.py"],[("subgroup() and its parent/child maps",G+"*.py")],obs=["subgroup(id) -> (group, inclusion, restriction)"])
p("P03","Representations are homomorphisms that match their declared decomposition",
 "Every representation a group offers or that the library builds from others (irreducible, regular, quotient, direct sum, change of basis, disentangled, restricted, induced) sends composition to matrix product, the identity to the identity matrix and inverses to inverses. Its value at every element equals its stated change of basis conjugating the direct sum of its stated irreducible constituents, its size is the sum of theirs, and its character is the trace.",
 ["inputs","configurations","programs"],"All representations reachable by expressions over the constructors, for all groups, evaluated at all elements (finite) or a lattice of angles (continuous).",
 "Tests check a few fixed constructors on a few groups; composite expressions (sum of restrictions of induced representations, with change of basis) are unbounded.",
 ["e2cnn/group/representation.py","e2cnn/group/irrep.py","e2cnn/group/group.py","e2cnn/group/utils.py",G+"cyclicgroup.py",G+"dihedralgroup.py",G+"so2group.py",G+"o2group.py"],
 [("Representation.__call__, character, change_of_basis, irreps","e2cnn/group/representation.py"),("directsum, change_basis, disentangle, build_from_discrete_group_representation","e2cnn/group/representation.py")])
p("P04","Irreps are complete, inequivalent and match the documented frequencies",
 "The irreducible representations of a finite group are exactly one per documented (reflection, rotation) frequency pair, pairwise inequivalent and irreducible, and the squares of their dimensions weighted by real type account for the group order; the irrep of a given frequency evaluates to the planar rotation by that multiple of the angle, composed with the frequency's reflection behaviour. Decomposing any representation of a finite group yields the multiplicities its character dictates.",
 ["inputs","configurations"],"All N for C_N and D_N in the bound, all frequencies, all elements; frequencies up to the requested maximum for SO(2) and O(2).",
 "Tests compare a few irreps for a few orders; completeness and inequivalence are statements over all orders and all elements.",
 [G+"cyclicgroup.py",G+"dihedralgroup.py",G+"so2group.py",G+"o2group.py","e2cnn/group/utils.py","e2cnn/group/representation.py"],[("irrep(), _build_representations",G+"*.py"),("decompose_representation","e2cnn/group/representation.py")])
p("P05","Regular, quotient and induced representations realise the coset action",
 "The regular representation permutes the group elements by left multiplication and a quotient representation permutes the cosets of its subgroup the same way, with the identity's coset listed first and every entry a genuine permutation. A representation induced from a subgroup moves whole blocks between cosets exactly as the group permutes the cosets, acts inside a block by the subgroup representation, has size index times the original size, and its character is the induced character.",
 ["inputs","configurations"],"All finite groups in the bound, all subgroups, all irreducible representations of the subgroup, all elements; SO(2)-to-O(2) induction on an angle lattice.",
 "Tests evaluate a few quotients/inductions; the block structure for every subgroup (including non-normal reflections about rotated axes) is not enumerated.",
 ["e2cnn/group/representation.py","e2cnn/group/group.py",G+"o2group.py"],[("build_regular_representation, build_quotient_representation, build_induced_representation","e2cnn/group/representation.py"),("_induced_from_irrep",G+"o2group.py")])
p("P06","Restriction to a subgroup agrees with the parent, whatever happened before",
 "Restricting a representation, a field type or a symmetry space to a subgroup yields objects whose action of every subgroup element equals the original action of the included element. This holds no matter which other groups, frequencies, subgroups or representations were created, cached or grown earlier in the process.",
 ["inputs","configurations","histories"],"All parent groups, subgroup ids, representations; all elements; histories of creating groups with different maximum frequencies and restricting in any order.",
 "Tests run each restriction in isolation in one fixed order; continuous groups are process-wide singletons whose frequency limit grows, so the result must be checked over histories.",
 ["e2cnn/group/group.py","e2cnn/group/representation.py",G+"so2group.py",G+"o2group.py",G+"dihedralgroup.py",G+"cyclicgroup.py","e2cnn/gspaces/r2/fliprot2d_on_r2.py","e2cnn/gspaces/r2/rot2d_on_r2.py","e2cnn/gspaces/r2/flip2d_on_r2.py","e2cnn/nn/field_type.py",M+"restriction_module.py"],
 [("restrict / _restrict_irrep","e2cnn/group/**"),("GSpace.restrict","e2cnn/gspaces/r2/*.py"),("FieldType.restrict","e2cnn/nn/field_type.py")],
 state=[("group singletons and their maximum frequency","process-wide, grow on demand",G+"so2group.py, o2group.py"),("subgroup caches","memoised subgroup triples",G+"*.py")])
p("P07","Feature fields transform by a genuine group action on the plane",
 "Transforming a feature map by a symmetry element moves pixel values as the documented rotation/reflection of the plane does and multiplies each fibre by that field's representation; transforming by g then h equals transforming by the product, and the identity changes nothing. For rotations by multiples of a right angle and reflections about axes that map the pixel lattice to itself the result is exact, and fibre-only transformation leaves positions untouched.",
 ["inputs","configurations"],"All symmetry spaces and axes, field types, element pairs, grid sizes (odd, even), batch sizes.",
 "Tests treat the library's own transform as their oracle for everything else, and never check it against an independent model of the plane.",
 ["e2cnn/gspaces/gspace.py","e2cnn/gspaces/r2/general_r2.py","e2cnn/gspaces/r2/rot2d_on_r2.py","e2cnn/gspaces/r2/flip2d_on_r2.py","e2cnn/gspaces/r2/fliprot2d_on_r2.py","e2cnn/gspaces/r2/trivial_on_r2.py","e2cnn/nn/field_type.py","e2cnn/nn/geometric_tensor.py"],
 [("_basespace_action / featurefield_action","e2cnn/gspaces/**"),("transform, transform_fibers","e2cnn/nn/geometric_tensor.py, field_type.py")])
p("P08","Steerable kernel bases satisfy the kernel constraint and are complete",
 "For every symmetry space, input and output representation, rings and frequency cutoffs, each element of the returned kernel basis K satisfies K(gx)=out(g)K(x)in(g)^-1 at every point and group element. The elements are linearly independent and their number is exactly the dimension of the space of equivariant kernels with that radial profile and angular bandwidth, so no admissible kernel is lost or counted twice.",
 ["inputs","configurations"],"All symmetry groups (including reflection axes), pairs of irreducible, regular, quotient and composite representations, radii/widths and frequency cutoffs, sampling points on group orbits.",
 "Tests check the constraint for a sample of representation pairs by random kernels, and never check the dimension, so a dropped or duplicated solution passes.",
 ["e2cnn/kernels/irreps_basis.py","e2cnn/kernels/steerable_basis.py","e2cnn/kernels/basis.py","e2cnn/kernels/r2.py","e2cnn/kernels/utils.py","e2cnn/gspaces/r2/general_r2.py","e2cnn/gspaces/r2/*.py"],
 [("irrep-pair solutions","e2cnn/kernels/irreps_basis.py"),("change-of-basis assembly","e2cnn/kernels/steerable_basis.py"),("Gaussian radial profile tensor basis","e2cnn/kernels/basis.py")],obs=["GSpace.build_kernel_basis(...).sample(points)"])
p("P09","Steerable differential operators satisfy the constraint and are complete",
 "For every symmetry space and pair of representations, each differential operator in the returned basis satisfies the equivariance constraint on its coefficients, has order at most the requested maximum, and the basis is linearly independent with exactly the dimension of the space of equivariant operators of that order (or of the requested Laplacian powers). Discretised stencils approximate the operator they stand for exactly on polynomials of low degree, and saving then loading the stencil cache changes no stencil.",
 ["inputs","configurations","histories"],"All symmetry groups with axes, pairs of representations, maximum orders and Laplacian powers; stencil sizes and discretisation methods; save/load of the cache.",
 "Tests check a small set of groups for the constraint and never the dimension; the cache round-trip is never exercised.",
 ["e2cnn/diffops/irreps_basis.py","e2cnn/diffops/steerable_basis.py","e2cnn/diffops/basis.py","e2cnn/diffops/r2.py","e2cnn/diffops/utils.py","e2cnn/gspaces/r2/general_r2.py"],
 [("irrep-pair solutions","e2cnn/diffops/irreps_basis.py"),("assembly","e2cnn/diffops/steerable_basis.py"),("discretisation and cache","e2cnn/diffops/utils.py")])
p("P10","Caching and sharing never change results",
 "What a kernel basis, a differential-operator basis or a freshly built layer computes depends only on the arguments it was built with, never on which other bases, groups, symmetry spaces or layers were requested earlier in the same process or on whether they share a space. Repeating a request returns an equal result.",
 ["histories","configurations"],"All histories of basis requests and layer constructions over a pool of configurations that differ in one parameter at a time (axis, order, cutoff, ring widths, representation, kernel size, dilation, Laplacian power, smoothing).",
 "Tests build one configuration at a time; cache-key collisions need two particular requests in one process, in one order.",
 ["e2cnn/gspaces/r2/general_r2.py","e2cnn/gspaces/gspace.py",M+"r2_conv/basisexpansion_singleblock.py",M+"r2_conv/basisexpansion_blocks.py","e2cnn/kernels/*.py","e2cnn/diffops/*.py"],
 [("per-space basis caches","e2cnn/gspaces/r2/general_r2.py"),("process-wide filter cache keyed by basis equality",M+"r2_conv/basisexpansion_singleblock.py"),("basis equality and hashing","e2cnn/kernels, e2cnn/diffops")],
 state=[("basis caches","memoised bases per space","general_r2.py"),("_stored_filters","memoised sampled filters",M+"r2_conv/basisexpansion_singleblock.py")])
p("P11","Convolution layers commute with the exact symmetries of the pixel grid",
 "For any weights, a steerable convolution, transposed convolution or differential-operator layer applied to a transformed input equals the transformed output, whenever the group element maps the pixel grid (and stride lattice) to itself: rotations by right angles, and reflections. This holds for every mix of field types, grouping, bias, padding mode that respects the symmetry, dilation, stride, kernel size and reflection axis, in training and in evaluation mode.",
 ["inputs","configurations"],"All symmetry spaces, field-type lists (ordering, multiplicity, mixed sizes), layer options and random weights and inputs; all exact group elements.",
 "The repository's convolution tests are excluded from the stable list; they sample few configurations and rely on the library's own transform and on loose tolerances.",
 [M+"r2_conv/r2convolution.py",M+"r2_conv/r2_transposed_convolution.py",M+"r2_conv/r2diffop.py",M+"r2_conv/basisexpansion_blocks.py",M+"r2_conv/basisexpansion_singleblock.py"],
 [("block-wise filter expansion",M+"r2_conv/basisexpansion_blocks.py"),("bias only on trivial sub-fields, expanded through the change of basis",M+"r2_conv/r2convolution.py")])
p("P12","Train, eval, save, load and export of convolutions stay consistent",
 "Over any history of weight updates, switching between training and evaluation mode, storing and loading state, deep-copying and exporting, a steerable convolution (plain, transposed, differential) always computes with its current weights: evaluation output equals the output training mode would give for the weights at the last switch to evaluation. A loaded or exported layer computes the same function as its source, and switching back to training makes later updates effective again.",
 ["histories","inputs"],"All histories of {update weights, train, eval, forward, save state, load state into same/fresh layer, deepcopy, export} up to the bound, following the documented protocol of switching to evaluation before storing/loading.",
 "Tests check single transitions (one eval, one export); stale cached filters only show after particular sequences.",
 [M+"r2_conv/r2convolution.py",M+"r2_conv/r2_transposed_convolution.py",M+"r2_conv/r2diffop.py",M+"equivariant_module.py"],
 [("train() drops/rebuilds the cached filter and bias buffers",M+"r2_conv/*.py")],state=[("filter, expanded_bias buffers","cached expansion, present only in eval mode",M+"r2_conv/r2convolution.py")])
p("P13","Nonlinear, pooling and normalisation layers are equivariant",
 "Every non-convolutional equivariant layer (pointwise, norm, gated, induced-norm, induced-gated, concatenated and vector-field nonlinearities; group, norm and induced-norm pooling; spatial pooling; batch normalisation; upsampling; masking; restriction; disentangling) applied to a transformed input equals its declared output type's transformation of its output. It holds for all supported representations and any ordering and multiplicity of fields, for trained parameters as well as initial ones.",
 ["inputs","configurations"],"All modules, supported representation lists (contiguous, interleaved, mixed sizes), options, random parameters and inputs, all group elements acting exactly.",
 "Tests use a few field lists, usually contiguous, at initial parameters; interleavings of sizes and trained parameters are not covered.",
 [M+"nonlinearities/*.py",M+"invariantmaps/*.py",M+"pooling/*.py",M+"batchnormalization/*.py",M+"r2upsampling.py",M+"masking_module.py",M+"restriction_module.py",M+"disentangle_module.py"],
 [("field grouping by size with contiguous/indexed access",M+"**")])
p("P14","Each field is processed on its own, as documented, in any field order",
 "A field-wise module (nonlinearity, invariant map, normalisation in evaluation mode, field reordering) computes each output field from that field's own channels (and its own gate, bias or statistics) by the documented formula, independently of which other fields share the type and in which order. In particular permuting input fields together with their parameters permutes the output fields and nothing else.",
 ["inputs","configurations"],"All lists of fields (orders, repetitions, mixed sizes, interleaved gates), inputs and parameter values.",
 "Tests use reference loops on one or two fixed orderings; index bookkeeping errors need an unusual interleaving.",
 [M+"nonlinearities/*.py",M+"invariantmaps/*.py",M+"pooling/norm_max.py",M+"reshuffle_module.py",M+"disentangle_module.py",M+"batchnormalization/*.py"],
 [("indices_to_channels bookkeeping and contiguity flags",M+"**")])
p("P15","Batch-normalisation statistics follow their definition over any history",
 "In training mode each batch-normalisation layer moves the stored statistics of every field by the momentum rule towards the current batch's statistics (unbiased variance), and normalises by the batch's statistics (inner and generic batch-normalisation) or by the variance just stored (norm and induced-norm batch-normalisation); in evaluation mode it uses only the stored statistics and changes nothing. After any history of training and evaluation passes the stored statistics equal the momentum recurrence over exactly the training batches seen, per field, and resetting returns them to their initial values.",
 ["histories","inputs","configurations"],"All histories of train/eval/forward/reset with arbitrary batches, momenta, affine or not, field lists with mixed sizes and orders.",
 "Tests run one or two forward passes from the initial state; recurrences and mode interactions range over histories.",
 [M+"batchnormalization/inner.py",M+"batchnormalization/norm.py",M+"batchnormalization/induced_norm.py",M+"batchnormalization/gnorm.py"],
 [("running buffers updated in training forward",M+"batchnormalization/*.py")],state=[("running statistics","per field-size buffers",M+"batchnormalization/*.py")])
p("P16","Dropout removes whole fields, rescales survivors, and is off in evaluation",
 "In training mode field dropout, at every position of every sample, either zeroes all channels of a field or multiplies all of them by 1/(1-p), dropping with probability p independently per field, sample and position; pointwise dropout does so per channel entry; in evaluation mode both return the input unchanged. Neither modifies its input tensor unless asked to work in place, in which case the returned tensor is what in-place storage holds.",
 ["inputs","configurations","histories"],"All field lists, p in [0,1], inplace or not, train/eval histories, random draws.",
 "Tests check averages on one ordering; field granularity for interleaved fields and the in-place path are not covered.",
 [M+"dropout/field.py",M+"dropout/pointwise.py"],[("per-size dropout3d on field blocks",M+"dropout/field.py")])
p("P17","Declared output types and output shapes are what a layer actually produces",
 "Every module accepts exactly inputs of its declared input type, returns tensors of its declared output type, and its shape predictor returns, for every input shape it can process, precisely the shape its forward pass produces (which follows the documented size formula). Inputs of a different type are rejected rather than silently processed.",
 ["inputs","configurations"],"All modules and options (kernel size, stride, padding as int or pair, dilation, ceil mode, output size, scale factor), batch sizes and input sizes.",
 "Tests call the shape predictor on a few square inputs for a few modules.",
 [M+"**","e2cnn/nn/geometric_tensor.py"],[("evaluate_output_shape",M+"**"),("type assertion in forward",M+"**")])
p("P18","Geometric tensor operations match an array-of-fields model",
 "Indexing, slicing, splitting, direct sum, addition, subtraction, scaling, device/type-preserving copies and restriction of geometric tensors produce exactly the fields, order, batch and spatial entries that the same operation on a plain list of fields would, with the matching field type. Operations documented as returning new tensors leave their operands and argument objects unchanged, in-place ones change only the target, and ill-typed operands or out-of-range field requests are rejected.",
 ["inputs","configurations","programs"],"All field-type lists, indices (negative, stepped, out of range), split points, operand pairs and sequences of operations.",
 "Tests exercise selected slices; negative, stepped, repeated and out-of-range combinations over mixed-size fields are unbounded.",
 ["e2cnn/nn/geometric_tensor.py","e2cnn/nn/field_type.py"],[("__getitem__, split, tensor_directsum, arithmetic dunders","e2cnn/nn/geometric_tensor.py")])
p("P19","Field types behave as ordered lists of representations",
 "A field type's size, per-field offsets, index selection, sorting, grouping by labels, uniqueness, concatenation, restriction and equality agree with those of the list of representations it was built from. Its fibre representation and its change of basis are block diagonal in that order, and two field types are equal exactly when their spaces and representation lists are; equal ones hash equally.",
 ["inputs","configurations","programs"],"All lists of representations (repetitions, mixed sizes), index lists, labellings and sort keys.",
 "Tests check few lists; the algebra (sorting is stable, selection composes, offsets add up) ranges over all lists.",
 ["e2cnn/nn/field_type.py","e2cnn/gspaces/gspace.py"],[("FieldType",'e2cnn/nn/field_type.py')])
p("P20","Containers compute the composition or merge of their parts",
 "A sequential container computes the composition of its modules in order and rejects ill-typed chains; branching, merging, parallel and masking containers route exactly the labelled fields to each branch and reassemble the outputs in the documented order and type. Building or running a container never alters the objects passed to its constructor.",
 ["inputs","configurations","programs"],"All compositions of modules up to the bound, labellings, reshuffle options and inputs.",
 "Tests build one or two fixed containers; label permutations, reshuffle levels and reuse of arguments are not enumerated.",
 [M+"sequential_module.py",M+"branching_module.py",M+"merge_module.py",M+"multiple_module.py",M+"module_list.py",M+"reshuffle_module.py",M+"masking_module.py",M+"identity_module.py"],
 [("type-chain assertion",M+"sequential_module.py"),("label routing",M+"branching_module.py, merge_module.py, multiple_module.py")])
p("P21","Exported plain-PyTorch modules compute the same function",
 "For every module that can be exported, the exported plain module maps any raw input array to the same output array as the original in evaluation mode, for all option values and parameter values, and keeps doing so for later inputs. A configuration that cannot be exported faithfully is refused instead of exported wrongly.",
 ["inputs","configurations","histories"],"All exportable modules, options, trained parameters and statistics, inputs, alone and nested in sequences.",
 "Tests export a few modules at default options.",
 [M+"**/*.py (export methods)"],[("export()",M+"**")])
p("P22","Layer weights are named and described truthfully and initialised accordingly",
 "Every weight of a convolution, transposed convolution or differential-operator layer has one unique name; looking it up by name or by index gives the description listed at its place, and the description is true: the filter this weight alone produces lies between the declared irreps of the declared fields and nowhere else. Default (He) initialisation draws zero-mean weights whose variances add up to one over the weights reaching each output irrep, the same with and without the cached variances; delta-orthonormal initialisation of a layer with equal input and output types gives a filter that is zero off its centre and orthogonal at it.",
 ["inputs","configurations","histories"],"All spaces, field types (fields of several representations, repeated and interleaved), kernel sizes, groups, weights, and orders in which layers are initialised.",
 "No test compares a description with the filter its weight produces, or looks at initial values at all.",
 [M+"r2_conv/basisexpansion_blocks.py",M+"r2_conv/basisexpansion_singleblock.py","e2cnn/nn/init.py"],
 [("get_basis_info / get_element_info",M+"r2_conv/basisexpansion_blocks.py"),("generalized_he_init, deltaorthonormal_init","e2cnn/nn/init.py")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
