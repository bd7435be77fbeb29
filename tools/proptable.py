T = 'property-based testing (Hypothesis, generated programs/configurations, shrinking)'
DIFF = 'property-based differential testing (Hypothesis): '

PROPS = [
    dict(
        id='C01',
        design='*Spec*: one operator/layer application (65 generator families; shape rank 0–5, arguments, dtype, input layout `input_transpose`, optimisation level). *Oracle*: differential — eager PyTorch on three input sets, two of which the converter never saw, against the TFLite interpreter on the converted file; shapes, dtypes and values. *Bounds*: tensors of up to a few hundred elements. *Beyond the tests*: arguments and shapes are drawn, in particular values next to the special cases the converter has own operators for. Restrictions (the converter refuses or is documented not to support them): mixed-dtype `where`, indices-only outputs of `max`/`min`, 5-D LayerNorm/PReLU, int64 floor division, `x[:, [..], [..]]`. Cost: 40 s quick.',
        title='A converted floating-point operator computes what PyTorch computes',
        statement='For every supported PyTorch operator or layer, with any accepted shape, rank, dtype and arguments, the TFLite model produced by the converter '
        'computes the same result as PyTorch on every input, not only on the example input used for conversion. '
        'What cannot be converted faithfully is refused instead of yielding a model that computes something else.',
        over=['inputs', 'programs'],
        qtext='all single operators/layers x shapes x arguments x dtypes x layout settings x inputs',
        why='The operator tests use one or a few hand-picked shapes and argument values per operator (often square, batch 1, default arguments), so wrong padding, axis, rounding or broadcasting handling elsewhere is invisible.',
        files=['tinynn/converter/operators/torch/aten.py', 'tinynn/converter/operators/torch/aten_schema.py', 'tinynn/converter/operators/op_version.py',
               'tinynn/converter/operators/tflite/custom.py', 'tinynn/converter/operators/tflite/transformable.py', 'tinynn/converter/base.py'],
        mech=[('per-operator lowering of TorchScript nodes to TFLite operators', 'tinynn/converter/operators/torch/aten.py'),
              ('lowering of composite operators (convolutions, batch-norm, linear)', 'tinynn/converter/operators/tflite/transformable.py'),
              ('argument parsing', 'tinynn/converter/operators/torch/aten_schema.py')],
        tech=DIFF + 'random single-operator programs, TFLite interpreter against eager PyTorch on unseen inputs',
        note='65 generator families cover all float operators the converter registers that can run here; tolerances 1e-4/1e-3 relative; exploration, no absence claim.',
    ),
    dict(
        id='C02',
        design='*Spec*: a random DAG of 2–14 operators (8 profiles: mixed, deep, layout, reshape, fusion, linear, slices …) with multi-consumer values, shared layers, duplicated expressions, several outputs, and the optimisation level/rewrite options. *Oracle*: differential against eager PyTorch on the traced and on unseen inputs. A process that dies in the interpreter is a violation. *Beyond the tests*: optimisation passes only go wrong in particular neighbourhoods; about 4 500 graphs per quick run. Cost: 45 s.',
        title='Graph optimization and rewrites never change what the model computes',
        statement='For every network built from supported operators, and every optimization level and rewrite option, the converted model computes the same outputs as the PyTorch network on every input. '
        'Fusing, folding, moving, merging or removing operators (transposes, reshapes, slices, activations, batch-norms, paddings, duplicated or unused tensors) never changes a result, a shape or an output.',
        over=['programs', 'configurations', 'inputs'],
        qtext='all DAGs of supported operators x optimization levels x rewrite options x layouts x inputs',
        why='Passes interact: an error needs a particular neighbourhood of operators, shapes, consumers and outputs. The tests check a handful of hand-written patterns and a few full networks.',
        files=['tinynn/converter/operators/optimize.py', 'tinynn/converter/operators/graph.py', 'tinynn/converter/operators/hybrid_quantizer.py', 'tinynn/converter/operators/tflite/transformable.py', 'tinynn/converter/base.py'],
        mech=[('optimization passes', 'tinynn/converter/operators/optimize.py'), ('graph editing primitives', 'tinynn/converter/operators/graph.py')],
        tech=DIFF + 'random operator DAGs x optimization options, TFLite interpreter against eager PyTorch on unseen inputs',
        note='random DAGs of up to 14 operators from 8 generator profiles; single-operator semantics are C01.',
    ),
    dict(
        id='T01',
        design='*Spec*: random Python programs (operators, modules, containers, loops, sizes read from inputs, properties, in-place forms, creation functions, constants, recurrent layers, renamed/nested/colliding attribute names). *Oracle*: the generated `.py` + `.pth` imported in isolation has the same parameters and buffers, the same outputs in eval and train mode (same RNG state), the same gradients; with another batch size; traced and generated a second time. Restrictions: see the known findings; `.T`, models that modify their inputs, unused inputs when dead-graph elimination is on. Cost: 50 s.',
        title='The model generated from a traced graph computes what the original computes',
        statement='For every traceable model, the Python file and weight file written from its traced graph load on their own and form a model with the same parameters and buffers that computes the same outputs, in evaluation and training mode, and the same gradients as the original on every input, not only the example. '
        'Sizes the program reads from its inputs stay symbolic (another batch size keeps working), and the generated model can itself be traced again with the same result.',
        over=['programs', 'inputs'],
        qtext='all traceable programs x trace options x inputs',
        why='The tests trace a handful of snippets and compare on the example input; Python idioms, argument forms, aliasing and operator overloads combine without limit.',
        files=['tinynn/graph/tracer.py', 'tinynn/graph/configs/torch_func_override_2_0.yml', 'tinynn/graph/configs/torch_creation_funcs_override.yml', 'tinynn/util/util.py'],
        mech=[('function interception and argument serialisation', 'tinynn/graph/tracer.py'), ('code generation', 'tinynn/graph/tracer.py'), ('lists of intercepted functions', 'tinynn/graph/configs/torch_func_override_2_0.yml')],
        tech=DIFF + 'random programs traced, generated and re-loaded, compared with the original',
        note='programs of up to 18 statements; item assignment to intermediate tensors is a known finding.',
    ),
    dict(
        id='T02',
        design='*Spec*: a history of up to 24 operations (build, trace, trace in train mode, generate, generate twice, failing trace, failing constructor, use of PyTorch in between) over three models. *Oracle*: after every operation all patched PyTorch attributes are the original objects, the model equals its snapshot (modules, parameters, buffers, modes, hooks, attributes, outputs), and tracing/generating again gives the same text and weights. Cost: 35 s.',
        title='Tracing is repeatable and leaves PyTorch and the model as they were',
        statement='After any history of building, tracing and generating code, every PyTorch function and class outside the tracing context is the original one, and every model has the same sub-modules, parameters, buffers, modes, hooks and attributes, and the same outputs, as before. '
        'Tracing the same model again, or generating code again from the same graph, gives the same program and weights, whatever happened in between.',
        over=['histories', 'programs'],
        qtext='all histories of tracing operations x programs',
        why='Interception patches global PyTorch state and the caches are keyed by object identity; leaks show only after particular sequences of operations in one process.',
        files=['tinynn/graph/tracer.py', 'tinynn/util/util.py'],
        mech=[('patching and un-patching of PyTorch', 'tinynn/graph/tracer.py'), ('graph construction, naming and code generation', 'tinynn/graph/tracer.py')],
        tech='stateful property-based testing (Hypothesis): random tracing histories, invariants against a snapshot after every operation',
        note='histories of up to 24 operations over three models.',
    ),
    dict(
        id='P01',
        design="*Spec*: random prunable network (CNN, residual, split, MLP, sequence, token profiles) with all-distinct weights, sparsity, metric. *Oracle*: every remaining parameter slice is found (by value) in the original, the removed channels are inferred per layer and must be consistent; the pruned model must equal the original with these channels' contributions zeroed, on unseen inputs; sizes, masks, hooks, flags, re-generated code. Restrictions (refused by the pruner or ambiguous dims; only counted): grouped convolutions together with cat/residual/split, chunk/slicing/getitem constants, PixelShuffle, 5-D channel-shuffle views, split of flattened values, attention with ambiguous dims, projected LSTMs whose projection reaches the hidden size. Cost: 40 s.",
        title='Channel pruning removes whole channels and nothing else',
        statement='For every prunable network, sparsity and importance metric, structured pruning only deletes channels, consistently in every layer that shares them: each remaining weight is an original weight in its original order, and the pruned network computes on every input what the original computes with the deleted channels set to zero. '
        'The recorded layer sizes match the weights, no mask or hook is left behind, training flags stay as they were and code generated from the pruned graph computes the same.',
        over=['networks', 'configurations', 'inputs'],
        qtext='all prunable network topologies x sparsities x metrics x inputs',
        why='Channels are tied together through residuals, concatenations, splits, reshapes and recurrent gates; a wrong index removes the wrong channel silently. The tests check a few topologies, mostly for the resulting sizes.',
        files=['tinynn/graph/modifier.py', 'tinynn/graph/masker.py', 'tinynn/prune/oneshot_pruner.py', 'tinynn/prune/base_pruner.py'],
        mech=[('dependency analysis and choice of the channels', 'tinynn/graph/modifier.py'), ('masks', 'tinynn/graph/masker.py'), ('pruning procedure', 'tinynn/prune/oneshot_pruner.py')],
        tech=DIFF + 'random prunable networks with all-distinct weights, pruned model against the zero-filled original on unseen inputs',
        note='CNN, residual, split, MLP, sequence and token networks of up to 10 layers; four importance metrics; topologies the pruner refuses are only counted outside the core profiles.',
    ),
    dict(
        id='Q01',
        design="*Spec*: random networks (5 profiles) made of the idioms the quantizers rewrite, fuse or skip (functional activations, arithmetic with scalars/broadcast/alpha, in-place forms, batch-norms before/after convolutions and linear layers, shared layers, layer/RMS norm, pads, concatenations, dropout, recurrent layers) x configuration (QAT/PTQ, backend, per-channel, symmetric, legacy fake-quantize, in-place, fuse-only, calibration algorithm). *Oracle*: the prepared model with observers and fake-quantization disabled must equal the original network, in evaluation mode on two unseen input sets and, for a third of the QAT cases, in training mode with the statistics it accumulates; the model passed in (state, flags, attributes) is untouched unless in-place rewriting was requested. *Rejected inputs*: networks that cannot be trained (QAT), ill-conditioned ones, documented unsupported-combination assertions. *Reach*: which rewrite applies depends on neighbours, aliasing, argument spelling and sharing; the tests mostly count fake-quantize modules.",
        title='Preparing a network for quantization does not change what it computes',
        statement='For every supported network and quantizer configuration, the model prepared for quantization-aware training or post-training quantization computes, with the quantization simulation switched off, what the original network computes, in evaluation and training mode. '
        'Rewriting operations as layers, fusing layers and adding quantization stubs never changes a result or an output, and unless the rewrite is asked to happen in place, the original model stays as it was.',
        over=['networks', 'configurations', 'inputs'],
        qtext='all networks of supported operations x quantizer configurations x modes x inputs',
        why='Rewrite and fusion rules match neighbourhoods of operations and depend on argument spelling, aliasing, sharing, the mode and the backend; the tests look at the number and place of the fake-quantize modules of small networks.',
        files=['tinynn/graph/quantization/quantizer.py', 'tinynn/graph/quantization/fused_modules.py', 'tinynn/graph/quantization/modules.py', 'tinynn/graph/quantization/utils.py', 'tinynn/graph/quantization/qat_modules.py'],
        mech=[('rewriting of the traced graph for quantization', 'tinynn/graph/quantization/quantizer.py'), ('layer fusion', 'tinynn/graph/quantization/fused_modules.py')],
        tech=DIFF + 'random networks x quantizer configurations, prepared model with the simulation off against the original',
        note='networks of up to 10 statements from 5 profiles; numeric effects of the fake-quantization itself are not part of it.',
    ),
    dict(
        id='C04',
        design='*Spec*: random network (4 profiles) x quantizer configuration (QAT/PTQ, per-tensor/per-channel, asymmetric/symmetric, rounding, concatenation handling) x converter options; the network is prepared, calibrated on all input sets, converted to a quantized PyTorch model and then to TFLite. *Oracle*: differential — the quantized PyTorch model on four input sets. The tolerance is not a constant: single-step errors are injected into every quantized result of the PyTorch model (a dispatch-mode) and the deviation they cause bounds the allowed difference, so a wrong scale, zero point, axis, fused activation or operand shows while legitimate rounding does not. Inputs that saturate a quantize operator are skipped (the converter removes quantize/dequantize pairs).',
        title='A converted quantized network computes what the quantized PyTorch model does',
        statement='For every supported network quantized in PyTorch, with any quantization scheme and converter option, the TFLite model computes the same outputs as the quantized PyTorch model on every input, up to the rounding of single quantization steps. '
        'Scales, zero points, per-channel axes, quantized constants and biases, and requantization stay correct through lowering, rewriting and graph optimization.',
        over=['networks', 'configurations', 'inputs'],
        qtext='all quantized networks of supported operations x quantization schemes x converter options x inputs',
        why='The tests convert a few quantized operators without comparing numbers, or a single full network; a lost zero point, a scale of the wrong tensor or a dropped activation needs a particular combination of operator, scheme and neighbourhood.',
        files=['tinynn/converter/operators/torch/quantized.py', 'tinynn/converter/operators/torch/aten.py', 'tinynn/converter/operators/optimize.py', 'tinynn/converter/operators/tflite/base.py', 'tinynn/converter/operators/tflite/transformable.py', 'tinynn/converter/base.py'],
        mech=[('lowering of quantized operators', 'tinynn/converter/operators/torch/quantized.py'), ('quantized tensors', 'tinynn/converter/operators/tflite/base.py'), ('quantize/dequantize fusion and rewriting', 'tinynn/converter/operators/optimize.py')],
        tech=DIFF + 'random quantized networks, TFLite interpreter against the quantized PyTorch model with a tolerance measured by noise injection',
        note='networks of up to 10 statements; int16 and strict symmetric models with shifted zero points are refused or skipped.',
    ),
    dict(
        id='Q02',
        design='*Spec*: random network (4 profiles) x quantizer configuration x calibration on 1-4 input sets x optional training steps x target backend of the conversion. *Oracle*: the quantization simulation — the prepared model itself for quantization-aware training; for post-training quantization, the observers of the prepared model are turned into quantize-dequantize operations and its weights are quantized by fresh weight observers (reference model). The converted model has to agree on four input sets within three times the deviation that single-step errors, injected into each quantized result, cause. Observed ranges of clamping layers are not part of the quantized model, so networks with clamps are compared on the calibrated inputs only.',
        title='Converting a prepared network to quantized form keeps its simulated behaviour',
        statement='For every network prepared and calibrated (and possibly trained) for quantization, the quantized PyTorch model made from it computes, up to the rounding of single quantization steps, what the quantization simulation computes, on every input, for both target backends. '
        'Scales and zero points come from the right observers, and no activation, bias, batch normalization or requantization is lost or applied twice.',
        over=['networks', 'configurations', 'inputs', 'calibration histories'],
        qtext='all prepared networks x configurations x calibration/training histories x inputs',
        why='Observers are shared, disabled, replaced and copied between neighbouring layers depending on the fused pattern; the tests only look at which modules have observers in small networks and never compare a converted model with its simulation.',
        files=['tinynn/graph/quantization/quantizer.py', 'tinynn/graph/quantization/fused_modules.py', 'tinynn/graph/quantization/qat_modules.py', 'tinynn/graph/quantization/modules.py', 'tinynn/graph/quantization/fake_quantize.py'],
        mech=[('placement of observers and conversion', 'tinynn/graph/quantization/quantizer.py'), ('quantized counterparts of fused layers', 'tinynn/graph/quantization/fused_modules.py')],
        tech=DIFF + 'random prepared networks, converted quantized model against the quantization simulation with a tolerance measured by noise injection',
        note='networks of up to 10 statements, eight-bit schemes.',
    ),
    #NEXT
]
NOT_APPLICABLE = []
# substring of the subject of a fix commit -> property it belongs to (first match wins)
FIX_PROPERTY = {
    'converting for the PyTorch backend': 'Q02',
    'with the rounding mode of TFLite': 'C04', 'negation of asymm': 'C04', 'quantized group convolutions are rewritten': 'C04', 'value that is a view fails after': 'Q01', 'quantized ELU': 'C04', 'quantized batch norm with ReLU': 'C04',
    'converting expand, repeat': 'C04', 'quantized hardtanh': 'C04', 'quantized average pooling': 'C04', 'padding value of quantized': 'C04', 'requantized values that': 'C04', 'rewrite_quantizable': 'C04',  'output nodes fused with dequantize': 'C04',
    'similar names': 'T01', 'stays patched': 'T02', 'without bias is generated': 'T01',
    'prun': 'P01',
    'bytecode of another': 'T02', 'inserting a node for one': 'Q01', 'constructors of deleted': 'T02', 'quantiz': 'Q01', 'BatchNorm1d on two-dim': 'Q01', 'before ReLU': 'Q01', 'batch norm is fused with the next': 'Q01',
    'functional dropout': 'Q01',
    'patched __setattr__': 'T02', 'in torch.nn.functional are not traced': 'T01', 'dead graph elimination': 'T01', 'item of a shape': 'T01', 'traced as indexing': 'T01', 'list of non-leaf': 'T01',
    'max_transpose_dims': 'C02', 'PRELU was moved': 'C02', 'PRELU were broken': 'C02', 'SPLIT': 'C02', 'grouped transposed convolutions was dropped': 'C02', 'before max pooling was fused': 'C02',
    'batch-norm': 'C02', 'channel selections': 'C02', 'fused as if': 'C02', 'no-ops': 'C02', 'passthrough': 'C02', 'removed as': 'C02', 'UNPACK': 'C02', 'PACK': 'C02', 'permute with negative': 'C02',
    'were moved through': 'C02', 'fused into a reshape': 'C02', 'ascending indices': 'C02',
}
KNOWN = [
    {
        'property': 'C04',
        'id': 'transposed-convolution-without-bias',
        'what': 'conv_transpose_with_bias=False on quantized models adds the integer bias to the quantized output of the transposed convolution as if it had the same type and scale: the result is wrong',
        'spec': {'body': ['v1 = self.m0(x0)', 'v2 = F.relu6(v1)'], 'cfg': {'asymmetric': True, 'kind': 'ptq', 'per_tensor': True}, 'init': ['self.m0 = nn.ConvTranspose2d(3, 3, 1, stride=2, padding=0, groups=1, bias=True)'], 'inputs': [{'kind': 'n', 'shape': [1, 3, 1, 1]}], 'mode': 'u8', 'opts': {'conv_transpose_with_bias': False, 'nchw_transpose': True}, 'pre': [], 'ret': 'v2', 'seed': 123, 'task': 'qcnn'},
    },
    {
        'property': 'T01',
        'id': 'new-tensor-methods',
        'what': 'Tensor.new_zeros/new_ones/new_full/... are not intercepted: their result is recorded as a constant, so a size that the program reads from its input and passes to them is frozen',
        'spec': {'body': ['v0 = x0 + x0.new_zeros(x0.shape)'], 'init': [], 'inputs': [{'kind': 'n', 'shape': [4]}], 'op': 'creation', 'ret': 'v0', 'seed': 2, 'task': 'op', 'allow': ['new'],
                 'topts': {'again': False, 'ctx': False, 'dyn': True, 'edg': False, 'grad': False, 'list': False, 'train': False}},
    },
    {
        'property': 'C01',
        'id': 'write-through-view',
        'what': 'an in-place assignment to a slice or element of an intermediate tensor (t[0] = 2.0) is lost: TorchScript traces it as copy_/fill_ into a view and the converted model returns the tensor unmodified',
        'spec': {'body': ['t = x0 + 0', 't[0] = 2.0', 'v0 = t'], 'init': [], 'inputs': [{'kind': 'n', 'shape': [3]}], 'op': 'index_put', 'opts': {'nchw_transpose': False}, 'ret': 'v0', 'seed': 3},
    },
    {
        'property': 'T01',
        'id': 'item-assignment',
        'what': 'item assignment to an intermediate tensor (t[0] = 2.0, t[:, 0] += v) is not recorded by the tracer: the generated model leaves it out',
        'spec': {'body': ['t = x0.clone()', 't[0] = 2.0', 'v0 = t + 0'], 'init': [], 'inputs': [{'kind': 'n', 'shape': [3]}], 'ret': 'v0', 'seed': 3, 'task': 'op', 'allow': ['setitem'],
                 'topts': {'ctx': False, 'list': False, 'edg': False, 'again': False, 'train': False, 'dyn': False, 'grad': False}},
    },
    {
        'property': 'T01',
        'id': 'augmented-assignment-alias',
        'what': 'an augmented assignment (y += 1) to a tensor that has a view (z = y.view(-1)) is generated as y = y + 1, so the view keeps its old values',
        'spec': {'body': ['y = x0 + 1', 'z = y.view(-1)', 'y += 1', 'v0 = z * 2'], 'init': [], 'inputs': [{'kind': 'n', 'shape': [3]}], 'ret': 'v0', 'seed': 3, 'task': 'op',
                 'topts': {'ctx': False, 'list': False, 'edg': False, 'again': False, 'train': False, 'dyn': False, 'grad': False}},
    },
]
