import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import harness
harness.bootstrap()
import numpy as np
import torch
from hypothesis import strategies as st
import progs, tfl, graphgen
from opgen import D
from harness import Check, Task, Violation, Reject


def run(spec):
    model = progs.build(spec)
    dummy = progs.make_inputs(spec, 0)
    try:
        refs0 = progs.torch_forward(model, dummy)
    except Exception as e:
        raise Reject(f'not a torch program: {type(e).__name__}: {str(e)[:60]}')
    cases = [progs.make_inputs(spec, w) for w in (1, 0)]
    refs = [progs.torch_forward(model, c) for c in cases]
    if not progs.stable_enough(model, cases[0], refs[0]):
        raise Reject('ill-conditioned program')
    try:
        path, conv = tfl.convert(model, dummy, keep_converter=True, **spec['opts'])
    except tfl.Unsupported as e:
        raise Reject(f'unsupported op {e}')
    except AssertionError as e:
        if "Don't know how to reduce the number of dims" in str(e):
            raise Reject('max_transpose_dims out of reach')
        raise
    it = tfl.TFL(path)
    otrans = conv.output_transpose
    if not isinstance(otrans, (list, tuple)):
        otrans = [otrans] * len(refs0)
    for w, (c, ref) in enumerate(zip(cases, refs)):
        got = it.run([tfl.nhwc(a, t) for a, t in zip(c, conv.input_transpose)])
        if len(got) != len(ref):
            raise Violation(f'{len(got)} outputs, expected {len(ref)}')
        for i, (g, r) in enumerate(zip(got, ref)):
            tfl.compare_out(f'input set {w}, output {i}', g, tfl.nhwc(r, otrans[i]), atol=1e-3 if any('gelu' in b for b in spec['body']) else 2e-4, rtol=2e-3)
    return {'nontrivial': len(spec['body']) >= 3, 'tags': [spec['task'], f"opt{spec['opts'].get('optimize', 'd')}"]}


def options(d):
    o = {'nchw_transpose': d.p(1, 2), 'group_conv_rewrite': True}
    if d.p(1, 3):
        o['optimize'] = d.i(0, 5)
    if d.p(1, 8):
        o['bypass_elementwise_passthrough_constraint'] = True
    if d.p(1, 8):
        o['max_transpose_dims'] = d.i(2, 5)
    if d.p(1, 8):
        o['tflite_micro_rewrite'] = True
    if d.p(1, 8):
        o['rewrite_quantizable'] = True
    if d.p(1, 8):
        o['conv_transpose_with_bias'] = False
    if d.p(1, 8):
        o['group_tensors'] = True
    return o


PROFILES = {
    'mixed': dict(steps=(3, 8)),
    'deep': dict(steps=(8, 14)),
    'layout': dict(steps=(4, 9), tags=('layout', 'ew', 'join', 'split', 'slice', 'reduce', 'pad', 'prelu', 'expand'), weights={'permute': 8, 'reshape': 5}),
    'layout4': dict(steps=(3, 7), tags=('layout', 'ew', 'join', 'conv', 'pool', 'slice', 'split', 'pad'), weights={'permute': 8, 'reshape': 3}),
    'reshape': dict(steps=(3, 8), tags=('layout', 'ew', 'join', 'split', 'slice', 'linear', 'reduce'), weights={'reshape': 9}),
    'fusion': dict(steps=(2, 6), tags=('conv', 'ew', 'norm', 'pad', 'linear', 'prelu'), exclude=('layout',)),
    'linear': dict(steps=(2, 7), tags=('linear', 'ew', 'layout', 'softmax', 'norm'), exclude=('bn',), weights={'linear': 6, 'matmul': 3}, start4=False),
    'slices': dict(steps=(3, 7), tags=('slice', 'split', 'join', 'expand', 'conv'), weights={'slice': 6, 'cat': 5}),
}


def strategy(prof):
    @st.composite
    def s(draw):
        d = D(draw)
        spec = graphgen.grow(d, **PROFILES[prof])
        spec['opts'] = options(d)
        spec['seed'] = d.seed()
        spec['task'] = prof
        return spec

    return s()


def tasks(tier):
    return [Task(f'{p}{i}', strategy(p), 280, 4000) for p in PROFILES for i in range(2)]


CHECK = Check(
    'C02',
    tasks,
    run,
    'random DAG of 2-14 operators (conv/pool/bn/linear/matmul/reshape/permute/slice/split/stack/cat/elementwise/reduce/pad/expand, shared layers, '
    'multi-consumer values, several outputs) x optimisation level x rewrite options, converted and compared with eager PyTorch on an unseen and on the '
    'traced input; non-trivial: converts, runs and has at least 3 operators; distinct: spec without its seed',
    assumptions=[
        'the TFLite interpreter bundled with TensorFlow 2.18 (reference kernels where they exist, all tensors preserved) defines what a .tflite file means',
        'only operators that C01 covers on their own are combined',
        'programs whose output moves by more than 0.2% under a 1e-5 input perturbation are skipped as ill-conditioned (counted as rejected)',
    ],
)
if __name__ == '__main__':
    sys.exit(harness.main(CHECK))
