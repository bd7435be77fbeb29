import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import harness
harness.bootstrap()
import torch
import progs, tfl, opgen
from harness import Check, Task, Violation, Reject


def run(spec):
    model = progs.build(spec)
    dummy = progs.make_inputs(spec, 0)
    try:
        refs0 = progs.torch_forward(model, dummy)
    except Exception as e:
        raise Reject(f'not a torch program: {type(e).__name__}')
    if any(r.numel() == 0 for r in refs0):
        raise Reject('empty output')
    opts = dict(spec['opts'])
    cases = [progs.make_inputs(spec, w) for w in (1, 2, 0)]
    refs = [progs.torch_forward(model, c) for c in cases]
    try:
        path, conv = tfl.convert(model, dummy, keep_converter=True, **opts)
    except tfl.Unsupported as e:
        raise Reject(f'unsupported op {e}')
    it = tfl.TFL(path)
    itrans = [bool(t) for t in conv.input_transpose]
    otrans = [bool(t) for t in (conv.output_transpose if isinstance(conv.output_transpose, (list, tuple)) else [conv.output_transpose] * 99)]
    for w, (c, ref) in enumerate(zip(cases, refs)):
        got = it.run([tfl.nhwc(a, t) for a, t in zip(c, itrans)])
        if len(got) != len(ref):
            raise Violation(f'{len(got)} outputs, expected {len(ref)}')
        for i, (g, r) in enumerate(zip(got, ref)):
            r = tfl.nhwc(r, otrans[i])
            # TFLite's GELU is an approximation of its own
            tfl.compare_out(f'input set {w}, output {i}', g, r, atol=2e-3 if 'gelu' in spec['body'][0] else 1e-4)
    return {'nontrivial': any(r.numel() > 1 for r in refs0), 'tags': [spec['op']]}


def tasks(tier):
    return [Task(n, opgen.make_strategy(n), v[1] * 7, v[1] * 120) for n, v in opgen.OPS.items()]


CHECK = Check(
    'C01',
    tasks,
    run,
    'one PyTorch operator or layer (65 generator families) with random rank, shape, arguments, dtype, input layout and optimisation level, '
    'converted and compared with eager PyTorch on three input sets (two never seen by the converter); '
    'non-trivial: the program converts, runs and has an output of more than one element; distinct: spec without its seed',
    assumptions=[
        'the TFLite interpreter bundled with TensorFlow 2.18 (reference kernels where they exist) defines what a .tflite file means',
        'programs beyond the documented limits of the converter (explicit refusals) are not generated here; see C07',
    ],
)
if __name__ == '__main__':
    sys.exit(harness.main(CHECK))
