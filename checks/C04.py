import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import harness
harness.bootstrap()
import copy
import numpy as np
import torch
from hypothesis import strategies as st
import progs, quantgen, quantrun, tfl
from opgen import D
from harness import Check, Task, Violation, Reject


def run(spec):
    model = progs.build(spec)
    cases = [progs.make_inputs(spec, w) for w in range(4)]
    try:
        refs = [progs.torch_forward(model, c) for c in cases]
    except Exception as e:
        raise Reject(f'not a torch program: {type(e).__name__}: {str(e)[:60]}')
    if spec['cfg']['kind'] == 'qat':
        try:
            copy.deepcopy(model).train()(*[c.clone() for c in cases[0]])
        except Exception as e:
            raise Reject(f'not trainable: {type(e).__name__}')
    q, qm = quantrun.prepare(spec, model, cases[0], cases)
    try:
        cm = q.convert(qm)
    except ValueError as e:
        if 'is not supported by quantized convolution' in str(e):
            raise Reject('padding mode')
        raise
    torch.backends.quantized.engine = q.backend
    cm.eval()
    try:
        qrefs = [quantrun.forward(cm, c) for c in cases]
    except Exception as e:
        raise Reject(f'torch cannot run it quantized: {type(e).__name__}: {str(e)[:80]}')
    if spec['opts'].get('strict_symmetric_check') and quantrun.asymmetric(cm, cases[0]):
        raise Reject('the converter warns that zero points are lost')
    dev = [quantrun.sensitivity(cm, c, r, (spec['seed'], w)) for w, (c, r) in enumerate(zip(cases, qrefs))]
    dummy = cases[0]
    try:
        path, conv = tfl.convert(cm, dummy, keep_converter=True, quantize_target_type='uint8' if spec['cfg']['per_tensor'] else 'int8', **spec['opts'])
    except tfl.Unsupported as e:
        raise Reject(f'unsupported op {e}')
    except AssertionError as e:
        if 'Only alpha == 1 is supported' in str(e):
            raise Reject('alpha of ELU')
        if 'count_include_pad=False is not supported' in str(e):
            raise Reject('count_include_pad')
        if 'Unsupported types: ' in str(e) and 'float32' in str(e):
            raise Reject('quantize_input_output_type for floating-point inputs or outputs')
        if 'replace_next_tensors where last_node.next' in str(e):
            raise Reject('quantize_input_output_type for models that pass their inputs through')
        raise
    if tfl.deep_broadcast(path):
        raise Reject('TFLite cannot broadcast quantized tensors of five dimensions')
    it = tfl.TFL(path)
    otrans = conv.output_transpose
    if not isinstance(otrans, (list, tuple)):
        otrans = [otrans] * len(qrefs[0])
    checked = 0
    for w in (3, 1, 0):
        if quantrun.saturates(cm, cases[w]):
            continue
        checked += 1
        arrs = []
        for a, t, det in zip(cases[w], conv.input_transpose, it.inputs):
            a = tfl.nhwc(a, t)
            if det['dtype'] != np.float32:
                a = quant(a, det)
            arrs.append(a)
        got = it.run(arrs)
        if len(got) != len(qrefs[w]):
            raise Violation(f'{len(got)} outputs, expected {len(qrefs[w])}')
        for i, (g, r) in enumerate(zip(got, qrefs[w])):
            det = it.outputs[i]
            lsb = 0
            if g.dtype != np.float32 and r.is_floating_point():
                g, lsb = dequant(g, det)
            tol = 3 * dev[w][i] + lsb + 1e-4
            progs.compare(f'input set {w}, output {i} (tolerance {tol:.3g})', g, tfl.nhwc(r, otrans[i]), atol=tol, rtol=1e-4)
    ops = tfl.ops_in(path)
    nq = sum(o not in ('QUANTIZE', 'DEQUANTIZE') for o in ops)
    return {'nontrivial': nq >= 2 and checked > 0, 'tags': [spec['task'], spec['mode'], spec['cfg']['kind']] + ['op:' + o for o in ops]}


def quant(a, det):
    s, z = det['quantization']
    info = np.iinfo(det['dtype'])
    return np.clip(np.round(a / s) + z, info.min, info.max).astype(det['dtype'])


def dequant(g, det):
    s, z = det['quantization']
    if s == 0:
        raise Violation(f'quantized output without scale')
    return ((g.astype(np.float64) - z) * s).astype(np.float32), s


def options(d, mode, grouped_transpose):
    o = {'nchw_transpose': d.p(1, 2)}
    if d.p(1, 2) or grouped_transpose:
        o['group_conv_rewrite'] = True
    if mode == 's8' and d.b():
        o['strict_symmetric_check'] = True
    if d.p(1, 3):
        o['fuse_quant_dequant'] = True
        if d.p(1, 3):
            o['quantize_input_output_type'] = d.c(['int8', 'uint8'])
    if d.p(1, 3):
        o['rewrite_quantizable'] = True
    if d.p(1, 6):
        o['optimize'] = d.i(0, 5)
    return o


PROFILES = {
    'qmixed': dict(steps=(2, 5)),
    'qcnn': dict(steps=(2, 5), tags=('conv', 'ew', 'pool', 'q', 'join'), exclude=('misc', 'lin')),
    'qarith': dict(steps=(2, 5), tags=('arith', 'act', 'ew', 'join')),
    'qmlp': dict(steps=(2, 5), tags=('lin', 'arith', 'act', 'layout', 'split'), start4=False),
}


def strategy(prof):
    @st.composite
    def s(draw):
        d = D(draw)
        spec = quantgen.graphgen.grow(d, extra=quantgen.EXTRA, **PROFILES[prof])
        spec['mode'], spec['cfg'] = quantrun.config(d)
        spec['opts'] = options(d, spec['mode'], any('ConvTranspose' in x and 'groups=1' not in x for x in spec['init']))
        spec['seed'] = d.seed()
        spec['task'] = prof
        return spec

    return s()


def tasks(tier):
    return [Task(f'{p}{i}', strategy(p), 60, 2500) for p in PROFILES for i in range(3)]


CHECK = Check(
    'C04', tasks, run,
    'random quantized network converted to TFLite and compared with the quantized PyTorch model on inputs that were not used for tracing; '
    'non-trivial: the TFLite model has at least two operators besides QUANTIZE/DEQUANTIZE and at least one input set does not saturate',
)
CHECK.fork_cases = True


def setup():
    m = torch.nn.Sequential(torch.nn.Conv2d(3, 4, 3), torch.nn.BatchNorm2d(4), torch.nn.ReLU())
    for k in ('qat', 'ptq'):
        q, qm = quantrun.prepare({'cfg': {'kind': k}}, copy.deepcopy(m), [torch.ones(1, 3, 8, 8)], [[torch.ones(1, 3, 8, 8)]])
        cm = q.convert(qm)
        torch.backends.quantized.engine = 'qnnpack'
        tfl.TFL(tfl.convert(cm, [torch.ones(1, 3, 8, 8)]))


CHECK.setup = setup
if __name__ == '__main__':
    sys.exit(harness.main(CHECK))
