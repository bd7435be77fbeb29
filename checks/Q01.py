import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import harness
harness.bootstrap()
import copy
import torch
import torch.nn as nn
import torch.quantization as tq
from hypothesis import strategies as st
import progs, quantgen
from opgen import D
from harness import Check, Task, Violation, Reject
from tinynn.graph.quantization.quantizer import QATQuantizer, PostQuantizer, DynamicQuantizer, BF16Quantizer

CLS = {'qat': QATQuantizer, 'ptq': PostQuantizer, 'bf16': BF16Quantizer, 'dyn': DynamicQuantizer}


def snapshot(m):
    return {
        'state': {k: v.clone() for k, v in m.state_dict().items()},
        'mods': [(n, type(x).__name__, x.training, sorted(k for k in x.__dict__ if not k.startswith('__'))) for n, x in m.named_modules()],
    }


def prepare(spec, model, dummy):
    c = dict(spec['cfg'])
    kind = c.pop('kind')
    c['ignore_layerwise_config'] = True
    q = CLS[kind](model, tuple(d.clone() for d in dummy), work_dir='out', config=c)
    return q, q.quantize()


def run(spec):
    model = progs.build(spec)
    cases = [progs.make_inputs(spec, w) for w in (0, 1)]
    try:
        refs = [progs.torch_forward(model, c) for c in cases]
    except Exception as e:
        raise Reject(f'not a torch program: {type(e).__name__}: {str(e)[:60]}')
    if not progs.stable_enough(model, cases[1], refs[1]):
        raise Reject('ill-conditioned program')
    kind = spec['cfg']['kind']
    ref_model = copy.deepcopy(model)
    if kind == 'qat':
        # the networks for quantization-aware training should be trainable
        try:
            copy.deepcopy(model).train()(*[c.clone() for c in cases[0]])
        except Exception as e:
            raise Reject(f'not trainable: {type(e).__name__}')
    if spec.get('train0'):
        model.train()
    before = snapshot(model)
    try:
        q, qm = prepare(spec, model, cases[0])
    except AssertionError as e:
        if 'is not supported yet' in str(e):
            raise Reject(f'rejected: {e}')
        raise
    if not spec['cfg'].get('inplace'):
        after = snapshot(model)
        if [x[:3] for x in before['mods']] != [x[:3] for x in after['mods']]:
            raise Violation(f"the original model changed: {[a[:3] for a, b in zip(before['mods'], after['mods']) if a[:3] != b[:3]][:2]}")
        if before['mods'] != after['mods']:
            raise Violation('attributes of the original model changed')
        for k, v in before['state'].items():
            if not torch.equal(v, after['state'][k]):
                raise Violation(f'{k} of the original model changed')
    nq = 0
    for m in qm.modules():
        if isinstance(m, tq.FakeQuantizeBase):
            nq += 1
    qm.apply(tq.disable_fake_quant)
    qm.apply(tq.disable_observer)
    if spec.get('train'):
        # one training step must see the same outputs, the same statistics and the same gradients
        ref_model.train()
        qm.train()
        for w, c in enumerate(cases):
            torch.manual_seed(3)
            a = progs.flat(ref_model(*[x.clone() for x in c]))
            torch.manual_seed(3)
            b = progs.flat(qm(*[x.clone() for x in c]))
            if w == 0 and not progs.stable_enough(copy.deepcopy(ref_model), c, a, eps=1e-5, bound=5e-4):
                raise Reject('ill-conditioned in training mode')
            check(f'training mode, input set {w}', a, b, 5e-4)
    ref_model.eval()
    qm.eval()
    for w, c in enumerate(cases):
        a = progs.torch_forward(ref_model, c)
        b = progs.torch_forward(qm, c)
        check(f'input set {w}', a, b, 2e-4 if not spec.get('train') else 2e-3)
    return {'nontrivial': len(spec['body']) >= 2 and (nq > 0 or kind in ('bf16', 'dyn', 'ptq')), 'tags': [spec['task'], kind, 'fq' if nq else 'nofq']}


def check(name, a, b, tol):
    if len(a) != len(b):
        raise Violation(f'{name}: {len(b)} outputs, expected {len(a)}')
    for i, (p, q) in enumerate(zip(a, b)):
        progs.compare(f'{name}, output {i}', q.detach(), p.detach(), atol=tol, rtol=10 * tol)


def config(d):
    kind = d.c(['qat', 'qat', 'qat', 'ptq', 'ptq'])
    c = {'kind': kind}
    if d.p(1, 3):
        c['per_tensor'] = False
        if d.p(1, 4):
            c['backend'] = 'fbgemm'
    elif d.p(1, 4):
        c['backend'] = d.c(['onnx', 'tensorrt']) if kind == 'qat' else 'onnx'
    if d.p(1, 4) and c.get('backend') != 'fbgemm':
        c['asymmetric'] = False
    if d.p(1, 4):
        c['rounding_mode'] = 'tflite'
    if d.p(1, 4):
        c['set_quantizable_op_stats'] = True
    if d.p(1, 5):
        c['legacy_fq'] = False
    if d.p(1, 5):
        c['disable_requantization_for_cat'] = True
    if d.p(1, 6):
        c['inplace'] = True
    if kind == 'ptq' and d.p(1, 4):
        c['algorithm'] = d.c(['kl', 'l2'])
    if kind == 'ptq' and d.p(1, 8):
        c['fuse_only'] = True
    return c


def strategy(prof):
    @st.composite
    def s(draw):
        d = D(draw)
        spec = quantgen.grow(d, prof)
        spec['cfg'] = config(d)
        spec['train0'] = d.p(1, 3)
        spec['train'] = spec['cfg']['kind'] == 'qat' and d.p(1, 3)
        if spec['cfg'].get('backend') == 'tensorrt':
            spec['train'] = False
        spec['seed'] = d.seed()
        spec['task'] = prof
        return spec

    return s()


def tasks(tier):
    return [Task(f'{p}{i}', strategy(p), 90, 2500) for p in quantgen.PROFILES for i in range(3)]


CHECK = Check(
    'Q01', tasks, run,
    'random network with the idioms the quantizer rewrites x configuration, prepared for quantization; with the quantization simulation switched off the prepared model is compared with the '
    'original in evaluation mode (and in training mode, with the statistics it leaves) on two input sets; non-trivial: at least two statements and the model was quantized',
)
CHECK.fork_cases = True


def setup():
    m = nn.Sequential(nn.Conv2d(3, 4, 3), nn.BatchNorm2d(4), nn.ReLU())
    for k in ('qat', 'ptq'):
        prepare({'cfg': {'kind': k}}, copy.deepcopy(m), [torch.ones(1, 3, 8, 8)])


CHECK.setup = setup
if __name__ == '__main__':
    sys.exit(harness.main(CHECK))
