import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import harness
harness.bootstrap()
import copy
import re
import numpy as np
import torch
import torch.nn as nn
import torch.quantization as tq
from hypothesis import strategies as st
import progs, quantgen, quantrun
from opgen import D
from harness import Check, Task, Violation, Reject


def simulate(qm):
    """Post-training quantization has no simulation, so let the observers do what the quantized model has to do."""
    n = 0
    for m in qm.modules():
        o = getattr(m, 'activation_post_process', None)
        if isinstance(o, tq.ObserverBase):
            s, z = o.calculate_qparams()
            lo, hi = (o.quant_min, o.quant_max)

            def hook(mod, inp, out, s=float(s), z=int(z), lo=lo, hi=hi):
                return torch.fake_quantize_per_tensor_affine(out, s, z, lo, hi)

            o.register_forward_hook(hook)
            n += 1
            w = getattr(m, 'weight', None)
            if isinstance(w, nn.Parameter) and getattr(m, 'qconfig', None) is not None and w.dim() >= 2:
                wo = m.qconfig.weight()
                wo(w)
                s, z = wo.calculate_qparams()
                with torch.no_grad():
                    if s.numel() > 1:
                        w.copy_(torch.fake_quantize_per_channel_affine(w, s, z.int(), wo.ch_axis, wo.quant_min, wo.quant_max))
                    else:
                        w.copy_(torch.fake_quantize_per_tensor_affine(w, float(s), int(z), wo.quant_min, wo.quant_max))
    return n


def run(spec):
    if re.search(r'value=[^0]', str(spec)) or 'ConstantPad' in str(spec):
        raise Reject('the padded value may be out of the range')
    if 'count_include_pad=False' in str(spec):
        raise Reject('QNNPACK ignores count_include_pad')
    model = progs.build(spec)
    cases = [progs.make_inputs(spec, w) for w in range(4)]
    try:
        for c in cases:
            progs.torch_forward(model, c)
    except Exception as e:
        raise Reject(f'not a torch program: {type(e).__name__}: {str(e)[:60]}')
    qat = spec['cfg']['kind'] == 'qat'
    if qat:
        try:
            copy.deepcopy(model).train()(*[c.clone() for c in cases[0]])
        except Exception as e:
            raise Reject(f'not trainable: {type(e).__name__}')
    calib = cases if spec['calib'] == 4 else cases[:spec['calib']]
    q, qm = quantrun.prepare(spec, model, cases[0], calib)
    if qat and spec['train'] and any(p.requires_grad for p in qm.parameters()):
        qm.train()
        qm.apply(tq.enable_observer)
        opt = torch.optim.SGD(qm.parameters(), lr=0.02)
        for w in range(2):
            out = [o for o in progs.flat(qm(*[c.clone() for c in cases[w]])) if o.is_floating_point() and o.requires_grad]
            if out:
                opt.zero_grad()
                sum((o.tanh() ** 2).mean() for o in out).backward()
                nn.utils.clip_grad_norm_(qm.parameters(), 1.0)
                opt.step()
        quantrun.frozen(qm)
        qm.eval()
    sim = qm if qat else copy.deepcopy(qm)
    if not qat:
        simulate(sim)
    with torch.no_grad():
        refs = [progs.flat(sim(*[t.clone() for t in c])) for c in cases]
    if not all(bool(torch.isfinite(r).all()) for rs in refs for r in rs if r.is_floating_point()):
        raise Reject('not finite')
    try:
        cm = q.convert(qm, **({'backend': 'pytorch'} if spec['pytorch'] else {}))
    except ValueError as e:
        if 'is not supported by quantized convolution' in str(e):
            raise Reject('padding mode')
        raise
    torch.backends.quantized.engine = q.backend
    cm.eval()
    try:
        qrefs = [quantrun.forward(cm, c) for c in cases]
    except Exception as e:
        raise Reject(f'torch cannot run it quantized: {type(e).__name__}: {str(e)[:80]}')
    nq = sum('quantized' in type(m).__module__ for m in cm.modules())
    info = 0
    # the observed ranges of the clamps are not a part of the quantized model
    clamps = any(x in str(spec) for x in ('clamp', 'relu6', 'ReLU6', 'ardtanh'))
    for w, c in enumerate(cases):
        if clamps and w >= spec['calib']:
            continue
        dev = quantrun.sensitivity(cm, c, qrefs[w], (spec['seed'], w))
        if len(refs[w]) != len(qrefs[w]):
            raise Violation(f'{len(qrefs[w])} outputs, expected {len(refs[w])}')
        for i, (a, b) in enumerate(zip(refs[w], qrefs[w])):
            tol = 3 * dev[i] + 1e-4
            if b.is_floating_point() and b.numel() and dev[i] < 0.25 * float(a.abs().max()):
                info += 1
            progs.compare(f'input set {w}, output {i} (tolerance {tol:.3g})', b, a, atol=tol, rtol=1e-4)
    return {'nontrivial': nq >= 3 and info > 0, 'tags': [spec['task'], spec['mode'], spec['cfg']['kind']]}


PROFILES = {
    'qmixed': dict(steps=(2, 5)),
    'qcnn': dict(steps=(2, 5), tags=('conv', 'ew', 'pool', 'q', 'join'), exclude=('misc', 'lin')),
    'qarith': dict(steps=(2, 5), tags=('arith', 'act', 'ew', 'join')),
    'qmlp': dict(steps=(2, 5), tags=('lin', 'arith', 'act', 'layout', 'split'), start4=False),
}


def strategy(prof):
    @st.composite
    def s(draw):
        d = D(draw)
        spec = quantgen.graphgen.grow(d, extra=quantgen.EXTRA, **PROFILES[prof])
        spec['mode'], spec['cfg'] = quantrun.config(d)
        spec['pytorch'] = d.p(1, 4)
        spec['train'] = d.p(1, 3)
        spec['calib'] = d.c([4, 4, 2, 1])
        spec['seed'] = d.seed()
        spec['task'] = prof
        return spec

    return s()


def tasks(tier):
    return [Task(f'{p}{i}', strategy(p), 50, 2500) for p in PROFILES for i in range(3)]


CHECK = Check(
    'Q02', tasks, run,
    'random network x configuration, prepared, calibrated (and trained), then converted: the quantized model is compared with the quantization simulation on four input sets, with a tolerance that is measured '
    'by disturbing each quantized result by one step; non-trivial: three quantized modules and the tolerance of one output is below a quarter of its magnitude',
)
CHECK.fork_cases = True


def setup():
    m = torch.nn.Sequential(torch.nn.Conv2d(3, 4, 3), torch.nn.BatchNorm2d(4), torch.nn.ReLU())
    for k in ('qat', 'ptq'):
        q, qm = quantrun.prepare({'cfg': {'kind': k}}, copy.deepcopy(m), [torch.ones(1, 3, 8, 8)], [[torch.ones(1, 3, 8, 8)]])
        q.convert(qm)


CHECK.setup = setup
if __name__ == '__main__':
    sys.exit(harness.main(CHECK))
