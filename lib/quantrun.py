"""From a random network to a prepared, calibrated and converted quantized model."""
import copy

import numpy as np
import torch
import torch.nn as nn
import torch.quantization as tq
from torch.utils._python_dispatch import TorchDispatchMode

import progs, quantgen
from harness import Reject, Violation
from tinynn.graph.quantization.quantizer import QATQuantizer, PostQuantizer

CLS = {'qat': QATQuantizer, 'ptq': PostQuantizer}
VIEWS = ('view', 'reshape', 'permute', 'transpose', 'slice', 'select', 'squeeze', 'flatten', 'split', 'chunk', 'unbind', 'expand', 'alias', 'detach', 'copy', 'clone', 'contiguous', 'max_pool', 'relu',
         'narrow', 'as_strided', 'index', 'flip', 'to', 'repeat', 'unfold')


class Noise(TorchDispatchMode):
    """Every quantized result of an arithmetic operation is off by up to one step."""

    def __init__(self, seed, amp=1):
        super().__init__()
        self.g = progs.gen_for('noise', seed)
        self.amp = amp
        self.saturated = False
        self.zero_points = set()

    def perturb(self, out):
        if isinstance(out, torch.Tensor) and out.is_quantized and out.numel() and out.qscheme() == torch.per_tensor_affine and out.dtype in (torch.quint8, torch.qint8):
            i = out.int_repr().int()
            n = torch.randint(-self.amp, self.amp + 1, i.shape, generator=self.g)
            info = torch.iinfo(torch.uint8 if out.dtype == torch.quint8 else torch.int8)
            i = (i + n).clamp(info.min, info.max).to(torch.uint8 if out.dtype == torch.quint8 else torch.int8)
            return torch._make_per_tensor_quantized_tensor(i, out.q_scale(), out.q_zero_point())
        return out

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        name = func._schema.name.split('::')[-1]
        if name == 'relu6' and len(args) > 1 and args[1]:
            return args[0].copy_(self.perturb(func(args[0].clone(memory_format=torch.contiguous_format), False)))
        if not name.endswith('_'):
            # several of the quantized kernels of PyTorch mix up the elements of channels-last tensors
            args = tuple(a.clone(memory_format=torch.contiguous_format) if isinstance(a, torch.Tensor) and a.is_quantized and a.qscheme() == torch.per_tensor_affine else a for a in args)
        if name.startswith('upsample_') and isinstance(args[0], torch.Tensor) and args[0].is_quantized:
            # so do the kernels for a single pixel
            out = func(args[0].int_repr().float(), *args[1:], **(kwargs or {})).round().to(torch.uint8 if args[0].dtype == torch.quint8 else torch.int8)
            out = torch._make_per_tensor_quantized_tensor(out.contiguous(), args[0].q_scale(), args[0].q_zero_point())
            return out if 'nearest' in name else self.perturb(out)
        out = func(*args, **(kwargs or {}))
        if name.startswith('quantize_per_tensor') and isinstance(out, torch.Tensor) and out.is_quantized and out.numel():
            # quantize-dequantize pairs are removed, and this is visible for the values out of the range
            if float((args[0] - out.dequantize()).abs().max()) > out.q_scale() * 1.5:
                self.saturated = True
        if name.startswith('batch_norm') and isinstance(out, torch.Tensor) and out.is_quantized:
            x, w, b, mean, var, eps = args[:6]
            y = torch.nn.functional.batch_norm(x.dequantize(), mean, var, w, b, False, 0.0, eps)
            if 'relu' in name:
                y = y.clamp(min=0)
            if float((y - out.dequantize()).abs().max()) > out.q_scale() * 1.5:
                self.saturated = True
        if isinstance(out, torch.Tensor) and out.dtype == torch.quint8:
            self.zero_points.add(out.q_zero_point())
        if any(name.startswith(v) for v in VIEWS) and name != 'relu6' or name.endswith('_'):
            return out
        return self.perturb(out)


def forward(cm, case):
    with torch.no_grad(), Noise(0, 0):
        return progs.flat(cm(*[c.clone() for c in case]))


def sensitivity(cm, case, ref, seed, trials=6):
    """How far single-step errors of the operations carry to each of the outputs."""
    dev = [0.0] * len(ref)
    for t in range(trials):
        with torch.no_grad(), Noise((seed, t)):
            out = progs.flat(cm(*[c.clone() for c in case]))
        for i, (a, b) in enumerate(zip(out, ref)):
            if b.is_floating_point() and b.numel():
                dev[i] = max(dev[i], float((a - b).abs().max()))
    return dev


def saturates(cm, case):
    with torch.no_grad(), Noise(0, 0) as n:
        cm(*[c.clone() for c in case])
    return n.saturated


def asymmetric(cm, case):
    with torch.no_grad(), Noise(0, 0) as n:
        cm(*[c.clone() for c in case])
    return n.zero_points != {128}


def observers(qm):
    return [m for m in qm.modules() if isinstance(m, tq.ObserverBase) and hasattr(m, 'averaging_constant') and hasattr(m, 'min_val')]


def frozen(qm):
    qm.apply(tq.disable_observer)
    for m in qm.modules():
        if isinstance(m, (nn.BatchNorm1d, nn.BatchNorm2d)):
            m.eval()


def prepare(spec, model, dummy, calib):
    c = dict(spec['cfg'])
    kind = c.pop('kind')
    c['ignore_layerwise_config'] = True
    q = CLS[kind](model, tuple(d.clone() for d in dummy), work_dir='out', config=c)
    qm = q.quantize()
    if kind == 'qat':
        qm.train()
        qm.apply(tq.enable_observer)
        qm.apply(tq.enable_fake_quant)
    else:
        qm.eval()
    obs = observers(qm)
    lim = {}
    with torch.no_grad():
        for x in calib:
            for m in obs:
                m.reset_min_max_vals()
            qm(*[t.clone() for t in x])
            for m in obs:
                lo, hi = lim.get(m, (m.min_val, m.max_val))
                if lo.shape == m.min_val.shape:
                    lo, hi = torch.minimum(lo, m.min_val), torch.maximum(hi, m.max_val)
                lim[m] = (lo.clone(), hi.clone())
        if obs:
            # the ranges cover all of the inputs
            for m in obs:
                m.averaging_constant = 0.0
                if m.min_val.shape == lim[m][0].shape and bool(torch.isfinite(lim[m][0]).all()):
                    m.min_val.copy_(lim[m][0])
                    m.max_val.copy_(lim[m][1])
            qm(*[t.clone() for t in calib[0]])
    frozen(qm)
    qm.eval()
    return q, qm


MODES = {
    'u8': dict(asymmetric=True, per_tensor=True),
    'i8': dict(asymmetric=True, per_tensor=False),
    's8': dict(asymmetric=False, per_tensor=False),
}


def config(d):
    mode = d.c(['u8', 'u8', 'i8', 'i8', 's8'])
    c = dict(MODES[mode])
    c['kind'] = d.c(['qat', 'qat', 'ptq'])
    if d.p(1, 3):
        c['set_quantizable_op_stats'] = True
    if d.p(1, 4):
        c['rounding_mode'] = 'tflite'
    if d.p(1, 6):
        c['disable_requantization_for_cat'] = True
    if d.p(1, 8) and mode != 's8':
        # the fused kernel of PyTorch ignores that the scheme is symmetric for ranges on one side of zero
        c['legacy_fq'] = False
    return mode, c
