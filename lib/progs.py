"""Programs as data: a JSON spec describes a torch module, its inputs and options; helpers build, run and compare.

spec = {
  'inputs': [{'shape': [...], 'kind': 'n'}],      # value kinds, see make_input
  'init':   ['self.m0 = nn.Conv2d(3, 4, 3)'],     # constructor lines
  'body':   ['v0 = self.m0(x0)', ...],            # forward lines over x0.. and v*
  'ret':    'v0' | '(v0, v1)',
  'opts':   {...},  'seed': int }
"""
import linecache
import math
import os
import re
import zlib

import numpy as np
import torch
import torch.nn as nn
import torch.nn.functional as F

import harness
from harness import Reject, Violation

_cnt = [0]


def gen_for(*key):
    g = torch.Generator()
    g.manual_seed(zlib.crc32(repr(key).encode()))
    return g


def make_input(desc, seed, idx, which=0):
    """desc: {'shape','kind'}; which: 0 = dummy input, >0 = fresh inputs."""
    g = gen_for(seed, idx, which)
    shape, kind = tuple(desc['shape']), desc.get('kind', 'n')
    if kind == 'n':
        return torch.randn(shape, generator=g)
    if kind == 'p':  # positive, away from zero
        return torch.rand(shape, generator=g) * 1.8 + 0.2
    if kind == 'u':
        return torch.rand(shape, generator=g) * 2 - 1
    if kind == 'w':  # wide
        return torch.randn(shape, generator=g) * 5
    if kind == 'z':  # away from zero, both signs
        return (torch.rand(shape, generator=g) * 1.8 + 0.2) * (torch.randint(0, 2, shape, generator=g) * 2 - 1)
    if kind == 'q':  # quarter grid, exact arithmetic, ties possible
        return torch.randint(-12, 13, shape, generator=g).float() / 4
    if kind == 'o':  # odd eighths: never an integer nor a half
        return (torch.randint(-16, 17, shape, generator=g).float() * 2 + 1) / 8 + 0.0625
    if kind == 'd':  # all values distinct
        n = int(np.prod(shape)) if shape else 1
        p = torch.randperm(n, generator=g).float()
        return ((p - n // 2) / 4 + 0.125).reshape(shape)
    if kind == 'b':
        return torch.randint(0, 2, shape, generator=g).bool()
    if kind.startswith('i'):  # i32:lo:hi  / i64:lo:hi   (hi exclusive)
        t, lo, hi = kind.split(':')
        dt = {'i32': torch.int32, 'i64': torch.int64, 'i8': torch.int8, 'i16': torch.int16}[t]
        return torch.randint(int(lo), int(hi), shape, generator=g).to(dt)
    raise AssertionError(kind)


def make_inputs(spec, which=0):
    return [make_input(d, spec.get('seed', 0), i, which) for i, d in enumerate(spec['inputs'])]


def model_source(spec, cls='GenModel', base='nn.Module'):
    args = ', '.join(['self'] + [f'x{i}' for i in range(len(spec['inputs']))])
    lines = list(spec.get('pre', []))
    lines += [f'class {cls}({base}):', '    def __init__(self):', '        super().__init__()']
    lines += ['        ' + s for s in spec.get('init', [])]
    lines += ['', f'    def forward({args}):']
    lines += ['        ' + s for s in spec['body']]
    lines += [f"        return {spec['ret']}"]
    return '\n'.join(lines) + '\n'


def randomize(model, seed):
    """Deterministic, well-conditioned parameters and buffers."""
    g = gen_for('params', seed)
    with torch.no_grad():
        for name, mod in sorted(model.named_modules()):
            if isinstance(mod, (nn.modules.batchnorm._BatchNorm,)):
                if mod.running_mean is not None:
                    mod.running_mean.copy_(torch.randn(mod.running_mean.shape, generator=g) * 0.3)
                    mod.running_var.copy_(torch.rand(mod.running_var.shape, generator=g) * 1.5 + 0.3)
                if mod.weight is not None:
                    mod.weight.copy_(torch.rand(mod.weight.shape, generator=g) * 1.5 + 0.3)
                    mod.bias.copy_(torch.randn(mod.bias.shape, generator=g) * 0.3)
            elif isinstance(mod, (nn.LayerNorm, nn.GroupNorm, nn.InstanceNorm1d, nn.InstanceNorm2d)):
                if getattr(mod, 'weight', None) is not None:
                    mod.weight.copy_(torch.rand(mod.weight.shape, generator=g) * 1.5 + 0.3)
                if getattr(mod, 'bias', None) is not None:
                    mod.bias.copy_(torch.randn(mod.bias.shape, generator=g) * 0.3)
            elif isinstance(mod, nn.PReLU):
                mod.weight.copy_(torch.rand(mod.weight.shape, generator=g) * 0.8 + 0.05)
    return model


NAMES = [
    'conv', 'conv_1', 'conv_1_1', 'conv_2', 'fc', 'fc_1', 'relu_0_f', 'add_0_f', 'mul_1_f', 'tensor_0', 'tensor_1_f', 'input_0', 'input_0_f', 'weight', 'weight_0_f', 'w_1', 'out',
    'blk.a', 'blk_a', 'blk.a_1', 'blk_a_1', 'blk.w', 'blk_w', 'seq.0', 'seq_0', 'seq.1', 'seq_1', 'deep.er.w', 'deep_er_w', 'deep.er_w', 'GenModel', 'output_0', 'shape_0_f', 'torch_1',
]


def rename(spec, d):
    """Give the attributes of a program other names: nested containers, names that resemble those made up by the tracer."""
    attrs = []
    for line in spec['init']:
        m = re.match(r"self\.(?:(\w+) = (.)|register_(?:buffer|parameter)\('(\w+)')", line)
        if not m:
            return spec
        attrs.append((m.group(1) or m.group(3), bool(m.group(1)), m.group(1) and re.match(r'self\.\w+ = nn\.(?!Parameter|ModuleList|ParameterList|ModuleDict)', line) is not None))
    names = {}
    used = set()
    for a, assigned, is_mod in attrs:
        pool = [n for n in NAMES if n not in used and (assigned or '.' not in n) and (is_mod or not n.startswith('seq.'))]
        k = d.i(0, len(pool) - 1)
        near = [n for n in pool if any(n.replace('.', '_').startswith(u.replace('.', '_')) or u.replace('.', '_').startswith(n.replace('.', '_')) for u in used)]
        names[a] = d.c(near) if near and d.p(3, 5) else pool[k]
        used.add(names[a])
    init = []
    for c in sorted({'.'.join(n.split('.')[:i]) for n in names.values() for i in range(1, n.count('.') + 1)}):
        init.append(f"self.{c} = nn.{'Sequential' if c == 'seq' else 'Module'}()")

    def sub(line):
        return re.sub(r'self\.(\w+)', lambda m: 'self.' + m.group(1) if m.group(1) not in names else f"getattr(self.seq, '{names[m.group(1)][4:]}')" if names[m.group(1)].startswith('seq.') else 'self.' + names[m.group(1)], line)

    for line, (a, assigned, _) in zip(spec['init'], attrs):
        if not assigned:
            init.append(line.replace(f"'{a}'", f"'{names[a]}'", 1))
        elif names[a].startswith('seq.'):
            init.append(f"self.seq.add_module('{names[a][4:]}', {sub(line.split(' = ', 1)[1])})")
        else:
            init.append(sub(line))
    return dict(spec, init=init, body=[sub(b) for b in spec['body']], ret=sub(spec['ret']))


def build(spec, randomize_params=True, to_file=None, cls='GenModel', extra_ns=None):
    src = model_source(spec, cls)
    ns = {'torch': torch, 'nn': nn, 'F': F, 'np': np, 'math': math}
    try:
        import torchvision

        ns['torchvision'] = torchvision
    except Exception:
        pass
    if extra_ns:
        ns.update(extra_ns)
    _cnt[0] += 1
    fn = f'<gen{_cnt[0]}>'
    ns['__name__'] = f'genmod{_cnt[0]}'
    linecache.cache[fn] = (len(src), None, src.splitlines(True), fn)
    if len(linecache.cache) > 4000:
        linecache.clearcache()
    exec(compile(src, fn, 'exec'), ns)
    torch.manual_seed(zlib.crc32(repr(('init', spec.get('seed', 0))).encode()))
    m = ns[cls]()
    if randomize_params:
        randomize(m, spec.get('seed', 0))
    m.eval()
    return m


def flat(o):
    if isinstance(o, torch.Tensor):
        return [o]
    if isinstance(o, dict):
        o = list(o.values())
    if isinstance(o, (list, tuple)):
        r = []
        for x in o:
            r += flat(x)
        return r
    return []


# ------------------------------------------------------------------------------------ comparison


def compare(name, got, want, atol=1e-4, rtol=1e-3, exact=False, check_dtype=True):
    """got, want: numpy arrays or tensors of the same layout. Raises Violation."""
    g = got.detach().numpy() if isinstance(got, torch.Tensor) else np.asarray(got)
    w = want.detach().numpy() if isinstance(want, torch.Tensor) else np.asarray(want)
    if g.shape != w.shape:
        raise Violation(f'{name}: shape {g.shape} != expected {w.shape}')
    if check_dtype and g.dtype != w.dtype:
        raise Violation(f'{name}: dtype {g.dtype} != expected {w.dtype}')
    if g.size == 0:
        return
    if g.dtype == np.bool_ or exact:
        if not np.array_equal(g, w):
            bad = np.argwhere(g != w)
            raise Violation(f'{name}: {len(bad)}/{g.size} elements differ, first at {bad[0].tolist()}: {g[tuple(bad[0])]} != {w[tuple(bad[0])]}')
        return
    gf, wf = g.astype(np.float64), w.astype(np.float64)
    nanmis = np.isnan(gf) != np.isnan(wf)
    infmis = (np.isinf(gf) | np.isinf(wf)) & (gf != wf) & ~np.isnan(wf) & ~np.isnan(gf)
    if nanmis.any() or infmis.any():
        raise Violation(f'{name}: nan/inf mismatch')
    ok = np.isfinite(wf)
    if not ok.any():
        return
    scale = np.max(np.abs(wf[ok]))
    tol = atol + rtol * np.abs(wf[ok]) + 0.1 * rtol * scale
    err = np.abs(gf[ok] - wf[ok])
    if (err > tol).any():
        i = int(np.argmax(err - tol))
        nbad = int((err > tol).sum())
        raise Violation(f'{name}: {nbad}/{g.size} elements off, worst |{gf[ok][i]:.6g} - {wf[ok][i]:.6g}| = {err[i]:.3g} > {tol[i]:.3g}')


def torch_forward(model, inputs):
    with torch.no_grad():
        return flat(model(*[i.clone() for i in inputs]))


def stable_enough(model, inputs, ref, eps=1e-5, bound=2e-3):
    """Conditioning filter: perturbing inputs slightly must not change outputs much (else the comparison is meaningless)."""
    pert = [i + eps * torch.sign(torch.sin(torch.arange(i.numel()).float() * 12.9898 + 1)).reshape(i.shape) if i.is_floating_point() else i for i in inputs]
    out = torch_forward(model, pert)
    for a, b in zip(out, ref):
        if a.shape != b.shape:
            return False
        if not a.is_floating_point():
            if not torch.equal(a, b):
                return False
            continue
        if not torch.isfinite(b).all() or not torch.isfinite(a).all():
            return False
        s = b.abs().max().item() if b.numel() else 0.0
        if b.numel() and (a - b).abs().max().item() > bound * max(1.0, s):
            return False
    return True


SETITEM = re.compile(r'^\w+\[.*\] *[-+*/]?=(?!=)')


def live_inputs(spec):
    live = set(re.findall(r'[A-Za-z_]\w*', spec['ret']))
    for line in reversed(spec['body']):
        m = re.match(r'[\w, *]+', line)
        if set(re.findall(r'[A-Za-z_]\w*', m.group(0) if m else '')) & live or ('inplace' in line and set(re.findall(r'v\d+', line)) & live):
            live |= set(re.findall(r'[A-Za-z_]\w*', line))
    return sum(f'x{i}' in live for i in range(len(spec['inputs'])))
