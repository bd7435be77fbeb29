"""Generators of single-operator programs: each is a function of a Draw and returns a partial spec."""
import json

import numpy as np
import torch
from hypothesis import strategies as st

import progs


class D:
    """Thin wrapper over Hypothesis' draw."""

    def __init__(self, draw, lim=False):
        self.draw = draw
        self.lim = lim  # also generate programs beyond the documented limits of the converter

    def ok(self, xs, extra):
        """Choose among the supported values, or (beyond the limits) also among the extra ones."""
        return self.c(list(xs) + (list(extra) if self.lim else []))

    def i(self, lo, hi):
        return self.draw(st.integers(lo, hi))

    def b(self):
        return self.draw(st.booleans())

    def p(self, num, den):
        """True with probability about num/den (shrinks to False)."""
        return self.draw(st.integers(0, den - 1)) >= den - num

    def c(self, xs):
        xs = list(xs)
        return xs[self.draw(st.integers(0, len(xs) - 1))]

    def shape(self, lo=1, hi=4, dmin=1, dmax=6):
        r = self.i(lo, hi)
        return [self.i(dmin, dmax) for _ in range(r)]

    def dim(self, rank, neg=True):
        d = self.i(0, rank - 1)
        return d - rank if neg and self.b() else d

    def dims(self, rank, nmin=1):
        n = self.i(nmin, rank)
        ds = list(self.draw(st.permutations(range(rank))))[:n]
        return [d - rank if self.b() else d for d in ds]

    def perm(self, n):
        return list(self.draw(st.permutations(range(n))))

    def seed(self):
        return self.draw(st.integers(0, 9999))

    def fl(self, *xs):
        return self.c(xs)


OPS = {}


def op(name, n=6):
    def deco(f):
        OPS[name] = (f, n)
        return f

    return deco


def spec1(expr, inputs, init=(), **kw):
    return dict(inputs=inputs, init=list(init), body=[f'v0 = {expr}'], ret='v0', **kw)


def I(shape, kind='n'):
    return {'shape': list(shape), 'kind': kind}


# --------------------------------------------------------------------------- unary
UNARY = {
    'torch.sign({x})': 'q',
    'F.relu({x})': 'n',
    '{x}.relu()': 'n',
    'F.relu6({x})': 'w',
    'F.elu({x})': 'n',
    'torch.tanh({x})': 'n',
    'torch.sin({x})': 'n',
    'torch.cos({x})': 'n',
    'torch.exp({x})': 'n',
    'torch.log({x})': 'p',
    'torch.sqrt({x})': 'p',
    'torch.rsqrt({x})': 'p',
    'torch.reciprocal({x})': 'z',
    'torch.abs({x})': 'n',
    '-{x}': 'n',
    'torch.floor({x})': 'o',
    'torch.round({x})': 'w',
    'torch.sigmoid({x})': 'w',
    'F.hardswish({x})': 'w',
    'F.hardsigmoid({x})': 'w',
    'F.silu({x})': 'n',
    'F.mish({x})': 'n',
    'F.softplus({x})': 'n',
    'F.gelu({x})': 'n',
    "F.gelu({x}, approximate='tanh')": 'w',
    'torch.square({x})': 'n',
    '{x}.clone()': 'n',
    '{x}.contiguous() * 2': 'n',
    '{x}.detach() + 1': 'n',
    'F.dropout({x}, 0.5, False) + 1': 'n',
    'F.dropout2d({x}, 0.5, False) + 1': 'n',
    'F.alpha_dropout({x}, 0.5, False) * 1': 'n',
}
INPLACE = {
    'F.relu(t, inplace=True)': 'n',
    't.relu_()': 'n',
    'F.relu6(t, inplace=True)': 'w',
    'F.leaky_relu_(t, 0.2)': 'n',
    'F.elu_(t)': 'n',
    't.sigmoid_()': 'n',
    't.tanh_()': 'n',
    'F.hardswish(t, inplace=True)': 'w',
    'F.hardsigmoid(t, inplace=True)': 'w',
    'F.silu(t, inplace=True)': 'n',
    'F.hardtanh_(t, -0.5, 0.75)': 'n',
    't.rsqrt_()': 'p',
    't.reciprocal_()': 'z',
    't.add_(0.5)': 'n',
    't.sub_(0.5)': 'n',
    't.mul_(1.5)': 'n',
    't.div_(0.5)': 'n',
    't.unsqueeze_(0)': 'n',
    't.squeeze_(-1)': 'n',
    't.fill_(0.25)': 'n',
    't.masked_fill_(x0 > 0, 0.5)': 'z',
    't.copy_(x0 + 1)': 'n',
    't.add_(x0)': 'n',
    't.mul_(x0)': 'n',
    't.sub_(x0)': 'n',
    't.div_(x0)': 'z',
    'F.dropout(t, 0.5, False, inplace=True)': 'n',
}


@op('unary', 90)
def _(d):
    e = d.c(sorted(UNARY))
    s = d.shape(3, 4) if 'dropout2d' in e else d.shape(1, 5, 1, 5)
    return spec1(e.format(x='x0'), [I(s, UNARY[e])])


@op('inplace', 60)
def _(d):
    e = d.c(sorted(INPLACE) if d.lim else [k for k in sorted(INPLACE) if 'fill_(0.25)' not in k])
    s = d.shape(1, 3 if 'unsqueeze' in e else 4, 1, 5)
    if 'squeeze_(-1)' in e:
        s[-1] = d.c([1, 1, 3])
    k = INPLACE[e]
    pre = 't = x0 * 1.0' if k in ('p', 'z') else d.c(['t = x0 + 1', 't = x0 * 2', 't = x0 - 0.25', 't = x0.clone()'])
    # what follows uses the mutated tensor
    return dict(inputs=[I(s, k)], init=[], body=[pre, e, 'v0 = t * 0.5' if d.b() or 'dropout' in e else 'v0 = t'], ret='v0')


@op('leaky_relu', 8)
def _(d):
    return spec1(f"F.leaky_relu(x0, {d.fl(0.01, 0.1, 0.3, 0.0, 1.0, 1.5)})", [I(d.shape(1, 4))])


@op('elu_alpha', 6)
def _(d):
    e = d.ok(['F.elu(x0, 1.0)', 'F.elu(x0)'], ['F.elu(x0, 0.5)', 'F.elu(x0, 2.0)', 'F.selu(x0)', 'F.celu(x0, 1.0)', 'F.celu(x0, 0.5)'])
    return spec1(e, [I(d.shape(1, 4))])


@op('prelu', 10)
def _(d):
    s = d.shape(2, 4)
    n = d.c([1, s[1]])
    return spec1('self.m0(x0)', [I(s)], [f'self.m0 = nn.PReLU({n})'])


@op('softplus_args', 5)
def _(d):
    return spec1(f'F.softplus(x0, {d.ok([1.0], [2.0, 0.5])}, 20)', [I(d.shape(1, 4), d.c(['n', 'w']))])


@op('hardtanh_clamp', 40)
def _(d):
    s = d.shape(1, 4)
    lo = d.fl(-2.0, -1.0, -0.5, 0.0, 0.25, -1.5)
    hi = lo + d.fl(0.5, 1.0, 2.0, 6.0, 3.0)
    if d.p(1, 4):
        lo, hi = d.c([(0.0, 6.0), (-1.0, 1.0), (0.0, 1.0), (0, 6), (-1, 1)])
    elif d.p(1, 2):
        # next to the ranges that have an operator of their own
        lo, hi = d.c([-0.5, -1, -1.25, 0, 0.5, -0.9, -1.0, 1.0]), d.c([6, 6.0, 6.5, 5.75, 1, 1.5, 6, 1.0])
        if hi <= lo:
            hi = 6
    e = d.c(
        [
            f'F.hardtanh(x0, {lo}, {hi})',
            f'F.hardtanh(x0, {lo}, {hi})',
            f'F.hardtanh(x0, min_val={lo}, max_val={hi})',
            f'torch.clamp(x0, {lo}, {hi})',
            f'torch.clamp(x0, min={lo})',
            f'torch.clamp(x0, max={hi})',
            f'torch.clamp_min(x0, {lo})',
            f'torch.clamp_max(x0, {hi})',
            f'x0.clamp(min={lo}, max={hi})',
        ]
    )
    return spec1(e, [I(s, 'w')])


@op('softmax', 20)
def _(d):
    s = d.shape(1, 4)
    dim = d.dim(len(s))
    e = d.c(['torch.softmax(x0, {})', 'F.log_softmax(x0, {})', 'F.softmax(x0, {})', 'F.softmin(x0, {})']).format(dim)
    return spec1(e, [I(s, d.c(['n', 'w']))])


@op('glu', 8)
def _(d):
    s = d.shape(1, 4)
    dim = d.dim(len(s))
    s[dim] = 2 * d.i(1, 3)
    return spec1(f'F.glu(x0, {dim})', [I(s)])


@op('pow', 20)
def _(d):
    s = d.shape(1, 4)
    k = d.c(['scalar', 'tensor', 'int'])
    if k == 'scalar':
        e = d.fl(2, 3, 0.5, -1, 1.5, 2.0, -2, -0.5, 1, 0.25)
        return spec1(d.c([f'torch.pow(x0, {e})', f'x0 ** {e}']), [I(s, 'p')])
    if k == 'int':
        return spec1(f'torch.pow(x0, {d.i(1, 4)})', [I(s, d.c(['q', 'i32:0:5']))])
    return spec1('torch.pow(x0, x1)', [I(s, 'p'), I(bcast(d, s), 'u')])


def bcast(d, s):
    """A shape that broadcasts against s (result shape s)."""
    out = [x if d.p(3, 5) else 1 for x in s]
    k = d.i(0, len(s) - 1) if d.b() else 0
    return out[k:]


# --------------------------------------------------------------------------- binary
@op('binary', 70)
def _(d):
    s = d.shape(1, 5, 1, 5)
    o = d.c(['+', '-', '*', '/', '+', 'max', 'min', 'atan2'])
    form = d.c(['tt', 'tt', 'tt_rev', 'ts', 'st', 'tc', 'ct', 'self'])
    kx = 'z' if o in ('/', 'atan2') else d.c(['n', 'q'])
    s2 = bcast(d, s)
    sc = d.fl(2, 0.5, -1.5, 3, 1, 0.1, -1)

    def mk(a, b):
        if o in '+-*/':
            return f'{a} {o} {b}'
        return {'max': 'torch.maximum', 'min': 'torch.minimum', 'atan2': 'torch.atan2'}[o] + f'({a}, {b})'

    if o not in '+-*/' and form in ('ts', 'st'):
        form = 'tt'
    if form == 'tt':
        return spec1(mk('x0', 'x1'), [I(s, kx), I(s2, kx)])
    if form == 'tt_rev':
        return spec1(mk('x1', 'x0'), [I(s, kx), I(s2, kx)])
    if form == 'ts':
        return spec1(mk('x0', sc), [I(s, kx)])
    if form == 'st':
        return spec1(mk(sc, 'x0'), [I(s, kx)])
    if form == 'self':
        return spec1(mk('x0', 'x0'), [I(s, kx)])
    ini = [f"self.register_buffer('c0', torch.rand({s2}) + 0.5)"]
    a, b = ('x0', 'self.c0') if form == 'tc' else ('self.c0', 'x0')
    return spec1(mk(a, b), [I(s, kx)], ini)


@op('binary_both_broadcast', 12)
def _(d):
    r = d.i(2, 4)
    full = [d.i(2, 4) for _ in range(r)]
    a = [x if d.b() else 1 for x in full]
    b = [x if d.b() else 1 for x in full]
    o = d.c(['+', '-', '*', '/'])
    return spec1(f'x0 {o} x1', [I(a, 'z'), I(b, 'z')])


@op('int_arith', 24)
def _(d):
    s = d.shape(1, 4)
    t = d.c(['i32', 'i64'])
    e = d.c(
        [
            'x0 + x1',
            'x0 - x1',
            'x0 * x1',
            'x0 + 3',
            'x0 * 2',
            '5 - x0',
            'torch.floor_divide(x0, x1)',
            'x0 // 3',
            'torch.remainder(x0, x1)',
            'x0 % 3',
            'torch.maximum(x0, x1)',
            'torch.minimum(x0, x1)',
            'torch.div(x0, x1, rounding_mode="floor")',
            'x0.float() / x1.float()',
            '(x0 == x1).int()',
        ]
    )
    if not d.lim and ('//' in e or 'floor' in e):
        t = 'i32'  # FLOOR_DIV of int64 does not exist in TFLite
    ins = [I(s, f'{t}:0:9')]
    if 'x1' in e:
        ins.append(I(bcast(d, s), f'{t}:1:5'))
    return spec1(e, ins)


@op('float_div_modes', 12)
def _(d):
    s = d.shape(1, 4)
    e = d.c(
        [
            'torch.remainder(x0, {})',
            'torch.div(x0, {}, rounding_mode="floor")',
            'x0 % {}',
        ]
        + (['torch.div(x0, {}, rounding_mode="trunc")', 'torch.floor_divide(x0, {})'] if d.lim else [])
    )
    b = d.c(['2.0', '0.5', 'x1', '1.5'])
    ins = [I(s, d.c(['o', 'p']))]
    if b == 'x1':
        ins.append(I(bcast(d, s), 'p'))
    return spec1(e.format(b), ins)


@op('add_alpha', 8)
def _(d):
    s = d.shape(1, 4)
    a = d.ok([1], [2, 0.5, -1])
    e = d.c([f'torch.add(x0, x1, alpha={a})', f'torch.sub(x0, x1, alpha={a})', f'torch.rsub(x0, x1, alpha={a})', f'torch.rsub(x0, 2.5, alpha={a})'])
    return spec1(e, [I(s), I(s)] if 'x1' in e else [I(s)])


@op('mixed_dtype', 14)
def _(d):
    s = d.shape(1, 4)
    e = d.c(['x0 + x1', 'x0 * x1', 'x0 - x1', 'x0 / x1', 'x1 / x0', 'x1 + 0.5', 'x1 * 1.5', 'x1 / 2'] + (['torch.sqrt(x1)', 'torch.where(x0 > 0, x0, x1)'] if d.lim else []))
    ins = [I(s, 'z'), I(bcast(d, s), d.c(['i32:1:6', 'i64:1:6']))]
    return spec1(e, ins)


@op('compare', 36)
def _(d):
    s = d.shape(1, 4)
    o = d.c(['==', '!=', '>', '<', '>=', '<='])
    form = d.c(['tt', 'tt', 'ts', 'st', 'int', 'rev'])
    out = d.c(['{}', '({}).float()', '({}).int()', '~({})'])
    if form == 'int':
        t = d.c(['i32', 'i64'])
        return spec1(out.format(f'x0 {o} x1'), [I(s, f'{t}:-2:3'), I(bcast(d, s), f'{t}:-2:3')])
    if form == 'tt':
        return spec1(out.format(f'x0 {o} x1'), [I(s, 'q'), I(bcast(d, s), 'q')])
    if form == 'rev':
        return spec1(out.format(f'x1 {o} x0'), [I(s, 'q'), I(bcast(d, s), 'q')])
    if form == 'st':
        return spec1(out.format(f'{d.fl(0, 0.5, -1)} {o} x0'), [I(s, 'q')])
    return spec1(out.format(f'x0 {o} {d.fl(0, 0.5, -1, 1.0)}'), [I(s, 'q')])


@op('logical', 16)
def _(d):
    s = d.shape(1, 4)
    e = d.c(['x0 & x1', 'x0 | x1', '~x0 & x1', 'x0 | ~x1', 'torch.bitwise_and(x0, x1)', 'torch.bitwise_or(x0, x1)', 'torch.bitwise_not(x0)', 'torch.logical_and(x0, x1)', 'torch.logical_or(x0, x1)', 'torch.logical_not(x0)', 'x0 ^ x1'])
    return spec1(e, [I(s, 'b'), I(bcast(d, s), 'b')] if 'x1' in e else [I(s, 'b')])


@op('where_mask', 24)
def _(d):
    s = d.shape(1, 4)
    s2 = bcast(d, s)
    e = d.c(
        [
            'torch.where(x0 > 0, x0, x1)',
            'torch.where(x0 > x1, x1, x0)',
            'torch.where(x0 > 0, x0, torch.zeros_like(x0))',
            'x0.masked_fill(x1 > 0, 0.5)',
            "x0.masked_fill(x1 > 0, float('-inf')).exp()",
            'x0.masked_fill(x0 < 0, -1)',
            'torch.where(x1 > 0, x0, 0.0)',
            'torch.where(x1 > 0, 1.0, x0)',
            'torch.masked_fill(x0, x1 == 0.25, 3.0)',
        ]
    )
    return spec1(e, [I(s, 'd'), I(s2, 'z')] if 'x1' in e else [I(s, 'd')])


# --------------------------------------------------------------------------- reductions
@op('reduce', 70)
def _(d):
    s = d.shape(1, 4, 1, 5)
    f = d.c(['mean', 'sum', 'amax', 'amin', 'mean', 'sum', 'prod', 'max1', 'min1', 'maxd', 'mind'])
    keep = d.b()
    r = len(s)
    if f in ('mean', 'sum', 'amax', 'amin'):
        k = d.c(['none', 'one', 'many', 'many', 'tuple1'])
        if k == 'none':
            e = f'torch.{f}(x0)' if f in ('mean', 'sum') else f'torch.{f}(x0, {list(range(r))})'
        elif k == 'one':
            e = f'torch.{f}(x0, {d.dim(r)}, keepdim={keep})'
        else:
            e = f'torch.{f}(x0, {d.dims(r)}, keepdim={keep})'
        return spec1(e, [I(s)])
    if f == 'prod':
        e = d.c(['torch.prod(x0)', f'torch.prod(x0, {d.dim(r)}, keepdim={keep})'])
        return spec1(e, [I(s, 'z')])
    if f in ('max1', 'min1'):
        return spec1(f'torch.{f[:3]}(x0)', [I(s)])
    dim = d.dim(r)
    part = d.ok(['[0]', '.values'], ['[1]', '.indices', ''])
    if part == '':
        return dict(inputs=[I(s, 'd')], init=[], body=[f'a, b = torch.{f[:3]}(x0, {dim}, keepdim={keep})'], ret='(a, b)')
    return spec1(f'torch.{f[:3]}(x0, {dim}, keepdim={keep}){part}', [I(s, 'd')])


@op('max_binary_int', 8)
def _(d):
    s = d.shape(1, 4)
    e = d.c(['torch.max(x0, x1)', 'torch.min(x0, x1)', 'torch.max(x0)', 'torch.sum(x0)', 'torch.sum(x0, 0)', 'torch.sum(x0, -1, keepdim=True)'])
    k = d.c(['i32:-5:6', 'n', 'i64:-5:6'])
    return spec1(e, [I(s, k), I(bcast(d, s), k)] if 'x1' in e else [I(s, k)])


@op('argmax', 16)
def _(d):
    s = d.shape(1, 4)
    return spec1(f'torch.{d.c(["argmax", "argmin"])}(x0, {d.dim(len(s))}, keepdim={d.b()})', [I(s, 'd')])


@op('std_var', 24)
def _(d):
    s = d.shape(1, 4, 2, 5)
    r = len(s)
    f = d.c(['std', 'var'])
    k = d.c(['all', 'dim', 'dims', 'corr', 'all_biased'])
    u, keep = d.b(), d.b()
    if k == 'all':
        e = f'torch.{f}(x0)'
    elif k == 'all_biased':
        e = f'torch.{f}(x0, unbiased={u})'
    elif k == 'dim':
        e = f'torch.{f}(x0, {d.dim(r)}, unbiased={u}, keepdim={keep})'
    elif k == 'dims':
        e = f'torch.{f}(x0, {d.dims(r)}, unbiased={u}, keepdim={keep})'
    else:
        e = f'torch.{f}(x0, dim={d.dims(r)}, correction={d.i(0, 1)}, keepdim={keep})'
    return spec1(e, [I(s)])


@op('norm', 24)
def _(d):
    s = d.shape(1, 4)
    r = len(s)
    p = d.ok([1, 2, 2.0], [3, 1.5])
    keep = d.b()
    e = d.c(
        [
            f'torch.norm(x0)',
            f'torch.norm(x0, {p}, {d.dim(r)}, keepdim={keep})',
            f'torch.norm(x0, p={p}, dim={d.dims(r)}, keepdim={keep})',
            f'torch.linalg.vector_norm(x0, {p}, {d.dims(r)}, keepdim={keep})',
            f'torch.linalg.vector_norm(x0)',
            f'F.normalize(x0, dim={d.dim(r)})',
            f'F.normalize(x0, p={p}, dim={d.dim(r)})',
            f'x0.norm(dim={d.dim(r)})',
            f"torch.norm(x0, p={d.ok([repr('fro')], ['float(chr(105)+chr(110)+chr(102))', '0'])}, dim={d.dim(r)})",
        ]
    )
    return spec1(e, [I(s, 'z')])


@op('cumsum_topk', 16)
def _(d):
    s = d.shape(1, 4)
    if d.b():
        return spec1(f'torch.cumsum(x0, {d.dim(len(s))})', [I(s, d.c(['n', 'q', 'i32:-3:4']))])
    k = d.i(1, s[-1])
    e = d.c([f'torch.topk(x0, {k})', f'torch.topk(x0, {k}, dim=-1)', f'torch.topk(x0, {k}, {len(s) - 1}, True, True)', f'x0.topk({k}, dim={d.dim(len(s))}, largest={d.b()}, sorted={d.b()})' if d.lim else f'x0.topk({k}, dim=-1)'])
    ret = d.c(['(a, b)', 'a', 'b'])
    return dict(inputs=[I(s, 'd')], init=[], body=[f'a, b = {e}'], ret=ret)


# --------------------------------------------------------------------------- shape ops
def factor_shape(d, n, maxr=4):
    out = []
    r = d.i(1, maxr)
    for _ in range(r - 1):
        divs = [k for k in range(1, n + 1) if n % k == 0]
        f = d.c(divs)
        out.append(f)
        n //= f
    out.append(n)
    return [out[i] for i in d.perm(len(out))] if len(out) > 1 else out


@op('reshape', 24)
def _(d):
    s = d.shape(1, 4, 1, 6)
    n = int(np.prod(s))
    t = factor_shape(d, n)
    if d.b():
        t[d.i(0, len(t) - 1)] = -1
    e = d.c(['x0.reshape({})', 'x0.view({})', 'torch.reshape(x0, {})', 'x0.view(*{})', 'x0.view(x0.size(0), -1)', 'x0.reshape(x0.shape[0], -1)', 'x0.view(-1)', 'x0.view_as(x0.reshape({}))'])
    return spec1(e.format(tuple(t)), [I(s)])


@op('flatten', 10)
def _(d):
    s = d.shape(1, 4)
    r = len(s)
    a = d.i(0, r - 1)
    b = d.i(a, r - 1)
    b = b - r if d.b() else b
    a = a - r if d.b() else a
    return spec1(d.c([f'torch.flatten(x0, {a}, {b})', f'x0.flatten({a})', 'x0.flatten()']), [I(s)])


@op('permute', 24)
def _(d):
    s = d.shape(1, 5, 1, 5)
    r = len(s)
    p = d.perm(r)
    p = [x - r if d.p(1, 3) else x for x in p]
    e = d.c([f'x0.permute({p})', f'torch.permute(x0, {p})', f'x0.transpose({d.dim(r)}, {d.dim(r)})', f'x0.permute(*{p}) + 1', f'x0.transpose({d.dim(r)}, {d.dim(r)}).contiguous() * 2'])
    if r == 2 and d.b():
        e = d.c(['x0.t()', 'torch.t(x0) * 2', 'x0.T'])
    return spec1(e, [I(s)])


@op('squeeze', 20)
def _(d):
    s = d.shape(1, 4)
    s = [1 if d.p(2, 5) else x for x in s]
    r = len(s)
    e = d.c(['torch.squeeze(x0)', f'torch.squeeze(x0, {d.dim(r)})', f'x0.squeeze({d.dim(r)}) * 2', f'torch.unsqueeze(x0, {d.i(-r - 1, r)})', f'x0.unsqueeze({d.i(-r - 1, r)}) + 1'])
    return spec1(e, [I(s)])


@op('expand', 20)
def _(d):
    s = d.shape(1, 4)
    base = [1 if d.b() else x for x in s]
    tgt = [-1 if (b == x and d.b()) else x for b, x in zip(base, s)]
    lead = [d.i(1, 3)] if d.b() and len(s) < 4 else []
    e = d.c([f'x0.expand({lead + tgt})', f'x0.expand(*{lead + s})', 'x0.expand_as(x1)', 'torch.broadcast_tensors(x0, x1)[0]', f'torch.broadcast_to(x0, {lead + s})', 'torch.broadcast_tensors(x0, x1)[1] * 2'])
    ins = [I(base)]
    if 'x1' in e:
        ins.append(I(lead + s))
        e = e + ' + x1' if d.b() else e
        if 'x1' in e and '+ x1' not in e and 'expand_as' in e:
            e = 'x0.expand_as(x1) * x1'
        elif 'broadcast_tensors' in e and '+ x1' not in e:
            e = e + ' * x1'
    return spec1(e, ins)


@op('repeat', 16)
def _(d):
    s = d.shape(1, 4, 1, 4)
    r = len(s)
    lead = [d.i(1, 3)] if d.b() and r < 4 else []
    reps = lead + [d.i(1, 3) for _ in s]
    e = d.c([f'x0.repeat({reps})', f'x0.repeat(*{reps})', f'torch.repeat_interleave(x0, {d.i(1, 3)}, {d.dim(r)})', f'torch.repeat_interleave(x0, {d.i(1, 3)}, dim={d.dim(r)}) + 1', f'torch.repeat_interleave(x0, {d.i(1, 3)})', f'torch.tile(x0, {reps})'])
    return spec1(e, [I(s)])


@op('repeat_interleave_tensor', 6)
def _(d):
    s = d.shape(1, 4, 1, 4)
    dim = d.dim(len(s))
    reps = [d.i(1, 3) for _ in range(s[dim])]
    return spec1(f'torch.repeat_interleave(x0, torch.tensor({reps}), dim={dim})', [I(s)])


@op('cat_stack', 24)
def _(d):
    s = d.shape(1, 4)
    r = len(s)
    n = d.i(1, 3)
    if d.p(2, 3):
        dim = d.dim(r)
        ins = []
        for _ in range(n):
            t = list(s)
            t[dim] = d.i(1, 4)
            ins.append(I(t))
        extra = d.c(['', '', ', self.c0'])
        ini = []
        if extra:
            t = list(s)
            t[dim] = d.i(1, 3)
            ini = [f"self.register_buffer('c0', torch.randn({t}))"]
        body = ', '.join(f'x{i}' for i in range(n))
        return spec1(f'torch.cat([{body}{extra}], {dim})', ins, ini)
    s = s[:3]
    dim = d.i(-len(s) - 1, len(s))
    body = ', '.join(f'x{i}' for i in range(n))
    return spec1(f'torch.stack([{body}], {dim})', [I(s) for _ in range(n)])


@op('split', 36)
def _(d):
    s = d.shape(1, 4, 1, 6)
    r = len(s)
    dim = d.dim(r)
    n = s[dim]
    k = d.c(['chunk', 'split', 'split_sizes', 'unbind', 'tensor_split', 'iter'])
    if k == 'chunk':
        e = d.c([f'torch.chunk(x0, {d.i(1, n)}, {dim})', f'x0.chunk({d.i(1, n)}, dim={dim})'])
    elif k == 'split':
        e = f'torch.split(x0, {d.i(1, n)}, {dim})'
    elif k == 'split_sizes':
        cuts, left = [], n
        while left:
            c = d.i(1, left)
            cuts.append(c)
            left -= c
        e = f'torch.split(x0, {cuts}, dim={dim})'
    elif k == 'tensor_split':
        e = f'torch.tensor_split(x0, {d.i(1, n)}, {dim})'
    else:
        e = f'torch.unbind(x0, {dim})'
    m = len(eval(e, {'torch': torch, 'x0': torch.zeros(s)}))
    k2 = d.c(['all', 'some', 'rev', 'one'])
    if k2 == 'all':
        body = ', '.join(f'p[{i}] + {i}' for i in range(m))
    elif k2 == 'rev':
        body = ', '.join(f'p[{i}]' for i in reversed(range(m)))
    elif k2 == 'one':
        body = f'p[{d.i(-m, m - 1)}] * 2'
    else:
        body = ', '.join(f'p[{i}] * {i + 1}' for i in sorted(set([d.i(0, m - 1), d.i(0, m - 1)])))
    return dict(inputs=[I(s)], init=[], body=[f'p = {e}'], ret=f'({body},)')


@op('select_slice', 50)
def _(d):
    s = d.shape(1, 4, 1, 6)
    idx = []
    for n in s[: d.i(1, len(s))]:
        k = d.c(['full', 'slice', 'slice', 'int', 'step', 'neg', 'open_lo', 'open_hi'])
        if k == 'full':
            idx.append(':')
        elif k == 'slice':
            a = d.i(0, n - 1)
            idx.append(f'{a}:{d.i(a + 1, n)}')
        elif k == 'int':
            idx.append(str(d.i(-n, n - 1)))
        elif k == 'step':
            a = d.i(0, n - 1)
            idx.append(f'{a}::{d.i(1, 3)}')
        elif k == 'neg':
            a = d.i(1, n)
            idx.append(f'-{a}:' if d.b() else (f':-{a}' if a < n else ':'))
        elif k == 'open_lo':
            idx.append(f':{d.i(1, n + 2)}')
        else:
            idx.append(f'{d.i(0, n - 1)}:')
    if d.p(1, 5):
        idx = ['...'] + idx[:1] if len(s) > 1 and d.b() else ['None'] + idx
        if idx[0] == '...':
            idx[1] = d.c(['0', '-1', ':1', '0:1'])
    e = f'x0[{", ".join(idx)}]'
    # a model that returns its input through no-ops only is a known finding
    e += d.c(['', ' * 2', '']) if any(len(v) != len(s) or v != tuple(s) for v in [np.empty(s)[eval(f'np.s_[{", ".join(idx)}]')].shape]) else ' * 2'
    return spec1(e, [I(s, d.c(['n', 'n', 'i32:-9:9']))])


@op('narrow_select', 10)
def _(d):
    s = d.shape(1, 4, 2, 6)
    dim = d.dim(len(s))
    n = s[dim]
    a = d.i(0, n - 1)
    e = d.c([f'torch.narrow(x0, {dim}, {a}, {d.i(1, n - a)})', f'torch.select(x0, {dim}, {d.i(-n, n - 1)})', f'x0.select({dim}, {a}) + 1'])
    return spec1(e, [I(s)])


@op('flip_roll', 20)
def _(d):
    s = d.shape(1, 4)
    r = len(s)
    ds = d.dims(r)
    ds_u = []
    for x in ds:
        if x % r not in [y % r for y in ds_u]:
            ds_u.append(x)
    k = d.c(['flip', 'roll', 'rolls', 'roll_none'])
    if k == 'flip':
        e = f'torch.flip(x0, {ds_u})'
    elif k == 'roll':
        e = f'torch.roll(x0, {d.i(-7, 7)}, {d.dim(r)})'
    elif k == 'rolls':
        e = f'torch.roll(x0, {[d.i(-4, 4) for _ in ds_u]}, {ds_u})'
    else:
        e = f'torch.roll(x0, {d.i(-7, 7)})'
    return spec1(e, [I(s)])


@op('pad', 30)
def _(d):
    k = d.c(['const', 'const', 'const0', 'constmod', 'reflect1', 'reflect2', 'zeropad'] + (['replicate'] if d.lim else []))
    if k in ('const', 'const0', 'constmod'):
        s = d.shape(1, 4)
        n = d.i(1, len(s))
        pads = [d.i(0, 2) for _ in range(2 * n)]
        if d.lim and d.p(1, 4):  # negative pad = crop
            j = d.i(0, 2 * n - 1)
            if s[-1 - j // 2] > 1:
                pads[j] = -1
        v = 0 if k == 'const0' else d.fl(0, 1.5, -2.0, 0.0)
        e = d.c([f'F.pad(x0, {pads}, value={v})', f"F.pad(x0, {pads}, 'constant', {v})"])
        return spec1(e, [I(s)])
    if k == 'reflect1':
        s = [d.i(1, 3), d.i(1, 3), d.i(3, 6)]
        return spec1(f"F.pad(x0, {[d.i(0, 2), d.i(0, 2)]}, mode='reflect')", [I(s)])
    s = [d.i(1, 2), d.i(1, 3), d.i(3, 6), d.i(3, 6)]
    p = [d.i(0, 2) for _ in range(4)]
    if k == 'reflect2':
        return spec1(f"F.pad(x0, {p}, mode='reflect')", [I(s)])
    if k == 'replicate':
        return spec1(f"F.pad(x0, {p}, mode='replicate')", [I(s)])
    m = d.c([f'nn.ZeroPad2d({tuple(p)})', f'nn.ConstantPad2d({tuple(p)}, 0.5)', f'nn.ReflectionPad2d({tuple(p)})'])
    return spec1('self.m0(x0)', [I(s)], [f'self.m0 = {m}'])


@op('index', 36)
def _(d):
    s = d.shape(1, 4, 2, 5)
    r = len(s)
    k = d.c(['one', 'one', 'two', 'index_select', 'gather', 'buf', 'index_rank2'] + (['mask_const'] if d.lim else []))
    dim = d.i(0, r - 1)
    n = s[dim]
    ix = [d.i(-n if k not in ('index_select', 'gather') else 0, n - 1) for _ in range(d.i(1, 4))]
    pre = ':, ' * dim
    if k == 'one':
        return spec1(f'x0[{pre}{ix}]' + (' * 2' if len(ix) == n else ''), [I(s)])
    if k == 'buf':
        return spec1(f'x0[{pre}self.c0]', [I(s)], [f"self.register_buffer('c0', torch.tensor({ix}))"])
    if k == 'two':
        if r < 2:
            return spec1(f'x0[{ix}]', [I(s)])
        dim = d.i(0, r - 2) if d.lim else 0
        m = d.i(1, 3)
        i0 = [d.i(0, s[dim] - 1) for _ in range(m)]
        i1 = [d.i(0, s[dim + 1] - 1) for _ in range(m)]
        return spec1(f'x0[{":, " * dim}{i0}, {i1}]', [I(s)])
    if k == 'index_rank2':
        return spec1(f'x0[{pre}torch.tensor({[ix, ix[::-1]]})]', [I(s)])
    if k == 'index_select':
        dd = dim - r if d.b() else dim
        if d.b():
            return spec1(f'torch.index_select(x0, {dd}, torch.tensor({ix}))', [I(s)])
        return spec1(f'torch.index_select(x0, {dd}, x1)', [I(s), I([len(ix)], f'{d.c(["i64", "i32"])}:0:{n}')])
    if k == 'gather':
        t = [d.i(1, x) for x in s]
        t[dim] = d.i(1, 4)
        dd = dim - r if d.b() else dim
        if d.b():
            return spec1(f'torch.gather(x0, {dd}, x1)', [I(s), I(t, f'i64:0:{n}')])
        return spec1(f'torch.gather(x0, {dd}, self.c0)', [I(s)], [f"self.register_buffer('c0', torch.randint(0, {n}, {t}))"])
    return spec1(f'x0[{pre}torch.tensor({[bool((j * 7 + n) % 3) for j in range(n)]})]', [I(s)])


@op('index_dynamic', 8)
def _(d):
    s = d.shape(1, 3, 2, 5)
    k = d.shape(1, 2, 1, 3)
    return spec1('x0[x1]', [I(s), I(k, f'i64:0:{s[0]}')])


@op('embedding', 10)
def _(d):
    v, e = d.i(2, 9), d.i(1, 6)
    s = d.shape(1, 3, 1, 5)
    return spec1(d.c(['self.m0(x0)', 'F.embedding(x0, self.m0.weight)']), [I(s, f'{d.c(["i64", "i32"])}:0:{v}')], [f'self.m0 = nn.Embedding({v}, {e}{d.c(["", ", padding_idx=0"])})'])


@op('index_put', 14)
def _(d):
    # writes through views (t[0] = ..., t[1:2] = ...) are a known finding and not generated here
    s = d.shape(1, 4, 2, 5)
    n = s[0]
    ix = d.perm(n)[: d.i(1, 3)]
    m = len(ix)
    ix = [i - n if d.p(1, 4) else i for i in ix]
    ixe = d.c([f'{ix}', f'torch.tensor({ix})', 'self.c0'])
    init = [f"self.register_buffer('c0', torch.tensor({ix}))"] if ixe == 'self.c0' else []
    vs = bcast(d, [m] + s[1:])
    stmt = d.c([f't[{ixe}] = 1.5', f't[{ixe}] = x1', f't[{ixe}] = x1', f't = t.index_put([torch.tensor({ix})], torch.tensor(2.5))'])
    if len(s) > 1 and d.p(1, 3):
        i1 = [d.i(0, s[1] - 1) for _ in ix]
        stmt = f't[{ix}, {i1}] = ' + d.c(['x1', '-1.0'])
        vs = bcast(d, [m] + s[2:])
    ins = [I(s)] + ([I(vs)] if 'x1' in stmt else [])
    return dict(inputs=ins, init=init, body=[d.c(['t = x0.clone()', 't = x0 * 1.5', 't = x0 + 0']), stmt, 'v0 = t + 0' if d.b() else 'v0 = t'], ret='v0')


@op('index_put_tensor', 8)
def _(d):
    s = d.shape(1, 3, 2, 5)
    n = s[0]
    m = d.i(1, n)
    ix = d.perm(n)[:m]
    e = d.c([f'x0.index_put([torch.tensor({ix})], x1)', f'torch.index_put(x0, (torch.tensor({ix}),), x1)'])
    return spec1(e, [I(s), I([m] + s[1:])])


@op('scatter', 6)
def _(d):
    s = d.shape(1, 3, 2, 5)
    dim = d.dim(len(s))
    n = s[dim]
    t = [d.i(1, x) for x in s]
    t[dim] = 1
    body = [f't = torch.zeros({s})', f't.scatter_({dim}, x0, {d.fl(1.0, 2.5)})']
    return dict(inputs=[I(t, f'i64:0:{n}')], init=[], body=body, ret='t')


@op('meshgrid', 4)
def _(d):
    a, b = d.i(1, 4), d.i(1, 4)
    ix = d.c(['ij', 'xy'])
    return dict(inputs=[I([b, a] if ix == 'xy' else [a, b])], init=[], body=[f"p, q = torch.meshgrid(torch.arange({a}).float(), torch.arange({b}).float(), indexing='{ix}')", 'v0 = p * x0 + q'], ret='v0')


@op('creation', 16)
def _(d):
    s = d.shape(1, 4)
    e = d.c(
        [
            'x0 + torch.zeros_like(x0)',
            'x0 * torch.ones_like(x0) * 2',
            'x0 + torch.arange(x0.shape[-1])',
            'x0 * torch.ones(x0.shape) + torch.zeros(x0.size(0), *([1] * (x0.dim() - 1)))',
            'x0 + x0.new_zeros(x0.shape)',
            'x0 * x0.new_ones(x0.shape[-1])',
            'x0 + torch.full_like(x0, 1.5)',
            'x0 * torch.full(x0.shape, 2.0)',
            'x0 + torch.tensor([1.0, 2.0])[0]',
            'x0 + torch.arange(0, x0.shape[-1], 1).to(torch.float32)',
            'x0 + torch.linspace(0, 1, x0.shape[-1])',
            'x0 * x0.size(-1)',
            'x0 / x0.shape[0]',
            'x0 + float(x0.shape[-1])',
        ]
    )
    return spec1(e, [I(s)])


@op('cast', 20)
def _(d):
    s = d.shape(1, 4)
    e = d.c(
        [
            'x0.to(torch.int32)',
            'x0.int()',
            'x0.long()',
            'x0.to(torch.int32).to(torch.float32) * 2',
            'x0.to(torch.float32) + 1',
            'x0.type_as(x1)',
            'x0.to(x1.dtype)',
            'x0.type(torch.float32)',
            'x0.bool()',
            'x0.to(torch.bool).float()',
            'x0.half().float()',
            'x0.double().float()',
            'x0.to(torch.int8).float()' if d.lim else 'x0.float()',
            'x0.to(x1)',
        ]
    )
    kind = d.c(['o', 'i32:-5:6', 'i64:-5:6', 'b'])
    ins = [I(s, kind)]
    if 'x1' in e:
        ins.append(I(s, d.c(['n', 'i32:0:3'])))
        e = f'({e}) + x1'
    return spec1(e, ins)


# --------------------------------------------------------------------------- matmul family
@op('linear', 24)
def _(d):
    i, o = d.i(1, 6), d.i(1, 6)
    s = d.shape(1 if d.lim else 2, 4, 1, 4)[:-1] + [i]
    bias = d.b()
    if d.p(1, 3):
        return spec1('F.linear(x0, x1' + (', x2)' if bias else ')'), [I(s), I([o, i])] + ([I([o])] if bias else []))
    return spec1('self.m0(x0)', [I(s)], [f'self.m0 = nn.Linear({i}, {o}, bias={bias})'])


@op('matmul', 36)
def _(d):
    m, k, n = d.i(1, 4), d.i(1, 4), d.i(1, 4)
    f = d.c(['2d', 'bmm', 'batch', 'bcast', 'addmm', 'mm', 'const_r', 'const_l', 'addbmm', 'baddbmm', 'nd_2d'] + (['vec_l', 'vec_r', 'dot', 'einsum', 'einsum2'] if d.lim else []))
    if f in ('2d', 'mm'):
        return spec1('torch.mm(x0, x1)' if f == 'mm' else 'torch.matmul(x0, x1)', [I([m, k]), I([k, n])])
    if f == 'bmm':
        b = d.i(1, 3)
        return spec1('torch.bmm(x0, x1)', [I([b, m, k]), I([b, k, n])])
    if f == 'batch':
        b = d.shape(1, 2, 1, 3)
        return spec1('x0 @ x1', [I(b + [m, k]), I(b + [k, n])])
    if f == 'bcast':
        b = d.shape(1, 2, 1, 3)
        b2 = [x if d.b() else 1 for x in b]
        a, c = (b, b2[d.i(0, len(b)):]) if d.b() else (b2, b)
        return spec1('torch.matmul(x0, x1)', [I(a + [m, k]), I(c + [k, n])])
    if f == 'nd_2d':
        b = d.shape(1, 2, 1, 3)
        return spec1(d.c(['torch.matmul(x0, x1)', 'torch.matmul(x0, x1) + 1']), [I(b + [m, k]), I([k, n])])
    if f == 'vec_l':
        return spec1('torch.matmul(x0, x1)', [I([k]), I(d.shape(0, 1, 1, 3) + [k, n])])
    if f == 'vec_r':
        return spec1('torch.matmul(x0, x1)', [I(d.shape(0, 1, 1, 3) + [m, k]), I([k])])
    if f == 'dot':
        return spec1('torch.matmul(x0, x1)', [I([k]), I([k])])
    if f == 'addmm':
        bs = d.ok([[n]], [[m, n], [1, n], [m, 1]])
        al, be = d.ok([1], [2, 0.5]), d.ok([1], [1, 0.5, 3])
        w = d.b()
        ini = [f"self.register_buffer('w', torch.randn({k}, {n}))", f"self.register_buffer('b', torch.randn({bs}))"]
        if w:
            return spec1(f'torch.addmm(self.b, x0, self.w, beta={be}, alpha={al})', [I([m, k])], ini)
        return spec1(f'torch.addmm(x2, x0, x1, beta={be}, alpha={al})', [I([m, k]), I([k, n]), I(bs)])
    if f == 'const_r':
        b = d.shape(0, 2, 1, 3)
        return spec1('torch.matmul(x0, self.w)', [I(b + [m, k])], [f"self.register_buffer('w', torch.randn({d.c([[], [], b])} + [{k}, {n}]))"])
    if f == 'const_l':
        b = d.shape(0, 2, 1, 3)
        return spec1('torch.matmul(self.w, x0)', [I(b + [k, n])], [f"self.register_buffer('w', torch.randn({m}, {k}))"])
    if f in ('addbmm', 'baddbmm'):
        b = d.i(1, 3)
        al, be = d.ok([1], [2, 0.5]), d.ok([1], [1, 0.5, 3])
        bs = ([m, n] if f == 'addbmm' else d.c([[b, m, n], [1, m, n], [m, n]]))
        return spec1(f'torch.{f}(x0, x1, x2, beta={be}, alpha={al})', [I(bs), I([b, m, k]), I([b, k, n])])
    if f == 'einsum':
        return spec1(d.c(["torch.einsum('ij,jk->ik', x0, x1)", "torch.einsum('ij,jk->ki', x0, x1)"]), [I([m, k]), I([k, n])])
    b = d.i(1, 3)
    return spec1("torch.einsum('bij,bkj->bik', x0, x1)", [I([b, m, k]), I([b, n, k])])


# --------------------------------------------------------------------------- conv family
def conv_geom(d, nd, big=False):
    k = [d.i(1, 4) for _ in range(nd)]
    s = [d.i(1, 3) for _ in range(nd)]
    dil = [d.c([1, 1, 1, 2, 3]) for _ in range(nd)]
    if d.b():
        s = [s[0]] * nd
    if d.b():
        dil = [dil[0]] * nd
    p = [d.i(0, (k[i] - 1) * dil[i]) if d.b() else 0 for i in range(nd)]
    if d.p(1, 4):
        p = [d.c([1, 2]) for _ in range(nd)]
    hw = [(k[i] - 1) * dil[i] + 1 + d.i(0, 5) for i in range(nd)]
    return k, s, p, dil, hw


@op('conv2d', 60)
def _(d):
    k, s, p, dil, hw = conv_geom(d, 2)
    g = d.c([1, 1, 1, 'dw', 'dwm', 2, 3])
    n = d.c([1, 1, 2])
    if g == 'dw':
        ci = d.i(1, 5)
        co, g = ci, ci
    elif g == 'dwm':
        ci = d.i(1, 3)
        co, g = ci * d.i(2, 3), ci
    else:
        ci, co = g * d.i(1, 3), g * d.i(1, 3)
    pm = d.c(["'zeros'"] * 4 + ["'reflect'"]) if all(p[i] < hw[i] for i in range(2)) else "'zeros'"
    pp = tuple(p)
    if d.p(1, 6):
        pp = "'valid'" if d.b() or s != [1, 1] else "'same'"
    m = f"nn.Conv2d({ci}, {co}, {tuple(k)}, stride={tuple(s)}, padding={pp}, dilation={tuple(dil)}, groups={g}, bias={d.b()}, padding_mode={pm})"
    act = d.c(['{}', '{}', 'F.relu({})', 'F.relu6({})'])
    return spec1(act.format('self.m0(x0)'), [I([n, ci] + hw)], [f'self.m0 = {m}'])


@op('conv1d', 24)
def _(d):
    k, s, p, dil, hw = conv_geom(d, 1)
    g = d.c([1, 1, 2, 'dw'])
    if g == 'dw':
        ci = d.i(1, 4)
        co, g = ci * d.i(1, 2), ci
    else:
        ci, co = g * d.i(1, 3), g * d.i(1, 3)
    m = f"nn.Conv1d({ci}, {co}, {k[0]}, stride={s[0]}, padding={p[0]}, dilation={dil[0]}, groups={g}, bias={d.b()})"
    return spec1('self.m0(x0)', [I([d.c([1, 2]), ci] + hw)], [f'self.m0 = {m}'])


@op('conv_transpose2d', 40)
def _(d):
    k = [d.i(1, 4), d.i(1, 4)]
    s = [d.i(1, 3), d.i(1, 3)]
    if d.b():
        s, k = [s[0]] * 2, [k[0]] * 2
    dil = [1, 1] if d.p(5, 6) or not d.lim else [d.i(1, 2), d.i(1, 2)]
    p = [d.i(0, min(2, (k[i] - 1) * dil[i])) for i in range(2)]
    op_ = [d.i(0, max(s[i], dil[i]) - 1) if d.p(1, 3) else 0 for i in range(2)]
    g = d.c([1, 1, 1, 2, 'dw'])
    if g == 'dw':
        ci = d.i(2, 4)
        co, g = ci, ci
    else:
        ci, co = g * d.i(1, 3), g * d.i(1, 3)
    hw = [d.i(2, 5), d.i(2, 5)]
    m = f'nn.ConvTranspose2d({ci}, {co}, {tuple(k)}, stride={tuple(s)}, padding={tuple(p)}, output_padding={tuple(op_)}, groups={g}, bias={d.b()}, dilation={tuple(dil)})'
    return spec1('self.m0(x0)', [I([d.c([1, 2]), ci] + hw)], [f'self.m0 = {m}'], opts={'group_conv_rewrite': True} if g > 1 else {})


@op('conv_transpose1d', 16)
def _(d):
    k, s = d.i(1, 4), d.i(1, 3)
    p = d.i(0, min(2, k - 1))
    op_ = d.i(0, s - 1) if d.p(1, 3) else 0
    g = d.c([1, 1, 2])
    ci, co = g * d.i(1, 3), g * d.i(1, 3)
    m = f'nn.ConvTranspose1d({ci}, {co}, {k}, stride={s}, padding={p}, output_padding={op_}, groups={g}, bias={d.b()})'
    return spec1('self.m0(x0)', [I([d.c([1, 2]), ci, d.i(2, 6)])], [f'self.m0 = {m}'], opts={'group_conv_rewrite': True} if g > 1 else {})


@op('conv3d', 8)
def _(d):
    k, s, p, dil, hw = conv_geom(d, 3)
    ci, co = d.i(1, 3), d.i(1, 3)
    m = f"nn.Conv3d({ci}, {co}, {tuple(k)}, stride={tuple(s)}, padding={tuple(p)}, dilation={tuple(dil)}, bias={d.b()})"
    return spec1('self.m0(x0)', [I([1, ci] + hw)], [f'self.m0 = {m}'])


@op('func_conv', 10)
def _(d):
    k, s, p, dil, hw = conv_geom(d, 2)
    ci, co = d.i(1, 3), d.i(1, 3)
    e = f"F.conv2d(x0, self.w, {d.c(['None', 'self.b'])}, stride={tuple(s)}, padding={tuple(p)}, dilation={tuple(dil)})"
    return spec1(e, [I([1, ci] + hw)], [f'self.w = nn.Parameter(torch.randn({co}, {ci}, {k[0]}, {k[1]}))', f'self.b = nn.Parameter(torch.randn({co}))'])


# --------------------------------------------------------------------------- pooling / resize
@op('pool2d', 50)
def _(d):
    k = [d.i(1, 4), d.i(1, 4)]
    s = [d.i(1, 3), d.i(1, 3)]
    if d.b():
        k, s = [k[0]] * 2, [s[0]] * 2
    p = [d.i(0, k[i] // 2) for i in range(2)]
    hw = [k[i] + d.i(0, 5) for i in range(2)]
    ceil = d.p(1, 3)
    sh = [d.c([1, 2]), d.i(1, 3)] + hw
    stride = d.c([f', stride={tuple(s)}', f', stride={tuple(s)}', ''])
    if d.b():
        e = f'F.max_pool2d(x0, {tuple(k)}{stride}, padding={tuple(p)}, ceil_mode={ceil})'
        if d.p(1, 8):
            e = f'F.max_pool2d(x0, {tuple(k)}{stride}, padding={tuple(p)}, dilation={d.ok([1], [2])}, ceil_mode={ceil})'
    else:
        do = d.c(['', '', '', f', divisor_override={d.i(1, 5) if d.lim else k[0] * k[1]}'])
        ceil = ceil and d.lim
        e = f'F.avg_pool2d(x0, {tuple(k)}{stride}, padding={tuple(p)}, ceil_mode={ceil}, count_include_pad={d.b()}{do})'
    return spec1(e, [I(sh)])


@op('pool1d', 24)
def _(d):
    k, s = d.i(1, 4), d.i(1, 3)
    p = d.i(0, k // 2)
    sh = [d.c([1, 2]), d.i(1, 3), k + d.i(0, 6)]
    ceil = d.p(1, 3)
    e = d.c([f'F.max_pool1d(x0, {k}, {s}, {p}, ceil_mode={ceil})', f'F.avg_pool1d(x0, {k}, {s}, {p}, ceil_mode={ceil and d.lim}, count_include_pad={d.b()})'])
    return spec1(e, [I(sh)])


@op('adaptive_pool', 30)
def _(d):
    o = [d.i(1, 4), d.i(1, 4)]
    f = [d.i(1, 3), d.i(1, 3)]
    hw = [o[i] * f[i] for i in range(2)]
    if d.lim and d.p(1, 5):
        hw = [d.i(o[0], 7), d.i(o[1], 7)]
    t = d.c(['avg', 'max'])
    if d.p(1, 3):
        return spec1(f'F.adaptive_{t}_pool1d(x0, {o[0]})', [I([d.c([1, 2]), d.i(1, 3), hw[0]])])
    tgt = d.c([str(tuple(o)), '1', '(1, 1)', f'({o[0]}, None)', f'(None, {o[1]})'])
    return spec1(f'F.adaptive_{t}_pool2d(x0, {tgt})', [I([d.c([1, 2]), d.i(1, 3)] + hw)])


@op('upsample', 30)
def _(d):
    hw = [d.i(1, 5), d.i(1, 5)]
    mode = d.c(['nearest', 'bilinear'])
    ac = '' if mode == 'nearest' else d.c([', align_corners=True', ', align_corners=False', ''])
    if d.b():
        sc = d.c(['2', '3', '(2.0, 3.0)', '2.0', '(1, 2)'])
        e = f"F.interpolate(x0, scale_factor={sc}, mode='{mode}'{ac})"
    else:
        sz = [h * d.i(1, 3) for h in hw] if d.b() else [d.i(1, 9), d.i(1, 9)]
        e = f"F.interpolate(x0, size={tuple(sz)}, mode='{mode}'{ac})"
    return spec1(e, [I([d.c([1, 2]), d.i(1, 3)] + hw)])


@op('pixel_shuffle', 10)
def _(d):
    r = d.i(1, 3)
    c, h, w = d.i(1, 3), d.i(1, 4), d.i(1, 4)
    n = d.c([1, 2])
    if d.b():
        return spec1(f'F.pixel_shuffle(x0, {r})', [I([n, c * r * r, h, w])])
    return spec1(f'F.pixel_unshuffle(x0, {r})', [I([n, c, h * r, w * r])])


@op('im2col', 16)
def _(d):
    k = [d.i(1, 3), d.i(1, 3)]
    dil = [d.i(1, 2), d.i(1, 2)]
    s = [d.i(1, 2), d.i(1, 2)]
    p = [d.i(0, 1), d.i(0, 1)]
    hw = [(k[i] - 1) * dil[i] + 1 + d.i(0, 3) for i in range(2)]
    n, c = d.c([1, 2]), d.i(1, 2)
    a = f'{tuple(k)}, dilation={tuple(dil)}, padding={tuple(p)}, stride={tuple(s)}'
    if d.b():
        return spec1(f'F.unfold(x0, {a})', [I([n, c] + hw)])
    L = 1
    for i in range(2):
        L *= (hw[i] + 2 * p[i] - dil[i] * (k[i] - 1) - 1) // s[i] + 1
    lead = [n] if d.p(2, 3) else []
    return spec1(f'F.fold(x0, {tuple(hw)}, {a})', [I(lead + [c * k[0] * k[1], L])])


# --------------------------------------------------------------------------- normalisation
@op('norm_layers', 50)
def _(d):
    k = d.c(['bn1', 'bn2', 'bn2', 'ln', 'ln', 'in1', 'in2', 'gn', 'bn1_2d', 'lnf', 'bn_na'])
    eps = d.fl(1e-5, 1e-3, 0.1)
    n, c = d.c([1, 2]), d.i(1, 5)
    if k == 'bn2':
        return spec1('self.m0(x0)', [I([n, c, d.i(1, 4), d.i(1, 4)])], [f'self.m0 = nn.BatchNorm2d({c}, eps={eps})'])
    if k == 'bn1':
        return spec1('self.m0(x0)', [I([n, c, d.i(1, 5)])], [f'self.m0 = nn.BatchNorm1d({c}, eps={eps})'])
    if k == 'bn1_2d':
        return spec1('self.m0(x0)', [I([n, c])], [f'self.m0 = nn.BatchNorm1d({c}, eps={eps})'])
    if k == 'bn_na':
        return spec1('self.m0(x0)', [I([n, c, d.i(1, 4), d.i(1, 4)])], [f'self.m0 = nn.BatchNorm2d({c}, eps={eps}, affine=False)'])
    if k in ('ln', 'lnf'):
        s = d.shape(2, 4, 2, 5)
        ns = s[-d.i(1, len(s) - 1):]
        if k == 'lnf':
            return spec1(f'F.layer_norm(x0, {ns}, eps={eps})', [I(s)])
        return spec1('self.m0(x0)', [I(s)], [f'self.m0 = nn.LayerNorm({ns}, eps={eps}, elementwise_affine={d.p(3, 4)}{d.c(["", ", bias=False"])})'])
    aff = d.b()
    if k == 'in1':
        return spec1('self.m0(x0)', [I([n, c, d.i(2, 6)])], [f'self.m0 = nn.InstanceNorm1d({c}, eps={eps}, affine={aff})'])
    if k == 'in2':
        trs = d.p(1, 4) and (aff or d.lim)
        return spec1('self.m0(x0)', [I([n, c, d.i(2, 4), d.i(2, 4)])], [f'self.m0 = nn.InstanceNorm2d({c}, eps={eps}, affine={aff}, track_running_stats={trs})'])
    g = d.i(1, 3)
    c = g * d.i(1, 3)
    s = [n, c] + d.shape(0, 2, 2, 4)
    return spec1('self.m0(x0)', [I(s)], [f'self.m0 = nn.GroupNorm({g}, {c}, eps={eps}, affine={aff})'])


@op('channel_shuffle', 6)
def _(d):
    g, m = d.i(1, 3), d.i(1, 3)
    s = [d.c([1, 2]), g * m, d.i(1, 4), d.i(1, 4)]
    e = d.c([f'nn.ChannelShuffle({g})', None])
    if e:
        return spec1('self.m0(x0)', [I(s)], [f'self.m0 = {e}'])
    return spec1(f'x0.view({s[0]}, {g}, {m}, {s[2]}, {s[3]}).transpose(1, 2).contiguous().view({s[0]}, -1, {s[2]}, {s[3]})', [I(s)])


@op('attention', 6)
def _(d):
    b, h, t, e = d.c([1, 2]), d.i(1, 2), d.i(1, 4), d.i(1, 4)
    x = d.c(
        [
            'torch.softmax(x0 @ x1.transpose(-2, -1) / math.sqrt(x0.size(-1)), -1) @ x2',
            '(torch.softmax((x0 @ x1.transpose(-2, -1)) * 0.5, dim=-1) @ x2).transpose(1, 2).reshape({}, {}, -1)'.format(b, t),
            'F.scaled_dot_product_attention(x0, x1, x2)',
        ]
    )
    return spec1(x, [I([b, h, t, e])] * 3)


@op('bilinear_misc', 6)
def _(d):
    s = d.shape(2, 3, 2, 4)
    e = d.c(['x0 - x0.mean(-1, keepdim=True)', 'x0 / (x0.abs().sum(-1, keepdim=True) + 1)', 'torch.stack([x0, x0 * 2], 1).sum(1)', '(x0 > 0).float() * x0', 'torch.cat([x0, -x0], -1).relu()', 'x0.sum(-1).unsqueeze(-1).expand_as(x0) + x0'])
    return spec1(e, [I(s, 'z')])


def make_strategy(name, lim=False):
    f, _n = OPS[name]

    @st.composite
    def strat(draw):
        d = D(draw, lim)
        spec = f(d)
        # one statement of the domain: the program must be valid torch (checked at run time)
        spec['opts'] = dict(spec.get('opts', {}), nchw_transpose=d.p(1, 4))
        if d.p(1, 4):
            spec['opts']['optimize'] = d.i(0, 5)
        spec['seed'] = d.seed()
        spec['op'] = name
        return spec

    return strat()
