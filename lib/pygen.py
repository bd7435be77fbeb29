"""Extra generator rules with Python / PyTorch idioms that matter to the tracer (in-place ops, shapes, constants created
on the fly, containers, properties, kwargs, multi-output functions, user-defined sub-modules ...)."""
import numpy as np

from graphgen import MAXN, RULES, is4, act
from opgen import I

PY = {}


def rule(w=1):
    def deco(f):
        PY[f.__name__[2:]] = (f, {'py'}, w)
        return f

    return deco


@rule(w=3)
def p_inplace(g):
    d = g.d
    v = g.pick()
    if not v:
        return
    x, s = v
    y = g.emit(d.c([f'{x} * 1.5', f'{x} + 0.25', f'torch.abs({x})', f'{x}.clone()']), s)
    if d.p(1, 3):  # a reader of the old value
        g.used.add(y)
        g.emit(f'{y} * 0.5', s)
    o = [q for q in g.vals if q[1] == s and q[0] != y]
    other = d.c(o)[0] if o and d.p(3, 4) else '0.5'
    if other != '0.5':
        g.used.add(other)
    for _ in range(d.i(1, 2)):
        g.body.append(d.c([f'{y} += {other}', f'{y} -= {other}', f'{y} *= {other}', f'{y}.add_({other})', f'{y}.mul_(0.5)', f'{y}.relu_()', f'F.relu({y}, inplace=True)',
                           f'{y}.clamp_(-1.0, 1.0)', f'{y}.clamp_(min=0.1)', f'{y} /= 2', f'{y}.neg_()', f'{y}.tanh_()', f'{y}.fill_(0.5)', f'{y}.copy_({other})' if other != '0.5' else f'{y}.zero_()', f'{y}.sub_({other}, alpha=2)' if other != '0.5' else f'{y}.sub_(1.0)']))
    g.used.discard(y)


@rule(w=3)
def p_shape(g):
    d = g.d
    v = g.pick(lambda s: len(s) >= 2)
    if not v:
        return
    x, s = v
    r = len(s)
    k = d.i(0, 7)
    if k == 0:
        g.emit(f'{x}.view({x}.size(0), -1)' if d.b() else f'{x}.reshape({x}.shape[0], -1)', (s[0], int(np.prod(s[1:])))) if 'view' != 'x' else None
    elif k == 1:
        n = ', '.join(f'n{i}' for i in range(r))
        g.body.append(f'{n} = ' + d.c([f'{x}.shape', f'{x}.size()']))
        g.emit(f'{x}.reshape(n{0} * n{1}' + ''.join(f', n{i}' for i in range(2, r)) + ')', (s[0] * s[1],) + s[2:])
    elif k == 2:
        if s[1] >= 2:
            g.emit(f'{x}[:, :{x}.size(1) // 2]', (s[0], s[1] // 2) + s[2:])
    elif k == 3:
        g.emit(f'{x} / {x}.size(-1)' if d.b() else f'{x} * ({x}.shape[-1] ** -0.5)', s)
    elif k == 4:
        g.emit(f'{x}.reshape({x}.size(0), {x}.size(1), -1)', (s[0], s[1], int(np.prod(s[2:]))))
    elif k == 5:
        g.emit(f'torch.zeros({x}.shape) + {x}' if d.b() else f'torch.zeros({x}.size(0), 1) + {x}.reshape({x}.size(0), -1)[:, :1]', s) if d.b() else g.emit(f'{x} + {x}.dim()', s)
        # the shape of the second variant differs
        if 'reshape' in g.body[-1] and '[:, :1]' in g.body[-1]:
            g.vals[-1] = (g.vals[-1][0], (s[0], 1))
    elif k == 6:
        g.emit(f'{x}.view(*{x}.shape[:-1], {s[-1]}, 1)', s + (1,)) if False else g.emit(f'{x}.flatten(1)', (s[0], int(np.prod(s[1:]))))
    else:
        g.emit(f'{x}.expand({x}.size(0)' + ', -1' * (r - 1) + ')', s)


@rule(w=2)
def p_const(g):
    d = g.d
    v = g.pick()
    if not v:
        return
    x, s = v
    n = s[-1]
    e = d.c([
        f'{x} + torch.ones({n})', f'{x} * torch.full([1], 0.5)', f'{x} + torch.arange({n}) * 0.1', f'{x} + torch.zeros_like({x})', f'{x} * torch.ones_like({x}, dtype=torch.float32)',
        f'{x} + {x}.new_ones({n})', f'{x} + {x}.new_full([{n}], 0.25)', f'{x} + torch.tensor(0.5)', f'{x} * torch.tensor({[round(0.5 + 0.1 * i, 2) for i in range(n)]})',
        f'{x} - torch.linspace(0, 1, {n})', f'torch.eye({n})[0] + {x}', f'{x} + torch.arange({n}, dtype=torch.float32).reshape(-1)', f'torch.zeros({n}).to({x}.dtype) + {x}',
        f'{x} + torch.tensor({list(range(n))}).type_as({x})', f'{x} + torch.empty({n}).fill_(0.5)',
    ])
    g.emit(e, s)


@rule(w=2)
def p_kwargs(g):
    d = g.d
    v = g.pick()
    if not v:
        return
    x, s = v
    i = d.i(0, len(s) - 1)
    one = s[:i] + (1,) + s[i + 1:]
    e, o = d.c([
        (f'torch.sum(input={x}, dim={i}, keepdim=True)', one), (f'torch.softmax(input={x}, dim={i})', s), (f'torch.mul(input={x}, other={x})', s), (f'torch.add({x}, {x}, alpha=0.5)', s),
        (f'{x}.mean(dim=({i},), keepdim=True)', one), (f'torch.clamp({x}, min=-1, max=None)', s), (f'F.leaky_relu({x}, negative_slope=0.2)', s), (f'torch.cat(tensors=[{x}, {x}], dim={i})', s[:i] + (2 * s[i],) + s[i + 1:]),
        (f'torch.stack(tensors=({x}, {x}), dim=0)', (2,) + s), (f'F.dropout({x}, p=0.5, training=self.training)', s), (f'F.normalize({x} + 2.0, p=2.0, dim={i})', s), (f'torch.nan_to_num({x}, nan=0.0, posinf=1.0)', s),
        (f'F.softplus({x}, beta=2)', s), (f'torch.unsqueeze({x}, dim=0)', (1,) + s), (f'F.elu({x}, alpha=0.5, inplace=False)', s), (f"F.gelu({x}, approximate='tanh')", s), (f'torch.flip({x}, dims=[{i}])', s), (f'torch.roll({x}, shifts=1, dims={i})', s),
    ])
    if np.prod(o) <= MAXN:
        g.emit(e, o)


@rule(w=2)
def p_operators(g):
    d = g.d
    v = g.pick()
    if not v:
        return
    x, s = v
    g.emit(d.c([
        f'-{x}', f'{x} ** 2', f'1 - {x}', f'2 / ({x} ** 2 + 1)', f'abs({x})', f'({x} > 0).float()', f'({x} >= {x} * 2).to(torch.float32)', f'torch.where({x} > 0, {x}, -{x})',
        f'{x}.masked_fill({x} < 0, -1e3)', f"{x}.masked_fill({x} < -100.0, float('-inf'))", f'torch.where(({x} > 0) & ~({x} > 1), {x}, {x} * 0.1)', f'{x} % 2', f'{x} // 0.5', f'sum([{x}, {x}, 1.0])',
        f'({x} != 0) * {x}', f'{x}.sign() * {x}.abs().sqrt()', f'torch.where(torch.logical_or({x} < -1, {x} > 1), {x} * 0, {x})', f'0.5 * {x} + 1e-07', f'{x} * -1e10 * 1e-10', f'(lambda t: t * 2)({x})', f'{x}.double().float()',
        f'{x}.to(torch.float64).type(torch.float32)', f'{x} @ torch.eye({s[-1]})' if len(s) > 1 else f'{x} * 3', f'{x}.detach() + {x}', f'{x}.contiguous().clone()', f'torch.pow(2.0, {x}.clamp(-2, 2))', f'{x}.requires_grad_(False) + 1' if False else f'{x}.pow(3)',
    ]), s)


@rule(w=2)
def p_index(g):
    d = g.d
    v = g.pick(lambda s: len(s) >= 2)
    if not v:
        return
    x, s = v
    c = [(f'{x}[..., 0]', s[:-1]), (f'{x}[:, None]', (s[0], 1) + s[1:]), (f'{x}[None]', (1,) + s), (f'{x}[:, [0, {s[1] - 1}]]', (s[0], 2) + s[2:]), (f'{x}[0]', s[1:]), (f'{x}[-1:]', (1,) + s[1:]),
         (f'{x}[:, torch.tensor([0, {s[1] - 1}, 0])]', (s[0], 3) + s[2:]), (f'{x}[..., ::2]', s[:-1] + ((s[-1] + 1) // 2,)), (f'{x}[({x} > 0).nonzero()[:0, 0]].sum() + {x}', s), (f'{x}[{x} > 0].sum() + {x}', s),
         (f'{x}[:, -1, ...]', (s[0],) + s[2:]), (f'{x}[..., None, :]', s[:-1] + (1, s[-1])), (f'{x}[0, 0]', s[2:]), (f'{x}.t()' if len(s) == 2 else f'{x}.transpose(0, 1)', (s[1], s[0]) + s[2:]),
         (f'{x}.index_select(1, torch.tensor([0]))', (s[0], 1) + s[2:]), (f'{x}[slice(0, 1)]', (1,) + s[1:]), (f'{x}.narrow(1, 0, 1)', (s[0], 1) + s[2:]), (f'{x}[:, 0:{s[1]}:1]', s)]
    e, o = d.c(c)
    if len(o) and np.prod(o) <= MAXN:
        g.emit(e, o)


@rule(w=2)
def p_multi(g):
    d = g.d
    v = g.pick(lambda s: len(s) >= 1 and s[-1] >= 2)
    if not v:
        return
    x, s = v
    r = len(s)
    k = d.i(0, 8)
    t = f't{g.n}'
    red = s[:-1]
    if k == 0 and red:
        g.body.append(f'{t} = torch.max({x}, {r - 1})' if d.b() else f'{t} = {x}.min(-1)')
        g.emit(d.c([f'{t}[0]', f'{t}.values', f'{t}[0] + {t}[1].float()']), red)
    elif k == 1 and red:
        g.body.append(f'{t}a, {t}b = torch.topk({x}, 2, dim=-1)' if d.b() else f'{t}a, {t}b = {x}.sort(dim=-1, descending=True)')
        g.emit(f'{t}a[..., :2] * ({t}b[..., :2] + 1)', red + (2,))
    elif k == 2:
        g.body.append(f'{t} = {x}.chunk(2, -1)')
        g.emit(f'torch.cat([{t}[1], {t}[0]], dim=-1)' if d.b() else f'torch.cat(tuple(q * 2 for q in {t}), -1)', s)
    elif k == 3:
        g.body.append(f'{t}a, *{t}b = torch.unbind({x}, -1)')
        g.emit(f'{t}a + {t}b[-1]' if red else f'{t}a + {x}', red or s)
    elif k == 4:
        g.body.append(f'{t} = [q * (i + 1) for i, q in enumerate({x}.split(1, dim=-1))]')
        g.emit(f'torch.cat({t}[::-1], dim=-1)', s)
    elif k == 5:
        g.emit(f'torch.einsum("...i,i->...i", {x}, {x}.reshape(-1)[:{s[-1]}])', s)
    elif k == 6 and r >= 2:
        g.body.append(f'{t} = torch.meshgrid(torch.arange({s[-2]}), torch.arange({s[-1]}), indexing="ij")')
        g.emit(f'{x} + {t}[0] * 0.1 + {t}[1]', s)
    elif k == 7 and r >= 2:
        h = d.i(1, 3)
        rnn = d.c(['LSTM', 'GRU', 'RNN'])
        bi = d.b()
        m = g.mod(f'nn.{rnn}({s[-1]}, {h}, num_layers={d.i(1, 2)}, batch_first={d.b()}, bidirectional={bi})')
        if r > 3:
            x, s = f'{x}.reshape(-1, {s[-2]}, {s[-1]})', (int(np.prod(s[:-2])), s[-2], s[-1])
        g.body.append(f'{t}, {t}h = {m}({x})' if d.b() else f'{t} = {m}({x})[0]')
        g.emit(f'{t} * 2', s[:-1] + (h * (2 if bi else 1),))
    elif k == 8:
        g.body.append(f'{t} = torch.std_mean({x}, dim=-1)' if red else f'{t} = ({x}.sum(), {x}.max())')
        g.emit(f'{t}[1] - {t}[0]', red or ()) if red else g.emit(f'{x} * {t}[1]', s)


@rule(w=3)
def p_modules(g):
    d = g.d
    v = g.pick(is4)
    if not v:
        return
    x, (n, c, h, w) = v
    s = (n, c, h, w)
    k = d.i(0, 6)
    nm = f'm{g.m}'
    g.m += 1
    co = d.i(1, 4)
    if k == 0:
        g.init.append(f'self.{nm} = nn.Sequential(nn.Conv2d({c}, {co}, 1), nn.BatchNorm2d({co}), nn.{d.c(["ReLU", "ReLU6", "SiLU"])}({d.c(["", "inplace=True"])}))')
        g.emit(f'self.{nm}({x})', (n, co, h, w))
    elif k == 1:
        g.init.append(f'self.{nm} = nn.ModuleList([nn.Conv2d({c}, {c}, 1, bias=i == 0) for i in range({d.i(1, 3)})])')
        g.body.append(f't{nm} = {x}')
        g.body += [f'for blk in self.{nm}:', f'    t{nm} = blk(t{nm})' + d.c(['', f' + t{nm}'])]
        g.emit(f't{nm} * 1.0', s)
    elif k == 2:
        g.init.append(f"self.{nm} = nn.ModuleDict({{'a': nn.Conv2d({c}, {co}, 1), 'b-c': nn.PReLU({co})}})")
        g.emit(f"self.{nm}['b-c'](self.{nm}['a']({x}))", (n, co, h, w))
    elif k == 3:  # user-defined sub-module with arguments
        if not hasattr(g, 'pre'):
            g.pre = []
        g.pre += [f'class Sub{nm}(nn.Module):', '    def __init__(self, c, k=1, name="a"):', '        super().__init__()', '        self.conv = nn.Conv2d(c, c, k, padding=k // 2)', '        self.alpha = nn.Parameter(torch.ones(1) * 0.5)',
                  "        self.register_buffer('off', torch.tensor([0.25]))", '        self.act = nn.Sequential(nn.Identity(), nn.Hardswish())', '    def forward(self, x, y=None):', '        z = self.act(self.conv(x)) * self.alpha + self.off', '        return z if y is None else (z + y, z)', '']
        two = d.b()
        g.init.append(f'self.{nm} = Sub{nm}({c}, {d.c([1, 3])})' if not two else f'self.{nm} = nn.ModuleList([Sub{nm}({c}), Sub{nm}({c}, k=3)])')
        if two:
            g.emit(f'self.{nm}[1](self.{nm}[0]({x}), y={x})[{d.i(0, 1)}]', s)
        else:
            g.emit(f'self.{nm}({x})', s)
    elif k == 4:  # the same module twice, the same weights under two names
        g.init.append(f'self.{nm} = nn.Conv2d({c}, {c}, 3, padding=1, padding_mode="{d.c(["zeros", "reflect", "replicate", "circular"]) if min(h, w) > 1 else "zeros"}")')
        g.emit(f'self.{nm}(self.{nm}({x}))', s)
    elif k == 5:
        g.init += [f'self.w{nm} = nn.Parameter(torch.randn({co}, {c}, 1, 1))', f"self.register_buffer('b{nm}', torch.randn({co}), persistent={d.b()})"]
        g.emit(f'F.conv2d({x}, self.w{nm}, {d.c([f"self.b{nm}", "None", f"bias=self.b{nm}"])})', (n, co, h, w))
    else:
        e, o = d.c([('nn.AdaptiveAvgPool2d((1, None))', (n, c, 1, w)), ('nn.AdaptiveAvgPool2d(1)', (n, c, 1, 1)), ('nn.Flatten()', (n, c * h * w)), ('nn.ZeroPad2d((1, 0, 1, 0))', (n, c, h + 1, w + 1)), ('nn.Upsample(scale_factor=2.0)', (n, c, 2 * h, 2 * w)),
                    ("nn.Upsample(size=(3, 4), mode='bilinear', align_corners=True)", (n, c, 3, 4)), ('nn.Dropout(0.3)', s), ('nn.Softmax(dim=-1)', s), ('nn.LeakyReLU(0.1, True)', s), ('nn.Hardtanh(-2, 2)', s), ('nn.GELU()', s), ('nn.Threshold(0.1, 20)', s),
                    ('nn.InstanceNorm2d(%d, affine=True)' % c, s if h * w > 1 else None), ('nn.GroupNorm(1, %d)' % c, s), ('nn.LayerNorm([%d, %d])' % (h, w), s), ('nn.PixelShuffle(1)', s), ('nn.ConstantPad2d(1, 3.5)', (n, c, h + 2, w + 2)), ('nn.Unflatten(1, (1, %d))' % c, (n, 1, c, h, w)), ('nn.Softmax2d()', s), ('nn.ChannelShuffle(1)', s), ('nn.LocalResponseNorm(2)', s), ('nn.AvgPool2d(1, 1)', s), ('nn.LPPool2d(2, 1)', s), ('nn.Tanhshrink()', s), ('nn.MaxPool2d(1, stride=1, return_indices=False)', s), ('nn.Identity()', s), ('nn.Linear(%d, 3)' % w, (n, c, h, 3))])
        if o is None or np.prod(o) > MAXN:
            return
        g.init.append(f'self.{nm} = {e}')
        g.emit(f'self.{nm}({x})', o)


@rule(w=1)
def p_param(g):
    d = g.d
    v = g.pick()
    if not v:
        return
    x, s = v
    c = g.buf(f'torch.randn({s[-1]})', param=d.b())
    g.emit(d.c([f'{x} * {c}', f'{x} + {c}[None]', f'{x} - {c}.abs()', f'{x} * {c}.sigmoid() + {c}', f'{c} * {x} * {c}', f'torch.add({x}, {c}, alpha=2)', f'F.layer_norm({x}, ({s[-1]},), {c})' if s[-1] > 1 else f'{x} + {c}', f'{x} + {c}.data', f'{x} * {c}.mean()']), s)
