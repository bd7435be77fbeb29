"""Networks with the idioms the quantizer rewrites (on top of graphgen)."""
import numpy as np

import graphgen
from graphgen import act, is4, osz, MAXN

ACT_F = ['F.relu({})', 'F.relu6({})', 'F.leaky_relu({}, 0.1)', 'F.elu({})', 'F.elu({}, 0.7)', 'torch.sigmoid({})', 'torch.tanh({})', 'F.hardswish({})', 'F.silu({})', 'F.hardsigmoid({})',
         'F.elu({}, alpha=0.6)', '{}.relu()', '{}.sigmoid()', '{}.tanh()', 'F.leaky_relu({})', 'F.leaky_relu({}, negative_slope=0.3)', 'F.relu({}, inplace=False)', 'F.hardtanh({}, -0.5, 1.5)']
ACT_M = ['nn.ReLU()', 'nn.ReLU6()', 'nn.LeakyReLU(0.1)', 'nn.ELU()', 'nn.ELU(0.5)', 'nn.Sigmoid()', 'nn.Tanh()', 'nn.Hardswish()', 'nn.SiLU()', 'nn.Hardsigmoid()', 'nn.Hardtanh(-1.0, 1.0)', 'nn.GELU()', 'nn.Softplus()', 'nn.Dropout(0.0)',
         'nn.Identity()']
CLAMP = ['torch.clamp({}, {lo}, {hi})', 'torch.clamp({}, min={lo}, max={hi})', '{}.clamp({lo}, {hi})', 'torch.clamp({}, min={lo})', 'torch.clamp({}, max={hi})', '{}.clamp_min({lo})', 'torch.clamp_max({}, {hi})', '{}.clamp(max={hi}, min={lo})', 'torch.clamp({}, {lo})']


def r_actm(g):
    v = g.pick()
    if g.d.b():
        g.emit(g.d.c(ACT_F).format(v[0]), v[1])
    else:
        m = g.mod(g.d.c(ACT_M))
        if g.d.p(1, 2):
            g.apps.append((m, lambda q: True, lambda q: q))
        g.emit(f'{m}({v[0]})', v[1])


def r_clamp(g):
    d = g.d
    v = g.pick()
    lo, hi = d.c([(0.0, 6.0), (0, 6), (-1.0, 1.0), (0.0, 1.0), (-0.5, 0.75), (0.0, 2.0), (0, 1)])
    g.emit(d.c(CLAMP).format(v[0], lo=lo, hi=hi), v[1])


def r_arith(g):
    """The forms that are rewritten: neg, div, rsub, sub, scalars on either side."""
    d = g.d
    v = g.pick()
    s = d.c([2, 0.5, -1.5, 3.0, 1, 4, 0.25])
    e = d.c(['-{0}', 'torch.neg({0})', '{0}.neg()', '{0} / {1}', '{0}.div({1})', 'torch.div({0}, {1})', '{0} - {1}', '{1} - {0}', '{1} + {0}', '{0} * {1}', '{1} * {0}', 'torch.sub({0}, {1})', 'torch.rsub({0}, {1})',
             'torch.add({0}, {1})', 'torch.mul({0}, {1})', '{0}.sub({1})', '{0} + {0}', '{0} - {0} * {1}', '{0} ** 2', 'torch.true_divide({0}, {1})', '{1} / ({0} * {0} + 1.0)', '1.0 / torch.sqrt(torch.abs({0}) + 0.5)'])
    y = g.emit(e.format(v[0], s), v[1])
    if d.p(1, 4):
        g.used.add(y)
        g.emit(d.c(['F.relu({})', 'F.relu6({})', 'torch.clamp({}, 0.0, 6.0)']).format(y), v[1])


def r_inplace(g):
    """In-place arithmetic on a value that may be read again."""
    d = g.d
    a = g.pick(recent=4)
    y = g.emit(d.c(['{} * 1.5', '{} + 0.5', 'F.relu({})', 'torch.tanh({})']).format(a[0]), a[1])
    b = g.pick(lambda s: s == a[1])
    g.used.add(y)
    old = y
    z = b[0]
    if z == y:
        z = a[0]
    e = (d.c(['{y} += {z}', '{y} += {z}', '{y}.add_({z})', '{y}.add_({z})', '{y} -= {z}', '{y} *= {z}', '{y} += 1.0', '{y} -= 0.5', '{y} *= 2', '{y} /= 2', '{y}.add_({z})', '{y}.sub_({z})', '{y}.mul_({z})', '{y}.add_(1)', '{y}.neg_()', 'F.relu_({y})', '{y}.clamp_(0.0, 6.0)', '{y}.clamp_(-1, 1)',
                       '{y}.add_({z}, alpha=0.5)', '{y}.div_(4.0)']).format(y=y, z=z))
    if '=' not in e.replace('alpha=', '') and d.b():
        r = g.emit(e, a[1])
        if d.b():
            g.used.add(r)
    else:
        g.body.append(e)
        r = old
    if d.p(2, 3):
        g.emit(d.c(['F.relu({})', '{} + 1', 'F.relu6({})', 'torch.relu({})', 'F.hardtanh({}, 0.0, 6.0)']).format(r), a[1])
        if d.b():
            g.emit(d.c(['{} * 1.25', '{} + 1']).format(old), a[1])


def r_sub2(g):
    d = g.d
    a = g.pick()
    b = g.pick(lambda s: s == a[1], recent=6)
    e = d.c(['{0} - {1}', 'torch.sub({0}, {1})', '{0}.sub({1})', 'torch.add({0}, {1})', '{0}.add({1})', 'torch.mul({0}, {1})', 'torch.stack([{0}, {1}], 0).sum(0)', '{0} / ({1} * {1} + 1.0)', '{0} - {1} * 2',
             'torch.sub({0}, {1}, alpha=2)', 'torch.add({0}, {1}, alpha=0.5)', '{0}.sub({1}, alpha=3)', 'torch.maximum({0}, {1})', 'torch.minimum({0}, {1})', '{0} + {1}'])
    y = g.emit(e.format(a[0], b[0]), a[1])
    if d.p(1, 3):
        g.used.add(y)
        if d.b():
            m = g.mod(d.c(['nn.ReLU()', 'nn.ReLU6()']))
            g.emit(f'{m}({y})', a[1])
        else:
            g.emit(d.c(['F.relu({})', 'F.relu6({})', 'torch.clamp({}, 0.0, 6.0)', 'torch.relu({})']).format(y), a[1])


def bn(d, kind, c):
    a = f'nn.BatchNorm{kind}({c}'
    if d.b():
        a += f', eps={d.c([0.3, 0.05, 1e-3])}'
    if d.p(1, 3):
        a += f', momentum={d.c([0.3, 0.02])}'
    return a + ')'


def r_convm(g):
    """conv [bn] [activation module]"""
    d = g.d
    v = g.pick(is4)
    if not v:
        return
    x, (n, c, h, w) = v
    tr = d.p(1, 4)
    k = d.i(1, min(3, h, w))
    s, p = d.i(1, 2), d.i(0, k // 2)
    co = g.size(1, 5)
    grp = 1
    if d.p(1, 4):
        grp, co = c, c * d.c([1, 1, 2])
    if tr:
        op = d.i(0, 1) if s > 1 and d.b() else 0
        oh, ow = (h - 1) * s - 2 * p + k + op, (w - 1) * s - 2 * p + k + op
        m = f'nn.ConvTranspose2d({c}, {co}, {k}, stride={s}, padding={p}, groups={grp}, bias={d.b()}{", output_padding=1" if op else ""})'
    else:
        dl = 2 if d.p(1, 5) and min(h, w) > 2 * (k - 1) else 1
        e = dl * (k - 1) + 1
        oh, ow = osz(h, e, s, p), osz(w, e, s, p)
        pm = d.c(['reflect', 'replicate', 'circular']) if p and min(h, w) > p and d.p(1, 6) else None
        m = f'nn.Conv2d({c}, {co}, {k}, stride={s}, padding={p}, groups={grp}, bias={d.b()}{", dilation=2" if dl == 2 else ""}{f", padding_mode={pm!r}" if pm else ""})'
    if oh < 1 or ow < 1 or n * co * oh * ow > MAXN:
        return
    seq = [m]
    if d.p(2, 3):
        seq.append(bn(d, '2d', co))
    a = d.c(['', '', 'nn.ReLU()', 'nn.ReLU6()', 'nn.Hardswish()', 'nn.PReLU(%d)' % d.c([1, co]), 'clamp', 'frelu', 'frelu6', 'nn.SiLU()'])
    if a.startswith('nn'):
        seq.append(a)
    if d.p(1, 4) and len(seq) > 1:
        m = g.mod('nn.Sequential(' + ', '.join(seq) + ')')
        y = g.emit(f'{m}({x})', (n, co, oh, ow))
    else:
        y = x
        for q in seq:
            mm = g.mod(q)
            if q is seq[0]:
                g.apps.append((mm, lambda z, want=(n, c, h, w): tuple(z) == want, lambda z, got=(n, co, oh, ow): got))
            y = g.emit(f'{mm}({y})', (n, co, oh, ow))
            if q is not seq[-1] or not a.startswith('nn') and a:
                g.used.add(y)
    if a in ('clamp', 'frelu', 'frelu6'):
        g.used.add(y)
        g.emit({'clamp': 'torch.clamp({}, 0.0, 6.0)', 'frelu': 'F.relu({})', 'frelu6': 'F.relu6({})'}[a].format(y), (n, co, oh, ow))


def r_conv1dm(g):
    d = g.d
    v = g.pick(lambda s: len(s) == 3)
    if not v:
        return
    x, (n, c, l) = v
    k = d.i(1, min(3, l))
    p, s = d.i(0, k // 2), d.i(1, 2)
    co = g.size(1, 5)
    ol = osz(l, k, s, p)
    if ol < 1:
        return
    m = g.mod(f'nn.Conv1d({c}, {co}, {k}, stride={s}, padding={p}, bias={d.b()})')
    y = g.emit(f'{m}({x})', (n, co, ol))
    if d.b():
        g.used.add(y)
        b = g.mod(bn(d, '1d', co))
        y = g.emit(f'{b}({y})', (n, co, ol))
    if d.b():
        g.used.add(y)
        b = g.mod(d.c(['nn.ReLU()', 'nn.ReLU6()']))
        g.emit(f'{b}({y})', (n, co, ol))


def r_linm(g):
    d = g.d
    v = g.pick(lambda s: len(s) >= 2 and s[-1] <= 64)
    if not v:
        return
    i, o = v[1][-1], g.size(1, 6)
    s = list(v[1][:-1]) + [o]
    if np.prod(s) > MAXN:
        return
    seq = [f'nn.Linear({i}, {o}, bias={d.p(2, 3)})']
    if len(s) == 2 and d.b():
        seq.append(bn(d, '1d', o))
    if d.b():
        seq.append(d.c(['nn.ReLU()', 'nn.ReLU6()', 'nn.PReLU(1)', 'nn.Hardtanh(0.0, 6.0)']))
    y = v[0]
    for q in seq:
        m = g.mod(q)
        y = g.emit(f'{m}({y})', s)
        if q is not seq[-1]:
            g.used.add(y)


def r_misc(g):
    d = g.d
    v = g.pick(lambda s: len(s) >= 2)
    if not v:
        return
    x, s = v
    k = d.c(['softmax', 'logsoftmax', 'glu', 'gn', 'ln', 'rms', 'pool1', 'dropout', 'padm', 'bn', 'sum', 'abs', 'std', 'in', 'exp', 'prelu_f', 'pow', 'flattenm', 'upm', 'poolm', 'fpad', 'size', 'mm', 'ew'])
    if k in ('softmax', 'logsoftmax'):
        dim = d.dim(len(s))
        n = 'Softmax' if k == 'softmax' else 'LogSoftmax'
        if d.b():
            m = g.mod(f'nn.{n}({dim})')
            g.emit(f'{m}({x})', s)
        else:
            g.emit(f"{'torch.softmax' if k == 'softmax' else 'F.log_softmax'}({x}, {d.c(['', 'dim='])}{dim})", s)
    elif k == 'glu':
        i = d.i(0, len(s) - 1)
        if s[i] % 2 or s[i] < 2:
            return
        t = list(s)
        t[i] //= 2
        if d.b():
            m = g.mod(f'nn.GLU({i})')
            g.emit(f'{m}({x})', t)
        else:
            g.emit(d.c(['F.glu({}, {})', 'F.glu({}, dim={})']).format(x, i), t)
    elif k == 'gn' and s[1] % 2 == 0 and len(s) > 2:
        m = g.mod(f'nn.GroupNorm(2, {s[1]}, affine={d.b()})')
        g.emit(f'{m}({x})', s)
    elif k == 'ln' and s[-1] > 1:
        q = d.i(1, min(2, len(s) - 1))
        m = g.mod(f'nn.LayerNorm({list(s[-q:])}, eps=0.01, elementwise_affine={d.p(3, 4)})')
        g.emit(f'{m}({x})', s)
    elif k == 'rms' and s[-1] > 1:
        m = g.mod(f'nn.RMSNorm({s[-1]}, eps=0.01, elementwise_affine={d.p(3, 4)})')
        g.emit(f'{m}({x})', s)
    elif k == 'pool1' and len(s) == 4:
        e = d.c(['F.avg_pool2d({}, 1, 2)', 'F.max_pool2d({}, 1, 2)', 'F.avg_pool2d({}, 1, stride=(2, 1))', 'F.avg_pool2d({}, kernel_size=(1, 1), stride=(1, 2))'])
        st = (2, 1) if '(2, 1)' in e else (1, 2) if '(1, 2)' in e else (2, 2)
        g.emit(e.format(x), (s[0], s[1], -(-s[2] // st[0]), -(-s[3] // st[1])))
    elif k == 'dropout':
        g.emit(d.c(['F.dropout({}, 0.5, self.training)', 'F.dropout({}, p=0.3, training=self.training)', 'F.dropout({}, training=self.training)']).format(x), s)
    elif k == 'padm' and len(s) == 4:
        p = [d.i(0, 2) for _ in range(4)]
        m = g.mod(d.c([f'nn.ConstantPad2d({p}, {d.fl(0.0, 0.5)})', f'nn.ZeroPad2d({p})']))
        t = (s[0], s[1], s[2] + p[2] + p[3], s[3] + p[0] + p[1])
        if np.prod(t) <= MAXN:
            g.emit(f'{m}({x})', t)
    elif k == 'bn' and len(s) in (2, 3, 4):
        m = g.mod(bn(d, '2d' if len(s) == 4 else '1d', s[1]))
        y = g.emit(f'{m}({x})', s)
        if d.b():
            g.used.add(y)
            r = g.mod('nn.ReLU()')
            g.emit(f'{r}({y})', s)
    elif k == 'sum':
        i = d.dim(len(s))
        t = list(s)
        del t[i]
        g.emit(f'{x}.sum({i}) * 0.3', t)
    elif k == 'abs':
        g.emit(d.c(['torch.abs({})', '{}.abs()']).format(x), s)
    elif k == 'exp':
        g.emit(d.c(['torch.exp({} * 0.2)', 'torch.log(torch.abs({}) + 1.0)', 'torch.sin({})', 'torch.cos({})']).format(x), s)
    elif k == 'in' and len(s) == 4 and s[2] * s[3] > 3:
        m = g.mod(f'nn.InstanceNorm2d({s[1]}, eps=0.01, affine={d.b()})')
        g.emit(f'{m}({x})', s)
    elif k == 'prelu_f':
        n = d.c([1, s[1]])
        c = g.buf(f'torch.rand({n}) * 0.5', True)
        g.emit(f'F.prelu({x}, {c})', s)
    elif k == 'flattenm':
        m = g.mod('nn.Flatten()')
        g.emit(f'{m}({x})', (s[0], int(np.prod(s[1:]))))
    elif k == 'upm' and len(s) == 4 and np.prod(s) * 4 <= MAXN:
        m = g.mod(d.c(["nn.Upsample(scale_factor=2, mode='nearest')", "nn.Upsample(scale_factor=2, mode='bilinear', align_corners=False)", 'nn.UpsamplingNearest2d(scale_factor=2)']))
        g.emit(f'{m}({x})', (s[0], s[1], s[2] * 2, s[3] * 2))
    elif k == 'poolm' and len(s) == 4:
        m, t = d.c([('nn.AdaptiveAvgPool2d(1)', (s[0], s[1], 1, 1)), ('nn.MaxPool2d(1, 2)', (s[0], s[1], -(-s[2] // 2), -(-s[3] // 2))), ('nn.AvgPool2d(1, 2)', (s[0], s[1], -(-s[2] // 2), -(-s[3] // 2)))])
        m = g.mod(m)
        g.emit(f'{m}({x})', t)
    elif k == 'size':
        g.emit(f'{x}.view({x}.size(0), -1)' if d.b() else f'{x}.reshape({x}.shape[0], -1)', (s[0], int(np.prod(s[1:]))))
    elif k == 'mm' and len(s) in (2, 3):
        t = list(s[:-1]) + [s[-2]]
        f = 'torch.mm' if len(s) == 2 else 'torch.bmm'
        g.emit(f'{f}({x}, {x}.transpose(-1, -2)) * 0.2', t)
    elif k == 'ew':
        g.emit(f'{x}.mean({d.dim(len(s))}, keepdim=True) + {x}', s)


def r_rnn(g):
    d = g.d
    v = g.pick(lambda s: len(s) == 3)
    if not v:
        return
    x, s = v
    h = d.i(2, 4)
    bi, bf = d.p(1, 3), d.b()
    k = d.c(['LSTM', 'LSTM', 'GRU', 'GRU', 'RNN'])
    m = g.mod(f'nn.{k}({s[2]}, {h}, num_layers={d.c([1, 1, 2])}, batch_first={bf}, bidirectional={bi}, bias={d.p(3, 4)})')
    g.emit(f'{m}({x})[0]', (s[0], s[1], h * (2 if bi else 1)))


EXTRA = {
    'actm': (r_actm, {'q', 'act'}, 4),
    'clampq': (r_clamp, {'q', 'act'}, 2),
    'arith': (r_arith, {'q', 'arith'}, 4),
    'inplace': (r_inplace, {'q', 'arith'}, 2),
    'sub2': (r_sub2, {'q', 'arith'}, 3),
    'convm': (r_convm, {'q', 'conv'}, 6),
    'conv1dm': (r_conv1dm, {'q', 'conv'}, 2),
    'linm': (r_linm, {'q', 'lin'}, 4),
    'misc': (r_misc, {'q', 'misc'}, 5),
    'rnn': (r_rnn, {'rnn'}, 2),
}
PROFILES = {
    'mixed': dict(steps=(3, 8), exclude=()),
    'cnn': dict(steps=(3, 8), tags=('conv', 'ew', 'pool', 'q', 'join'), exclude=('misc', 'lin')),
    'arith': dict(steps=(2, 6), tags=('arith', 'act', 'ew', 'join')),
    'mlp': dict(steps=(2, 6), tags=('lin', 'arith', 'act', 'misc', 'layout', 'split'), start4=False),
    'seq': dict(steps=(2, 5), tags=('rnn', 'lin', 'act', 'layout'), start4=False, weights={'rnn': 5}),
}


def grow(d, prof):
    return graphgen.grow(d, extra=EXTRA, **PROFILES[prof])
