"""Generator of channel-prunable networks (JSON program specs) for the pruning checks."""
import re
from opgen import D, I

MAXN = 4000


class P:
    def __init__(self, d, batch):
        self.d, self.batch = d, batch
        self.vals, self.inputs, self.init, self.body = [], [], [], []
        self.n = self.m = 0
        self.used = set()
        self.cat = self.grp = False
        self.flat, self.coupled = set(), False
        self.raw, self.mixed, self.catted = set(), set(), set()  # not behind a prunable layer / a cat with such a part

    def inp(self, shape):
        name = f'x{len(self.inputs)}'
        self.inputs.append(I(list(shape), 'n'))
        self.vals.append((name, tuple(shape)))
        self.raw.add(name)

    def mod(self, ctor):
        name = f'm{self.m}'
        self.m += 1
        self.init.append(f'self.{name} = {ctor}')
        return f'self.{name}'

    def track(self, expr, names):
        refs = set(re.findall(r'\b[xv]\d+\b', expr))
        center = any(re.search(r'Conv|Linear|RNN|GRU|LSTM', i) and not re.search(r'groups=([2-9]|1\d)', i) and i.split(' =')[0] + '(' in expr for i in self.init)
        if center:
            return
        if refs & self.mixed or 'cat(' in expr and refs & self.raw:
            self.mixed |= set(names)
        if refs & self.catted or 'cat(' in expr:
            self.catted |= set(names)
        if refs <= self.raw:
            self.raw |= set(names)

    def emit(self, expr, shape):
        name = f'v{self.n}'
        self.n += 1
        self.track(expr, [name])
        self.body.append(f'{name} = {expr}')
        self.vals.append((name, tuple(shape)))
        return name

    def multi(self, expr, shapes):
        names = []
        for s in shapes:
            names.append(f'v{self.n}')
            self.n += 1
            self.vals.append((names[-1], tuple(s)))
        self.track(expr, names)
        self.body.append(f'{", ".join(names)} = {expr}')
        return names

    def pick(self, pred=lambda s: True, back=2):
        c = [v for v in self.vals if pred(v[1])]
        if not c:
            return None
        k = len(c) - 1 - (self.d.i(0, min(back, len(c)) - 1) if self.d.p(4, 5) else self.d.i(0, len(c) - 1))
        self.used.add(c[k][0])
        return c[k]


def osz(n, k, s, p, dil=1):
    return (n + 2 * p - dil * (k - 1) - 1) // s + 1


def is4(s):
    return len(s) == 4


def is3(s):
    return len(s) == 3


def is2(s):
    return len(s) == 2


R = {}


def rule(w=1):
    def deco(f):
        R[f.__name__[2:]] = (f, w)
        return f

    return deco


def act(g, y, shape):
    e = g.d.c(['F.relu({})', 'F.relu({})', 'F.relu6({})', 'torch.sigmoid({})', 'torch.tanh({})', 'F.hardswish({})', 'F.leaky_relu({}, 0.1)', 'nn.ReLU', 'nn.ReLU6', 'nn.Hardsigmoid', 'nn.PReLU', 'nn.PReLU1', 'torch.relu({})', 'F.gelu({})'])
    if e == 'nn.PReLU':
        e = g.mod(f'nn.PReLU({shape[1]})') + '({})' if len(shape) == 4 else 'F.relu({})'
    elif e == 'nn.PReLU1':
        e = g.mod('nn.PReLU()') + '({})'
    elif e.startswith('nn.'):
        e = g.mod(e + '()') + '({})'
    return g.emit(e.format(y), shape)


def tail(g, y, shape):
    """optional normalisation and activation behind a layer"""
    t = g.d.c(['none', 'bn', 'bnact', 'bnact', 'act'])
    if t in ('bn', 'bnact') and not (len(shape) == 2 and shape[0] == 1 and False):
        b = g.mod(f'nn.BatchNorm{"2d" if len(shape) == 4 else "1d"}({shape[1]})')
        g.used.add(y)
        y = g.emit(f'{b}({y})', shape)
    if t in ('act', 'bnact'):
        g.used.add(y)
        y = act(g, y, shape)
    return y


def chan(g, lo=2, hi=8):
    return g.d.c([lo, 4, 4, 6, 8, 8, g.d.i(lo, hi)])


@rule(8)
def r_conv2d(g):
    d = g.d
    v = g.pick(is4)
    if not v:
        return
    x, (n, c, h, w) = v
    kind = d.c(['std', 'std', 'std', 'pw', 'dw', 'dw', 'grp'])
    k = 1 if kind == 'pw' else d.i(1, min(3, h, w))
    s = d.c([1, 1, 1, 2])
    p = d.i(0, k // 2)
    grp, co = 1, chan(g)
    if kind == 'dw':
        grp, co = c, c
    elif kind == 'grp' and c % 2 == 0 and c > 2 and not (g.cat or g.coupled):
        grp = d.c([2, 2, 4]) if c % 4 == 0 and c > 4 else 2
        co = grp * d.i(2, 3)
        g.grp = True
    oh, ow = osz(h, k, s, p), osz(w, k, s, p)
    if oh < 1 or ow < 1 or co * oh * ow > MAXN:
        return
    m = g.mod(f'nn.Conv2d({c}, {co}, {k}, stride={s}, padding={p}, groups={grp}, bias={d.p(2, 3)})')
    tail(g, g.emit(f'{m}({x})', (n, co, oh, ow)), (n, co, oh, ow))


@rule(2)
def r_deconv2d(g):
    d = g.d
    v = g.pick(is4)
    if not v:
        return
    x, (n, c, h, w) = v
    k, s = d.i(1, 3), d.i(1, 2)
    p = d.i(0, k // 2)
    co = chan(g)
    oh, ow = (h - 1) * s - 2 * p + k, (w - 1) * s - 2 * p + k
    if oh < 1 or ow < 1 or co * oh * ow > MAXN:
        return
    grp = 1
    if d.p(1, 5):
        grp, co = c, c
    m = g.mod(f'nn.ConvTranspose2d({c}, {co}, {k}, stride={s}, padding={p}, groups={grp}, bias={d.p(2, 3)})')
    tail(g, g.emit(f'{m}({x})', (n, co, oh, ow)), (n, co, oh, ow))


@rule(3)
def r_conv1d(g):
    d = g.d
    v = g.pick(is3)
    if not v:
        return
    x, (n, c, l) = v
    k = d.i(1, min(3, l))
    s, p = d.c([1, 1, 2]), d.i(0, k // 2)
    co = chan(g)
    grp = 1
    if d.p(1, 5):
        grp = co = c
    ol = osz(l, k, s, p)
    if d.p(1, 5):
        ol = (l - 1) * s - 2 * p + k
        if ol < 1:
            return
        m = g.mod(f'nn.ConvTranspose1d({c}, {co}, {k}, stride={s}, padding={p}, groups={grp}, bias={d.p(2, 3)})')
    else:
        m = g.mod(f'nn.Conv1d({c}, {co}, {k}, stride={s}, padding={p}, groups={grp}, bias={d.p(2, 3)})')
    tail(g, g.emit(f'{m}({x})', (n, co, ol)), (n, co, ol))


@rule(5)
def r_linear(g):
    d = g.d
    v = g.pick(lambda s: len(s) in (2, 3))
    if not v:
        return
    x, s = v
    co = chan(g)
    m = g.mod(f'nn.Linear({s[-1]}, {co}, bias={d.p(3, 4)})')
    shape = s[:-1] + (co,)
    y = g.emit(f'{m}({x})', shape)
    if len(shape) == 2:
        tail(g, y, shape)
    elif d.b():
        g.used.add(y)
        if d.p(1, 3):
            y = g.emit(g.mod(f'nn.LayerNorm({co})') + f'({y})', shape)
        else:
            g.emit(f'F.relu({y})', shape)


@rule(2)
def r_rnn(g):
    d = g.d
    v = g.pick(is3)
    if not v:
        return
    x, (n, l, c) = v
    kind = d.c(['RNN', 'GRU', 'LSTM', 'LSTM'])
    h = d.c([2, 4, 4, 6])
    bi, nl = d.p(1, 3), d.c([1, 1, 2])
    if kind == 'LSTM' and d.p(1, 3):
        h, proj = 8, 2
    else:
        proj = 0
    m = g.mod(f'nn.{kind}({c}, {h}, num_layers={nl}, bidirectional={bi}, bias={d.p(3, 4)}, batch_first=True' + (f', proj_size={proj})' if proj else ')'))
    g.emit(f'{m}({x})[0]', (n, l, (proj or h) * (2 if bi else 1)))


@rule(2)
def r_pool(g):
    d = g.d
    v = g.pick(is4)
    if not v:
        return
    x, (n, c, h, w) = v
    t = d.c(['max', 'avg', 'fmax', 'aap', 'faap', 'up', 'interp', 'pad', 'favg'])
    if t in ('max', 'avg', 'fmax', 'favg'):
        if h < 2 or w < 2:
            return
        e = {'max': g.mod('nn.MaxPool2d(2)') + '({})', 'avg': g.mod('nn.AvgPool2d(2)') + '({})', 'fmax': 'F.max_pool2d({}, 2)', 'favg': 'F.avg_pool2d({}, 2)'}[t]
        o = (h // 2, w // 2)
    elif t in ('aap', 'faap'):
        o = d.c([(1, 1), (1, 1), (2, 2)])
        e = g.mod(f'nn.AdaptiveAvgPool2d({o})') + '({})' if t == 'aap' else f'F.adaptive_avg_pool2d({{}}, {o})'
    elif t in ('up', 'interp'):
        if c * h * w * 4 > MAXN:
            return
        o = (h * 2, w * 2)
        e = g.mod(d.c(['nn.Upsample(scale_factor=2)', 'nn.UpsamplingBilinear2d(scale_factor=2)', 'nn.UpsamplingNearest2d(scale_factor=2)'])) + '({})' if t == 'up' else 'F.interpolate({}, scale_factor=2)'
    else:
        o = (h + 2, w + 1)
        e = 'F.pad({}, (1, 0, 1, 1))'
    g.emit(e.format(x), (n, c) + o)


@rule(2)
def r_act(g):
    v = g.pick()
    act(g, *v) if v else None


@rule(5)
def r_binary(g):
    if g.grp:
        return
    g.coupled = True
    a = g.pick(back=3)
    if not a:
        return
    b = g.pick(lambda s: s == a[1], back=9)
    if b and b[0] == a[0]:
        b = g.pick(lambda s: s == a[1], back=9)
    op = g.d.c(['{} + {}', '{} + {}', '{} * {}', '{} - {}', 'torch.add({}, {})'])
    if b and not {a[0], b[0]} & g.mixed:
        g.emit(op.format(a[0], b[0]), a[1])


@rule(4)
def r_residual(g):
    """a value with its channel count restored, added to a skip connection"""
    if g.grp:
        return
    g.coupled = True
    d = g.d
    a, b = g.pick(is4, 4), g.pick(is4, 4)
    if not a or a[1][2:] != b[1][2:] or a[0] == b[0] or a[0] in g.mixed:
        return
    x, (n, c, h, w) = b
    m = g.mod(f'nn.Conv2d({c}, {a[1][1]}, 3, padding=1, bias={d.b()})')
    y = tail(g, g.emit(f'{m}({x})', a[1]), a[1])
    g.used.add(y)
    g.emit(f'{y} + {a[0]}' if d.b() else f'{a[0]} + {y}', a[1])


@rule(2)
def r_se(g):
    if g.grp:
        return
    g.coupled = True
    d = g.d
    a = g.pick(is4)
    if not a or a[0] in g.mixed:
        return
    x, (n, c, h, w) = a
    r = max(1, c // 2)
    t = d.c(['conv', 'conv', 'fc'])
    if t == 'conv':
        s = g.emit(d.c([f'F.adaptive_avg_pool2d({x}, 1)', f'{x}.mean([2, 3], keepdim=True)', g.mod('nn.AdaptiveAvgPool2d(1)') + f'({x})']), (n, c, 1, 1))
        s = g.emit('F.relu(' + g.mod(f'nn.Conv2d({c}, {r}, 1)') + f'({s}))', (n, r, 1, 1))
        s = g.emit('torch.sigmoid(' + g.mod(f'nn.Conv2d({r}, {c}, 1)') + f'({s}))', (n, c, 1, 1))
    else:
        s = g.emit(d.c([f'{x}.mean([2, 3])', f'torch.flatten(F.adaptive_avg_pool2d({x}, 1), 1)']), (n, c))
        s = g.emit('F.relu(' + g.mod(f'nn.Linear({c}, {r})') + f'({s}))', (n, r))
        s = g.emit('torch.sigmoid(' + g.mod(f'nn.Linear({r}, {c})') + f'({s}))', (n, c))
        s = g.emit(d.c([f'{s}.unsqueeze(2).unsqueeze(3)', f'{s}.view({s}.size(0), -1, 1, 1)', f'{s}.reshape({n}, -1, 1, 1)']), (n, c, 1, 1))
    g.used.add(s)
    g.emit(d.c([f'{x} * {s}', f'{s} * {x}', f'torch.mul({x}, {s})']), a[1])


@rule(3)
def r_cat(g):
    d = g.d
    a = g.pick(back=3)
    if not a or g.grp or len(a[1]) == 3 and d.b():
        return
    g.cat = True
    dim = d.c([1, 1, -1]) if len(a[1]) == 3 else 1
    k = dim % len(a[1])
    ok = lambda s: len(s) == len(a[1]) and all(i == k or p == q for i, (p, q) in enumerate(zip(s, a[1])))
    xs, shape0 = [a], a[1]
    if len(shape0) == 3 and (a[0] in g.raw or d.p(2, 3)):
        return
    for _ in range(d.i(1, 2)):
        b = g.pick(lambda q: ok(q), 9)
        if b and b not in xs and not (len(shape0) == 3 and b[0] in g.raw):
            xs.append(b)
    if len(xs) == 1:
        return
    shape = list(a[1])
    shape[k] = sum(s[1][k] for s in xs)
    if shape[k] > 24:
        return
    if d.p(1, 4):
        shape_e = f'torch.cat([{", ".join(x[0] for x in xs)}], dim={dim})'
    else:
        shape_e = f'torch.cat([{", ".join(x[0] for x in xs)}], {dim})'
    g.emit(shape_e, shape)


@rule(2)
def r_split(g):
    if g.grp:
        return
    g.coupled = True
    d = g.d
    if g.cat:
        return
    free = [v for v in g.vals if v[0][0] == 'v' and v[0] not in g.used | g.flat and len(v[1]) in (2, 4) and v[1][1] % 2 == 0 and v[1][1] >= 4]
    if not free:
        return
    a = d.c(free)
    g.used.add(a[0])
    x, s = a
    c = s[1]
    t = d.c(['split', 'splitl', 'splitd', 'splitm'])
    half = s[:1] + (c // 2,) + s[2:]
    if t == 'splitl':
        k = d.i(2, c - 2)
        sh = [s[:1] + (k,) + s[2:], s[:1] + (c - k,) + s[2:]]
        ys = g.multi(f'torch.split({x}, [{k}, {c - k}], {d.c(["dim=1", "1"])})', sh)
    else:
        e = {'split': f'torch.split({x}, {c // 2}, 1)', 'splitm': f'{x}.split({c // 2}, dim=1)'}.get(t, f'torch.split({x}, {c // 2}, dim=1)')
        sh = [half, half]
        ys = g.multi(e, sh)
    g.vals = [v for v in g.vals if v[0] != x and v[0] not in ys]  # nothing else consumes these
    for y, q in zip(ys, sh):  # each part goes through a layer of its own
        if len(q) == 2:
            co = chan(g)
            g.used.add(y)
            tail(g, g.emit(g.mod(f'nn.Linear({q[1]}, {co})') + f'({y})', (q[0], co)), (q[0], co))
        else:
            co = chan(g)
            g.used.add(y)
            k = d.c([1, 3]) if min(q[2:]) >= 3 else 1
            p = d.i(0, k // 2)
            m = g.mod(f'nn.Conv2d({q[1]}, {co}, {k}, padding={p}, bias={d.b()})')
            h, w = q[2] + 2 * p - k + 1, q[3] + 2 * p - k + 1
            tail(g, g.emit(f'{m}({y})', (q[0], co, h, w)), (q[0], co, h, w))


@rule(3)
def r_flatten(g):
    d = g.d
    a = g.pick(is4)
    if not a or a[0] in g.catted:
        return
    x, (n, c, h, w) = a
    if c * h * w > 300:
        x = g.emit(f'F.adaptive_avg_pool2d({x}, (2, 1))', (n, c, 2, 1))
        g.used.add(x)
        h, w = 2, 1
    f = c * h * w
    e = d.c([f'torch.flatten({x}, 1)', f'{x}.flatten(1)', f'{x}.view({n}, -1)', f'{x}.view({x}.size(0), -1)', f'{x}.reshape({n}, -1)', f'{x}.reshape({x}.shape[0], -1)', f'{x}.view(-1, {f})', f'{x}.reshape({n}, {f})', g.mod('nn.Flatten()') + f'({x})'])
    y = g.emit(e, (n, f))
    g.flat.add(y)
    if d.p(2, 3):
        co = chan(g)
        g.used.add(y)
        tail(g, g.emit(g.mod(f'nn.Linear({f}, {co}, bias={d.b()})') + f'({y})', (n, co)), (n, co))


@rule(2)
def r_gap(g):
    a = g.pick(is4)
    if a:
        x, (n, c, h, w) = a
        g.emit(g.d.c([f'{x}.mean([2, 3])', f'torch.mean({x}, dim=[2, 3])', f'F.adaptive_avg_pool2d({x}, 1).squeeze(3).squeeze(2)', f'{x}.sum([2, 3])', f'{x}.mean(3).mean(2)']), (n, c))


@rule(2)
def r_tokens(g):
    """feature map to a sequence of tokens"""
    d = g.d
    a = g.pick(is4)
    if not a:
        return
    x, (n, c, h, w) = a
    if h * w > 40:
        return
    y = g.emit(d.c([f'{x}.flatten(2)', f'torch.flatten({x}, 2)', f'{x}.view({n}, {c}, {h * w})', f'{x}.view({x}.size(0), {x}.size(1), -1)', f'{x}.reshape({n}, {c}, -1)', f'{x}.reshape({n}, -1, {h * w})']), (n, c, h * w))
    if d.p(2, 3):
        g.used.add(y)
        g.emit(d.c([f'{y}.transpose(1, 2)', f'{y}.permute(0, 2, 1)', f'torch.transpose({y}, 1, 2)']), (n, h * w, c))


@rule(1)
def r_transpose3(g):
    a = g.pick(is3)
    if a:
        n, p, q = a[1]
        g.emit(g.d.c([f'{a[0]}.transpose(1, 2)', f'{a[0]}.permute(0, 2, 1)', f'torch.transpose({a[0]}, 1, -1)']), (n, q, p))


@rule(1)
def r_attention(g):
    d = g.d
    a = g.pick(is3)
    if not a:
        return
    x, (n, l, c) = a
    k = chan(g)
    q = g.emit(g.mod(f'nn.Linear({c}, {k})') + f'({x})', (n, l, k))
    kk = g.emit(g.mod(f'nn.Linear({c}, {k})') + f'({x})', (n, l, k))
    s = g.emit(d.c([f'torch.matmul({q}, {kk}.transpose(1, 2))', f'torch.bmm({q}, {kk}.transpose(1, 2))']), (n, l, l))
    s = g.emit(f'torch.softmax({s}, -1)', (n, l, l))
    v = g.emit(g.mod(f'nn.Linear({c}, {k})') + f'({x})', (n, l, k))
    g.used |= {q, kk, v, s}
    y = g.emit(f'torch.matmul({s}, {v})', (n, l, k))
    if d.b():
        g.used.add(y)
        y = g.emit(g.mod(f'nn.Linear({k}, {c})') + f'({y})', (n, l, c))
        g.used.add(y)
        g.emit(f'{y} + {x}', (n, l, c))


@rule(1)
def r_pixshuf(g):
    a = g.pick(lambda s: len(s) == 4 and s[1] % 4 == 0 and s[1] * s[2] * s[3] <= MAXN)
    if a:
        n, c, h, w = a[1]
        g.emit(g.mod('nn.PixelShuffle(2)') + f'({a[0]})', (n, c // 4, h * 2, w * 2))


@rule(1)
def r_chshuffle(g):
    """channel shuffle"""
    a = g.pick(lambda s: len(s) == 4 and s[1] % 2 == 0)
    if a:
        x, (n, c, h, w) = a
        y = g.emit(g.d.c([f'{x}.view({n}, 2, {c // 2}, {h}, {w})', f'{x}.reshape({n}, 2, -1, {h}, {w})']), (n, 2, c // 2, h, w))
        y = g.emit(f'{y}.transpose(1, 2)' + g.d.c(['', '.contiguous()']), (n, c // 2, 2, h, w))
        g.emit(f'{y}.reshape({n}, -1, {h}, {w})', (n, c, h, w))
        g.used.add(y)


@rule(1)
def r_const(g):
    a = g.pick()
    if a:
        g.emit(g.d.c(['{} + 0.5', '{} * 2.0', '{}.clone()', '1.0 - {}', '{} * torch.sigmoid({})', '{} + {}']).replace('{}', a[0]), a[1])


PROFILES = {
    'cnn': ['conv2d', 'conv2d', 'conv2d', 'pool', 'act', 'binary', 'residual', 'residual', 'se', 'cat', 'flatten', 'gap', 'deconv2d', 'linear'],
    'res': ['conv2d', 'residual', 'residual', 'binary', 'cat', 'se', 'act', 'deconv2d'],
    'split': ['conv2d', 'conv2d', 'split', 'cat', 'binary', 'residual', 'flatten', 'gap'],
    'mlp': ['linear', 'linear', 'linear', 'binary', 'cat', 'act', 'const', 'split'],
    'seq': ['conv1d', 'conv1d', 'linear', 'rnn', 'binary', 'act'],
    'tok': ['conv2d', 'tokens', 'transpose3', 'linear', 'attention', 'conv1d', 'binary', 'rnn'],
    'any': sorted(set(['conv2d', 'deconv2d', 'conv1d', 'linear', 'rnn', 'pool', 'act', 'binary', 'residual', 'se', 'cat', 'split', 'flatten', 'gap', 'tokens', 'transpose3', 'attention', 'const', ])),
}


def grow(d, prof, steps):
    g = P(d, d.c([1, 1, 2]))
    for _ in range(d.c([1, 1, 1, 2])):
        if prof == 'mlp':
            g.inp((g.batch, chan(g)))
        elif prof == 'seq':
            g.inp((g.batch, d.i(2, 5), chan(g)))
        else:
            h = d.i(3, 8)
            g.inp((g.batch, d.i(1, 4), h, h if d.p(2, 3) else d.i(3, 8)))
    names = PROFILES[prof]
    k, tries = d.i(*steps), 0
    done = 0
    while done < k and tries < 4 * k:
        tries += 1
        before = len(g.body)
        R[d.c(names)][0](g)
        if len(g.body) > before:
            done += 1
    outs = [n for n, s in g.vals if n.startswith('v') and n not in g.used and s]
    outs = outs[-3:] or [g.vals[-1][0]]
    return {'inputs': g.inputs, 'init': g.init, 'body': g.body, 'ret': outs[0] if len(outs) == 1 else '(' + ', '.join(outs) + ')'}
