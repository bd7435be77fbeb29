"""Generator of random computation graphs (JSON program specs, see progs.py).

A graph is grown step by step: every step picks a rule and operands among all values computed so far, so
sharing, branches, joins, dead values and intermediate outputs all occur.
"""
import numpy as np

from opgen import D, I, bcast

MAXN = 600  # elements per tensor


class G:
    def __init__(self, d, ones=True):
        self.d = d
        self.ones = ones
        self.vals = []  # (name, shape)
        self.inputs = []
        self.init = []
        self.body = []
        self.n = 0
        self.m = 0
        self.used = set()
        self.apps = []  # (module, predicate on the input shape, output shape) for weight sharing

    def size(self, lo=1, hi=6):
        lo = lo if self.ones else max(lo, 2)
        return self.d.i(lo, max(hi, lo))

    def inp(self, shape, kind='n'):
        name = f'x{len(self.inputs)}'
        self.inputs.append(I(shape, kind))
        self.vals.append((name, tuple(shape)))
        return name

    def emit(self, expr, shape):
        name = f'v{self.n}'
        self.n += 1
        self.body.append(f'{name} = {expr}')
        self.vals.append((name, tuple(int(x) for x in shape)))
        return name

    def mod(self, ctor):
        name = f'm{self.m}'
        self.m += 1
        self.init.append(f'self.{name} = {ctor}')
        return f'self.{name}'

    def buf(self, expr, param=False):
        name = f'c{self.m}'
        self.m += 1
        if param:
            self.init.append(f'self.{name} = nn.Parameter({expr})')
        else:
            self.init.append(f"self.register_buffer('{name}', {expr})")
        return f'self.{name}'

    def pick(self, pred=lambda s: True, recent=3):
        """A value satisfying pred, with a bias to recent ones; marks it used."""
        c = [v for v in self.vals if pred(v[1])]
        if not c:
            return None
        k = len(c) - 1 - (self.d.i(0, min(recent, len(c)) - 1) if self.d.p(3, 4) else self.d.i(0, len(c) - 1))
        self.used.add(c[k][0])
        return c[k]


RULES = {}


def rule(*tags, w=1):
    def deco(f):
        RULES[f.__name__[2:]] = (f, set(tags), w)
        return f

    return deco


is4 = lambda s: len(s) == 4


def osz(n, k, s, p, dil=1):
    return (n + 2 * p - dil * (k - 1) - 1) // s + 1


@rule('conv', w=4)
def r_conv2d(g):
    d = g.d
    v = g.pick(is4)
    if not v:
        return
    x, (n, c, h, w) = v
    kind = d.c(['std', 'std', 'pw', 'dw', 'grp'])
    k = (1, 1) if kind == 'pw' else (d.i(1, min(3, h)), d.i(1, min(3, w)))
    if d.b():
        k = (min(k), min(k))
    s = d.c([(1, 1), (1, 1), (2, 2), (1, 2)])
    dil = d.c([(1, 1)] * 5 + [(2, 1), (1, 2), (2, 2)])
    ek = [(a - 1) * b + 1 for a, b in zip(k, dil)]
    p = (d.i(0, ek[0] // 2), d.i(0, ek[1] // 2))
    if d.p(1, 3):
        p = (ek[0] // 2, ek[1] // 2)
    if d.p(1, 6):
        p = p[::-1]
    grp = 1
    co = g.size(1, 5)
    if kind == 'dw':
        grp = c
        co = c * d.c([1, 1, 2])
    elif kind == 'grp' and c % 2 == 0:
        grp, co = 2, 2 * d.i(1, 2)
    oh, ow = osz(h, k[0], s[0], p[0], dil[0]), osz(w, k[1], s[1], p[1], dil[1])
    if oh < 1 or ow < 1 or n * co * oh * ow > MAXN:
        return
    m = g.mod(f'nn.Conv2d({c}, {co}, {k}, stride={s}, padding={p}, dilation={dil}, groups={grp}, bias={d.p(2, 3)})')
    e = f'{m}({x})'
    g.apps.append((m, lambda q: q == (n, c, h, w), lambda q: (n, co, oh, ow)))
    y = g.emit(e, (n, co, oh, ow))
    t = d.c(['none', 'bn', 'bn', 'bnact', 'act', 'bnact'])
    if t in ('bn', 'bnact'):
        b = g.mod(f'nn.BatchNorm2d({co}, eps={d.fl(1e-5, 1e-3)}, affine={d.p(5, 6)})')
        g.used.add(y)
        y = g.emit(f'{b}({y})', (n, co, oh, ow))
    if t in ('act', 'bnact'):
        g.used.add(y)
        g.emit(act(g, y), (n, co, oh, ow))


def act(g, y):
    return g.d.c(['F.relu({})', 'F.relu6({})', 'F.relu({})', 'torch.sigmoid({})', 'F.hardtanh({}, -1.0, 1.0)', 'F.hardswish({})', 'F.silu({})', 'F.leaky_relu({}, 0.1)', 'torch.tanh({})', 'torch.clamp({}, -1.0, 1.0)', 'torch.clamp({}, 0.0, 6.0)', 'torch.clamp({}, min=0.0)']).format(y)


@rule('conv', w=1)
def r_deconv(g):
    d = g.d
    v = g.pick(is4)
    if not v:
        return
    x, (n, c, h, w) = v
    k, s = d.i(1, 3), d.i(1, 2)
    p = d.i(0, k // 2)
    op = d.i(0, s - 1)
    grp = c if d.p(1, 4) else 1
    co = c if grp > 1 else g.size(1, 4)
    oh, ow = (h - 1) * s - 2 * p + k + op, (w - 1) * s - 2 * p + k + op
    if oh < 1 or ow < 1 or n * co * oh * ow > MAXN:
        return
    m = g.mod(f'nn.ConvTranspose2d({c}, {co}, {k}, stride={s}, padding={p}, output_padding={op}, groups={grp}, bias={d.b()})')
    y = g.emit(f'{m}({x})', (n, co, oh, ow))
    if d.b():
        g.used.add(y)
        b = g.mod(f'nn.BatchNorm2d({co})')
        y = g.emit(f'{b}({y})', (n, co, oh, ow))
    if d.b():
        g.used.add(y)
        g.emit(act(g, y), (n, co, oh, ow))


@rule('conv', w=1)
def r_conv1d(g):
    d = g.d
    v = g.pick(lambda s: len(s) == 3)
    if not v:
        return
    x, (n, c, l) = v
    k = d.i(1, min(3, l))
    p = d.i(0, k // 2)
    s = d.i(1, 2)
    co = g.size(1, 5)
    ol = osz(l, k, s, p)
    if ol < 1:
        return
    m = g.mod(f'nn.Conv1d({c}, {co}, {k}, stride={s}, padding={p}, bias={d.b()})')
    y = g.emit(f'{m}({x})', (n, co, ol))
    if d.b():
        g.used.add(y)
        b = g.mod(f'nn.BatchNorm1d({co})')
        y = g.emit(f'{b}({y})', (n, co, ol))
    if d.b():
        g.used.add(y)
        g.emit(act(g, y), (n, co, ol))


@rule('norm', w=1)
def r_bn(g):
    v = g.pick(is4)
    if not v:
        return
    b = g.mod(f'nn.BatchNorm2d({v[1][1]})')
    g.apps.append((b, lambda q, c=v[1][1]: len(q) == 4 and q[1] == c, lambda q: q))
    g.emit(f'{b}({v[0]})', v[1])


@rule('ew', w=4)
def r_unary(g):
    v = g.pick()
    e = act(g, v[0]) if g.d.p(2, 3) else g.d.c(['torch.abs({})', '-{}', 'torch.exp({} * 0.1)', 'torch.sqrt(torch.abs({}) + 0.5)', 'F.elu({})', 'torch.sin({})', 'F.gelu({} * 0.5)', 'F.softplus({})', 'torch.rsqrt({} * {} + 1.0)', '1.0 / torch.sqrt(torch.abs({}) + 0.5)', '{} / torch.sqrt(torch.abs({}) + 0.5)', 'torch.sqrt(torch.abs({}) + 0.5) / (torch.abs({}) + 1.0)', 'torch.reciprocal(torch.abs({}) + 1.0)']).format(v[0], v[0])
    g.emit(e, v[1])


@rule('ew', w=5)
def r_binary(g):
    d = g.d
    a = g.pick()
    b = g.pick(lambda s: len(s) <= len(a[1]) and all(y == 1 or x == y for x, y in zip(a[1][::-1], s[::-1])), recent=6)
    if b is None:
        return
    o = d.c(['{a} + {b}', '{a} - {b}', '{a} * {b}', '{b} + {a}', '{b} - {a}', 'torch.maximum({a}, {b})', '{a} / (torch.abs({b}) + 1.0)', 'torch.minimum({b}, {a})'])
    y = g.emit(o.format(a=a[0], b=b[0]), a[1])
    if d.p(1, 4):
        g.used.add(y)
        g.emit(d.c(['F.relu({})', 'F.relu6({})']).format(y), a[1])


@rule('ew', w=4)
def r_const(g):
    d = g.d
    a = g.pick()
    o = d.c(['+', '-', '*', '/', '*', '+'])
    k = d.c(['scalar', 'chan', 'any', 'chan', 'one'])
    if k == 'scalar':
        c = str(d.fl(2.0, 0.5, -1.5, 1.0, 3))
    elif k == 'one':
        c = g.buf(f'torch.rand({[1] * d.i(0, len(a[1]))}) + 0.5')
    elif k == 'chan' and len(a[1]) >= 3:
        c = g.buf(f'torch.rand({[1, a[1][1]] + [1] * (len(a[1]) - 2)}) + 0.5', d.b())
    else:
        c = g.buf(f'torch.rand({bcast(d, list(a[1]))}) + 0.5')
    e = f'{a[0]} {o} {c}' if d.p(2, 3) else f'{c} {o if o != "/" else "*"} {a[0]}'
    y = g.emit(e, a[1])
    if d.p(1, 4):
        g.used.add(y)
        g.emit(d.c(['F.relu({})', 'F.relu6({})']).format(y), a[1])


@rule('layout', w=4)
def r_permute(g):
    d = g.d
    v = g.pick(lambda s: len(s) >= 2)
    if not v:
        return
    r = len(v[1])
    k = d.c(['any', 'nhwc', 'nchw', 'tr'])
    if k == 'nhwc' and r == 4:
        p = [0, 2, 3, 1]
    elif k == 'nchw' and r == 4:
        p = [0, 3, 1, 2]
    elif k == 'tr':
        i, j = d.i(0, r - 1), d.i(0, r - 1)
        p = list(range(r))
        p[i], p[j] = p[j], p[i]
        g.emit(f'{v[0]}.transpose({i}, {j})', [v[1][q] for q in p])
        return
    else:
        p = d.perm(r)
    g.emit(f'{v[0]}.permute({p})' + d.c(['', '', '.contiguous()']), [v[1][q] for q in p])


@rule('layout', w=4)
def r_reshape(g):
    d = g.d
    v = g.pick()
    s = list(v[1])
    k = d.c(['merge', 'split', 'flat', 'unsq', 'sq', 'any', 'merge2'])
    if k in ('merge', 'merge2') and len(s) >= 2:
        i = d.i(0, len(s) - 2)
        j = min(len(s), i + (2 if k == 'merge' else d.i(2, len(s))))
        t = s[:i] + [int(np.prod(s[i:j]))] + s[j:]
    elif k == 'split' and len(s) <= 4:
        i = d.i(0, len(s) - 1)
        divs = [q for q in range(1, s[i] + 1) if s[i] % q == 0]
        if not g.ones:
            divs = [q for q in divs if 1 < q < s[i]]
            if not divs:
                return
        f = d.c(divs)
        t = s[:i] + [f, s[i] // f] + s[i + 1 :]
    elif k == 'flat':
        a = d.i(0, len(s) - 1)
        t = s[:a] + [int(np.prod(s[a:]))]
        g.emit(f'torch.flatten({v[0]}, {a})', t)
        return
    elif k == 'unsq' and len(s) <= 4:
        i = d.i(0, len(s))
        g.emit(f'{v[0]}.unsqueeze({i})', s[:i] + [1] + s[i:])
        return
    elif k == 'sq' and 1 in s and len(s) > 1:
        i = s.index(1)
        g.emit(f'{v[0]}.squeeze({i})', s[:i] + s[i + 1 :])
        return
    else:
        # an element-preserving reshape that moves factors between neighbouring dims
        if len(s) < 2:
            return
        i = d.i(0, len(s) - 2)
        pr = s[i] * s[i + 1]
        divs = [q for q in range(1, pr + 1) if pr % q == 0]
        f = d.c(divs)
        t = s[:i] + [f, pr // f] + s[i + 2 :]
    e = list(t)
    if d.p(1, 3):
        e[d.i(0, len(e) - 1)] = -1
    g.emit(f'{v[0]}.reshape({e})', t)


@rule('layout', w=1)
def r_shuffle(g):
    d = g.d
    v = g.pick(lambda s: len(s) == 4 and s[1] % 2 == 0)
    if not v:
        return
    n, c, h, w = v[1]
    k = 2 if c == 2 or d.b() else c // 2
    g.emit(f'{v[0]}.view({n}, {k}, {c // k}, {h}, {w}).transpose(1, 2).contiguous().view({n}, -1, {h}, {w})', v[1])


@rule('join', w=3)
def r_cat(g):
    d = g.d
    a = g.pick()
    dim = d.i(0, len(a[1]) - 1)
    parts = [a]
    for _ in range(d.i(1, 2)):
        b = g.pick(lambda s: len(s) == len(a[1]) and all(i == dim or x == y for i, (x, y) in enumerate(zip(s, a[1]))), recent=5)
        parts.insert(d.i(0, len(parts)), b)
    s = list(a[1])
    s[dim] = sum(p[1][dim] for p in parts)
    if np.prod(s) > MAXN:
        return
    dd = dim - len(s) if d.b() else dim
    g.emit(f'torch.cat([{", ".join(p[0] for p in parts)}], {dd})', s)


@rule('join', w=1)
def r_stack(g):
    d = g.d
    a = g.pick(lambda s: len(s) <= 4)
    if not a:
        return
    b = g.pick(lambda s: s == a[1], recent=6)
    dim = d.i(0, len(a[1]))
    s = list(a[1])
    s.insert(dim, 2)
    if np.prod(s) > MAXN:
        return
    g.emit(f'torch.stack([{a[0]}, {b[0]}], {dim})', s)


@rule('split', w=2)
def r_split(g):
    d = g.d
    v = g.pick(lambda s: max(s) >= 2)
    if not v:
        return
    dims = [i for i, x in enumerate(v[1]) if x >= 2]
    dim = d.c(dims)
    n = v[1][dim]
    k = d.c(['chunk', 'split', 'unbind', 'sizes'])
    if k == 'unbind' and len(v[1]) > 1 and n <= 4:
        e, sizes = f'torch.unbind({v[0]}, {dim})', [None] * n
    elif k == 'sizes':
        a = d.i(1, n - 1)
        e, sizes = f'torch.split({v[0]}, [{a}, {n - a}], {dim})', [a, n - a]
    elif k == 'split':
        a = d.i(1, n)
        e, sizes = f'torch.split({v[0]}, {a}, {dim})', [a] * (n // a) + ([n % a] if n % a else [])
    else:
        q = d.i(2, min(n, 3))
        a = -(-n // q)
        e, sizes = f'torch.chunk({v[0]}, {q}, {dim})', [a] * (n // a) + ([n % a] if n % a else [])
    t = f't{g.n}'
    g.body.append(f'{t} = {e}')
    which = range(len(sizes)) if d.b() else [d.i(0, len(sizes) - 1)]
    for i in list(which)[:3]:
        s = list(v[1])
        if sizes[i] is None:
            del s[dim]
        else:
            s[dim] = sizes[i]
        g.emit(f'{t}[{i}]', s)


@rule('slice', w=3)
def r_slice(g):
    d = g.d
    v = g.pick()
    dim = d.i(0, len(v[1]) - 1)
    n = v[1][dim]
    k = d.c(['slice', 'slice', 'step', 'index', 'select', 'flip', 'two', 'again'])
    pre = ':, ' * dim
    s = list(v[1])
    if k in ('slice', 'step', 'two'):
        a = d.i(0, n - 1)
        b = d.i(a + 1, n)
        st = d.i(2, 3) if k == 'step' else 1
        s[dim] = -(-(b - a) // st)
        idx = f'{pre}{a}:{b}' + (f':{st}' if st > 1 else '')
        if k == 'two' and dim + 1 < len(s):
            c = d.i(0, s[dim + 1] - 1)
            idx += f', {c}:'
            s[dim + 1] -= c
        if not g.ones and (1 in s) and 1 not in v[1]:
            return
        g.emit(f'{v[0]}[{idx}]', s)
    elif k == 'again':
        # a slice of a slice of the same dimension
        y = v[0]
        for j in range(2):
            n = s[dim]
            a, st = d.i(0, max(0, (n - 1) // (2 - j))), d.i(1, 3)
            b = d.i(a + 1, n) if d.b() else n
            s[dim] = -(-(b - a) // st)
            if not g.ones and (1 in s) and 1 not in v[1]:
                return
            y = g.emit(f'{y}[{pre}{a}:{b}:{st}]', s)
            if j == 0:
                g.used.add(y)
    elif k == 'index':
        ix = [d.i(0, n - 1) for _ in range(d.i(1, 3))] if d.b() else d.perm(n)
        s[dim] = len(ix)
        if np.prod(s) > MAXN:
            return
        g.emit(f'{v[0]}[{pre}{ix}]', s)
    elif k == 'select' and len(s) > 1:
        del s[dim]
        g.emit(f'{v[0]}.select({dim}, {d.i(0, n - 1)})', s)
    elif k == 'flip':
        g.emit(f'torch.flip({v[0]}, [{dim}])', s)


@rule('pool', w=2)
def r_pool(g):
    d = g.d
    v = g.pick(is4)
    if not v:
        return
    n, c, h, w = v[1]
    k = (d.i(1, min(3, h)), d.i(1, min(3, w)))
    s = d.i(1, 2)
    p = (d.i(0, k[0] // 2), d.i(0, k[1] // 2))
    oh, ow = osz(h, k[0], s, p[0]), osz(w, k[1], s, p[1])
    e = d.c([f'F.max_pool2d({v[0]}, {k}, {s}, {p})', f'F.avg_pool2d({v[0]}, {k}, {s}, {p}, count_include_pad={d.b()})', 'gap', 'gap'])
    if e == 'gap':
        e, oh, ow = d.c([f'F.adaptive_avg_pool2d({v[0]}, 1)', f'{v[0]}.mean([2, 3], keepdim=True)', f'{v[0]}.mean((-1, -2), keepdim=True)']), 1, 1
    if oh < 1 or ow < 1:
        return
    g.emit(e, (n, c, oh, ow))


@rule('pool', w=1)
def r_upsample(g):
    d = g.d
    v = g.pick(lambda s: len(s) == 4 and np.prod(s) * 4 <= MAXN)
    if not v:
        return
    n, c, h, w = v[1]
    e = d.c(["mode='nearest'", "mode='bilinear', align_corners=False", "mode='bilinear', align_corners=True"])
    g.emit(f'F.interpolate({v[0]}, scale_factor=2, {e})', (n, c, 2 * h, 2 * w))


@rule('pad', w=2)
def r_pad(g):
    d = g.d
    v = g.pick(lambda s: np.prod(s) <= MAXN // 4)
    if not v:
        return
    s = list(v[1])
    k = d.i(1, min(len(s), 3))
    pads = [d.i(0, 2) for _ in range(2 * k)]
    for i in range(k):
        s[-1 - i] += pads[2 * i] + pads[2 * i + 1]
    if np.prod(s) > MAXN:
        return
    g.emit(f'F.pad({v[0]}, {pads}, value={d.fl(0.0, 0.0, 1.5)})', s)


@rule('reduce', w=2)
def r_reduce(g):
    d = g.d
    v = g.pick(lambda s: len(s) >= 2)
    if not v:
        return
    r = len(v[1])
    dims = sorted(set(x % r for x in d.dims(r)))[: r - 1]
    keep = d.b()
    f = d.c(['mean', 'sum', 'amax', 'amin', 'mean'])
    if f == 'sum':
        e = f'{v[0]}.sum({dims}, keepdim={keep}) * 0.25'
    else:
        e = f'torch.{f}({v[0]}, {dims}, keepdim={keep})'
    s = [1 if i in dims else x for i, x in enumerate(v[1]) if keep or i not in dims]
    g.emit(e, s)


@rule('softmax', w=1)
def r_softmax(g):
    d = g.d
    v = g.pick()
    dim = d.dim(len(v[1]))
    g.emit(d.c([f'torch.softmax({v[0]}, {dim})', f'F.log_softmax({v[0]}, {dim})']), v[1])


@rule('linear', w=3)
def r_linear(g):
    d = g.d
    v = g.pick(lambda s: len(s) >= 2 and s[-1] <= 64)
    if not v:
        return
    i, o = v[1][-1], g.size(1, 6)
    m = g.mod(f'nn.Linear({i}, {o}, bias={d.p(2, 3)})')
    s = list(v[1][:-1]) + [o]
    if np.prod(s) > MAXN:
        return
    g.apps.append((m, lambda q: len(q) >= 2 and q[-1] == i, lambda q: q[:-1] + (o,)))
    y = g.emit(f'{m}({v[0]})', s)
    t = d.c(['none', 'bn', 'act', 'addc', 'mulc', 'addact'])
    if t == 'bn' and len(s) == 2:
        b = g.mod(f'nn.BatchNorm1d({o})')
        g.used.add(y)
        y = g.emit(f'{b}({y})', s)
    elif t == 'act':
        g.used.add(y)
        y = g.emit(act(g, y), s)
    elif t in ('addc', 'addact'):
        g.used.add(y)
        c = g.buf(f'torch.randn({o})', True)
        y = g.emit(f'{y} + {c}' if d.b() else f'{c} + {y}', s)
        if t == 'addact':
            g.used.add(y)
            g.emit(f'F.relu({y})', s)
    elif t == 'mulc':
        g.used.add(y)
        c = g.buf(f'torch.rand({o}) + 0.5', True)
        g.emit(f'{y} * {c}', s)


@rule('linear', w=1)
def r_matmul(g):
    d = g.d
    v = g.pick(lambda s: len(s) >= 2)
    if not v:
        return
    s = list(v[1])
    k = d.c(['self', 'const', 'other', 'const_add'])
    if k == 'self':
        t = s[:-2] + [s[-2], s[-2]]
        if np.prod(t) > MAXN:
            return
        g.emit(f'({v[0]} @ {v[0]}.transpose(-1, -2)) * 0.2', t)
    elif k in ('const', 'const_add'):
        o = g.size(1, 4)
        c = g.buf(f'torch.randn({s[-1]}, {o}) * 0.3')
        t = s[:-1] + [o]
        if np.prod(t) > MAXN:
            return
        y = g.emit(f'{v[0]} @ {c}', t)
        if k == 'const_add':
            g.used.add(y)
            c = g.buf(f'torch.randn({o})')
            g.emit(f'{y} + {c}', t)
    else:
        b = g.pick(lambda q: len(q) == len(s) and q[:-2] == tuple(s[:-2]) and q[-2] == s[-1], recent=6)
        if b is None:
            return
        t = s[:-1] + [b[1][-1]]
        if np.prod(t) > MAXN:
            return
        g.emit(f'({v[0]} @ {b[0]}) * 0.2', t)


@rule('norm', w=1)
def r_layernorm(g):
    v = g.pick(lambda s: 2 <= len(s) <= 4 and s[-1] >= 2)  # SQUARED_DIFFERENCE of TFLite is limited to 4-D
    if not v:
        return
    if any('gelu' in b for b in g.body):
        return  # the approximation error of TFLite's GELU (5e-4) would be amplified
    m = g.mod(f'nn.LayerNorm({v[1][-1]}, eps=0.01)')
    g.emit(f'{m}({v[0]})', v[1])


@rule('prelu', w=1)
def r_prelu(g):
    v = g.pick(lambda s: 2 <= len(s) <= 4)
    if not v:
        return
    k = g.d.c([1, v[1][1]])
    m = g.mod(f'nn.PReLU({k})')
    g.apps.append((m, lambda q: 2 <= len(q) <= 4 and (k == 1 or q[1] == k), lambda q: q))
    g.emit(f'{m}({v[0]})', v[1])


@rule('share', w=1)
def r_share(g):
    """Apply an earlier layer once more (shared weights)."""
    if not g.apps:
        return
    m, pred, out = g.d.c(g.apps)
    v = g.pick(pred, recent=6)
    if v and np.prod(out(v[1])) <= MAXN:
        g.emit(f'{m}({v[0]})', out(v[1]))


@rule('pad', 'fusion', w=1)
def r_padfuse(g):
    """Explicit padding in front of a padding-free convolution or pooling, often exactly what SAME padding adds."""
    d = g.d
    v = g.pick(is4)
    if not v:
        return
    x, (n, c, h, w) = v
    pair = lambda a, b: [d.i(a, b)] * 2 if d.p(1, 2) else [d.i(a, b), d.i(a, b)]
    k, s = pair(1, 4), pair(1, 3)
    kind = d.c(['conv', 'conv', 'dw', 'max', 'avg'])
    dil = d.c([[1, 1]] * 3 + [[2, 2], [2, 1], [1, 2]]) if kind in ('conv', 'dw') else [1, 1]
    ek = [(a - 1) * b + 1 for a, b in zip(k, dil)]

    def same(q, i):
        t = max((-(-q // s[i]) - 1) * s[i] + ek[i] - q, 0)
        return [t // 2, t - t // 2]

    mode = d.c(['same', 'same', 'swapped', 'sym', 'off'])
    ph, pw = same(h, 0), same(w, 1)
    if mode == 'swapped':
        pw, ph = pw[::-1], ph[::-1]
        if d.b():
            pw, ph = ph, pw
    elif mode == 'sym':
        pw, ph = [ek[1] // 2] * 2, [ek[0] // 2] * 2
    elif mode == 'off':
        pw[d.i(0, 1)] += 1
    val = d.c(['', '', ', value=0.0', ', value=1.0', ", mode='reflect'", ", value=float('-inf')"])
    if 'reflect' in val and (max(pw) >= w or max(ph) >= h):
        val = ''
    if 'inf' in val and kind != 'max':
        val = ''
    oh, ow = (h + sum(ph) - ek[0]) // s[0] + 1, (w + sum(pw) - ek[1]) // s[1] + 1
    if h + sum(ph) < ek[0] or w + sum(pw) < ek[1] or n * c * (h + sum(ph)) * (w + sum(pw)) > MAXN:
        return
    if kind in ('conv', 'dw') and val in ('', ', value=0.0') and ph[0] == ph[1] and pw[0] == pw[1] and d.b():
        co = c if kind == 'dw' else g.size(1, 4)
        m = g.mod(f"nn.Conv2d({c}, {co}, {k}, stride={s}, dilation={dil}, padding={[ph[0], pw[0]]}, groups={c if kind == 'dw' else 1}, bias={d.b()})")
        g.emit(f'{m}({x})', (n, co, oh, ow))
        return
    y = g.emit(f'F.pad({x}, {pw + ph}{val})', (n, c, h + sum(ph), w + sum(pw)))
    g.used.add(y)
    if 'inf' in val:
        g.vals.pop()
    if kind in ('conv', 'dw'):
        co = c if kind == 'dw' else g.size(1, 4)
        m = g.mod(f"nn.Conv2d({c}, {co}, {k}, stride={s}, dilation={dil}, groups={c if kind == 'dw' else 1}, bias={d.b()})")
        g.emit(f'{m}({y})', (n, co, oh, ow))
    else:
        g.emit(f'F.{kind}_pool2d({y}, {k}, {s})', (n, c, oh, ow))


@rule('expand', w=1)
def r_expand(g):
    d = g.d
    v = g.pick(lambda s: np.prod(s) <= MAXN // 6)
    if not v:
        return
    if d.b() and 1 in v[1]:
        i = v[1].index(1)
        k = d.i(2, 3)
        s = list(v[1])
        s[i] = k
        g.emit(f'{v[0]}.expand({s})', s)
    else:
        i = d.i(0, len(v[1]) - 1)
        reps = [1] * len(v[1])
        reps[i] = 2
        g.emit(f'{v[0]}.repeat({reps})', [a * b for a, b in zip(v[1], reps)])


def grow(d, steps=(3, 9), tags=None, exclude=(), ones=True, n_inputs=(1, 2), start4=True, weights=None, extra=None):
    """Returns a partial spec with inputs, init, body, ret."""
    g = G(d, ones)
    for _ in range(d.i(*n_inputs)):
        if start4 and d.p(5, 6):
            g.inp([1 if d.p(3, 4) else 2, g.size(1, 5), g.size(2, 6), g.size(2, 6)])
        else:
            g.inp([g.size(1, 4) for _ in range(d.i(2, 4))])
    names = []
    rules = dict(RULES, **(extra or {}))
    for k, (f, t, w) in rules.items():
        if (tags is None or t & set(tags)) and not (t & set(exclude)) and k not in exclude:
            names += [k] * (weights.get(k, w) if weights else w)
    for _ in range(d.i(*steps)):
        rules[d.c(names)][0](g)
    if g.n == 0:
        v = g.vals[0]
        g.used.add(v[0])
        g.emit(f'F.relu({v[0]})', v[1])
    # outputs: the last value, and sometimes some others (possibly intermediate ones)
    outs = [v for v in g.vals if v[0][0] == 'v']
    ret = [outs[-1][0]]
    for _ in range(d.c([0, 0, 1, 2])):
        o = d.c(outs)[0]
        if o not in ret:
            ret.append(o)
    # consume leaves sometimes, otherwise they are dead code
    leaves = [v[0] for v in outs if v[0] not in g.used and v[0] not in ret]
    if d.p(2, 3):
        ret += leaves[:3]
    return dict(inputs=g.inputs, pre=getattr(g, 'pre', []), init=g.init, body=g.body, ret='(' + ', '.join(ret) + ',)' if len(ret) > 1 or d.b() else ret[0])
