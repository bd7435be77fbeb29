import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import harness
harness.bootstrap()
import contextlib
import torch
from hypothesis import strategies as st
import graphgen, opgen, progs, pygen
from opgen import D
from harness import Check, Task, Violation, Reject
from tinynn.graph.tracer import model_tracer, trace
from tinynn.util.util import import_from_path

_n = [0]


def params_of(m, names=None):
    return sorted((tuple(p.shape), float(p.double().sum()), p.requires_grad) for p in m.parameters())


def fwd(m, ins, grad):
    ins = [i.clone().requires_grad_(grad and i.is_floating_point()) for i in ins]
    torch.manual_seed(5)
    out = progs.flat(m(*ins))
    g = []
    if grad:
        ls = [o.double().sum() for o in out if o.is_floating_point() and o.requires_grad]
        if ls:
            sum(ls).backward()
            g = [i.grad if i.grad is not None else torch.zeros(()) for i in ins]
    return [o.detach() for o in out], g




def load(name):
    new = import_from_path(f'gen_out.{name}', f'{name}.py', name)()
    new.load_state_dict(torch.load(f'{name}.pth', weights_only=True))  # every parameter and buffer must be there
    return new.eval()


def run(spec):
    dummy = progs.make_inputs(spec, 0)
    ref_model = progs.build(spec)
    try:
        ref = progs.torch_forward(ref_model, dummy)
        probe = [i.clone() for i in dummy]
        with torch.no_grad():
            ref_model(*probe)
    except Exception as e:
        raise Reject(f'not a torch program: {type(e).__name__}: {str(e)[:60]}')
    if any(i._version for i in probe):
        raise Reject('the program modifies its inputs in place (autograd refuses that while tracing)')
    if any(progs.SETITEM.match(l) for l in spec['body']) and 'setitem' not in spec.get('allow', ()):
        raise Reject('item assignment (known finding)')
    o = dict(spec['topts'])
    o['edg'] = o['edg'] and progs.live_inputs(spec) == len(spec['inputs'])
    _n[0] += 1
    name = f'Gen{_n[0]}'
    with contextlib.ExitStack() as stack:
        if o['ctx']:
            stack.enter_context(model_tracer())
        model = progs.build(spec)
        model.eval()
        graph = trace(model, dummy if o['list'] else tuple(dummy), eliminate_dead_graph=o['edg'])
        check = graph.generate_code(f'{name}.py', f'{name}.pth', name, check=True)
    new = guarded('loading the generated model', load, name)
    compare_models(model, new, spec, 'generated model', o)
    if not check and all(bool(torch.isfinite(r).all()) for r in ref if r.is_floating_point()):
        raise Violation("the generator's own check fails although the generated model agrees with the original")
    if o['dyn'] and (not any('.new_' in l for l in spec['body']) or 'new' in spec.get('allow', ())):  # (known finding)
        compare_other_batch(model, new, spec)
    if o['again']:  # the generated model is itself traceable
        g2 = trace(new, dummy, eliminate_dead_graph=o['edg'])
        g2.generate_code(f'{name}b.py', f'{name}b.pth', name + 'b')
        new2 = guarded('loading the generated model', load, name + 'b')
        compare_models(model, new2, spec, 'model generated from the generated model', o)
    if o['train'] and not o['edg'] and 'ropout' not in str(spec):  # (a dead batch norm still updates its statistics)
        model.train()
        new.train()
        compare_models(model, new, spec, 'generated model in training mode', o)
        model.eval()
        new.eval()
        compare_models(model, new, spec, 'generated model after training-mode forward', o)
    return {'nontrivial': len(spec['body']) >= 2 or spec['task'] == 'op', 'tags': [spec['task']] + [k for k in o if o[k]]}


def guarded(what, f, *a):
    try:
        return f(*a)
    except Violation:
        raise
    except Exception as e:
        raise Violation(f'{what} fails: {type(e).__name__}: {str(e)[:300]}')


def compare_other_batch(model, new, spec):
    """Sizes that the program reads from its inputs stay symbolic: a program that works on another batch size keeps working."""
    desc = [dict(i, shape=[2 * i['shape'][0]] + list(i['shape'][1:])) if i['shape'] else i for i in spec['inputs']]
    ins = progs.make_inputs(dict(spec, inputs=desc), 3)
    try:
        a, _ = fwd(model, ins, False)
    except Exception:
        return
    b, _ = guarded('the generated model on another batch size', fwd, new, ins, False)
    for i, (p, q) in enumerate(zip(a, b)):
        progs.compare(f'another batch size, output {i}', q, p, atol=1e-6, rtol=1e-5)


def compare_models(model, new, spec, what, o):
    for w in (1, 0):
        ins = progs.make_inputs(spec, w)
        try:
            a, ga = fwd(model, ins, o['grad'])
        except Exception as e:
            raise Reject(f'original fails: {type(e).__name__} {str(e)[:80]}')
        b, gb = guarded(what, fwd, new, ins, o['grad'])
        if len(a) != len(b):
            raise Violation(f'{what}: {len(b)} outputs, expected {len(a)}')
        for i, (p, q) in enumerate(zip(a, b)):
            progs.compare(f'{what}: input set {w}, output {i}', q, p, atol=1e-6, rtol=1e-5)
        for i, (p, q) in enumerate(zip(ga, gb)):
            progs.compare(f'{what}: gradient of input {i}', q, p, atol=1e-5, rtol=1e-4)


def topts(d):
    return {'ctx': d.p(2, 3), 'list': d.b(), 'edg': d.b(), 'again': d.p(1, 4), 'train': d.p(1, 4), 'dyn': d.p(1, 3), 'grad': d.p(1, 4)}


PROFILES = {
    'graph': dict(steps=(2, 8)),
    'py': dict(steps=(2, 8), tags=('py',), extra=pygen.PY),
    'mix': dict(steps=(3, 10), extra=pygen.PY),
    'deep': dict(steps=(10, 18), extra=pygen.PY),
}


def strategy(prof):
    @st.composite
    def s(draw):
        d = D(draw)
        if prof == 'op':
            spec = draw(opgen.make_strategy(d.c(sorted(opgen.OPS))))
        else:
            spec = graphgen.grow(d, **PROFILES[prof])
            spec['seed'] = d.seed()
        spec.pop('opts', None)
        if d.p(1, 3):
            spec = progs.rename(spec, d)
        spec['topts'] = topts(d)
        spec['task'] = prof
        return spec

    return s()


def tasks(tier):
    return [Task(f'{p}{i}', strategy(p), 150, 3000) for p in list(PROFILES) + ['op'] for i in range(4)]


CHECK = Check(
    'T01',
    tasks,
    run,
    'one random PyTorch program (operator DAGs, Python idioms such as shape arithmetic, in-place and augmented operations, loops over lists, keyword and default arguments, reused and nested modules, raw parameters, attribute names that resemble each other or names made up by the tracer, or a single operator of 65 families) '
    'traced, written out as code and re-loaded; outputs on unseen inputs, gradients, training mode, another batch size and a second trace of the generated model are compared with the original; '
    'non-trivial: at least two statements or a single-operator task; distinct: spec without its seed',
    assumptions=[
        'models that modify their own inputs in place, random operators and data-dependent control flow are outside the contract of the tracer',
        'item assignment to intermediate tensors is a known finding and not generated',
    ],
)
CHECK.fork_cases = True


def setup():  # fills the tracer's caches once per worker; the cases then run in forked children
    with model_tracer():
        m = torch.nn.Sequential(torch.nn.Linear(2, 2), torch.nn.ReLU())
        trace(m, [torch.ones(1, 2)]).generate_code('warm.py', 'warm.pth', 'Warm')


CHECK.setup = setup
if __name__ == '__main__':
    sys.exit(harness.main(CHECK))
