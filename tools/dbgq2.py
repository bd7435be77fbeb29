"""dbgq2.py SPECFILE: the simulation and the quantized model of a Q02 spec."""
import os, sys, json
sys.path.insert(0, '/verif/lib'); sys.path.insert(0, '/verif/checks')
import harness; harness.bootstrap()
import torch, copy
os.chdir('/tmp')
spec = json.load(open(sys.argv[1])); spec = spec.get('spec', spec)
import progs, quantrun, Q02
m = progs.build(spec)
cases = [progs.make_inputs(spec, w) for w in range(4)]
q, qm = quantrun.prepare(spec, m, cases[0], cases[:spec['calib']])
print(open([os.path.join('out', f) for f in sorted(os.listdir('out'), key=lambda f: os.path.getmtime('out/' + f)) if f.endswith('.py')][-1]).read().split('def forward')[1])
print(qm)
sim = qm if spec['cfg']['kind'] == 'qat' else copy.deepcopy(qm)
if sim is not qm: Q02.simulate(sim)
refs = [progs.torch_forward(sim, c) for c in cases]
cm = q.convert(qm, **({'backend': 'pytorch'} if spec['pytorch'] else {})); torch.backends.quantized.engine = q.backend
print(cm)
n = int(os.environ.get('N', 8))
for w, c in enumerate(cases):
    r = quantrun.forward(cm, c)
    for a, b in zip(refs[w], r):
        i = (a - b).abs().flatten().topk(min(n, a.numel())).indices
        print(w, 'sim', a.flatten()[i], 'quant', b.flatten()[i])
