"""dbgq.py SPEC: dump the TFLite model of a C04 spec with its intermediate values (first input set)."""
import os, sys, json
sys.path.insert(0, '/verif/lib'); sys.path.insert(0, '/verif/checks')
import harness; harness.bootstrap()
sys.path.insert(0, '/verif/lib'); sys.path.insert(0, '/verif/checks')
import tempfile; os.chdir(tempfile.mkdtemp())
np_ = __import__("numpy"); np_.set_printoptions(linewidth=1000)
import progs, tfl, quantrun, torch, numpy as np, tensorflow as tf
spec = json.loads(open(sys.argv[1]).read()); spec = spec.get('spec', spec)
m = progs.build(spec)
cases = [progs.make_inputs(spec, w) for w in range(4)]
q, qm = quantrun.prepare(spec, m, cases[0], cases)
if '-p' in sys.argv: print(qm); print(qm.code if hasattr(qm,'code') else '')
cm = q.convert(qm); torch.backends.quantized.engine = q.backend
print(cm)
W = 3; N = int(os.environ.get('N', 6))
out = quantrun.forward(cm, cases[W])
p, c = tfl.convert(cm, cases[0], keep_converter=True, path='/tmp/dbg.tflite', quantize_target_type='uint8' if spec['cfg']['per_tensor'] else 'int8', **spec['opts'])
print(tfl.ops_in(p))
it = tf.lite.Interpreter(p, experimental_preserve_all_tensors=True, experimental_op_resolver_type=tfl.OpResolverType.BUILTIN_REF)
it.allocate_tensors()
for d, a, t in zip(it.get_input_details(), cases[W], c.input_transpose):
    a = tfl.nhwc(a, t)
    if d['dtype'] != np.float32:
        s, z = d['quantization']; a = np.clip(np.round(a / s) + z, np.iinfo(d['dtype']).min, np.iinfo(d['dtype']).max).astype(d['dtype'])
    it.set_tensor(d['index'], np.ascontiguousarray(a))
it.invoke()
for d in it.get_tensor_details():
    try: v = it.get_tensor(d['index']).ravel()[:N]
    except Exception as e: v = '-'
    qp = d['quantization_parameters']
    print(d['index'], d['name'][:40], d['shape'], d['dtype'].__name__, 'q', qp['scales'][:3], qp['zero_points'][:3], v)
for o in it._get_ops_details(): print(o['op_name'], o['inputs'], '->', o['outputs'])
for o in out: print('torch', o.shape, o.ravel()[:6])
