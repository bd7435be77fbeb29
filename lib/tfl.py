"""Convert with the code under test; run the file with the TFLite reference interpreter."""
import os

import numpy as np
import torch
import tensorflow as tf
from tensorflow.lite.python.interpreter import OpResolverType

import progs
from harness import Reject, Violation
from tinynn.converter import TFLiteConverter

_n = [0]


def new_path():
    _n[0] += 1
    return os.path.join(os.getcwd(), f'm{_n[0]}.tflite')


class Unsupported(Exception):
    pass


def convert(model, inputs, path=None, keep_converter=False, **opts):
    path = path or new_path()
    conv = TFLiteConverter(model, [i.clone() if isinstance(i, torch.Tensor) else i for i in inputs], path, **opts)
    try:
        conv.convert()
    except Exception as e:
        if 'Cannot continue due to fatal error' in str(e):
            raise Unsupported(','.join(sorted(conv.unsupported_operations())))
        raise
    return (path, conv) if keep_converter else path


class TFL:
    def __init__(self, path):
        try:
            with open(path, 'rb') as f:
                self.content = f.read()
            try:
                self._load(OpResolverType.BUILTIN_REF)
            except (RuntimeError, ValueError) as e:
                # the reference kernels lack a few operators (ELU, ROUND, CUMSUM); the optimised ones have them
                if "Didn't find op" not in str(e):
                    raise
                self._load(OpResolverType.BUILTIN_WITHOUT_DEFAULT_DELEGATES)
        except (RuntimeError, ValueError) as e:
            raise Violation(f'TFLite interpreter refuses the model: {str(e)[:400]}')
        self.inputs = self.it.get_input_details()
        self.outputs = self.it.get_output_details()

    def _load(self, resolver):
        self.it = tf.lite.Interpreter(
            model_content=self.content, experimental_op_resolver_type=resolver, num_threads=1,
            experimental_preserve_all_tensors=True,  # the arena planner of this TFLite release lets in-place operators clobber reshaped tensors
        )
        self.it.allocate_tensors()

    def run(self, arrs, check_inputs=True):
        if len(arrs) != len(self.inputs):
            raise Violation(f'model has {len(self.inputs)} inputs, expected {len(arrs)}')
        for i, (d, a) in enumerate(zip(self.inputs, arrs)):
            a = np.ascontiguousarray(a)
            if tuple(d['shape']) != a.shape:
                raise Violation(f"input {i}: model shape {tuple(d['shape'])} != expected {a.shape}")
            if d['dtype'] != a.dtype.type:
                raise Violation(f"input {i}: model dtype {d['dtype'].__name__} != expected {a.dtype}")
            self.it.set_tensor(d['index'], a)
        try:
            self.it.invoke()
        except (RuntimeError, ValueError) as e:
            raise Violation(f'TFLite interpreter fails to run the model: {str(e)[:400]}')
        return [np.array(self.it.get_tensor(d['index'])) for d in self.outputs]


def nhwc(a, do):
    a = a.numpy() if isinstance(a, torch.Tensor) else a
    return np.transpose(a, (0, 2, 3, 1)) if do else a


def ops_in(path):
    """Operator names in the file."""
    from tensorflow.lite.python import schema_py_generated as s

    with open(path, 'rb') as f:
        buf = bytearray(f.read())
    m = s.ModelT.InitFromObj(s.Model.GetRootAs(buf, 0))
    names = {v: k for k, v in vars(s.BuiltinOperator).items() if isinstance(v, int)}
    return [names.get(m.operatorCodes[o.opcodeIndex].builtinCode) for o in m.subgraphs[0].operators]


def deep_broadcast(path):
    """Quantized element-wise operators on operands of different shapes with more than four dimensions: TFLite aborts."""
    from tensorflow.lite.python import schema_py_generated as s

    with open(path, 'rb') as f:
        buf = bytearray(f.read())
    m = s.ModelT.InitFromObj(s.Model.GetRootAs(buf, 0))
    g = m.subgraphs[0]
    for o in g.operators:
        t = [g.tensors[i] for i in o.inputs if i >= 0]
        if len(t) == 2 and all(x.type in (s.TensorType.INT8, s.TensorType.UINT8) for x in t):
            a, b = [list(x.shape) if x.shape is not None else [] for x in t]
            if a != b and max(len(a), len(b)) > 4:
                return True
    return False


def compare_out(name, got, ref, atol=1e-4, rtol=1e-3):
    """Compare a TFLite output with the PyTorch one. Two representation differences are part of the contract:
    index outputs (argmax, topk) are int32 in TFLite, and scalars may be tensors of shape (1,)."""
    ref = ref.numpy() if isinstance(ref, torch.Tensor) else ref
    if ref.dtype == np.int64 and got.dtype == np.int32:
        ref = ref.astype(np.int32)
    if ref.shape == () and got.shape == (1,):
        ref = ref.reshape(1)
    progs.compare(name, got, ref, atol=atol, rtol=rtol, exact=not np.issubdtype(ref.dtype, np.floating))
