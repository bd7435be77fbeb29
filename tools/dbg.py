import os,sys,json
sys.path.insert(0,'/verif/lib')
import harness; harness.bootstrap(); sys.path.insert(0,"/verif/lib")
import progs,tfl,torch,numpy as np,tensorflow as tf
spec=json.load(open(sys.argv[1])); spec=spec.get('spec',spec)
m=progs.build(spec); ins=progs.make_inputs(spec,0)
p,c=tfl.convert(m,ins,keep_converter=True,path='/tmp/dbg.tflite',**spec['opts'])
print(tfl.ops_in(p))
it=tf.lite.Interpreter(p); 
for d in it.get_tensor_details(): print(d['index'],d['name'],d['shape'],d['dtype'].__name__)
try:
    tf.lite.experimental.Analyzer.analyze(p)
except Exception as e: print(e)
