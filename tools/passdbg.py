import sys; sys.path.insert(0,'/verif/lib'); sys.argv[0]=__file__
import harness; harness.bootstrap()
import json, progs, tfl
from tinynn.converter.operators import optimize as O
import os

LAST=[]
def dump(g):
    global LAST
    out=[]
    for v in g.graph.graph.vs:
        if v['label']=='CONSTANT': continue
        def val(t):
            return t.name+str(list(t.shape))+('='+str(t.tensor.flatten().tolist()[:8]) if t.buffer is not None and t.tensor.size<=12 and t.tensor.dtype!='float32' else '')
        out.append('%s %s %s %s %s %s'%(v['label'],[val(t) for t in v['op'].inputs] if v['op'] is not None else '', getattr(v['op'],'axis','') if v['op'] is not None else '',[val(t) for t in v['op'].outputs] if v['op'] is not None else v['outputs'],'->',[g.graph.graph.vs[e.target]['label'] for e in v.out_edges()]))
    if not LAST:
        [print('   ',l) for l in out]
    else:
        [print('   -',l) for l in LAST if l not in out]; [print('   +',l) for l in out if l not in LAST]
    LAST=out
print_first=True
def sig(g): return [(v['name'],v['label'],str(v['outputs']),[t.name for t in v['op'].inputs] if v['op'] is not None else '') for v in g.graph.graph.vs if v['label']!='Constant'],len(g.graph.graph.es)
for n in dir(O.GraphOptimizer):
    f=getattr(O.GraphOptimizer,n)
    if callable(f) and not n.startswith('_') and n not in('optimize','create_attr_tensor','create_transform_tensor'):
        def mk(n,f):
            def g(self,*a,**k):
                b=sig(self);(dump(self) if n=='output_list_unpack_pass' else 0)
                r=f(self,*a,**k)
                if sig(self)!=b:
                    print("==",n)
                    dump(self)
                return r
            return g
        setattr(O.GraphOptimizer,n,mk(n,f))
spec=json.load(open(sys.argv[1])); spec=spec.get('spec',spec)
m=progs.build(spec); x=progs.make_inputs(spec,0)
print("start",len(dir(O.GraphOptimizer)));p=tfl.convert(m,x,**spec["opts"]);print(p)
