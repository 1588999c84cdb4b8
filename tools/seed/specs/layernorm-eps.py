PROPERTY = 'C47'
NEEDS = 'a layer normalisation with eps that is not negligible next to the variance'
BREAKS = 'eps is added to the variance squared'
EDITS = [('wrappers/python/nntile/layer/layer_norm.py', '        self.eps = eps ** 0.5 #', '        self.eps = eps #')]
DEMO_PY = r'''
import os, sys
import numpy as np
import nntile
from nntile.tensor import *
from nntile.layer.layer_norm import LayerNorm
config = nntile.starpu.Config(1, 0, 0)
nntile.starpu.init()
T = nntile.tensor.Tensor_fp64
tr = TensorTraits([6, 4], [3, 2])
v = T(tr, [0]*4, 0)
g = T(tr, [0]*4, v.next_tag)
a = np.array(np.random.RandomState(0).randn(6, 4), order='F')
v.from_array(a)
eps = 0.3
lay, tag = LayerNorm.generate_simple(TensorMoments(v, g, True), 0, eps, g.next_tag)
lay.forward_async()
r = np.zeros((6, 4), order='F')
lay.y.value.to_array(r)
ref = (a-a.mean(0)) / np.sqrt(a.var(0)+eps)
print(np.abs(r-ref).max())
sys.stdout.flush()
os._exit(0 if np.allclose(r, ref) else 1)
'''
