PROPERTY = "C31"
NEEDS = "an activation used by a residual connection and another layer"
BREAKS = "the backward pass of Add overwrites the gradient of its first input"
EDITS = [("wrappers/python/nntile/layer/add.py", "        add_async(1, self.res.grad, 1, self.x.grad)\n", "        copy_async(self.res.grad, self.x.grad)\n")]
DEMO_PY = r'''
import os, sys
import numpy as np
import nntile
from nntile.layer.add import Add
config = nntile.starpu.Config(1, 0, 0)
nntile.starpu.init()
T = nntile.tensor.Tensor_fp32
traits = nntile.tensor.TensorTraits([2], [2])
def moments():
    v, g = T(traits, [0], 0), T(traits, [0], 0)
    v.from_array(np.ones(2, dtype=np.float32))
    g.from_array(np.ones(2, dtype=np.float32))
    return nntile.tensor.TensorMoments(v, g, True)
x, y = moments(), moments()
l, tag = Add.generate_simple(x, y, 0)
l.forward_async()
l.res.grad.from_array(np.full(2, 3, dtype=np.float32))
l.backward_async()
rc = 0
for t in (x, y):
    r = np.zeros(2, dtype=np.float32)
    t.grad.to_array(r)
    if not np.allclose(r, 4):
        rc = 1
sys.stdout.flush()
os._exit(rc)
'''
