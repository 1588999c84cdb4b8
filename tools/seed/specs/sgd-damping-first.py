PROPERTY = "C46"
NEEDS = "SGD with momentum and damping, second step"
BREAKS = "the damping multiplies the momentum buffer instead of the gradient"
EDITS = [("wrappers/python/nntile/optimizer/sgd.py", """                    nntile.tensor.scal_inplace_async(self.momentum, self.states[i])
                    nntile.tensor.axpy_async(1 - self.damping, p.grad, self.states[i])
""", """                    nntile.tensor.scal_inplace_async(self.momentum * (1 - self.damping), self.states[i])
                    nntile.tensor.axpy_async(1, p.grad, self.states[i])
""")]
DEMO_PY = r'''
import os, sys
import numpy as np
import nntile
from nntile.optimizer import SGD
config = nntile.starpu.Config(1, 0, 0)
nntile.starpu.init()
T = nntile.tensor.Tensor_fp32
traits = nntile.tensor.TensorTraits([1], [1])
v, g = T(traits, [0], 0), T(traits, [0], 0)
one = np.ones(1, dtype=np.float32)
v.from_array(0*one)
p = nntile.tensor.TensorMoments(v, g, True)
opt = SGD([p], 1.0, 0, momentum=0.5, damping=0.25)
for gr in (2, 4):
    g.from_array(gr*one)
    opt.step()
r = np.zeros(1, dtype=np.float32)
v.to_array(r)
# buffer: 2, then 0.5*2 + 0.75*4 = 4
sys.stdout.flush()
os._exit(0 if np.allclose(r, -6) else 1)
'''
