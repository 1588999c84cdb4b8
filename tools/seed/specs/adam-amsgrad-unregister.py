PROPERTY = "C22"
NEEDS = "an Adam optimizer with amsgrad released after use"
BREAKS = "the maximal second moment of the first parameter only is unregistered"
EDITS = [("wrappers/python/nntile/optimizer/adam.py", """            if self.amsgrad:
                self.max_second_moments[i].unregister()
""", """        if self.amsgrad and self.max_second_moments:
            self.max_second_moments[0].unregister()
""")]
DEMO_PY = r'''
import os, sys
import numpy as np
import nntile
from nntile.optimizer import Adam
config = nntile.starpu.Config(1, 0, 0)
nntile.starpu.init()
traits = nntile.tensor.TensorTraits([2], [2])
T = nntile.tensor.Tensor_fp32
params = [nntile.tensor.TensorMoments(T(traits, [0], 0), T(traits, [0], 0), True) for i in range(2)]
opt = Adam(params, 0.1, 0, amsgrad=True)
a = np.zeros(2, dtype=np.float32)
for m in opt.max_second_moments:
    m.from_array(a)
kept = list(opt.max_second_moments)
gone = []
orig = [m for m in kept]
class Spy:
    def __init__(self, m): self.m = m
    def unregister(self):
        gone.append(self)
        self.m.unregister()
opt.max_second_moments = [Spy(m) for m in orig]
opt.unregister()
sys.stdout.flush()
os._exit(0 if len(gone) == 2 else 1)
'''
