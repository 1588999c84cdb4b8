PROPERTY = "C30"
NEEDS = "more than one batch per epoch"
BREAKS = "parameter gradients are cleared once per epoch only"
EDITS = [("wrappers/python/nntile/pipeline.py", """                self.model.clear_parameters_grads()
                clear_async(self.loss.val)
""", """                if i_batch == 0:
                    self.model.clear_parameters_grads()
                clear_async(self.loss.val)
""")]
DEMO_PY = r'''
import os, sys
import numpy as np
import nntile
from nntile.model.deep_relu import DeepReLU
from nntile.loss import Frob
import nntile.pipeline as pl
config = nntile.starpu.Config(1, 0, 0)
nntile.starpu.init()
T = nntile.tensor.Tensor_fp32
traits = nntile.tensor.TensorTraits([2, 4], [2, 4])
x = nntile.tensor.TensorMoments(T(traits, [0], 0), None, False)
m = DeepReLU(x, "R", 1, 4, 4, 3, 4, 0)
m.init_randn_async()
loss, tag = Frob.generate_simple(m.activations[-1], 0)
def t(tr):
    r = T(tr, [0], 0)
    r.from_array(np.ones(list(tr.shape), order="F", dtype=np.float32))
    return r
ytr = nntile.tensor.TensorTraits(m.activations[-1].value.shape, m.activations[-1].value.basetile_shape)
grads = []
class Opt:
    def step(self):
        g = m.parameters[0].grad
        a = np.zeros(list(g.shape), order="F", dtype=np.float32)
        g.to_array(a)
        grads.append(a)
p = pl.Pipeline([[t(traits)], [t(traits)]], [[t(ytr)], [t(ytr)]], m, Opt(), loss, 1)
p.train_async()
# the parameters never change, thus both batches give the same gradients
sys.stdout.flush()
os._exit(0 if np.allclose(grads[0], grads[1]) and np.abs(grads[0]).max() > 0 else 1)
'''
