PROPERTY = "C20"
NEEDS = "hypot of double precision tensors with coefficients other than those of the optimizers"
BREAKS = "the double precision branch passes the coefficients in the opposite order"
EDITS = [("wrappers/python/nntile/tensor.py", "core_tensor.hypot_async_fp64(alpha, x, beta, y)", "core_tensor.hypot_async_fp64(beta, x, alpha, y)")]
DEMO_PY = r'''
import os, sys
import numpy as np
import nntile
config = nntile.starpu.Config(1, 0, 0)
nntile.starpu.init()
traits = nntile.tensor.TensorTraits([2], [2])
rc = 0
for T, d in ((nntile.tensor.Tensor_fp32, np.float32), (nntile.tensor.Tensor_fp64, np.float64)):
    x, y = T(traits, [0], 0), T(traits, [0], 0)
    x.from_array(np.array([3, 3], dtype=d))
    y.from_array(np.array([2, 2], dtype=d))
    nntile.tensor.hypot_async(1.0, x, 2.0, y)
    r = np.zeros(2, dtype=d)
    y.to_array(r)
    if not np.allclose(r, 5):
        rc = 1
sys.stdout.flush()
os._exit(rc)
'''
