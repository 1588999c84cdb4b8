PROPERTY = "C21"
NEEDS = "the blocking hypot_scalar_inverse of a single precision tensor called from Python"
BREAKS = "the binding of the blocking operation returns while its tasks are still running"
EDITS = [("wrappers/python/nntile/nntile_core.cc", '''    m.def("hypot_scalar_inverse_fp32", &hypot_scalar_inverse<fp32_t>);''', '''    m.def("hypot_scalar_inverse_fp32", &hypot_scalar_inverse_async<fp32_t>);''')]
DEMO_PY = r'''
import ctypes, os, sys
import numpy as np
import nntile
config = nntile.starpu.Config(1, 0, 0)
nntile.starpu.init()
traits = nntile.tensor.TensorTraits([2048, 2048], [2048, 2048])
t = nntile.tensor.Tensor_fp32(traits, [0], 0)
t.from_array(np.ones([2048, 2048], order="F", dtype=np.float32))
lib = ctypes.CDLL(None)
for l in open("/proc/self/maps"):
    if "libstarpu" in l and "mpi" not in l:
        lib = ctypes.CDLL(l.split()[-1])
        break
rc = 0
for i in range(5):
    nntile.nntile_core.tensor.hypot_scalar_inverse_fp32(0.0, 1.0, t)
    if lib.starpu_task_nready() + lib.starpu_task_nsubmitted() != 0:
        rc = 1
lib.starpu_task_wait_for_all()
sys.stdout.flush()
os._exit(rc)
'''
