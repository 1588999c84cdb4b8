PROPERTY = "C23"
NEEDS = "to_array of a tensor into an array that has more columns than the tensor"
BREAKS = "a larger last extent of the array is accepted, its further columns keep their old contents"
EDITS = [("wrappers/python/nntile/nntile_core.cc", """    tensor::Tensor<T> tmp(tmp_traits, tmp_distr, tmp_tag);
    tensor::gather<T>(tensor, tmp);
""", """    tensor::Tensor<T> tmp(tmp_traits, tmp_distr, tmp_tag);
    // Array is filled as a whole
    tensor::gather<T>(tensor, tmp);
"""), ("wrappers/python/nntile/nntile_core.cc", """            \"""" + "X", "")]
EDITS = [("wrappers/python/nntile/nntile_core.cc", """    // Treat other cases
    if(tensor.ndim != array.ndim())
    {
        throw std::runtime_error("tensor.ndim != array.ndim()");
    }
    for(Index i = 0; i < tensor.ndim; ++i)
    {
        if(array.shape()[i] != tensor.shape[i])
        {
            throw std::runtime_error("array.shape()[i] != tensor.shape[i]");
        }
    }
    // Create temporary single-tile tensor
    tensor::TensorTraits tmp_traits(tensor.shape, tensor.shape);
    int64_t tmp_tag = 0;
    int flag;
    //starpu_mpi_comm_get_attr(MPI_COMM_WORLD, STARPU_MPI_TAG_UB, &tmp_tag, \\
            &flag);
""", """    // Treat other cases
    if(tensor.ndim != array.ndim())
    {
        throw std::runtime_error("tensor.ndim != array.ndim()");
    }
    for(Index i = 0; i < tensor.ndim; ++i)
    {
        // Tiles are contiguous, the last dimension only needs to be large enough
        if(array.shape()[i] != tensor.shape[i]
                and (i+1 < tensor.ndim or array.shape()[i] < tensor.shape[i]))
        {
            throw std::runtime_error("array.shape()[i] != tensor.shape[i]");
        }
    }
    // Create temporary single-tile tensor
    tensor::TensorTraits tmp_traits(tensor.shape, tensor.shape);
    int64_t tmp_tag = 0;
    int flag;
    //starpu_mpi_comm_get_attr(MPI_COMM_WORLD, STARPU_MPI_TAG_UB, &tmp_tag, \\
            &flag);
""")]
DEMO_PY = r'''
import sys, os
import numpy as np
import nntile
config = nntile.starpu.Config(1, 0, 0)
nntile.starpu.init()
traits = nntile.tensor.TensorTraits([2, 3], [1, 2])
t = nntile.tensor.Tensor_fp32(traits, [0]*4, 0)
a = np.array(np.arange(6).reshape(2, 3), order="F", dtype=np.float32)
t.from_array(a)
rc = 0
for shape in ([2, 4], [2, 2], [3, 3]):
    b = np.zeros(shape, order="F", dtype=np.float32)
    try:
        t.to_array(b)
        rc = 1
    except RuntimeError:
        pass
b = np.zeros([2, 3], order="F", dtype=np.float32)
t.to_array(b)
if not np.array_equal(a, b):
    rc = 1
t.unregister()
sys.stdout.flush()
os._exit(rc)
'''
