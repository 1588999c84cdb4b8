PROPERTY = 'C26'
NEEDS = 'training a fused attention layer with biases'
BREAKS = 'the bias of K is not among the parameters of the layer'
EDITS = [('wrappers/python/nntile/layer/flash_attention.py', '            qkv_bias_list.append(in_proj_bias_k)\n            in_proj_bias_k.grad', '            in_proj_bias_k.grad')]
DEMO_PY = r'''
import os, sys
import numpy as np
import nntile
from nntile.tensor import *
from nntile.layer.attention import Attention
from nntile.layer.flash_attention import FlashAttention
config = nntile.starpu.Config(1, 0, 0)
nntile.starpu.init()
T = nntile.tensor.Tensor_fp32
def run(cls, seq_tile, b_tile, h_tile):
    n_emb, n_seq, n_batch, n_head = 16, 12, 4, 4
    rng = np.random.RandomState(0)
    tag, xs = 0, []
    def fill(t):
        t.from_array(np.array(rng.randn(*t.shape), dtype=np.float32, order='F'))
    for i in range(3):
        tr = TensorTraits([n_emb, n_seq, n_batch], [8, seq_tile, b_tile])
        d = [0]*tr.grid.nelems
        v = T(tr, d, tag)
        g = T(tr, d, v.next_tag)
        tag = g.next_tag
        fill(v)
        clear_async(g)
        xs.append(TensorMoments(v, g, True))
    tr = TensorTraits([n_seq, n_seq], [seq_tile, seq_tile])
    mask = Tensor_bool(tr, [0]*tr.grid.nelems, tag)
    tag = mask.next_tag
    mask.from_array(np.array(np.triu(np.ones((n_seq, n_seq))), dtype=bool, order='F'))
    lay, tag = cls.generate_simple(*xs, n_head, h_tile, tag, True, mask)
    for p in (lay.w_q, lay.w_k, lay.w_v, lay.w, lay.in_proj_bias_q, lay.in_proj_bias_k, lay.in_proj_bias_v, lay.out_proj_bias):
        if not any(p is q for q in lay.parameters):
            return 1
    return 0
rc = run(Attention, 12, 4, 4) + run(FlashAttention, 6, 2, 2)
sys.stdout.flush()
os._exit(rc)
'''
