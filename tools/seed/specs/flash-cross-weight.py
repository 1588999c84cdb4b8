PROPERTY = 'C43'
NEEDS = 'the fused attention layer with a key input that differs from its value input'
BREAKS = 'the gradient of the projection of V is computed with the input of the projection of K'
EDITS = [('wrappers/python/nntile/layer/flash_attention.py', """                gemm_async(1.0, notrans, self.v_transposed.grad, trans, \\
                        self.x_v.value, 1.0, self.w_v.grad""", """                gemm_async(1.0, notrans, self.v_transposed.grad, trans, \\
                        self.x_k.value, 1.0, self.w_v.grad""")]
DEMO_PY = r'''
import os, sys
import numpy as np
import nntile
from nntile.tensor import *
from nntile.layer.attention import Attention
from nntile.layer.flash_attention import FlashAttention
config = nntile.starpu.Config(1, 0, 0)
nntile.starpu.init()
T = nntile.tensor.Tensor_fp32
def run(cls, seq_tile, b_tile, h_tile):
    n_emb, n_seq, n_batch, n_head = 16, 12, 4, 4
    rng = np.random.RandomState(0)
    tag, xs = 0, []
    def fill(t):
        t.from_array(np.array(rng.randn(*t.shape), dtype=np.float32, order='F'))
    for i in range(3):
        tr = TensorTraits([n_emb, n_seq, n_batch], [8, seq_tile, b_tile])
        d = [0]*tr.grid.nelems
        v = T(tr, d, tag)
        g = T(tr, d, v.next_tag)
        tag = g.next_tag
        fill(v)
        clear_async(g)
        xs.append(TensorMoments(v, g, True))
    tr = TensorTraits([n_seq, n_seq], [seq_tile, seq_tile])
    mask = Tensor_bool(tr, [0]*tr.grid.nelems, tag)
    tag = mask.next_tag
    mask.from_array(np.array(np.triu(np.ones((n_seq, n_seq))), dtype=bool, order='F'))
    lay, tag = cls.generate_simple(*xs, n_head, h_tile, tag, True, mask)
    ps = [lay.w_q, lay.w_k, lay.w_v, lay.w, lay.in_proj_bias_q, lay.in_proj_bias_v, lay.out_proj_bias]
    for p in ps + [lay.in_proj_bias_k]:
        fill(p.value)
        clear_async(p.grad)
    lay.forward_async()
    r = [lay.y.value]
    fill(lay.y.grad)
    lay.backward_async()
    out = []
    for t in r + [x.grad for x in xs + ps]:
        a = np.zeros(t.shape, dtype=np.float32, order='F')
        t.to_array(a)
        out.append(a)
    return out
ref = run(Attention, 12, 4, 4)
rc = 0
for tiles in ((12, 4, 4), (6, 2, 2), (4, 4, 2)):
    for i, (a, b) in enumerate(zip(ref, run(FlashAttention, *tiles))):
        e = np.abs(a-b).max() / np.abs(a).max()
        if not e < 1e-4:
            print(tiles, i, e)
            rc = 1
sys.stdout.flush()
os._exit(rc)
'''
