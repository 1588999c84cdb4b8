PROPERTY = "C24"
NEEDS = "several parameters and an optimizer with momentum"
BREAKS = "the optimizer gives every state tensor the same first tag and returns a tag that is in use"
EDITS = [("wrappers/python/nntile/optimizer/sgd.py", "                self.next_tag = self.states[-1].next_tag\n", "                next_tag = self.states[-1].next_tag\n")]
DEMO_PY = r'''
import os, sys
import numpy as np
import nntile
import nntile.optimizer.sgd as mod
class T:
    """Stand-in of a tensor that takes one tag for each of its tiles"""
    used = []
    def __init__(self, traits, distr, tag):
        self.shape, self.basetile_shape, self.distribution = [4], [2], [0, 0]
        T.used += [tag, tag+1]
        self.next_tag = tag+2
    def unregister(self): pass
class P:
    def __init__(self): self.value = T(None, None, -10)
params = [P() for i in range(3)]
T.used = []
opt = mod.SGD(params, 0.1, 5, momentum=0.5)
ok = len(set(T.used)) == 6 and min(T.used) == 5 and opt.get_next_tag() == 11
sys.stdout.flush()
os._exit(0 if ok else 1)
'''
