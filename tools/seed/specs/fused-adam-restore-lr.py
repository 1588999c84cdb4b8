PROPERTY = "C25"
NEEDS = "a FusedAdam optimizer with a warm-up schedule saved and restored before the warm-up has ended"
BREAKS = "the learning rate of the current step is stored instead of the full one"
EDITS = [("wrappers/python/nntile/optimizer/adam.py", """        self.lr = stored_states["lr"]
        self.start_lr = stored_states["start_lr"]
""", """        self.lr = stored_states["lr"]
        if self.start_lr is None:
            self.start_lr = stored_states["start_lr"]
""")]
BREAKS = "the initial learning rate of the warm-up is restored only if the new optimizer has none"
DEMO_PY = r'''
import os, sys
import numpy as np
import nntile
from nntile.optimizer import FusedAdam
config = nntile.starpu.Config(1, 0, 0)
nntile.starpu.init()
a = FusedAdam([], 0.1, 0, start_lr=0.01, full_lr_iter=10)
a.save_state("state")
b = FusedAdam([], 0.5, 0, start_lr=0.05, full_lr_iter=20)
b.load_state("state")
ok = (b.lr, b.start_lr, b.full_lr_iter) == (0.1, 0.01, 10)
sys.stdout.flush()
os._exit(0 if ok else 1)
'''
