"""Text written by serialize and read back by deserialize."""
import re
from .common import *
from ..streams import tlen, merge
from ..interp import St
SRC = ['src/Layers/Kernel.cpp', 'src/Layers/Pooling.cpp', 'src/Layers/Activation.cpp', 'src/Layers/ConnectedLayer.cpp', 'src/Layers/Softmax.cpp']
def pr(v): return fn('printed', P(v))
class Text:
    """hooks around one round trip; damage(items) may return a damaged text"""
    def __init__(self, damage=None): self.damage = damage; self.items = None
    def setup(self, I):
        def fault(I, fd, obj, args):
            st, items = I.text_of(args[0], I.load(args[0]))
            self.items = items
            if self.damage:
                I.upd(args[0], **{'in': I.set_text(self.damage(items))})
            return VOID
        def left(I, fd, obj, args):
            st, items = I.text_of(args[0], I.load(args[0]))
            p = I.exact(st)
            return I.simp(tlen(items) - p)
        I.hooks['drv::fault'] = fault; I.hooks['drv::left'] = left
