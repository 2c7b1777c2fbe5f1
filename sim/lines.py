"""Interrupts (Ctrl-C) at the n-th executed line of chosen files of the code under test."""
import os
import sys

from sim import env
from sim.core import InjectedInterrupt


class LineInterrupt:
    """`with LineInterrupt(w, suffixes, n):` raises at the n-th line executed in files of
    /repo whose path ends with one of the suffixes (all of yaocptool when empty).
    With n=None it only counts."""

    def __init__(self, w, suffixes=(), n=None, label="interrupt at a line"):
        self.w, self.n, self.label = w, n, label
        self.root = os.path.join(os.path.realpath(env.REPO), "yaocptool") + os.sep
        self.suffixes = tuple(suffixes)
        self.count = 0
        self.fired = False
        self._known = {}

    def _watched(self, filename):
        v = self._known.get(filename)
        if v is None:
            real = os.path.realpath(filename)
            v = real.startswith(self.root) and (not self.suffixes or real.endswith(self.suffixes))
            self._known[filename] = v
        return v

    def _global(self, frame, event, arg):
        return self._local if self._watched(frame.f_code.co_filename) else None

    def _local(self, frame, event, arg):
        if event == "line":
            self.count += 1
            if self.n is not None and self.count == self.n and not self.fired:
                self.fired = True
                self.w.fault(self.label)
                raise InjectedInterrupt()
        return self._local

    def __enter__(self):
        self._old = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(self._old)
        return False
