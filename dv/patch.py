"""Puts the code under proof on symbolic inputs: the ``np`` and ``math``
globals (and names imported from them) of every pvfactors module are replaced
by the symbolic stand-ins.  No line of the code is copied or rewritten: the
functions executed are the objects compiled from /repo's working tree."""
import importlib
import math
import os
import pkgutil
import sys
import warnings

import numpy as np

REPO = os.environ.get('VERIF_REPO', '/repo')


def load():
    """import pvfactors (never a stale or installed copy)"""
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    warnings.simplefilter('ignore')
    import pvfactors
    assert os.path.realpath(pvfactors.__file__).startswith(
        os.path.realpath(REPO) + os.sep), pvfactors.__file__
    mods = []
    for info in pkgutil.walk_packages(pvfactors.__path__, 'pvfactors.'):
        if '.tests' in info.name or info.name.endswith('_version'):
            continue
        try:
            mods.append(importlib.import_module(info.name))
        except ImportError:
            pass
    return [pvfactors] + mods


class Symbolic:
    """context manager: pvfactors modules run on symbolic numpy"""

    def __init__(self, extra=None):
        self.extra = extra or {}

    def __enter__(self):
        from . import sym
        self.saved = []
        for m in load():
            for k, v in list(vars(m).items()):
                nv = v
                if v is np:
                    nv = sym.NP
                elif v is math:
                    nv = sym.MATH
                elif k.startswith('__'):
                    continue
                elif callable(v) and not isinstance(v, type):
                    nm = getattr(v, '__name__', None)
                    if nm and getattr(np, nm, None) is v and \
                            not isinstance(v, np.ufunc):
                        nv = getattr(sym.NP, nm)
                    elif nm and getattr(math, nm, None) is v:
                        nv = getattr(sym.MATH, nm)
                elif v is np.pi and k in ('pi', 'PI'):
                    nv = sym.T.PI
                key = (getattr(v, '__module__', None),
                       getattr(v, '__name__', None))
                if key in self.extra:
                    nv = self.extra[key]
                if nv is not v:
                    self.saved.append((m, k, v))
                    setattr(m, k, nv)
        return self

    def __exit__(self, *a):
        for m, k, v in self.saved:
            setattr(m, k, v)


class Trace:
    """records the pvfactors functions executed (the code under contract)"""

    def __init__(self, into):
        self.into = into
        self.root = os.path.realpath(REPO) + '/pvfactors/'

    def __enter__(self):
        seen, root = self.into, self.root

        def prof(frame, event, arg):
            if event == 'call':
                c = frame.f_code
                fn = c.co_filename
                if fn.startswith(root):
                    seen.add('%s:%s' % (fn[len(root):], c.co_qualname))
        self.prof = prof
        sys.setprofile(prof)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)
