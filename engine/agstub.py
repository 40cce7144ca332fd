"""autograd stand-ins: autograd.numpy is the symbolic numpy; primitive/defvjp are recorded"""
import types
from . import shim
from . import terms as T


def install(L):
    E = L.extern
    VJPS = {}
    L.vjps = VJPS

    class Prim:
        def __init__(self, f):
            self.f = f
            self.__name__ = getattr(f, '__name__', 'prim')
            self.__doc__ = getattr(f, '__doc__', None)
            self.vjps = {}

        def __call__(self, *a, **k):
            return self.f(*a, **k)

        def __get__(self, obj, cls=None):
            return self if obj is None else types.MethodType(self, obj)

    def primitive(f):
        return Prim(f)

    def defvjp(fun, *vjps, argnums=None, **k):
        nums = argnums if argnums is not None else range(len(vjps))
        for n, v in zip(nums, vjps):
            fun.vjps[n] = v

    def unsup(n):
        def f(*a, **k):
            raise T.Unsupported('autograd.%s reached' % n)
        return f

    def mod(name, **kw):
        m = types.ModuleType(name)
        m.__path__ = []
        m.__dict__.update(kw)
        E[name] = m
        return m

    class ArrayBox:
        pass

    class VS:
        def __init__(self, x):
            self.shape = getattr(x, 'shape', ())
            self.x = x

        def zeros(self):
            return shim.zeros(self.shape)

        @property
        def ndim(self):
            return len(self.shape)

        @property
        def size(self):
            import numpy as np
            return int(np.prod(self.shape)) if self.shape else 1

        @property
        def iscomplex(self):
            return shim.iscomplexobj(self.x)
    boxes = mod('autograd.numpy.numpy_boxes', ArrayBox=ArrayBox)
    np_ = shim.NPShim('autograd.numpy')
    np_.numpy_boxes = boxes
    E['autograd.numpy'] = np_
    np_.linalg = L.np.linalg
    E['autograd.numpy.linalg'] = L.np.linalg
    ext = mod('autograd.extend', primitive=primitive, defvjp=defvjp, vspace=lambda x: VS(x), Box=ArrayBox)
    special = types.ModuleType('autograd.scipy.special')
    special.j1 = L._j1
    special.jn = L._jv
    E['autograd.scipy.special'] = special
    E['autograd.scipy'] = mod('autograd.scipy', special=special)
    E['autograd'] = mod('autograd', numpy=np_, extend=ext, grad=unsup('grad'), value_and_grad=unsup('value_and_grad'),
                        vector_jacobian_product=unsup('vector_jacobian_product'), scipy=E['autograd.scipy'])
