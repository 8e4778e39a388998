"""A stand-in for the one pfft-python feature that is missing offline.

pmesh.pm needs ``pfft.LocalBuffer(partition, base=...)`` (pfft-python >= 0.1.16):
a buffer that may share the memory of another buffer.  The pfft-python installed
here (0.1.12) only knows ``LocalBuffer(partition)``.  This module supplies the
missing keyword (and corrects the edges tables, see Partition); the plans, partitions and process meshes that do the transforms
remain the real pfft ones.

`install()` must run before any ParticleMesh is built.
"""
import numpy
import pfft
from pfft import core as _core

_RealLB = _core.LocalBuffer
_RealPlan = _core.Plan
_RealPartition = _core.Partition
live = {"roots": 0, "views": 0, "plans": 0, "executes": 0, "inplace_executes": 0}


class Partition(_RealPartition):
    """pfft.Partition whose edges tables describe the true (unpadded) mesh.

    pfft-python 0.1.12 puts the padded length in the last input edge and the
    wrong length in the first output edge of a transposed partition; later
    releases (the ones pmesh.pm is written for) do not.
    """

    def __init__(self, type, n, procmesh, flags):
        _RealPartition.__init__(self, type, n, procmesh, flags)
        ie = [numpy.array(e) for e in _RealPartition.i_edges.__get__(self)]
        oe = [numpy.array(e) for e in _RealPartition.o_edges.__get__(self)]
        for d, e in enumerate(ie):
            e[-1] = n[d]
        if int(flags) & int(_core.Flags.PFFT_TRANSPOSED_OUT):
            oe[0] = numpy.array([0, n[0]], dtype=oe[0].dtype)
        self._fixed = ie, oe

    @property
    def i_edges(self):
        return self._fixed[0]

    @property
    def o_edges(self):
        return self._fixed[1]


class LocalBuffer(_RealLB):
    """pfft.LocalBuffer with the `base` keyword."""

    def __new__(cls, partition, base=None):
        if base is None:
            return _RealLB.__new__(cls, partition)
        return _View(partition, base)

    def __init__(self, partition, base=None):
        _RealLB.__init__(self, partition)
        live["roots"] += 1

    @property
    def root(self):
        return self

    @property
    def base(self):
        return None

    def _address(self):
        return _RealLB.view_input(self).__array_interface__['data'][0]

    def _nbytes(self):
        p = self.partition
        csize = numpy.dtype(p.o_dtype).itemsize
        if numpy.dtype(p.o_dtype).kind != 'c':
            csize *= 2
        return int(p.alloc_local) * csize

    def __contains__(self, other):
        return other.root is self


class _View(object):
    """A buffer sharing the memory of `base`, seen through `partition`."""

    def __init__(self, partition, base):
        root = base.root
        self.root = root
        self.base = base
        self.partition = partition
        csize = numpy.dtype(partition.o_dtype).itemsize
        if int(partition.alloc_local) * csize > root._nbytes():
            raise ValueError("base buffer is too small for the partition")
        live["views"] += 1

    def _view(self, dtype, shape, strides):
        root = self.root
        if root.partition is self.partition:
            return None

        class _mem(object):
            pass
        m = _mem()
        m.root = root
        shape = tuple(int(s) for s in shape)
        isz = numpy.dtype(dtype).itemsize
        strides = tuple(int(s) for s in strides)
        m.__array_interface__ = dict(
            shape=shape, typestr=numpy.dtype(dtype).str,
            data=(root._address(), False),
            strides=strides, version=3)
        return numpy.asarray(m)

    def view_input(self, type=numpy.ndarray):
        p = self.partition
        if self.root.partition is p:
            return _RealLB.view_input(self.root, type)
        return self._like(_RealLB.view_input, p)

    def view_output(self, type=numpy.ndarray):
        p = self.partition
        if self.root.partition is p:
            return _RealLB.view_output(self.root, type)
        return self._like(_RealLB.view_output, p)

    def _like(self, viewer, p):
        # shape/strides/dtype as a buffer of partition p would have them
        probe = viewer(_RealLB(p))
        return self._view(probe.dtype, probe.shape, probe.strides)

    def __contains__(self, other):
        return other.root is self.root


class Plan(_RealPlan):
    def __init__(self, partition, direction, i, o=None, type=None, flags=None):
        kw = {}
        if type is not None:
            kw['type'] = type
        if flags is not None:
            kw['flags'] = flags
        _RealPlan.__init__(self, partition, direction, _unwrap(i), _unwrap(o), **kw)
        live["plans"] += 1

    def execute(self, i, o=None):
        i = _unwrap(i)
        o = _unwrap(o)
        live["executes"] += 1
        if o is None or o is i:
            live["inplace_executes"] += 1
        return _RealPlan.execute(self, i, o)


def _unwrap(b):
    if b is None:
        return None
    return getattr(b, 'root', b)


def install():
    pfft.LocalBuffer = LocalBuffer
    pfft.Plan = Plan
    pfft.Partition = Partition
