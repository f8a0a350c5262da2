"""Stand-in for the objects of the quad-edge structure: references into a heap
whose fields are arrays.  Methods and properties are those of the real class,
run on references."""
import inspect

import z3

from .core import Unsupported, engine
from .geometry import SPoint
from .values import ie, INT, REAL, born, touch, SNum, Sym, fresh_index, num

BOOL = z3.BoolSort()
FIELDS = '_left_from_start', '_rotated', '_start', 'context'


class Heap:
    """Objects are the numbers below `count`."""

    def __init__(self, ctx, cls):
        e = engine()
        self.context, self.real = ctx, cls
        self.count = e.fresh('objects', INT)
        e.assume(self.count >= 0)
        self.fresh_fields()

    def forget(self):
        self.count = engine().fresh('objects', INT)
        self.fresh_fields()

    def fresh_fields(self):
        e = engine()
        arr = lambda n, s: z3.Const(e.name(n), z3.ArraySort(INT, s))
        self.onext, self.rot = arr('onext', INT), arr('rot', INT)
        self.primal = arr('primal', BOOL)
        self.org = [arr('org_x', REAL), arr('org_y', REAL)]

    def point(self, x):
        return SPoint(self.context, *[SNum(c) for c in self.start(x)])

    def snapshot(self):
        h = object.__new__(Heap)
        h.__dict__.update(self.__dict__, org=list(self.org))
        return h

    def start(self, x):
        return tuple(o[x] for o in self.org)

    def sym(self, x):
        return self.rot[self.rot[x]]

    def inverse(self, x):
        return self.rot[self.rot[self.rot[x]]]

    def lnext(self, x):
        return self.rot[self.onext[self.inverse(x)]]

    def oprev(self, x):
        return self.rot[self.onext[self.rot[x]]]

    def rprev(self, x):
        return self.onext[self.sym(x)]

    def alive(self, x):
        return z3.And(x >= 0, x < self.count)

    def edge(self, x):
        return z3.And(self.alive(x), self.primal[x])

    def algebra(self):
        """Guibas and Stolfi's axioms: rotations and rings."""
        x = fresh_index('q')
        r, n = self.rot, self.onext
        # patterns under which instances come to an end
        return z3.And(
            z3.ForAll([x], z3.Implies(self.alive(x), z3.And(
                self.alive(r[x]), r[r[r[r[x]]]] == x, r[r[x]] != x,
                self.primal[r[x]] == z3.Not(self.primal[x]))),
                patterns=[r[x]]),
            z3.ForAll([x], z3.Implies(self.alive(x), z3.And(
                self.alive(n[x]), self.primal[n[x]] == self.primal[x],
                r[n[r[n[x]]]] == x)), patterns=[n[x]]))

    def rings(self, but=()):
        """Edges of a ring start at the same point."""
        x = fresh_index('q')
        n = self.onext
        return z3.ForAll([x], z3.Implies(z3.And(
            self.edge(x), *[x != y for y in but]),
            same(self.start(n[x]), self.start(x))),
            patterns=[n[x]])


def update(h, new):
    """The heap becomes the other, by a name."""
    e = engine()
    for k in ('onext', 'rot', 'primal', 'org'):
        old, v = getattr(h, k), getattr(new, k)
        if k == 'org':
            for i, (f, g) in enumerate(zip(old, v)):
                if not f.eq(g):
                    h.org[i] = z3.Const(e.name(k), g.sort())
                    e.assume(h.org[i] == g)
        elif not old.eq(v):
            setattr(h, k, z3.Const(e.name(k), v.sort()))
            e.assume(getattr(h, k) == v)
    h.count = new.count


def same(p, q):
    return z3.And([a == b for a, b in zip(p, q)])


class Reference(Sym):
    """An object of the heap."""
    __hash__ = None
    FIELDS = 'number',

    def __init__(self, heap, id):
        self.__dict__.update(heap=heap, number=SNum(id))

    @property
    def id(self):
        return ie(self.number)

    def same(self, o):
        return self.heap is o.heap and engine().branch(self.id == o.id)

    def __eq__(self, o):
        raise Unsupported('equality of edges')

    def link(self, v):
        return None if engine().branch(v < 0) else Reference(self.heap, v)

    def __getattr__(self, name):
        h = self.heap
        if name == '_left_from_start':
            return self.link(h.onext[self.id])
        if name == '_rotated':
            return self.link(h.rot[self.id])
        if name == '_start':
            if not engine().branch(h.primal[self.id]):
                return None
            return SPoint(h.context, *[SNum(c) for c in h.start(self.id)])
        if name == 'context':
            return h.context
        if name.startswith('__') or name == 'identity':
            raise AttributeError(name)
        return Objects(h).method(name, self)

    def __setattr__(self, name, value):
        h = self.heap
        if name in ('_left_from_start', '_rotated'):
            if value is not None and not isinstance(value, Reference):
                raise Unsupported('link to something else')
            v = z3.IntVal(-1) if value is None else value.id
            if name == '_rotated':
                h.rot = z3.Store(h.rot, self.id, v)
            else:
                h.onext = z3.Store(h.onext, self.id, v)
        elif name == '_start':
            h.primal = z3.Store(h.primal, self.id,
                                z3.BoolVal(value is not None))
            if value is not None:
                h.org = [z3.Store(o, self.id, num(c).e) for o, c in zip(
                    h.org, (value.x, value.y))]
        elif name == 'context':
            if value is not h.context:
                engine().fail('edges keep the context')
        else:
            raise Unsupported(f'edge.{name} = ...')


class Objects:
    """The class."""

    def __init__(self, heap):
        self.heap = heap

    def __call__(self, *args, **kwargs):
        h = self.heap
        r = Reference(h, z3.simplify(h.count))
        h.count = z3.simplify(h.count + 1)
        h.real.__dict__['__init__'](r, *args, **kwargs)
        return r

    def method(self, name, ref=None):
        for c in self.heap.real.__mro__:
            v = c.__dict__.get(name)
            if v is not None:
                break
        if isinstance(v, property) and ref is not None:
            return v.fget(ref)
        if isinstance(v, classmethod):
            return lambda *a, **k: v.__func__(self, *a, **k)
        if isinstance(v, staticmethod):
            return v.__func__
        if inspect.isfunction(v):
            return lambda *a, **k: v(ref, *a, **k) if (
                ref is not None) else v(*a, **k)
        raise Unsupported(f'edge.{name}')

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return self.method(name)


class Triangulated:
    """A triangulation: two references."""
    __hash__ = None
    FIELDS = 'left_side', 'right_side', 'context'

    def __init__(self, left_side, right_side, context):
        self.__dict__.update(left_side=left_side, right_side=right_side,
                             context=context, heap=left_side.heap)
        born(self)
        if right_side.heap is not self.heap:
            raise Unsupported('several structures')

    def __setattr__(self, name, value):
        if name == 'serial':
            self.__dict__[name] = value
            return
        if name not in ('left_side', 'right_side') or not isinstance(
                value, Reference):
            raise Unsupported(f'triangulation.{name} = ...')
        touch(self)
        self.__dict__[name] = value

    def havoc(self, make, sides_only=False):
        e = engine()
        if not sides_only and not getattr(self.heap, 'fresh', False):
            n = self.heap.count
            self.heap.forget()
        for k in ('left_side', 'right_side'):
            self.__dict__[k] = Reference(self.heap, e.fresh(k, INT))

    def __getattr__(self, name):
        if name.startswith('__') or name == 'identity':
            raise AttributeError(name)
        v = Triangulations.real().__dict__.get(name)
        if isinstance(v, property):
            return v.fget(self)
        if inspect.isfunction(v):
            return lambda *a, **k: v(self, *a, **k)
        raise Unsupported(f'triangulation.{name}')


class Triangulations:
    """The class."""

    @staticmethod
    def real():
        l = engine().loader
        return l.load(l.package + '.triangular').__dict__[
            'Triangulation'].real

    def from_sides(self, *args):
        return self.real().__dict__['from_sides'].__func__(self, *args)

    def __call__(self, left_side, right_side, context, /):
        return Triangulated(left_side, right_side, context)
