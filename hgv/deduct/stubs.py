"""Stand-ins for the dependencies' modules (trusted, see run.py)."""
import collections as real_collections
import enum
import types
import typing
import warnings as real_warnings

import z3

from . import seqs, strategies
from .core import Unsupported, engine
from .geometry import Orientation, SContext
from .values import SNum, REAL, num


class Location(enum.IntEnum):
    EXTERIOR, BOUNDARY, INTERIOR = -1, 0, 1


class Relation(enum.IntEnum):
    DISJOINT, TOUCH, CROSS, OVERLAP, COVER, ENCLOSES = 0, 1, 2, 3, 4, 5
    COMPOSITE, EQUAL, COMPONENT, ENCLOSED, WITHIN = 6, 7, 8, 9, 10


class Hint:
    def __class_getitem__(cls, item):
        return cls


def hint(name):
    def body(ns):
        ns['__class_getitem__'] = classmethod(lambda cls, item: cls)
    return types.new_class(name, (typing.Protocol,), {}, body)


class HintModule(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return hint(name)


class HypothesisWarning(Warning):
    pass


class ContextStub(Hint):
    def __new__(cls, *a, **k):
        return SContext('other context')


def module(name, **attrs):
    m = types.ModuleType(name)
    for k, v in attrs.items():
        setattr(m, k, v)
    return m


def forbidden(name):
    class Forbidden:
        def __class_getitem__(cls, item):
            return cls

        def __new__(cls, *a, **k):
            raise Unsupported(f'call of {name}')

        def __getattr__(self, attr):
            raise Unsupported(f'{name}.{attr}')
    return Forbidden


class ForbiddenModule(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(f'{self.__name__}.{name}')


def warn(message, category=None, stacklevel=1, **kw):
    engine().warned.append((category, z3.IntVal(1)))


_atan2 = z3.Function('atan2', REAL, REAL, REAL)


def atan2(y, x):
    return SNum(_atan2(num(y).e, num(x).e))


def make():
    from .triangles import STree, keyed_set
    st = strategies.strategies_module()
    errors = module('hypothesis.errors', HypothesisWarning=HypothesisWarning)
    hyp = module('hypothesis', strategies=st, errors=errors)

    def segments_cross_or_overlap(segments, *, context):
        from .spec_base import cross_or_overlap
        return cross_or_overlap(segments, context)

    collections = module('collections', **{
        **{k: v for k, v in vars(real_collections).items()
           if not k.startswith('__')}, 'deque': seqs.deque_})
    it = module('itertools', chain=seqs.chain_, repeat=seqs.repeat_,
                cycle=seqs.cycle_, groupby=seqs.groupby_,
                accumulate=seqs.accumulate_)
    planar = module('bentley_ottmann.planar',
                    segments_cross_or_overlap=segments_cross_or_overlap)
    red_black = ForbiddenModule('dendroid.red_black')
    red_black.set_ = keyed_set()
    segmental = ForbiddenModule('locus.segmental')
    segmental.Tree = STree
    partition = module('decision.partition',
                       coin_change=forbidden('coin_change'))
    reprit = module('reprit.base', generate_repr=lambda *a, **k: (
        lambda self: '<repr>'))
    return {
        'hypothesis': hyp, 'hypothesis.strategies': st,
        'hypothesis.errors': errors,
        'itertools': it,
        'collections': collections,
        'warnings': module('warnings', warn=warn),
        'math': module('math', atan2=atan2),
        'ground': module('ground'),
        'ground.context': module('ground.context', Context=ContextStub),
        'ground.enums': module('ground.enums', Orientation=Orientation,
                               Location=Location, Relation=Relation),
        'ground.hints': HintModule('ground.hints'),
        'hypothesis_geometry.hints': HintModule('hypothesis_geometry.hints'),
        'bentley_ottmann': module('bentley_ottmann', planar=planar),
        'bentley_ottmann.planar': planar,
        'dendroid': module('dendroid', red_black=red_black),
        'dendroid.red_black': red_black,
        'dendroid.hints': HintModule('dendroid.hints'),
        'locus': module('locus', segmental=segmental),
        'locus.segmental': segmental,
        'decision': module('decision', partition=partition),
        'decision.partition': partition,
        'reprit': module('reprit', base=reprit), 'reprit.base': reprit,
    }
