"""Contracts of functions, their use at call sites and their verification."""
import functools
import inspect

import z3

from . import stubs
from .core import Budget, Engine, NoneError, PathEnd, Unsupported, engine
from .strategies import Abstract, Coord, SearchStrategy
from .values import SList, SNum, fresh_int, ie


class Args:
    """Bound arguments of a call, by parameter name."""

    def __init__(self, values):
        self.__dict__.update(values)


def cells(f):
    """Variables of the enclosing functions."""
    result = {}
    while hasattr(f, '__wrapped__'):
        f = f.__wrapped__
    for name, cell in zip(f.__code__.co_freevars, f.__closure__ or ()):
        try:
            result[name] = cell.cell_contents
        except ValueError:
            pass
    return result


def state(loader):
    """Contents of the mutable containers that outlive a call."""
    result = {}

    def keep(name, v):
        if isinstance(v, (dict, list, set)):
            result[name] = [id(x) for x in v] + (
                [id(x) for x in v.values()] if isinstance(v, dict) else [])

    for m in list(loader.modules.values()):
        for name, v in list(m.__dict__.items()):
            if name.startswith('__'):
                continue
            keep((m.__name__, name), v)
            f = inspect.unwrap(v) if inspect.isfunction(v) else None
            if f is not None:
                for i, d in enumerate([*(f.__defaults__ or ()),
                                       *(f.__kwdefaults__ or {}).values()]):
                    keep((m.__name__, name, i), d)
                for k, d in f.__dict__.items():
                    result[m.__name__, name, k] = id(d)
            elif isinstance(v, type):
                for k, d in list(v.__dict__.items()):
                    if not k.startswith('__'):
                        keep((m.__name__, name, k), d)
    return result


class Contract:
    """
    args():        generic arguments: (positional, keyword)
    requires(a):   [(name, formula)] -- proved at every call
    result(a):     an arbitrary result of the right shape
    ensures(a, r): [(name, props, formula)] -- proved for the body, assumed
                   at calls
    draws:         the result is a strategy; ensures speaks about its draws
    trusted:       the body is not verified (reason)
    light(a, r):   the postconditions to be known about a drawn value where
                   the caller passes on the others unread
    raises(a):     [(exception class, formula, props)] -- the call raises
                   exactly if the formula holds
    warns(a):      number of HypothesisWarnings of a call that returns
    again(a):      arguments of another call that has to return the same
                   strategy
    local:         a nested function: its body is verified wherever it is
                   called, on a path of its own; a.closure has the variables
                   of the enclosing function
    """

    def __init__(self, key, params, *, args=None, requires=None, result,
                 ensures=None, draws=False, props=(), trusted=None,
                 requires_props=('C06',), local=False, raises=None,
                 warns=None, again=None, light=None):
        self.light = light
        self.local = local
        self.raises, self.warns, self.again = raises, warns, again
        self.key, self.params = key, params
        self.args, self.requires = args, requires
        self.result, self.ensures = result, ensures
        self.draws, self.props = draws, frozenset(props)
        self.trusted = trusted
        self.requires_props = frozenset(requires_props)

    def wrap(self, real, loader, env=()):
        signature = inspect.signature(real)
        if [p for p in signature.parameters] != list(self.params):
            # not the function this contract is about: inlined
            loader.mismatched.add(self.key)
            return real

        @functools.wraps(real)
        def wrapped(*args, **kwargs):
            if loader.target == self.key:
                return real(*args, **kwargs)
            bound = signature.bind(*args, **kwargs)
            bound.apply_defaults()
            loader.used.add(self.key)
            a = Args(bound.arguments)
            if self.local:
                return self.inner(real, a, args, kwargs, dict(env))
            return self.call(a)

        wrapped.real = real
        return wrapped

    def call(self, a):
        e = engine()
        if self.requires is not None:
            for name, f in self.requires(a):
                e.prove(f'precondition of {self.key}: {name}', f, 'pre',
                        self.requires_props)
        for cls, f, props in self.raises(a) if self.raises else ():
            if e.branch(f):
                raise cls(f'raised by {self.key}')
        if self.warns is not None:
            e.warned.append((stubs.HypothesisWarning, self.warns(a)))
        if self.draws:
            return Abstract(lambda: self.arbitrary(a), self.key, a)
        return self.arbitrary(a)

    def inner(self, real, a, args, kwargs, env):
        """A call of a nested function: the body against the contract on one
        path, the contract alone on the other."""
        e = engine()
        before = cells(real)
        a.closure = {**env, **before}
        if self.requires is not None:
            for name, f in self.requires(a):
                e.prove(f'precondition of {self.key}: {name}', f, 'pre',
                        self.requires_props)
        if e.merges or e.ctx:
            raise Unsupported(f'{self.key} on a generic element')
        if e.choose(2, self.key):
            return self.arbitrary(a)
        born, touched = SList.born, len(e.touched)
        r = real(*args, **kwargs)
        if any(x.serial <= born for x in e.touched[touched:]):
            raise Unsupported(f'{self.key} changes a list')
        after = cells(real)
        if any(after[k] is not before.get(k) for k in after):
            raise Unsupported(f'{self.key} rebinds a variable')
        try:
            posts = self.ensures(a, r)
        except (AttributeError, TypeError) as ex:
            raise Unsupported(f'result of {self.key} has another shape: {ex}')
        name = self.key.rpartition('.')[2]
        for n, props, f in posts:
            e.prove(f'{name}: {n}', f, 'post', props)
        raise PathEnd

    def arbitrary(self, a):
        r = self.result(a)
        if self.light is not None and getattr(
                engine(), 'light', None) == self.key:
            # the rest of the postconditions is carried over as a whole
            r.origin = self.key, a
            for name, props, f in self.light(a, r):
                engine().assume(f)
            return r
        if self.ensures is not None:
            for name, props, f in self.ensures(a, r):
                engine().assume(f)
        return r

    def refusal(self, e, a, ex):
        """An exception the contract speaks about."""
        for cls, f, props in self.raises(a) if self.raises else ():
            if type(ex) is cls:
                e.prove(f'{cls.__name__} only if specified', f, 'post', props)
                return True
        return False

    def accepted(self, e, a, fn, r):
        """The call has returned."""
        for cls, f, props in self.raises(a) if self.raises else ():
            e.prove(f'{cls.__name__} whenever specified', z3.Not(f), 'post',
                    props)
        if self.warns is not None:
            if any(c is not stubs.HypothesisWarning for c, _ in e.warned):
                e.fail('no warning of another category')
            total = z3.Sum([z3.IntVal(0)] + [n for _, n in e.warned])
            e.prove('number of warnings', total == self.warns(a), 'post',
                    {'C01'})
        if self.again is not None:
            from .spec_planar import same_strategy
            if e.choose(2, 'compare with the clamped sizes'):
                return
            args, kwargs = self.again(a)
            e.prove('behaves as with the clamped sizes', same_strategy(
                r, fn(*args, **kwargs)), 'post', {'C01'})
            raise PathEnd

    # -- verification ------------------------------------------------------
    def verify(self, loader, budget_s=120., pending=None, slice_s=None):
        """Obligations of the body along the paths below the prefixes."""
        e = Engine(budget_s=budget_s)
        module, _, name = self.key.partition('.')
        m = loader.load('hypothesis_geometry.planar' if module == 'planar'
                        else loader.package + '.' + module)
        owner, _, method = name.rpartition('.')
        cls = m.__dict__.get(owner)
        inside = vars(m if cls is None else getattr(cls, 'real', cls))
        if method not in inside:
            raise Unsupported(f'{self.key} does not exist')
        if self.key in loader.mismatched:
            raise Unsupported(f'{self.key} has other parameters')
        fn = inside[method]
        fn = getattr(fn, '__func__', fn)     # of a class method
        signature = inspect.signature(getattr(fn, 'real', fn))
        loader.target, e.loader = self.key, loader

        def run():
            e.warned, e.light = [], None
            e.touched = []
            args, kwargs = self.args()
            bound = signature.bind(*args, **kwargs)
            bound.apply_defaults()
            a = Args(dict(bound.arguments))
            if self.requires is not None:
                for name_, f in self.requires(a):
                    e.assume(f)
            e.reach('preconditions')
            try:
                try:
                    r = fn(*args, **kwargs)
                except Exception as ex:
                    if self.refusal(e, a, ex):
                        return
                    raise
                self.accepted(e, a, fn, r)
                if self.draws:
                    if not isinstance(r, SearchStrategy):
                        e.fail('result is a strategy')
                        return
                    r = r.draw()
            except Exception as ex:
                import traceback
                where = traceback.extract_tb(ex.__traceback__)
                lines = [f'{t.name}:{t.lineno}' for t in where
                         if 'hypothesis_geometry' in t.filename]
                if not isinstance(ex, NoneError) and isinstance(ex, (
                        AttributeError, TypeError, NameError,
                        NotImplementedError, ImportError, z3.Z3Exception)
                        ) or 'hgv/deduct/spec' in where[-1].filename:
                    # a stand-in without the attribute, for instance
                    raise Unsupported(f'{type(ex).__name__}: {ex} '
                                      f'({where[-1].name}:'
                                      f'{where[-1].lineno})')
                e.fail(f'no exception ({type(ex).__name__}: {ex} at '
                       f'{" ".join(lines[-2:])})')
                return
            e.reach('postconditions')
            if self.ensures is not None:
                try:
                    posts = self.ensures(a, r)
                except (AttributeError, TypeError) as ex:
                    raise Unsupported(f'result has another shape: {ex}')
                for name_, props, f in posts:
                    e.prove(f'{name_}', f, 'post', props)

        before = state(loader)
        try:
            e.left = e.explore(run, self.key, pending, slice_s)
        finally:
            loader.target = None
        if state(loader) != before:
            raise Unsupported(f'{self.key} changes the state of a module')
        return e
