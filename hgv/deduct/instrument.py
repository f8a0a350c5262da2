"""Loads /repo's real sources, instrumented, with symbolic builtins.

What the extraction changes (and nothing else): annotations are dropped;
comprehensions, list displays, starred calls, subscript loads, identity and
membership tests and loops go through the runtime below; `yield` collects into
a list; names imported from dependencies are bound to the symbolic stand-ins of
stubs.py.  Statement order, expressions, control flow and names are the
repository's.
"""
import ast
import builtins
import enum
import os
import types

import z3

from . import seqs
from .core import PathEnd, Unsupported, engine
from .seqs import (SFun, SIter, SSet, Undefined, contains, equal, iterate)
from .values import (Elem, SEnum, SList, SNum, SOpt, SeqView, Sym, concrete,
                     fresh_int, ie, is_sym, merge_values, num, simple, view)


# -- transformation ------------------------------------------------------------
def name_load(n):
    return ast.Name(n, ast.Load())


def rt(attr, *args):
    return ast.Call(ast.Attribute(name_load('__rt__'), attr, ast.Load()),
                    list(args), [])


def thunk(e):
    return ast.Lambda(ast.arguments([], [], None, [], [], None, []), e)


def const(v):
    return ast.Constant(v)


def simple_args(names):
    return ast.arguments([], [ast.arg(n) for n in names], None, [], [],
                         None, [])


class Transformer(ast.NodeTransformer):
    def __init__(self, module):
        self.module = module
        self.stack = []
        self.loops = []
        self.n = 0
        self.in_function = 0
        self.kinds = {}            # function -> kinds of its loops

    # functions
    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        self.loops.append(0)
        self.in_function += 1
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [
                y for y in (a.vararg, a.kwarg) if y]:
            x.annotation = None
        node.returns = None
        is_gen = any(isinstance(x, (ast.Yield, ast.YieldFrom))
                     for s in node.body for x in own_nodes(s))
        self.in_function -= 1
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [d and self.visit(d) for d in a.kw_defaults]
        self.in_function += 1
        saved, self.gen = getattr(self, 'gen', False), is_gen
        body = []
        for s in node.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r] if r else [])
        self.gen = saved
        if is_gen:
            body = [ast.Assign([ast.Name('__out__', ast.Store())],
                               rt('lst', ast.List([], ast.Load())))
                    ] + body + [ast.Return(rt('gen', name_load('__out__')))]
        node.body = body or [ast.Pass()]
        if hasattr(node, 'type_params'):
            node.type_params = []
        self.in_function -= 1
        self.loops.pop()
        key = '.'.join([self.module] + self.stack)
        self.stack.pop()
        if self.in_function:
            return [node, ast.Assign(
                [ast.Name(node.name, ast.Store())],
                rt('local', const(key), name_load(node.name),
                   self.locals_()))]
        return node

    def visit_AsyncFunctionDef(self, node):
        raise Unsupported('async function')

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        saved, self.in_function = self.in_function, 0
        node.body = [self.visit(s) for s in node.body]
        node.body = [s for s in node.body if s is not None] or [ast.Pass()]
        self.in_function = saved
        self.stack.pop()
        return node

    def visit_Return(self, node):
        self.generic_visit(node)
        if getattr(self, 'gen', False):
            return ast.Return(rt('gen', name_load('__out__')))
        return node

    def visit_Yield(self, node):
        self.generic_visit(node)
        return ast.Call(ast.Attribute(name_load('__out__'), 'append',
                                      ast.Load()),
                        [node.value or const(None)], [])

    def visit_YieldFrom(self, node):
        self.generic_visit(node)
        return ast.Call(ast.Attribute(name_load('__out__'), 'extend',
                                      ast.Load()), [node.value], [])

    def visit_Lambda(self, node):
        self.in_function += 1
        saved, self.gen = getattr(self, 'gen', False), False
        self.generic_visit(node)
        self.gen = saved
        self.in_function -= 1
        return node

    def visit_AnnAssign(self, node):
        if node.value is None:
            return None if not isinstance(node.target, ast.Name) else (
                ast.Pass())
        return self.visit(ast.copy_location(
            ast.Assign([node.target], node.value), node))

    # loops
    def loop_key(self, kind):
        k = self.loops[-1]
        self.loops[-1] += 1
        key = '.'.join(self.stack)
        self.kinds.setdefault(f'{self.module}.{key}', []).append(kind)
        return key, k

    def visit_For(self, node):
        if not self.in_function:
            self.generic_visit(node)
            return node
        key, k = self.loop_key('for')
        assigned = sorted(stored(node.body))
        it = self.visit(node.iter)
        self.n += 1
        v = f'__l{self.n}__'
        target = node.target
        body = self.block(node.body)
        orelse = self.block(node.orelse)
        out = [ast.Assign([ast.Name(v, ast.Store())],
                          rt('for_loop', const(f'{self.module}.{key}'),
                             const(k), it, self.locals_(),
                             const(tuple(assigned))))]
        out += self.enter(v, assigned)
        loop = ast.While(
            ast.Call(ast.Attribute(name_load(v), 'head', ast.Load()),
                     [self.locals_()], []),
            [assign_to(self, target,
                       ast.Call(ast.Attribute(name_load(v), 'item',
                                              ast.Load()), [], []))]
            + body, orelse)
        out.append(loop)
        return out

    def visit_While(self, node):
        if not self.in_function:
            self.generic_visit(node)
            return node
        key, k = self.loop_key('while')
        assigned = sorted(stored(node.body) | stored([node.test]))
        self.n += 1
        v = f'__l{self.n}__'
        test = self.visit(node.test)
        body = self.block(node.body)
        orelse = self.block(node.orelse)
        out = [ast.Assign([ast.Name(v, ast.Store())],
                          rt('while_loop', const(f'{self.module}.{key}'),
                             const(k), self.locals_(),
                             const(tuple(assigned))))]
        out += self.enter(v, assigned)
        out.append(ast.While(
            ast.BoolOp(ast.And(), [
                ast.Call(ast.Attribute(name_load(v), 'head', ast.Load()),
                         [self.locals_()], []), test]),
            body, orelse))
        return out

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r] if r else [])
        return out

    def locals_(self):
        return ast.Call(name_load('locals'), [], [])

    def enter(self, v, assigned):
        if not assigned:
            return [ast.Expr(ast.Call(
                ast.Attribute(name_load(v), 'enter', ast.Load()), [], []))]
        inner = ast.Assign(
            [ast.Tuple([ast.Name(n, ast.Store()) for n in assigned],
                       ast.Store())],
            ast.Call(ast.Attribute(name_load(v), 'enter', ast.Load()),
                     [], []))
        return [ast.If(ast.Attribute(name_load(v), 'cut', ast.Load()),
                       [inner], [])]

    # expressions
    def visit_ListComp(self, node):
        return self.comp(node, 'list')

    def visit_SetComp(self, node):
        return self.comp(node, 'set')

    def visit_GeneratorExp(self, node):
        return self.comp(node, 'gen')

    def visit_DictComp(self, node):
        return self.comp(ast.copy_location(ast.GeneratorExp(
            ast.Tuple([node.key, node.value], ast.Load()), node.generators),
            node), 'dict', node)

    def comp(self, node, kind, original=None):
        if not self.in_function:
            return original or node
        if len(node.generators) != 1 or node.generators[0].is_async:
            node = original or node
            self.generic_visit(node)
            return node
        g = node.generators[0]
        it = self.visit(g.iter)
        elt = self.visit(node.elt)
        fn = self.target_lambda(g.target, elt)
        args = [const(kind), fn, it]
        if g.ifs:
            cond = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(
                ast.And(), g.ifs)
            args.append(self.target_lambda(g.target, self.visit(cond)))
        return rt('comp', *args)

    def target_lambda(self, target, body):
        if isinstance(target, ast.Name):
            return ast.Lambda(simple_args([target.id]), body)
        if isinstance(target, (ast.Tuple, ast.List)):
            names = []
            for k, t in enumerate(target.elts):
                if isinstance(t, ast.Name):
                    names.append(t.id)
                elif isinstance(t, ast.Starred):
                    raise Unsupported('starred comprehension target')
                else:
                    self.n += 1
                    n = f'__t{self.n}__'
                    body = ast.Call(self.target_lambda(t, body),
                                    [name_load(n)], [])
                    names.append(n)
            self.n += 1
            inner = ast.Lambda(simple_args(dedup(names, self)), body)
            arg = f'__t{self.n}__'
            return ast.Lambda(simple_args([arg]), ast.Call(
                inner, [ast.Starred(rt('unpack', name_load(arg),
                                       const(len(names))), ast.Load())], []))
        raise Unsupported('comprehension target')

    def visit_List(self, node):
        if isinstance(node.ctx, ast.Load) and self.in_function:
            if any(isinstance(e, ast.Starred) for e in node.elts):
                return rt('display', ast.List([
                    ast.Tuple([const(isinstance(e, ast.Starred)),
                               self.visit(e.value if isinstance(
                                   e, ast.Starred) else e)], ast.Load())
                    for e in node.elts], ast.Load()))
            return rt('lst', ast.List([self.visit(e) for e in node.elts],
                                      ast.Load()))
        self.generic_visit(node)
        return node

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in (
                'locals', 'super'):
            return node
        self.generic_visit(node)
        if self.in_function and any(isinstance(a, ast.Starred)
                                    for a in node.args):
            args = ast.List([
                ast.Tuple([const(isinstance(e, ast.Starred)),
                           e.value if isinstance(e, ast.Starred) else e],
                          ast.Load()) for e in node.args], ast.Load())
            return ast.Call(
                ast.Attribute(name_load('__rt__'), 'call', ast.Load()),
                [node.func, args], node.keywords)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if self.in_function and isinstance(node.ctx, ast.Load):
            s = node.slice
            if isinstance(s, ast.Slice):
                s = ast.Call(name_load('slice'), [
                    s.lower or const(None), s.upper or const(None),
                    s.step or const(None)], [])
            return rt('getitem', node.value, s)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        special = (ast.Is, ast.IsNot, ast.In, ast.NotIn)
        if not any(isinstance(o, special) for o in node.ops):
            return node
        ops = {ast.Is: 'is_', ast.IsNot: 'is_not', ast.In: 'in_',
               ast.NotIn: 'not_in'}
        if len(node.ops) == 1:
            return rt(ops[type(node.ops[0])], node.left,
                      node.comparators[0])
        if not self.in_function:
            return node
        names = {ast.Is: 'is', ast.IsNot: 'isnot', ast.In: 'in',
                 ast.NotIn: 'notin', ast.Lt: '<', ast.LtE: '<=',
                 ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}
        return rt('chain', ast.List(
            [thunk(e) for e in [node.left] + node.comparators], ast.Load()),
            const(tuple(names[type(o)] for o in node.ops)))

    def visit_IfExp(self, node):
        pure = pure_expr(node)
        self.generic_visit(node)
        if self.in_function and pure:
            return rt('if_exp', thunk(node.test), thunk(node.body),
                      thunk(node.orelse))
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if self.in_function and len(node.targets) == 1 and isinstance(
                node.targets[0], (ast.Tuple, ast.List)):
            return assign_to(self, node.targets[0], node.value)
        return node


def pure_expr(node):
    """Names, constants, comparisons, arithmetic, min, max, len."""
    if isinstance(node, ast.Call):
        if not isinstance(node.func, ast.Name) or node.func.id not in (
                'min', 'max', 'len', 'abs') or node.keywords:
            return False
        return all(pure_expr(a) for a in node.args)
    if isinstance(node, (ast.Name, ast.Constant)):
        return True
    if isinstance(node, (ast.IfExp, ast.Compare, ast.BoolOp, ast.BinOp,
                         ast.UnaryOp)):
        return all(pure_expr(c) for c in ast.iter_child_nodes(node)
                   if isinstance(c, ast.expr))
    return False


def own_nodes(node):
    """Nodes of a statement without nested functions."""
    if isinstance(node, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
        return
    yield node
    for c in ast.iter_child_nodes(node):
        yield from own_nodes(c)


def dedup(names, tr):
    out = []
    for n in names:
        if n in out:
            tr.n += 1
            n = f'__d{tr.n}__'
        out.append(n)
    return out


def assign_to(tr, target, value):
    """Assignment with unpacking through the runtime."""
    if isinstance(target, (ast.Tuple, ast.List)) and not isinstance(
            value, ast.Tuple):
        stars = [k for k, t in enumerate(target.elts)
                 if isinstance(t, ast.Starred)]
        if stars:
            k = stars[0]
            plain = [t.value if isinstance(t, ast.Starred) else t
                     for t in target.elts]
            return ast.Assign([ast.Tuple(plain, ast.Store())],
                              rt('unpack_star', value, const(k),
                                 const(len(plain) - k - 1)))
        return ast.Assign([target], rt('unpack', value,
                                       const(len(target.elts)),
                                       const(any(isinstance(
                                           t, (ast.Tuple, ast.List))
                                           for t in target.elts))))
    return ast.Assign([target], value)


def stored(stmts):
    names = set()
    for s in stmts:
        for n in own_nodes_all(s):
            if isinstance(n, ast.Name) and isinstance(
                    n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                names.add(n.name)
    return {n for n in names if not n.startswith('__')}


def own_nodes_all(node):
    yield node
    if isinstance(node, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                         ast.ListComp, ast.SetComp, ast.GeneratorExp,
                         ast.DictComp)):
        return
    for c in ast.iter_child_nodes(node):
        yield from own_nodes_all(c)


# -- runtime -------------------------------------------------------------------
class Runtime:
    def __init__(self, loader):
        self.loader = loader

    def local(self, key, f, env):
        c = self.loader.contracts.get(key)
        if c is None or not callable(f):
            return f
        return c.wrap(f, self.loader, env)

    @staticmethod
    def lst(values):
        return SList(values)

    @staticmethod
    def gen(out):
        return SIter(out)

    @staticmethod
    def display(items):
        parts = []
        for starred, v in items:
            parts.extend(iterate(v).parts if starred else [Elem(v)])
        return SList(SeqView(parts))

    @staticmethod
    def comp(kind, f, it, pred=None):
        return seqs.comp(kind, f, it, pred)

    @staticmethod
    def call(f, items, **kw):
        args = []
        symbolic = None
        for starred, v in items:
            if not starred:
                args.append(v)
                continue
            if isinstance(v, (tuple, list)):
                args.extend(v)
                continue
            w = iterate(v)
            c = w.expanded()
            if c is not None:
                args.extend(c.values)
            elif getattr(f, 'accepts_star', False) and len(items) == 1:
                symbolic = w
            else:
                raise Unsupported('call with a symbolic number of arguments')
        if symbolic is not None:
            return f.star(symbolic, **kw)
        return f(*args, **kw)

    @staticmethod
    def getitem(a, i):
        if isinstance(a, (list, tuple, range)) and is_sym(i):
            return view(a).get(i)
        if isinstance(a, (list, tuple)) and isinstance(i, slice) and any(
                is_sym(x) for x in (i.start, i.stop, i.step)):
            return view(a).slice(i)
        if isinstance(a, dict) and isinstance(i, SNum):
            for k, v in a.items():
                if i == k:
                    return v
            raise KeyError(i)
        return a[i]

    @staticmethod
    def unpack(v, n, nested=False):
        if isinstance(v, tuple) and len(v) == n:
            return v
        w = iterate(v) if not isinstance(v, tuple) else view(v)
        m = w.length()
        if isinstance(m, SNum) and not engine().entailed(m.e == n):
            if not (m == n):
                raise ValueError('wrong number of values to unpack')
        elif not isinstance(m, SNum) and m != n:
            raise ValueError('wrong number of values to unpack')
        return tuple(w.at(z3.IntVal(i)) for i in range(n))

    @staticmethod
    def unpack_star(v, before, after):
        w = iterate(v)
        n = w.length()
        if n < before + after:
            raise ValueError('not enough values to unpack')
        head = [w.get(i) for i in range(before)]
        tail = [w.get(i - after) for i in range(after)]
        mid = SList(w.slice(slice(before, n - after)))
        return tuple(head + [mid] + tail)

    @staticmethod
    def if_exp(test, body, orelse):
        e = engine()
        value = lambda: body() if test() else orelse()
        if e is None or not e.solving():
            return value()
        try:
            cases = e.merge(value)
        except Unsupported:
            return value()
        values = [v for _, v in cases]
        if len(cases) == 1 and values[0] is None:
            return None
        if all(v is None or isinstance(v, (int, SNum, SOpt))
               and not isinstance(v, bool) for v in values):
            return merge_values(cases)
        return value()

    @staticmethod
    def is_(a, b):
        if isinstance(a, SOpt) and b is None:
            return a.is_none()
        if isinstance(b, SOpt) and a is None:
            return b.is_none()
        if isinstance(a, SEnum) or isinstance(b, SEnum):
            if not all(isinstance(v, (enum.Enum, SEnum)) for v in (a, b)):
                return False
            return engine().branch(ie(a) == ie(b))
        if isinstance(a, SFun) or isinstance(b, SFun):
            if isinstance(b, SFun) and not isinstance(a, SFun):
                a, b = b, a
            if isinstance(b, SFun):
                raise Unsupported('identity of two choices')
            return a.resolve() is b
        if hasattr(a, 'same') and type(a) is type(b):
            return a.same(b)
        return a is b or getattr(a, 'identity', a) is getattr(
            b, 'identity', b)

    def is_not(self, a, b):
        return not self.is_(a, b)

    @staticmethod
    def in_(a, b):
        if isinstance(b, SSet):
            return b.__contains__(a)
        if isinstance(b, (SList, SeqView)) or (
                is_sym(a) and isinstance(b, (list, tuple))):
            return contains(view(b), a)
        return a in b

    def not_in(self, a, b):
        return not self.in_(a, b)

    def chain(self, thunks, ops):
        left = thunks[0]()
        for t, o in zip(thunks[1:], ops):
            right = t()
            if o == 'is':
                r = self.is_(left, right)
            elif o == 'isnot':
                r = not self.is_(left, right)
            elif o == 'in':
                r = self.in_(left, right)
            elif o == 'notin':
                r = not self.in_(left, right)
            else:
                r = {'<': lambda: left < right, '<=': lambda: left <= right,
                     '>': lambda: left > right, '>=': lambda: left >= right,
                     '==': lambda: left == right,
                     '!=': lambda: left != right}[o]()
            if not r:
                return r
            left = right
        return True

    def for_loop(self, key, k, iterable, env, assigned):
        if isinstance(iterable, (list, tuple, range, dict, set)):
            return ConcreteLoop(builtins.list(iterable))
        if isinstance(iterable, seqs.SCycle):
            raise Unsupported('loop over cycle()')
        v = iterate(iterable)
        c = v.expanded()
        spec = self.loader.loop_spec(key, k)
        if c is not None and (spec is None or len(c.parts) <= 2):
            return ConcreteLoop(c.values)
        if spec is None:
            raise Unsupported(f'loop without a contract in {key}')
        return self.scoped(CutFor(spec, v, env, assigned, key))

    def while_loop(self, key, k, env, assigned):
        spec = self.loader.loop_spec(key, k)
        if spec is None:
            return UnrolledWhile(key)
        return self.scoped(CutWhile(spec, env, assigned, key))

    def scoped(self, loop):
        short = loop.key.partition('.')[0]
        for name, m in self.loader.modules.items():
            if name.split('.')[-1] == short:
                loop.globals = m.__dict__
        return loop


class ConcreteLoop:
    cut = False

    def __init__(self, values):
        self.values, self.k = values, 0

    def head(self, env):
        return self.k < len(self.values)

    def item(self):
        self.k += 1
        return self.values[self.k - 1]

    def enter(self):
        return ()


class UnrolledWhile:
    cut = False

    def __init__(self, key):
        self.key, self.n = key, 0

    def head(self, env):
        self.n += 1
        if self.n > 40:
            raise Unsupported(f'loop without a contract in {self.key}')
        return True

    def enter(self):
        return ()


class LoopSpec:
    """Contract of a loop; `fn(L)` declares it through L's methods."""

    kinds = None                   # of all the loops of the function

    def __init__(self, fn):
        self.fn = fn


class Cut:
    cut = True

    def __init__(self, spec, env, assigned, key):
        self.spec, self.env0, self.assigned = spec, dict(env), assigned
        self.key = key
        self.k = z3.IntVal(0)
        self.phase = 0
        self.notes = {}            # of the contract

    def declare(self, env):
        d = Declared(self, env)
        try:
            self.spec.fn(d)
        except KeyError as error:
            raise Unsupported(f'loop contract of {self.key}: no variable '
                              f'{error}')
        return d

    def prove_all(self, when, env):
        d = self.declare(env)
        for name, props, f in d.invariants(env, self.k):
            engine().prove(f'loop invariant {when}: {name}', f,
                           'invariant', props)
        return d

    def enter_common(self):
        e = engine()
        d = self.prove_all('on entry', self.env0)
        e.__dict__.setdefault('touched', [])
        self.born = SList.born
        values = {}
        for name in self.assigned:
            old = self.env0.get(name, Undefined)
            if name in d.havocs:
                values[name] = d.havocs[name](old)
            elif old is Undefined:
                values[name] = Undefined()
            elif hasattr(old, 'havoc') and name in d.lists:
                values[name] = old
            else:
                values[name] = Undefined()
        self.declared_lists = []
        for name, make in d.lists.items():
            lst = self.env0[name]
            if not hasattr(lst, 'havoc'):
                raise Unsupported(f'{name} is of another type')
            lst.havoc(make)
            self.declared_lists.append(lst)
        env = {**self.env0, **values}
        d2 = self.declare(env)
        self.env = env
        for name, props, f in d2.invariants(env, self.k):
            e.assume(f)
        for f in d2.facts(env, self.k):
            e.assume(f)
        if not e.feasible():
            raise PathEnd
        self.mark = len(e.touched)
        return tuple(values[n] for n in self.assigned)

    def end_iteration(self, env):
        e = engine()
        d = self.declare(env)
        d.ghost(env)
        declared = self.declared_lists
        for lst in e.touched[self.mark:]:
            if lst.serial <= self.born and not any(
                    lst is x for x in declared):
                raise Unsupported(f'{self.key}: the loop changes an object '
                                  f'its contract does not list')
        for name, props, f in d.invariants(env, self.next_k()):
            e.prove(f'loop invariant preserved: {name}', f, 'invariant',
                    props)
        m0, m1 = self.measure0, d.measure(env, self.next_k())
        if m0 is not None and m1 is not None:
            e.prove('loop variant decreases',
                    z3.And(m1 >= 0, m1 < m0), 'variant', {'C06'})
        raise PathEnd


class CutFor(Cut):
    def __init__(self, spec, v, env, assigned, key):
        super().__init__(spec, env, assigned, key)
        self.view = v
        self.n = ie(v.length())

    def enter(self):
        e = engine()
        self.exit = bool(e.choose(2, 'loop exit'))
        saved = self.k
        # entry obligations speak about k = 0
        d = self.prove_entry()
        self.k = self.n if self.exit else fresh_int('iter', 0).e
        if not self.exit:
            e.assume(self.k < self.n)
        else:
            e.assume(self.n >= 0)
        return self.havoc(d)

    def prove_entry(self):
        if not self.exit:
            return self.prove_all('on entry', self.env0)
        return self.declare(self.env0)

    def havoc(self, d):
        self.prove_all_saved = self.prove_all
        self.prove_all = lambda when, env: d
        try:
            return self.enter_common()
        finally:
            self.prove_all = self.prove_all_saved

    def next_k(self):
        return z3.simplify(self.k + 1)

    def head(self, env):
        if self.phase == 0:
            self.phase = 1
            if self.exit:
                return False
            self.measure0 = None
            return True
        self.end_iteration(env)

    def item(self):
        return self.view.at(self.k)


class CutWhile(Cut):
    def enter(self):
        r = self.enter_common()
        self.measure0 = self.declare(self.env).measure(self.env, self.k)
        return r

    def next_k(self):
        return self.k

    def head(self, env):
        if self.phase == 0:
            self.phase = 1
            return True
        self.end_iteration(env)


class Declared:
    """What a loop contract declares (see contracts*.py)."""

    def __init__(self, loop, env):
        self.loop, self.env = loop, env
        self.entry = loop.env0
        self.n = getattr(loop, 'n', None)
        self.view = getattr(loop, 'view', None)
        self.havocs, self.lists = {}, {}
        self._inv, self._facts, self._ghost = [], [], []
        self._measure = None
        self.globals = getattr(loop, 'globals', {})
        self.notes = loop.notes

    def havoc(self, name, make):
        if name not in self.env and name not in self.loop.assigned:
            raise KeyError(name)
        self.havocs[name] = make

    def mutate(self, name, make):
        if name not in self.entry:
            raise KeyError(name)
        self.lists[name] = make

    def inv(self, name, f, props=()):
        self._inv.append((name, set(props), f))

    def fact(self, f):
        self._facts.append(f)

    def on_end(self, f):
        self._ghost.append(f)

    def variant(self, f):
        self._measure = f

    def invariants(self, env, k):
        return [(n, p, f(env, k)) for n, p, f in self._inv]

    def facts(self, env, k):
        return [f(env, k) for f in self._facts]

    def ghost(self, env):
        for f in self._ghost:
            f(env)

    def measure(self, env, k):
        return None if self._measure is None else self._measure(env, k)


# -- loader ------------------------------------------------------------------
class Loader:
    """One instrumented copy of hypothesis_geometry's modules."""

    def __init__(self, repo, stubs, contracts=None, loops=None,
                 classes=None):
        self.repo, self.stubs = repo, stubs
        self.classes = classes or {}    # stand-ins of the package's classes
        self.contracts = contracts or {}
        self.loops = loops or {}
        self.modules = {}
        self.kinds = {}
        self.rt = Runtime(self)
        self.sources = {}
        self.builtins = dict(vars(builtins))
        self.builtins.update(seqs.BUILTINS)
        self.builtins['__import__'] = self.import_

    def loop_spec(self, key, k):
        spec = self.loops.get((key, k))
        if spec is not None and spec.kinds is not None and (
                self.kinds.get(key) != spec.kinds):
            # not the loops the contract was written for
            return None
        return spec

    def path(self, name):
        base = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(base):
            return os.path.join(base, '__init__.py')
        return base + '.py'

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path = self.path(name)
        with open(path) as f:
            source = f.read()
        self.sources[name] = source
        short = name.split('.')[-1]
        tree = ast.parse(source)
        transformer = Transformer(short)
        tree = transformer.visit(tree)
        self.kinds.update(transformer.kinds)
        ast.fix_missing_locations(tree)
        code = compile(tree, path, 'exec', dont_inherit=True)
        m = types.ModuleType('hgv_sym.' + name)
        m.__dict__['__builtins__'] = self.builtins
        m.__dict__['__rt__'] = self.rt
        m.__dict__['__package__'] = name.rpartition('.')[0] if not (
            path.endswith('__init__.py')) else name
        m.__dict__['__hgv__'] = name
        self.modules[name] = m
        exec(code, m.__dict__)
        for k, v in list(m.__dict__.items()):
            full = f'{short}.{k}'
            if full in self.classes and isinstance(v, type):
                m.__dict__[k] = self.classes[full](v)
            if full in self.contracts and callable(v) and getattr(
                    v, '__module__', None) == m.__name__:
                m.__dict__[k] = self.contracts[full].wrap(v, self)
            if isinstance(v, type):
                self.wrap_methods(full, v)
        return m

    def wrap_methods(self, full, cls):
        for name, f in list(vars(cls).items()):
            contract = self.contracts.get(f'{full}.{name}')
            if contract is None:
                continue
            if isinstance(f, classmethod):
                setattr(cls, name, classmethod(contract.wrap(
                    f.__func__, self)))
            elif isinstance(f, types.FunctionType):
                setattr(cls, name, contract.wrap(f, self))

    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            package = globals['__package__'].split('.')
            package = package[:len(package) - level + 1]
            full = '.'.join(package + ([name] if name else []))
            m = self.stubs.get(full) or self.load(full)
            for f in fromlist or ():
                if not hasattr(m, f):
                    try:
                        setattr(m, f, self.load(full + '.' + f))
                    except FileNotFoundError:
                        raise ImportError(f)
            return m
        if name.split('.')[0] == 'hypothesis_geometry':
            m = self.load(name)
            return m
        m = self.stubs.get(name)
        if m is not None:
            return m
        root = name.split('.')[0]
        if root in self.stubs and not fromlist:
            return self.stubs[root]
        if root in ('typing', 'typing_extensions', 'collections', 'enum',
                    'functools', 'operator', 'abc', 'math', 'random',
                    'numbers', 'fractions', 'decimal', '__future__',
                    'types', 'contextlib', 'dataclasses'):
            return __import__(name, globals, locals, fromlist, level)
        raise Unsupported(f'import of {name}')
