"""Sequence operations and the builtins seen by the instrumented code."""
import builtins
import functools
import itertools

import z3

from .core import (PathEnd, Unsupported, _vars_in, engine, forall,
                   index_context)
from .values import (Block, Elem, INT, REAL, SList, SNum, SOpt, SeqView, Sym,
                     born, each_pair, touch,
                     concrete, decide, each, fresh_index, fresh_int, ie,
                     is_sym, leaves, merge_values, num, reverse, simple,
                     subst, view)


class Undefined:
    """Value of a variable after a loop that does not promise anything."""

    def _no(self, *a, **k):
        raise Unsupported('use of a variable the loop contract leaves open')

    __getattr__ = __call__ = __iter__ = __len__ = __getitem__ = _no
    __add__ = __radd__ = __sub__ = __lt__ = __eq__ = __bool__ = _no
    __hash__ = None


class SFun(Sym):
    """One of several Python objects, chosen by a tag."""
    FIELDS = ('tag',)

    def __init__(self, tag, options):
        self.tag, self.options = tag, options

    def resolve(self):
        e = engine()
        for i, o in enumerate(self.options[:-1]):
            if decide(e, self.tag.e == i):
                return o
        return self.options[-1]

    def __call__(self, *a, **k):
        return self.resolve()(*a, **k)


class SIter:
    """A (finite) iterator over a sequence."""

    def __init__(self, values):
        self.view, self.pos = view(values), 0

    def __iter__(self):
        return self

    def __next__(self):
        n = self.view.length()
        if not (self.pos < n):
            raise StopIteration
        v = self.view.get(self.pos)
        self.pos = self.pos + 1
        return v

    def rest(self):
        return self.view.slice(slice(self.pos, None))


class SCycle:
    """itertools.cycle of a non-empty sequence: any element of it."""

    def __init__(self, values):
        self.view = view(values)

    def __next__(self):
        n = ie(self.view.length())
        i = fresh_int('cycle', 0)
        if not decide(engine(), n > 0):
            raise StopIteration
        engine().assume(i.e < n)
        return self.view.at(i.e)

    def __iter__(self):
        raise Unsupported('loop over cycle()')


class SRepeat:
    def __init__(self, value):
        self.value = value

    def __iter__(self):
        return itertools.repeat(self.value)


class SSet:
    """An unordered collection: the elements of a view (repeats allowed) and
    those satisfying one of the predicates."""
    __hash__ = None

    def __init__(self, values=(), preds=()):
        born(self)
        self.view, self.preds = view(values), tuple(preds)
        self.distinct = None       # the elements, each once, in any order

    def _touch(self):
        touch(self)
        self.distinct = None

    def havoc(self, make):
        """Replaced by an arbitrary set with the given membership."""
        self.view, self.preds, self.distinct = SeqView([]), (make(self),), None

    def add(self, v):
        self._touch()
        self.view = SeqView(self.view.parts + [Elem(v)])

    def update(self, *vs):
        self._touch()
        for v in vs:
            if isinstance(v, SSet):
                self.preds += v.preds
                v = v.view
            self.view = SeqView(self.view.parts + iterate(v).parts)

    def member(self, x):
        """Formula."""
        return z3.Or(*[p(x) for p in self.preds], z3.Not(each(
            self.view, lambda y, _: z3.Not(equal(y, x)))))

    def __contains__(self, v):
        return engine().branch(self.member(v))

    def __iter__(self):
        raise Unsupported('iteration over a set')

    def __bool__(self):
        if self.preds:
            raise Unsupported('truth of a set')
        return bool(self.view)

    def __sub__(self, o):
        if not isinstance(o, SSet):
            return NotImplemented
        e = engine()
        b = flat(self.view)
        if self.preds or b is None or e.ctx or e.merges:
            raise Unsupported('set difference')
        n = fresh_int('ndiff', 0).e
        pick = z3.Function(e.name('diff'), INT, INT)
        inv = z3.Function(e.name('diff_inv'), INT, INT)
        i = fresh_index('q')
        e.assume(forall([i], z3.Implies(
            z3.And(i >= 0, i < n), z3.And(
                pick(i) >= 0, pick(i) < b.size, inv(pick(i)) == i,
                z3.Not(o.member(b.at(pick(i)))))), [pick(i)]))
        k = fresh_index('k')
        with index_context(k, z3.And(k >= 0, k < n)):
            template = rename(b.at(pick(k)), [(z3.Int('unused'),
                                               z3.IntVal(0))])
        r = Block(n, k, template)
        # nothing is lost
        j = fresh_index('q')
        x = b.at(j)
        apps = [a for a in leaves(x) if z3.is_app(a)
                and a.decl().kind() == z3.Z3_OP_UNINTERPRETED
                and a.num_args() == 1 and a.arg(0).eq(j)]
        if not apps:
            raise Unsupported('set difference')
        e.assume(forall([j], z3.Implies(
            z3.And(j >= 0, j < b.size, z3.Not(o.member(x))),
            z3.And(inv(j) >= 0, inv(j) < n, pick(inv(j)) == j,
                   equal(r.at(inv(j)), x))), [apps[0]]))
        result = SSet(SeqView([r]))
        different = each_pair(self.view, lambda x, y: z3.Not(equal(x, y)))
        if not e.entailed(different):
            raise Unsupported('difference of a set given with repeats')
        result.distinct = result.view
        if not o.preds:
            e.assume(n >= b.size - ie(o.view.length()))
        return result


# -- blocks ------------------------------------------------------------------
def flat(v):
    """One block equivalent to the whole view (or None when empty)."""
    v = view(v)
    if len(v.parts) == 1 and isinstance(v.parts[0], Block):
        return v.parts[0]
    if not v.parts:
        return None
    j = fresh_index('p')
    cases, start = [], z3.IntVal(0)
    parts = v.parts
    value = None
    bounds = []
    for p in parts:
        end = z3.simplify(start + p.size)
        bounds.append((start, end, p))
        start = end
    values = []
    for n, (s, e, p) in enumerate(bounds):
        el = p.value if isinstance(p, Elem) else p.at(z3.simplify(j - s))
        values.append(el)
    values = unify(values)
    cases = [([j < bounds[n][1]], x) for n, x in enumerate(values)]
    return Block(z3.simplify(ie(v.length())), j, merge_values(cases))


def unify(values):
    """Makes callables in otherwise equal shapes tagged choices."""
    first = values[0]
    if all(isinstance(x, tuple) and len(x) == len(first) for x in values):
        cols = [unify([x[i] for x in values]) for i in range(len(first))]
        return [tuple(c[k] for c in cols) for k in range(len(values))]
    if any(callable(x) and not isinstance(x, Sym) for x in values):
        if all(x is first for x in values):
            return values
        options = []
        for x in values:
            if isinstance(x, SFun):
                raise Unsupported('nested choice')
            if not any(x is o for o in options):
                options.append(x)
        options = tuple(options)
        return [SFun(SNum(z3.IntVal(next(
            i for i, o in enumerate(options) if o is x))), options)
            for x in values]
    return values


def rename(template, pairs, base='e', also=None):
    """template[pairs] with fresh names for its leaves."""
    e = engine()

    def go(v):
        if isinstance(v, SNum):
            old = z3.substitute(v.e, *pairs)
            if z3.is_int_value(old) or z3.is_rational_value(old):
                return SNum(old)
            new = e.fresh(base, old.sort())
            e.assume(new == old if also is None else z3.And(new == old, also))
            return SNum(new)
        if isinstance(v, tuple):
            return tuple(go(x) for x in v)
        if isinstance(v, Sym):
            return v.rebuild(go)
        if isinstance(v, SeqView):
            return subst(v, pairs)
        return subst(v, pairs)

    return go(template)


def prefix(block):
    """Prefix-sum function of a block of integers."""
    e = engine()
    if 'prefix' not in block.tags:
        if not isinstance(block.template, (SNum, int)):
            raise Unsupported('sum of non-numbers')
        if e.ctx:
            raise Unsupported('sum in an index context')
        f = z3.Function(e.name('psum'), INT, INT)
        t = num(block.template).e
        if not z3.is_int(t):
            raise Unsupported('sum of scalars')
        j = block.var
        e.assume(f(z3.IntVal(0)) == 0)
        lo = block.off
        el = num(block.at(j)).e
        e.assume(forall([j], z3.Implies(
            z3.And(j >= 0, j < block.size), f(j + 1) == f(j) + el)))
        block.tags['prefix'] = f
        if e.entailed(forall([j], z3.Implies(
                z3.And(j >= 0, j < block.size), el >= 0)), ms=2000):
            # prefix sums of non-negative numbers are monotone (induction)
            i = fresh_index('q')
            e.assume(forall([i, j], z3.Implies(
                z3.And(i >= 0, i <= j, j <= block.size), f(i) <= f(j)),
                [z3.MultiPattern(f(i), f(j))]))
    return block.tags['prefix']


def block_total(block):
    if 'total' in block.tags:
        return block.tags['total']
    t = block.template
    if isinstance(t, (int,)) or (isinstance(t, SNum) and not _vars_in(
            t.e, {block.var.get_id()})):
        r = ie(t) * block.size
    else:
        e = engine()
        r = e.fresh('total', INT)
        e.assume(r == prefix(block)(block.size))
        bound = drawn_bounds(block)
        if bound is not None:
            # induction over the elements
            lo, hi = bound
            for b, le in ((lo, lambda p: p <= r), (hi, lambda p: r <= p)):
                if b is not None:
                    e.assume(le((num(b) * SNum(block.size)).e))
    block.tags['total'] = r
    return r


def drawn_bounds(block):
    """Bounds of independently drawn integers, when they are uniform."""
    t = block.template
    if not isinstance(t, SNum) or not z3.is_app(t.e):
        return None
    return engine().__dict__.setdefault('drawn', {}).get(
        t.e.decl().name()) if t.e.num_args() == 1 else None


def total(v):
    """Sum of an integer sequence (z3 term)."""
    r = z3.IntVal(0)
    for p in view(v).parts:
        r = r + (ie(p.value) if isinstance(p, Elem) else block_total(p))
    return z3.simplify(r)


def lower_bound_total(v, k):
    """Fact: elements are all >= k, hence total >= k * size (induction)."""
    e = engine()
    v = view(v)
    if e.entailed(each(v, lambda x, _: ie(x) >= ie(k)), ms=8000):
        e.assume(total(v) >= ie(k) * ie(v.length()))
        return True
    return False


def permuted(v, base='perm'):
    """A fresh permutation of the sequence."""
    e = engine()
    v = view(v)
    c = v.expanded() if not v.is_concrete else v
    if c is not None and len(c.parts) <= 1:
        return c
    b = flat(v)
    n = b.size
    f = z3.Function(e.name(base), INT, INT)
    g = z3.Function(e.name(base + '_inv'), INT, INT)
    j = fresh_index('k')
    inside = lambda t: z3.And(t >= 0, t < n)
    e.assume(forall([j], z3.Implies(inside(j), z3.And(
        inside(f(j)), g(f(j)) == j)), [f(j)]))
    e.assume(forall([j], z3.Implies(inside(j), z3.And(
        inside(g(j)), f(g(j)) == j)), [g(j)]))
    with index_context(j, inside(j)):
        template = rename(b.at(f(j)), [(z3.Int('unused'), z3.IntVal(0))])
    # the inverse is triggered by elements of the original sequence
    i = fresh_index('k')
    apps = [a for a in leaves(b.at(i)) if z3.is_app(a)
            and a.decl().kind() == z3.Z3_OP_UNINTERPRETED
            and a.num_args() == 1 and a.arg(0).eq(i)]
    for a in apps[:2]:
        e.assume(forall([i], z3.Implies(inside(i), z3.And(
            inside(g(i)), f(g(i)) == i)), [a]))
    r = Block(n, j, template)
    r.tags['perm'] = (f, g, b)
    if len(v.parts) == 1 and 'range' in b.tags:
        r.tags['range'] = b.tags['range']
    if isinstance(b.template, (SNum, int)) and num(b.template).is_int and (
            not e.ctx):
        r.tags['total'] = total(v)
    if isinstance(template, tuple) and isinstance(template[0], SFun):
        r.tags['by_tag'] = tag_sums(v, r)
    return SeqView([r])


def tag_sums(v, r):
    """Per-tag sums and counts of (choice, number) pairs: a permutation has
    those of the original; prefix functions for use in loop contracts."""
    e = engine()
    options = r.template[0].options
    result, steps = [], []
    for o in options:
        tot, cnt = z3.IntVal(0), z3.IntVal(0)
        for p in v.parts:
            t = p.value if isinstance(p, Elem) else p.template
            if t[0] is not o:
                continue
            if isinstance(p, Elem):
                tot, cnt = tot + ie(t[1]), cnt + 1
            else:
                q = Block(p.size, p.var, t[1], p.off, p.tags.get('second'))
                tot, cnt = tot + block_total(q), cnt + p.size
        f = z3.Function(e.name('tsum'), INT, INT)
        c = z3.Function(e.name('tcnt'), INT, INT)
        j = fresh_index('k')
        el = r.at(j)
        k = next(i for i, x in enumerate(options) if x is o)
        is_k = el[0].tag.e == k
        e.assume(z3.And(f(0) == 0, c(0) == 0))
        e.assume(forall([j], z3.Implies(z3.And(j >= 0, j < r.size), z3.And(
            f(j + 1) == f(j) + z3.If(is_k, ie(el[1]), 0),
            c(j + 1) == c(j) + z3.If(is_k, 1, 0)))))
        e.assume(z3.And(f(r.size) == tot, c(r.size) == cnt))
        # sums of non-negative numbers are monotone (induction)
        grows = e.entailed(forall([j], z3.Implies(
            z3.And(j >= 0, j < r.size), ie(el[1]) >= 0)), ms=2000)
        if grows:
            i = fresh_index('q')
            for g in (f, c):
                e.assume(forall([i, j], z3.Implies(
                    z3.And(i >= 0, i <= j, j <= r.size), g(i) <= g(j)),
                    [z3.MultiPattern(g(i), g(j))]))

        def step(t, f=f, c=c, k=k, grows=grows):
            """The facts above at one position."""
            x = r.at(t)
            is_k = x[0].tag.e == k
            facts = [f(t + 1) == f(t) + z3.If(is_k, ie(x[1]), 0),
                     c(t + 1) == c(t) + z3.If(is_k, 1, 0)]
            if grows:
                facts += [g(a) <= g(b) for g in (f, c) for a, b in (
                    (z3.IntVal(0), t), (t, t + 1), (t + 1, r.size))]
            return z3.Implies(z3.And(t >= 0, t < r.size), z3.And(*facts))
        steps.append(step)
        result.append((o, f, c, z3.simplify(tot), z3.simplify(cnt)))
    r.tags['steps'] = steps
    return result


def key_le(a, b):
    """Formula a <= b for numbers and tuples (lexicographic)."""
    if isinstance(a, tuple):
        a, b = sort_items(a), sort_items(b)
        if not a:
            return z3.BoolVal(True)
        x, y = num(a[0]).e, num(b[0]).e
        if len(a) == 1:
            return x <= y
        return z3.Or(x < y, z3.And(x == y, key_le(a[1:], b[1:])))
    if hasattr(a, 'sort_key'):
        return key_le(a.sort_key(), b.sort_key())
    return num(a).e <= num(b).e


def sort_items(t):
    """The numbers a tuple is compared by."""
    r = ()
    for x in t:
        if isinstance(x, tuple) or hasattr(x, 'sort_key'):
            x = sort_items(x if isinstance(x, tuple) else x.sort_key())
        else:
            x = (x,)
        r += x
    return r


def single(fn):
    """Value of fn() explored locally."""
    return merge_values(engine().merge(fn))


def sorted_(v, key=None, reverse=False):
    v = view(v)
    key = key or (lambda x: x)
    if reverse is not False:
        raise Unsupported('reverse sort')
    c = v.expanded()
    if c is not None and len(c.parts) <= 3:
        out = []
        for x in c.values:
            k = 0
            while k < len(out) and decide(
                    engine(), key_le(key(out[k]), key(x))):
                k += 1
            out.insert(k, x)
        return SeqView.of(out)
    r = permuted(v, 'sort')
    b = r.parts[0]
    e = engine()
    i, j = fresh_index('q'), fresh_index('q')
    g = z3.And(i >= 0, i < j, j < b.size)
    with index_context(i, z3.And(i >= 0, i < b.size)):
        ki = single(lambda: key(b.at(i)))
    with index_context(j, z3.And(j >= 0, j < b.size)):
        kj = single(lambda: key(b.at(j)))
    e.assume(forall([i, j], z3.Implies(g, key_le(ki, kj))))
    # a set of distinct numbers sorts strictly
    return r


def contains(v, x):
    v = view(v)
    e = engine()
    f = z3.Not(each(v, lambda y, _: z3.Not(equal(y, x))))
    return e.branch(f) if not v.is_concrete or len(v.parts) > 0 else False


def equal(a, b):
    """Formula: values are equal."""
    if a is b:
        return z3.BoolVal(True)
    if isinstance(a, (int, SNum)) and isinstance(b, (int, SNum)):
        return num(a).e == num(b).e
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return z3.BoolVal(False)
        return z3.And(*[equal(x, y) for x, y in zip(a, b)])
    if hasattr(a, 'equal_formula'):
        return a.equal_formula(b)
    if callable(a) or callable(b) or a is None or b is None:
        return z3.BoolVal(a is b)
    raise Unsupported(f'equality of {type(a).__name__}')


def repeat_list(v, n):
    v = view(v)
    c = concrete(n)
    if c is not None and v.is_concrete:
        return SList(SeqView(v.parts * builtins.max(c, 0)))
    if v.is_concrete and len(v.parts) == 1:
        t = ie(n)
        size = t if engine().entailed(t >= 0) else z3.If(t > 0, t, 0)
        return SList(SeqView([Block(z3.simplify(size), fresh_index(),
                                    v.values[0])]))
    raise Unsupported('list repetition')


# -- comprehension -------------------------------------------------------------
def each_part(v, f):
    """Maps f over a view; generic elements are explored locally."""
    parts = []
    e = engine()
    for p in v.parts:
        if isinstance(p, Elem):
            parts.append(Elem(f(p.value)))
            continue
        n = concrete(SNum(p.size))
        if n is not None and n <= 4:
            parts.extend(Elem(f(p.at(z3.IntVal(i)))) for i in range(n))
            continue
        j = fresh_index('k')
        with index_context(j, z3.And(j >= 0, j < p.size)):
            x = p.at(j)
            template = single(lambda: f(x))
        r = Block(p.size, j, template)
        linear_total(p, r, x)
        range_total(p, r, x)
        parts.append(r)
    return SeqView(parts)


def linear_total(p, r, x):
    """Sum of a*x+b over a block with a known sum of x (induction)."""
    if 'total' not in p.tags or not isinstance(x, SNum) or not isinstance(
            r.template, SNum):
        return
    a = z3.Int('lin!x')
    t = z3.substitute(r.template.e, (x.e, a))
    if z3.simplify(z3.substitute(t, (a, z3.IntVal(0)))).eq(
            z3.simplify(t)):
        return
    b = z3.simplify(z3.substitute(t, (a, z3.IntVal(0))))
    k = z3.simplify(z3.substitute(t, (a, z3.IntVal(1))) - b)
    if not (z3.is_int_value(b) and z3.is_int_value(k)):
        return
    if z3.simplify(t - (k * a + b)).eq(z3.IntVal(0)):
        r.tags['total'] = z3.simplify(k * p.tags['total'] + b * p.size)


def range_total(p, r, x):
    """Sums of the ends of ranges of consecutive integers: `range` tag."""
    t = r.template
    values = getattr(t, 'values', t)
    if 'range' in p.tags:
        if values is x:
            r.tags['range'] = p.tags['range']
        return
    if not isinstance(values, SeqView) or len(values.parts) != 1:
        return
    b = values.parts[0]
    if isinstance(b, Elem) or not isinstance(b.template, SNum) or not (
            b.template.is_int):
        return
    lo = z3.simplify(b.at(z3.IntVal(0)).e)
    if not z3.is_true(z3.simplify(b.at(z3.IntVal(0)).e + b.var
                                  == b.at(b.var).e, som=True)):
        return
    hi = z3.simplify(lo + b.size - 1)
    tags = {}
    for k, e in (('lo', lo), ('hi', hi)):
        q = Block(r.size, r.var, SNum(e))
        linear_total(p, q, x)
        if 'total' in q.tags:
            tags[k] = q.tags['total']
        elif not _vars_in(e, {r.var.get_id()}):
            tags[k] = e * r.size
    if len(tags) == 2:
        r.tags['range'] = tags['lo'], tags['hi']


def filter_part(v, pred):
    """Elements satisfying pred, in order."""
    parts = []
    e = engine()
    for p in v.parts:
        if isinstance(p, Elem):
            if pred(p.value):
                parts.append(p)
            continue
        if e.ctx or e.merges:
            raise Unsupported('nested filter')
        j = fresh_index('k')
        with index_context(j, z3.And(j >= 0, j < p.size)):
            x = p.at(j)
            holds = truth(lambda: pred(x))
        m = fresh_int('kept', 0)
        e.assume(m.e <= p.size)
        sel = z3.Function(e.name('sel'), INT, INT)
        i, k = fresh_index('q'), fresh_index('q')
        e.assume(forall([i], z3.Implies(
            z3.And(i >= 0, i < m.e),
            z3.And(sel(i) >= 0, sel(i) < p.size,
                   z3.substitute(holds, (j, sel(i))))), [sel(i)]))
        e.assume(forall([i, k], z3.Implies(
            z3.And(i >= 0, i < k, k < m.e), sel(i) < sel(k)),
            [z3.MultiPattern(sel(i), sel(k))]))
        q = fresh_index('k')
        with index_context(q, z3.And(q >= 0, q < m.e)):
            template = rename(p.at(sel(q)), [(z3.Int('unused'),
                                              z3.IntVal(0))])
        parts.append(Block(m.e, q, template))
    return SeqView(parts)


def truth(fn):
    """Formula for the truth of fn() explored locally."""
    e = engine()
    cases = e.merge(lambda: bool(fn()))
    return z3.simplify(z3.Or(*[z3.And(*c) for c, v in cases if v]))


def comp(kind, f, iterable, pred=None):
    v = iterate(iterable)
    if pred is not None:
        v = filter_part(v, pred)
    r = each_part(v, f)
    if kind == 'list':
        return SList(r)
    if kind == 'set':
        return SSet(r)
    if kind == 'dict':
        from .triangles import SDict
        return SDict(r)
    return SIter(r)


def iterate(x):
    """View of an iterable."""
    if isinstance(x, SIter):
        r = x.rest()
        x.pos = x.view.length()
        return r
    if isinstance(x, (SSet,)):
        raise Unsupported('iteration over a set')
    return view(x)


# -- builtins ----------------------------------------------------------------
def slen(x):
    if isinstance(x, (SList, SeqView)):
        return view(x).length()
    if isinstance(x, Sym) and hasattr(x, 'as_view'):
        return x.as_view().length()
    if isinstance(x, (SSet, SIter, Undefined)):
        raise Unsupported('len of a set')
    return builtins.len(x)


def _pick(args, key, better):
    args = [a.get() if isinstance(a, SOpt) else a for a in args]
    best = args[0]
    for a in args[1:]:
        ka, kb = (a, best) if key is None else (key(a), key(best))
        if key is None and isinstance(ka, (int, SNum)) and isinstance(
                kb, (int, SNum)) and (is_sym(ka) or is_sym(kb)):
            x, y = num(ka), num(kb)
            if x.is_int != y.is_int:
                raise Unsupported('min/max of mixed numbers')
            best = simple2(SNum(z3.If(better(x.e, y.e), x.e, y.e)))
        else:
            if better(ka, kb):
                best = a
    return best


def simple2(n):
    s = z3.simplify(n.e)
    if z3.is_int_value(s):
        return s.as_long()
    e = engine()
    if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_ITE:
        c = s.arg(0)
        if e.entailed(c):
            return SNum(s.arg(1))
        if e.entailed(z3.Not(c)):
            return SNum(s.arg(2))
    return SNum(s)


_none = object()


def _extreme(args, key, default, better):
    if len(args) == 1:
        v = iterate(args[0])
        c = v.expanded()
        if c is None:
            e = engine()
            n = ie(v.length())
            if not decide(e, n > 0):
                if default is not _none:
                    return default
                raise ValueError('empty sequence')
            i = fresh_int('arg', 0)
            e.assume(i.e < n)
            best = flat(v).at(i.e)
            kf = key or (lambda x: x)
            kb = kf(best) if not e.ctx else single(lambda: kf(best))
            b = flat(v)
            q = fresh_index('k')
            with index_context(q, z3.And(q >= 0, q < n)):
                kq = single(lambda: kf(b.at(q)))
                body = (key_le(kq, kb) if better(1, 0)
                        else key_le(kb, kq))
            e.assume(forall([q], z3.Implies(z3.And(q >= 0, q < n), body)))
            return best
        args = c.values
        if not args:
            if default is not _none:
                return default
            raise ValueError('empty sequence')
    return _pick(list(args), key, better)


def smax(*args, key=None, default=_none):
    return _extreme(args, key, default, lambda a, b: a > b)


def smin(*args, key=None, default=_none):
    return _extreme(args, key, default, lambda a, b: a < b)


def ssum(x, start=0):
    v = iterate(x)
    c = v.expanded()
    if c is not None:
        r = start
        for y in c.values:
            r = r + y
        return r
    return simple(SNum(total(v))) + start


class SRange(SeqView):
    __slots__ = ('args',)


def srange(*args):
    cs = [concrete(a) for a in args]
    if all(c is not None for c in cs):
        return builtins.range(*cs)
    a, b, s = ((0, args[0], 1) if len(args) == 1
               else (args[0], args[1], 1) if len(args) == 2 else args)
    s = concrete(s)
    if s is None or s <= 0:
        raise Unsupported('range step')
    a, b = ie(a), ie(b)
    e = engine()
    n = b - a
    if s != 1:
        n = (b - a + (s - 1)) / s
    if not e.entailed(b >= a):
        n = z3.If(b > a, n, 0)
    j = fresh_index('k')
    return SeqView([Block(z3.simplify(n), j, SNum(z3.simplify(a + s * j)))])


def senumerate(x, start=0):
    v = iterate(x)
    parts, off = [], ie(start)
    for p in v.parts:
        if isinstance(p, Elem):
            parts.append(Elem((simple(SNum(off)), p.value)))
        else:
            j = fresh_index('k')
            parts.append(Block(p.size, j, (SNum(off + j), p.at(j))))
        off = z3.simplify(off + p.size)
    return SeqView(parts)


def szip(*seqs, strict=False):
    if any(isinstance(s, (SRepeat, itertools.repeat)) for s in seqs):
        finite = [s for s in seqs
                  if not isinstance(s, (SRepeat, itertools.repeat))]
        if len(finite) != 1:
            raise Unsupported('zip with repeat')
        v = iterate(finite[0])

        def row(x):
            return tuple(
                (s.value if isinstance(s, SRepeat) else next(s))
                if isinstance(s, (SRepeat, itertools.repeat)) else x
                for s in seqs)

        parts = []
        for p in v.parts:
            if isinstance(p, Elem):
                parts.append(Elem(row(p.value)))
            else:
                q = Block(p.size, p.var, row(p.template), p.off)
                q.tags['second'] = p.tags
                parts.append(q)
        return SeqView(parts)
    if not any(is_sym(s) or isinstance(s, SIter) for s in seqs):
        return list(builtins.zip(*seqs, strict=strict))
    views = [iterate(s) for s in seqs]
    cs = [v.expanded() for v in views]
    if all(c is not None for c in cs):
        return list(builtins.zip(*[c.values for c in cs], strict=strict))
    sizes = [ie(v.length()) for v in views]
    e = engine()
    n = sizes[0]
    for s in sizes[1:]:
        if e.entailed(s == n):
            continue
        if strict:
            if not e.branch(s == n):
                raise ValueError('zip() arguments have different lengths')
        else:
            n = z3.If(s < n, s, n)
    j = fresh_index('k')
    return SeqView([Block(z3.simplify(n), j,
                          tuple(flat(v).at(j) for v in views))])


def sall(x):
    if isinstance(x, (SIter, SeqView, SList)):
        v = iterate(x)
        if v.expanded() is None:
            return engine().branch(each(v, lambda y, _: as_formula(y)))
        x = v.expanded().values
    return builtins.all(builtins.bool(y) for y in x)


def sany(x):
    if isinstance(x, (SIter, SeqView, SList)):
        v = iterate(x)
        if v.expanded() is None:
            return engine().branch(
                z3.Not(each(v, lambda y, _: z3.Not(as_formula(y)))))
        x = v.expanded().values
    return builtins.any(builtins.bool(y) for y in x)


def as_formula(y):
    if isinstance(y, z3.BoolRef):
        return y
    if isinstance(y, builtins.bool):
        return z3.BoolVal(y)
    if isinstance(y, SNum):
        return y.e != 0
    raise Unsupported(f'truth of {type(y).__name__}')


def slist(x=()):
    if isinstance(x, SNested):
        return x
    if isinstance(x, SSet):
        if x.distinct is None:
            raise Unsupported('order of a set')
        return SList(permuted(x.distinct))
    return SList(iterate(x))


def stuple(x=()):
    v = iterate(x)
    c = v.expanded()
    return tuple(c.values) if c is not None else v


def sreversed(x):
    return reverse(iterate(x))


def siter(x):
    return x if isinstance(x, SIter) else SIter(iterate(x))


def snext(it, *default):
    try:
        return it.__next__()
    except StopIteration:
        if default:
            return default[0]
        raise


def smap(f, *seqs):
    if len(seqs) == 1:
        return comp('gen', f, seqs[0])
    return comp('gen', lambda t: f(*t), szip(*seqs))


def sfilter(f, seq):
    return SIter(filter_part(iterate(seq), f))


def sisinstance(x, t):
    if isinstance(x, SNum):
        ts = t if isinstance(t, tuple) else (t,)
        return any(u is int and x.is_int for u in ts)
    return builtins.isinstance(x, t)


def ssorted(x, key=None, reverse=False):
    return SList(sorted_(iterate(x), key, reverse))


class ListMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SList, builtins.list))

    def __call__(cls, x=()):
        return slist(x)


class list_(metaclass=ListMeta):
    def __class_getitem__(cls, x):
        return cls


class TupleMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.tuple)

    def __call__(cls, x=()):
        return stuple(x)


class tuple_(metaclass=TupleMeta):
    def __class_getitem__(cls, x):
        return cls


class SetMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SSet, builtins.set))

    def __call__(cls, x=()):
        return SSet(iterate(x))


class set_(metaclass=SetMeta):
    def __class_getitem__(cls, x):
        return cls


class BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.bool)

    def __call__(cls, x=False):
        if isinstance(x, z3.BoolRef):
            return engine().branch(x)
        return builtins.bool(x)


class bool_(metaclass=BoolMeta):
    pass


def sabs(x):
    return abs(x)


BUILTINS = dict(
    len=slen, max=smax, min=smin, sum=ssum, range=srange,
    enumerate=senumerate, zip=szip, all=sall, any=sany, sorted=ssorted,
    reversed=sreversed, iter=siter, next=snext, map=smap, filter=sfilter,
    isinstance=sisinstance, list=list_, tuple=tuple_, set=set_, bool=bool_)


# -- itertools ---------------------------------------------------------------
class SNested(Sym):
    """The elements of any number of sequences, one after another."""
    __hash__ = None

    def __init__(self, v):
        if len(v.parts) != 1 or not isinstance(
                v.parts[0].template, (SList, SeqView)):
            raise Unsupported('flattening a symbolic sequence')
        self.sequences = v


class chain_:
    def __new__(cls, *seqs):
        return cls.from_iterable(seqs)

    @staticmethod
    def from_iterable(seqs):
        parts = []
        v = iterate(seqs)
        c = v.expanded()
        if c is None:
            return SNested(v)
        for s in c.values:
            parts.extend(iterate(s).parts)
        return SIter(SeqView(parts))


def repeat_(x, times=_none):
    if times is _none:
        return SRepeat(x)
    return view(repeat_list(SeqView.of([x]), times))


def cycle_(x):
    return SCycle(iterate(x))


def groupby_(x, key=None):
    """Maximal runs of elements with equal keys."""
    v = iterate(x)
    e = engine()
    b = flat(v)
    if b is None:
        return SeqView([])
    if e.ctx or e.merges:
        raise Unsupported('groups on a generic element')
    key = key or (lambda y: y)
    n = b.size
    m = fresh_int('groups', 0).e
    first = z3.Function(e.name('group_start'), INT, INT)
    i, j = fresh_index('q'), fresh_index('q')

    def at(t):
        with index_context(t, z3.And(t >= 0, t < n)):
            return single(lambda: key(b.at(t)))

    t = fresh_index('k')
    kt = at(t)

    def key_at(p):
        return subst(kt, [(t, p)])

    e.assume(z3.And(m <= n, (n > 0) == (m > 0), first(z3.IntVal(0)) == 0,
                    first(m) == n))
    inside = z3.And(i >= 0, i < m)
    e.assume(forall([i], z3.Implies(inside, z3.And(
        first(i) >= i, first(i) < first(i + 1), first(i + 1) <= n,
        z3.Implies(m == n, first(i) == i),
        z3.Implies(i > 0, z3.Not(equal(key_at(first(i) - 1),
                                       key_at(first(i))))))),
        [first(i)]))
    e.assume(forall([i, j], z3.Implies(
        z3.And(i >= 0, i < j, j <= m), first(i) < first(j)),
        [z3.MultiPattern(first(i), first(j))]))
    # elements of a run
    run = z3.And(i >= 0, i < m, t >= first(i), t < first(i + 1))
    e.assume(forall([i, t], z3.Implies(
        run, equal(kt, key_at(first(i))))))
    k = fresh_index('k')
    return SeqView([Block(m, k, (key_at(first(k)), SeqView([Block(
        first(k + 1) - first(k), b.var, b.template, b.off + first(k))])))])


def deque_(x=(), maxlen=None):
    v = iterate(x)
    if maxlen is None:
        return SList(v)
    if concrete(maxlen) != 1:
        raise Unsupported('bounded deque')
    n = v.length()
    if not (n > 0):
        return SList(SeqView([]))
    last = v.get(n - 1)
    if not engine().ctx:
        return SList(SeqView([Elem(last)]))
    # named, and tied to the place it is taken from
    return SList(SeqView([Elem(rename(last, [(z3.Int('unused'), z3.IntVal(0))],
                                      'last', ie(n) >= 1))]))


def accumulate_(*a, **k):
    raise Unsupported('accumulate')
