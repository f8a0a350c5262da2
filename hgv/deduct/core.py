"""Path explorer and obligations.

The real code runs on symbolic values.  Every decision on a symbolic condition
either is settled by the path condition, or splits the run; a function is
explored by re-running it once per decision prefix.  Obligations are discharged
by z3 under the path condition.  Quantified facts are instantiated by
E-matching only (mbqi off): a saturated search without contradiction counts as
"not provable", a timeout as "undecided".
"""
import time
from collections import Counter
from contextlib import contextmanager

import z3

z3.set_param('smt.random_seed', 7)
z3.set_param('auto_config', False)


class Unsupported(BaseException):
    """The engine cannot follow this construct: the function is undecided."""


class NoneError(TypeError):
    """Arithmetic on None, as Python would refuse it."""


class PathEnd(BaseException):
    """The current path is over (assumption violated, loop cut, ...)."""


class Budget(BaseException):
    pass


class Raised(Exception):
    """Wrapper for exceptions of the code under verification."""


QUERY_MS = 8000
FIRST_MS = 1500
BRANCH_MS = 1000
SCALE = 1                      # of the time limits
SEED = 0                       # of the solver; 0: the default
ONLY = None                    # by function: obligations to try; None: all
ENOUGH = 2                     # failures of one name, the rest is not tried


class Engine:
    current = None
    seen = {}                  # failures by name on paths explored before

    def __init__(self, budget_s=120., max_paths=4000):
        self.results = []          # obligations: dict(name,status,...)
        self.solver_time = 0.
        self.queries = 0
        self.paths = 0
        self.budget_s = budget_s
        self.max_paths = max_paths
        self.function = '?'
        self.assumed = set()
        self.cover = {}

    # -- exploration -------------------------------------------------------
    def explore(self, fn, function='?', pending=None, slice_s=None):
        """Runs fn() along every path below the prefixes; what is left after
        slice_s seconds is returned."""
        Engine.current = self
        self.function = function
        start = time.time()
        self.deadline = start + self.budget_s
        pending = [[]] if pending is None else list(pending)
        while pending:
            if slice_s is not None and time.time() > start + slice_s:
                return pending
            if self.paths >= self.max_paths or time.time() > self.deadline:
                raise Budget(f'{function}: exploration budget exhausted')
            prefix = pending.pop()
            self._start(prefix)
            try:
                fn()
            except PathEnd:
                pass
            except Unsupported:
                if self._check() != z3.unsat:
                    raise
            self.paths += 1
            for i in range(len(prefix), len(self.trail)):
                choice, alternatives = self.trail[i]
                base = [c for c, _ in self.trail[:i]]
                for a in alternatives:
                    pending.append(base + [a])
        return pending

    def _start(self, prefix):
        self.prefix = list(prefix)
        self.trail = []            # (choice, untried alternatives)
        self.solver = z3.Solver()
        self.solver.set('smt.mbqi', False)
        self.solver.set('timeout', QUERY_MS * SCALE)
        if SEED:
            self.solver.set('smt.random_seed', SEED)
        self.ground = z3.Solver()  # the facts without quantifiers
        self.ground.set('timeout', BRANCH_MS * SCALE)
        self.pc = []
        self.counter = {}
        self.ctx = []              # bound index variables: (var, guard)
        self.merges = []           # local explorations
        self.notes = []
        self.drawn = {}            # bounds of independently drawn integers
        self.path_cache = {}

    def solving(self):
        return getattr(self, 'solver', None) is not None

    # -- names -------------------------------------------------------------
    def name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return f'{base}!{n}'

    def fresh(self, base, sort):
        """A fresh constant, or a function of the current index context."""
        vs = [v for v, _ in self.ctx]
        if not vs:
            return z3.Const(self.name(base), sort)
        f = z3.Function(self.name(base), *[v.sort() for v in vs], sort)
        return f(*vs)

    # -- facts -------------------------------------------------------------
    def assume(self, f):
        if isinstance(f, bool):
            if not f:
                self._dead()
            return
        if z3.is_true(f):
            return
        self._add(self._close(f))

    def _add(self, f):
        self.pc.append(f)
        self.solver.add(f)
        if not has_quantifier(f):
            self.ground.add(f)

    def axiom(self, key, make):
        """A closed formula, added once per path."""
        if key not in self.path_cache:
            f = self.path_cache[key] = make()
            self.pc.append(f)
            self.solver.add(f)

    def _dead(self):
        raise PathEnd

    def local_facts(self):
        result = []
        for m in self.merges:
            result.extend(m.local)
        return result

    def _close(self, f):
        """Quantifies a fact over the index context it was made in."""
        locals_ = self.local_facts()
        guards = [g for _, g in self.ctx]
        body = f
        if guards or locals_:
            body = z3.Implies(z3.And(*guards, *locals_), f)
        vs = [v for v, _ in self.ctx]
        if vs:
            used = [v for v in vs]
            return forall(used, body)
        return body

    def premises(self):
        return [g for _, g in self.ctx] + self.local_facts()

    # -- queries -----------------------------------------------------------
    def _check(self, *extra, ms=QUERY_MS):
        self.queries += 1
        t = time.time()
        self.solver.set('timeout', ms * SCALE)
        try:
            r = self.solver.check(*extra)
        finally:
            self.solver_time += time.time() - t
        return r

    @property
    def replaying(self):
        """Before the last decision of the prefix: the path that branched
        off there has been judged up to here."""
        return len(self.trail) < len(self.prefix)

    def _answer(self, make):
        """The answer of a query, remembered along the prefix."""
        if self.replaying:
            a = self.prefix[len(self.trail)]
        else:
            a = make()
        self.trail.append((a, ()))
        return a

    def entailed(self, f, ms=BRANCH_MS):
        return self._answer(lambda: self._check(
            *self.premises(), z3.Not(f), ms=ms) == z3.unsat)

    def settled(self, f):
        """Entailed by the facts without quantifiers."""
        return self._answer(lambda: self.ground.check(*[
            g for g in self.premises() if not has_quantifier(g)],
            z3.Not(f)) == z3.unsat)

    def feasible(self, ms=BRANCH_MS):
        return self._answer(lambda: self._check(
            *self.premises(), ms=ms) != z3.unsat)

    def _both(self, cond, *premises):
        """Whether the condition, and its negation, are possible."""
        return self._answer(lambda: (
            self._check(*premises, cond, ms=BRANCH_MS) != z3.unsat,
            self._check(*premises, z3.Not(cond), ms=BRANCH_MS) != z3.unsat))

    def lemma(self, f, name='arithmetic lemma', ms=QUERY_MS):
        """A fact valid on its own: proved without the path condition."""
        if self.replaying:
            if self._answer(None):
                self.assume(f)
            return
        s = z3.Solver()
        s.set('timeout', ms * SCALE)
        t = time.time()
        r = s.check(z3.Not(f))
        self._answer(lambda: r == z3.unsat)
        self.solver_time += time.time() - t
        self.queries += 1
        self.results.append(dict(
            name=f'{self.function}: {name}', kind='lemma', props=[],
            status='discharged' if r == z3.unsat else 'undecided',
            condition=str(f)[:300], time=round(time.time() - t, 3)))
        if r == z3.unsat:
            self.assume(f)

    def _prove(self, cond):
        """unsat iff every conjunct of the goal is entailed."""
        for hyps, goal in split_goal(cond):
            extra = [*hyps, z3.Not(goal), *mentions(goal)]
            r = self._check(*self.premises(), *extra, ms=FIRST_MS)
            if r != z3.unsat:
                r = self._again(*extra) or r
            if r != z3.unsat and self._timed_out(r):
                r = self._check(*self.premises(), *extra)
            if r != z3.unsat:
                return r
        return z3.unsat

    def _timed_out(self, r):
        return r == z3.unknown and not any(
            w in self.solver.reason_unknown()
            for w in ('incomplete', 'quantifiers'))

    def _again(self, *goal):
        """unsat from a fresh solver (other preprocessing), or None."""
        t = time.time()
        try:
            facts = [*self.pc, *self.premises(), *goal]
            linear = abstracted(facts)
            quick = True
            for fs, seed in ((linear, 0), (facts, 0), (facts, 3),
                             (facts, 11), (linear, 5), (facts, 29)):
                if fs is None or seed > 3 and not quick:
                    continue
                s = z3.Solver()
                s.set('smt.mbqi', False)
                s.set('timeout', QUERY_MS * SCALE)
                s.set('smt.random_seed', seed)
                s.add(*fs)
                self.queries += 1
                r = s.check()
                if r == z3.unsat:
                    return z3.unsat
                quick &= r == z3.sat or any(
                    w in s.reason_unknown()
                    for w in ('incomplete', 'quantifiers'))
        finally:
            self.solver_time += time.time() - t
        return None

    # -- decisions ---------------------------------------------------------
    def _decide(self, options):
        """Takes one of the options (hashable); remembers the rest."""
        i = len(self.trail)
        if i < len(self.prefix):
            choice = self.prefix[i]
            self.trail.append((choice, ()))
        else:
            choice = options[0]
            self.trail.append((choice, tuple(options[1:])))
        return choice

    def choose(self, n, what=''):
        if n == 1:
            return 0
        if self.merges:
            return self.merges[-1].choose(list(range(n)))
        return self._decide(list(range(n)))

    def branch(self, cond):
        """A Python bool for a z3 condition."""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.merges:
            return self.merges[-1].branch(self, cond)
        if self.ctx and _vars_in(cond, {v.get_id() for v, _ in self.ctx}):
            raise Unsupported('decision on a generic element')
        i = len(self.trail)
        if i < len(self.prefix):
            choice = self.prefix[i]
            self.trail.append((choice, ()))
        else:
            yes = self._check(cond, ms=BRANCH_MS) != z3.unsat
            no = self._check(z3.Not(cond), ms=BRANCH_MS) != z3.unsat
            if yes and no:
                choice = True
                self.trail.append((True, (False,)))
            elif yes or no:
                choice = yes
                self.trail.append((choice, ()))
            else:
                raise PathEnd
        self._add(cond if choice else z3.Not(cond))
        return choice

    # -- obligations -------------------------------------------------------
    def prove(self, name, cond, kind='post', props=()):
        """Discharges an obligation; the condition is assumed afterwards."""
        entry = dict(name=f'{self.function}: {name}', kind=kind,
                     props=sorted(props))
        if isinstance(cond, bool):
            cond = z3.BoolVal(cond)
        if self.replaying:
            if not z3.is_true(cond) and not self.merges:
                self.assume(cond)
            return True
        known = self.verdict(entry['name'])
        if known:
            if known != 'others':
                self.results.append(dict(
                    entry, time=0., status=known,
                    solver=f'not tried: {known} on other paths'))
            if not self.merges:
                self.assume(cond)
                if known != 'others' and self._check(
                        *self.premises(), ms=BRANCH_MS) == z3.unsat:
                    raise PathEnd
            return known == 'others'
        t0 = self.solver_time
        r = self._prove(cond)
        entry['time'] = round(self.solver_time - t0, 3)
        if r == z3.unsat:
            entry['status'] = 'discharged'
        else:
            reason = '' if r == z3.sat else self.solver.reason_unknown()
            if r == z3.sat or 'incomplete' in reason or (
                    'quantifiers' in reason):
                entry['status'] = 'failed'
                entry['solver'] = 'sat' if r == z3.sat else reason
                try:
                    m = self.solver.model()
                    entry['model'] = ', '.join(
                        f'{d}={m[d]}' for d in m.decls()
                        if d.arity() == 0)[:800]
                except z3.Z3Exception:
                    pass
                entry['condition'] = str(z3.simplify(cond))[:600]
            else:
                entry['status'] = 'undecided'
                entry['solver'] = reason
        self.results.append(entry)
        if entry['status'] == 'discharged':
            if not z3.is_true(cond) and not self.merges:
                self.assume(cond)
        elif not self.merges:
            # continue under the condition: later obligations are judged
            # separately
            self.assume(cond)
            if self._check(*self.premises(), ms=BRANCH_MS) == z3.unsat:
                raise PathEnd
        return entry['status'] == 'discharged'

    def verdict(self, name):
        """What is known already of the obligations of this name."""
        if ONLY is not None and not any(name in v for v in ONLY.values()):
            return 'others'
        seen = Counter(o['status'] for o in self.results
                       if o['name'] == name)
        seen.update(dict(self.seen.get(name, ())))
        for status in ('failed', 'undecided'):
            if seen[status] >= ENOUGH:
                return status
        return None

    def fail(self, name, kind='raise', detail='', props=('C06',)):
        """An obligation that this point is unreachable."""
        if self.replaying or self.verdict(
                f'{self.function}: {name}') == 'others':
            return
        r = self._check(*self.premises())
        if r != z3.unsat:
            r = self._again(z3.BoolVal(True)) or r
        entry = dict(name=f'{self.function}: {name}', kind=kind,
                     props=sorted(props))
        if r == z3.unsat:
            entry['status'] = 'discharged'
        else:
            reason = '' if r == z3.sat else self.solver.reason_unknown()
            failed = r == z3.sat or 'incomplete' in reason or (
                'quantifiers' in reason)
            entry['status'] = 'failed' if failed else 'undecided'
            entry['condition'] = detail[:600]
            try:
                m = self.solver.model()
                entry['model'] = ', '.join(
                    f'{d}={m[d]}' for d in m.decls()
                    if d.arity() == 0)[:800]
            except z3.Z3Exception:
                pass
        self.results.append(entry)

    def reach(self, name):
        """Vacuity guard: records that a point is reachable."""
        if not self.replaying and not self.cover.get(name):
            self.cover[name] = self._check(
                *self.premises(), ms=QUERY_MS) != z3.unsat

    # -- local exploration -------------------------------------------------
    def merge(self, fn):
        """[(conditions, value)] over all local paths of fn().

        Decisions inside do not split the run.
        """
        results = []
        pending = [[]]
        while pending:
            if len(results) > 200:
                raise Unsupported('too many local paths')
            m = _Merge(pending.pop())
            self.merges.append(m)
            counter = dict(self.counter)
            try:
                value = fn()
                results.append((list(m.local), value))
            except PathEnd:
                pass
            except Exception:
                # an exception on a local path that is impossible
                if self._answer(lambda: self._again(
                        *self.premises()) is None):
                    raise
            finally:
                self.merges.pop()
                if pending or m.open():
                    self.counter = counter
            for i in range(len(m.prefix), len(m.trail)):
                choice, alternatives = m.trail[i]
                base = [c for c, _ in m.trail[:i]]
                for a in alternatives:
                    pending.append(base + [a])
        return results


class _Merge:
    def __init__(self, prefix):
        self.prefix, self.trail, self.local = prefix, [], []

    def open(self):
        return any(alts for _, alts in self.trail[len(self.prefix):])

    def choose(self, options):
        raise Unsupported('nondeterministic choice in a local exploration')

    def branch(self, engine, cond):
        i = len(self.trail)
        if i < len(self.prefix):
            choice = self.prefix[i]
            self.trail.append((choice, ()))
        else:
            yes, no = engine._both(cond, *engine.premises())
            if yes and no:
                choice = True
                self.trail.append((True, (False,)))
            elif yes or no:
                choice = yes
                self.trail.append((choice, ()))
            else:
                raise PathEnd
        self.local.append(cond if choice else z3.Not(cond))
        return choice


def abstracted(facts):
    """The facts with non-linear products of ground terms replaced by
    constants (a weakening), or None when there are none."""
    names, memo = {}, {}

    def go(t):
        key = t.get_id()
        if key in memo:
            return memo[key][1]
        r = t
        if z3.is_quantifier(t):
            body = go(t.body())
            if not body.eq(t.body()):
                pats = []
                for i in range(t.num_patterns()):
                    pats.append(t.pattern(i))
                vs = [z3.Const(z3.FreshConst(t.var_sort(i)).decl().name(),
                               t.var_sort(i)) for i in range(t.num_vars())]
                sub = lambda x: z3.substitute_vars(x, *reversed(vs))
                ps = [z3.MultiPattern(*[sub(c) for c in p.children()])
                      for p in pats]
                make = z3.ForAll if t.is_forall() else z3.Exists
                r = make(vs, sub(body), patterns=ps)
        elif z3.is_app(t) and t.num_args():
            cs = [go(c) for c in t.children()]
            if t.decl().kind() == z3.Z3_OP_MUL:
                plain = [c for c in cs if not (z3.is_int_value(c)
                                               or z3.is_rational_value(c))]
                if len(plain) > 1 and all(closed(c) for c in plain):
                    coeffs = [c for c in cs if z3.is_int_value(c)
                              or z3.is_rational_value(c)]
                    k = tuple(sorted(c.get_id() for c in plain))
                    if k not in names:
                        names[k] = plain, z3.FreshConst(t.sort(), 'product')
                    r = names[k][1]
                    for c in coeffs:
                        r = c * r
                    memo[key] = t, r
                    return r
            if any(a.get_id() != b.get_id()
                   for a, b in zip(cs, t.children())):
                r = z3.substitute(t, *[
                    (a, b) for a, b in zip(t.children(), cs)
                    if a.get_id() != b.get_id()])
        memo[key] = t, r
        return r

    def closed(t, seen=None):
        if z3.is_var(t):
            return False
        if z3.is_quantifier(t):
            return False
        return all(closed(c) for c in t.children())

    result = [go(f) for f in facts]
    return result if names else None


def engine():
    return Engine.current


def has_quantifier(f):
    seen, stack = set(), [f]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            return True
        stack.extend(t.children())
    return False


# -- goals ----
def split_goal(goal, hyps=()):
    """[(hypotheses, goal)]: conjunctions split, universals skolemized."""
    if z3.is_quantifier(goal) and goal.is_forall():
        vs = [z3.FreshConst(goal.var_sort(i), goal.var_name(i))
              for i in range(goal.num_vars())]
        body = z3.substitute_vars(goal.body(), *reversed(vs))
        yield from split_goal(body, hyps)
    elif z3.is_and(goal):
        for c in goal.children():
            yield from split_goal(c, hyps)
    elif z3.is_implies(goal):
        a, b = goal.children()
        yield from split_goal(b, tuple(hyps) + (a,))
    elif z3.is_not(goal) and z3.is_implies(goal.arg(0)):
        a, b = goal.arg(0).children()
        yield from split_goal(z3.And(a, z3.Not(b)), hyps)
    elif z3.is_not(goal) and z3.is_or(goal.arg(0)):
        for c in goal.arg(0).children():
            yield from split_goal(z3.Not(c), hyps)
    elif z3.is_not(goal) and z3.is_and(goal.arg(0)) and (
            goal.arg(0).num_args() == 1):
        yield from split_goal(z3.Not(goal.arg(0).arg(0)), hyps)
    elif z3.is_not(goal) and z3.is_not(goal.arg(0)):
        yield from split_goal(goal.arg(0).arg(0), hyps)
    else:
        yield hyps, goal


def mentions(goal):
    """Equations naming the ground terms under the goal's quantifiers, so
    that they take part in matching."""
    found, seen = {}, set()

    def has_var(t, memo={}):
        k = t.get_id()
        if z3.is_var(t):
            return True
        return any(has_var(c) for c in t.children())

    def go(t, under):
        if (t.get_id(), under) in seen:
            return
        seen.add((t.get_id(), under))
        if z3.is_quantifier(t):
            go(t.body(), True)
            return
        if not z3.is_app(t):
            return
        if (under and t.decl().kind() == z3.Z3_OP_UNINTERPRETED
                and t.num_args() > 0 and not has_var(t)):
            found[t.get_id()] = t
        for c in t.children():
            go(c, under)

    go(goal, False)
    return [z3.FreshConst(t.sort(), 'term') == t for t in found.values()]


# -- quantifiers ------------------------------------------------------------
def _apps(e, seen, out):
    """Applications of uninterpreted functions, also under quantifiers when
    they do not depend on the variables bound there.  True: e is closed."""
    key = e.get_id()
    if key in seen:
        return seen[key]
    if z3.is_var(e):
        seen[key] = False
        return False
    if z3.is_quantifier(e):
        _apps(e.body(), seen, out)
        seen[key] = False
        return False
    closed = True
    for c in e.children():
        closed &= _apps(c, seen, out)
    seen[key] = closed
    if closed and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and (
            e.num_args() > 0):
        out.append(e)
    return closed


def _vars_in(e, ids, seen=None):
    seen = set() if seen is None else seen
    stack, found = [e], set()
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if t.get_id() in ids:
            found.add(t.get_id())
        if z3.is_app(t):
            stack.extend(t.children())
    return found


def _matchable(t, ids):
    """Bound variables, uninterpreted terms, ground arithmetic."""
    if t.get_id() in ids:
        return True
    if not z3.is_app(t) or t.decl().kind() == z3.Z3_OP_ITE:
        return False
    if t.decl().kind() != z3.Z3_OP_UNINTERPRETED and _vars_in(t, ids):
        return False
    return all(_matchable(c, ids) for c in t.children())


def _has_sub(t, ids):
    return any(c.get_id() in ids or _has_sub(c, ids) for c in t.children())


def patterns(vs, body):
    ids = {v.get_id() for v in vs}
    apps = []
    _apps(body, {}, apps)
    plain = []
    for a in apps:
        used = _vars_in(a, ids)
        if not used:
            continue
        ok = all(_matchable(c, ids) for c in a.children())
        if ok:
            plain.append((a, used))
    steps = [(a, used) for a, used in plain
             if a.decl().name() in ('before', 'after')]
    if steps:
        covered = set().union(*[used for _, used in steps])
        plain = steps + [(a, used) for a, used in plain
                         if not used & covered]
    singles = [a for a, used in plain if used == ids]
    if singles:
        # the most general ones
        own = {a.get_id() for a in singles}
        return [a for a in singles if not _has_sub(a, own)][:8]
    groups = {}
    for a, used in plain:
        groups.setdefault(frozenset(used), []).append(a)
    # one multi-pattern per way of covering all variables with two groups
    result = []
    keys = list(groups)
    for i, k in enumerate(keys):
        for l in keys[i:]:
            if k | l == ids:
                for a in groups[k][:3]:
                    for b in groups[l][:3]:
                        if not a.eq(b):
                            result.append(z3.MultiPattern(a, b))
    return result[:6]


CHAIN = 17                      # weight of instances that create their own
                                # triggers: a few steps only


def forall(vs, body, pats=None, weight=1):
    ids = {v.get_id() for v in vs}
    used = _vars_in(body, ids)
    vs = [v for v in vs if v.get_id() in used]
    if not vs:
        return body
    if pats is None:
        pats = patterns(vs, body)
    if not pats:
        return z3.ForAll(vs, body)
    return z3.ForAll(vs, body, weight=weight, patterns=pats)


def matched_by(vs, body):
    """Pattern of the first terms f(.., v), one per variable."""
    apps = []
    _apps(body, {}, apps)
    found = []
    for v in vs:
        for a in apps:
            if a.num_args() >= 1 and a.arg(a.num_args() - 1).eq(v) and (
                    a.decl().name() not in ('before', 'after')):
                found.append(a)
                break
        else:
            raise Unsupported('no trigger')
    return [found[0] if len(found) == 1 else z3.MultiPattern(*found)]


@contextmanager
def index_context(var, guard):
    e = engine()
    e.ctx.append((var, guard))
    try:
        yield
    finally:
        e.ctx.pop()
