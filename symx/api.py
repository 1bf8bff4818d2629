"""What a harness sees: symbolic inputs in the solver run, fixed ones in a replay."""
import z3

from symx.core import Engine
from symx import proxies as px


class SymbolicSx:
    symbolic = True

    def __init__(self, engine, tier='quick'):
        self.e = engine
        self.tier = tier

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def bool(self, name):
        t = z3.Bool(name)
        self.e.register(name, 'bool', t)
        return px.SymBool(t)

    def int(self, name, lo=None, hi=None):
        t = z3.Int(name)
        self.e.register(name, 'int', t)
        if lo is not None:
            self.e.assume(t >= lo)
        if hi is not None:
            self.e.assume(t <= hi)
        return px.SymInt(t)

    def real(self, name, lo=None, hi=None):
        t = z3.Real(name)
        self.e.register(name, 'real', t)
        if lo is not None:
            self.e.assume(t >= lo)
        if hi is not None:
            self.e.assume(t <= hi)
        return px.SymReal(t)

    def flag(self, name):
        """A symbolic boolean decided here and now."""
        return bool(self.bool(name))

    def choice(self, name, options):
        options = list(options)
        t = z3.Int(name)
        self.e.register(name, 'int', t)
        self.e.assume(z3.And(t >= 0, t < len(options)))
        for i in range(len(options) - 1):
            if self.e.decide(t == i, label='%s = %d' % (name, i)):
                return options[i]
        return options[-1]

    def str(self, name, maxlen, alphabet=None, minlen=0):
        """A string of minlen..maxlen characters of the alphabet (default: printable ASCII)."""
        n = minlen
        if maxlen > minlen:
            n = self.choice(name + '#len', range(minlen, maxlen + 1))
        chars = []
        for i in range(n):
            c = z3.Int('%s#%d' % (name, i))
            if alphabet is None:
                self.e.assume(z3.And(c >= 32, c <= 126))
            else:
                codes = sorted(set(map(ord, alphabet)))
                self.e.assume(z3.Or([c == k for k in codes]))
            chars.append(c)
        self.e.register(name, 'str', lambda chars=tuple(chars): chars)
        return px.mk_str(chars) if chars else ''

    def assume(self, cond):
        """Restrict the inputs.  Returns False when the path is outside the assumption."""
        if isinstance(cond, bool) and not px.is_sym(cond):
            return cond
        return bool(cond)

    def check(self, cond, label, detail=None):
        e = self.e
        e.q_assert += 1
        if type(cond) is px.SymBool:
            r = e.query(z3.Not(cond.t))
            if r == z3.sat:
                e.violation(label, model=e.solver.model(), detail=_detail(detail))
                e.assume(cond.t)
                if not e.feasible():
                    e.finish()
                return False
            if r == z3.unsat:
                e.assert_discharged += 1
            return True
        if px.is_sym(cond):
            cond = bool(cond)
        if cond:
            e.assert_discharged += 1
            return True
        e.violation(label, detail=_detail(detail))
        return False

    def mark(self, label):
        self.e.marks.add(label)


def _detail(d):
    if d is None:
        return None
    try:
        return str(d)[:500]
    except BaseException:
        return '<unprintable>'


class ConcreteSx:
    """The same interface over one fixed assignment: used for replay on pristine code."""
    symbolic = False

    def __init__(self, inputs, tier='quick'):
        self.inputs = inputs
        self.tier = tier
        self.failures = []
        self.marks = set()

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def bool(self, name):
        return bool(self.inputs.get(name, False))

    flag = bool

    def int(self, name, lo=None, hi=None):
        return int(self.inputs.get(name, lo if lo is not None else (hi if hi is not None else 0)))

    def real(self, name, lo=None, hi=None):
        v = self.inputs.get(name)
        if v is None:
            return float(lo or 0)
        return v[0] / v[1]

    def choice(self, name, options):
        options = list(options)
        return options[int(self.inputs.get(name, 0))]

    def str(self, name, maxlen, alphabet=None, minlen=0):
        v = self.inputs.get(name)
        if v is None:
            v = (alphabet or 'a')[0] * minlen
        return v

    def assume(self, cond):
        return True if cond else False

    def check(self, cond, label, detail=None):
        if not cond:
            self.failures.append({'label': label, 'detail': _detail(detail)})
            return False
        return True

    def mark(self, label):
        self.marks.add(label)
