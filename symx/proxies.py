"""Values over z3 terms that behave like the Python values they stand for."""
import numbers
import z3

from symx.core import Engine, MAX_REALIZE


class Sym:
    __slots__ = ()
    _pytype = object

    @property
    def __class__(self):
        # isinstance()/type() in the instrumented code go through models; this
        # serves the standard library (inspect, dataclasses, ...).
        return type(self)._pytype


def is_sym(x):
    return isinstance(type(x), type) and issubclass(type(x), Sym)


def E():
    return Engine.current


def as_z3_num(x):
    if type(x) is SymInt or type(x) is SymReal:
        return x.t
    if type(x) is SymBool:
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        n, d = x.as_integer_ratio() if x == x and x not in (float('inf'), float('-inf')) else (None, None)
        if n is None:
            return None
        return z3.RealVal(n) / z3.RealVal(d)
    return None


def mk_bool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def mk_num(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    if t.sort() == z3.RealSort():
        return SymReal(t)
    return SymInt(t)


def num_sort_fix(a, b):
    if a.sort() == b.sort():
        return a, b
    if a.sort() == z3.IntSort():
        return z3.ToReal(a), b
    return a, z3.ToReal(b)


def _arith(op):
    def method(self, other):
        o = as_z3_num(other)
        if o is None:
            return NotImplemented
        a, b = num_sort_fix(as_z3_num(self), o)
        return mk_num(op(a, b))
    return method


def _rarith(op):
    def method(self, other):
        o = as_z3_num(other)
        if o is None:
            return NotImplemented
        a, b = num_sort_fix(o, as_z3_num(self))
        return mk_num(op(a, b))
    return method


def _cmp(op):
    def method(self, other):
        o = as_z3_num(other)
        if o is None:
            return NotImplemented
        a, b = num_sort_fix(as_z3_num(self), o)
        return mk_bool(op(a, b))
    return method


class _SymNum(Sym):
    __slots__ = ('t', 'stored')

    def __init__(self, t, stored=False):
        self.t = t
        self.stored = stored      # a key stored in a dict: hashed by identity

    __add__ = _arith(lambda a, b: a + b)
    __radd__ = _rarith(lambda a, b: a + b)
    __sub__ = _arith(lambda a, b: a - b)
    __rsub__ = _rarith(lambda a, b: a - b)
    __mul__ = _arith(lambda a, b: a * b)
    __rmul__ = _rarith(lambda a, b: a * b)
    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)

    def __eq__(self, other):
        o = as_z3_num(other)
        if o is None:
            return False
        a, b = num_sort_fix(as_z3_num(self), o)
        return mk_bool(a == b)

    def __ne__(self, other):
        o = as_z3_num(other)
        if o is None:
            return True
        a, b = num_sort_fix(as_z3_num(self), o)
        return mk_bool(a != b)

    def __neg__(self):
        return mk_num(-as_z3_num(self))

    def __pos__(self):
        return self

    def __abs__(self):
        t = as_z3_num(self)
        return mk_num(z3.If(t < 0, -t, t))

    def _zero_guard(self, o):
        if E().decide(o == 0):
            raise ZeroDivisionError('division by zero')

    def __truediv__(self, other):
        o = as_z3_num(other)
        if o is None:
            return NotImplemented
        self._zero_guard(o)
        a = as_z3_num(self)
        a = z3.ToReal(a) if a.sort() == z3.IntSort() else a
        o = z3.ToReal(o) if o.sort() == z3.IntSort() else o
        return mk_num(a / o)

    def __floordiv__(self, other):
        o = as_z3_num(other)
        if o is None:
            return NotImplemented
        self._zero_guard(o)
        a, b = num_sort_fix(as_z3_num(self), o)
        if a.sort() != z3.IntSort():
            return mk_num(z3.ToReal(z3.ToInt(a / b)))
        return mk_num(z3.ToInt(z3.ToReal(a) / z3.ToReal(b)))

    def __mod__(self, other):
        o = as_z3_num(other)
        if o is None:
            return NotImplemented
        q = self.__floordiv__(other)
        return self - q * other

    def __rfloordiv__(self, other):
        return mk_num(as_z3_num(other)).__floordiv__(self) if is_sym(mk_num(as_z3_num(other))) else SymInt(as_z3_num(other)).__floordiv__(self)

    def __rmod__(self, other):
        if isinstance(other, str):
            return NotImplemented
        return SymInt(as_z3_num(other)).__mod__(self)

    def __bool__(self):
        return E().decide(as_z3_num(self) != 0)

    def __hash__(self):
        return hash_of(self)

    def __index__(self):
        return realize(self)

    def __int__(self):
        return realize(self)

    def __float__(self):
        return float(realize(self))

    def __str__(self):
        return str(realize(self))

    def __repr__(self):
        return repr(realize(self))

    def __format__(self, spec):
        return format(realize(self), spec)


class SymInt(_SymNum):
    __slots__ = ()
    _pytype = int


class SymReal(_SymNum):
    __slots__ = ()
    _pytype = float


class SymBool(_SymNum):
    __slots__ = ()
    _pytype = bool

    def __bool__(self):
        return E().decide(self.t)

    def __eq__(self, other):
        if type(other) is SymBool:
            return mk_bool(self.t == other.t)
        if isinstance(other, bool):
            return mk_bool(self.t if other else z3.Not(self.t))
        return _SymNum.__eq__(self, other)

    def __ne__(self, other):
        r = self.__eq__(other)
        if type(r) is SymBool:
            return mk_bool(z3.Not(r.t))
        return not r

    def __and__(self, other):
        if type(other) is SymBool:
            return mk_bool(z3.And(self.t, other.t))
        if isinstance(other, bool):
            return self if other else False
        return NotImplemented

    __rand__ = __and__

    def __or__(self, other):
        if type(other) is SymBool:
            return mk_bool(z3.Or(self.t, other.t))
        if isinstance(other, bool):
            return True if other else self
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, other):
        if isinstance(other, (SymBool, bool)) or type(other) is SymBool:
            return self != other
        return NotImplemented

    __rxor__ = __xor__

    def __hash__(self):
        return hash_of(self)


def hash_of(x):
    # Native hashing of a symbolic value (only reached from C code, e.g. a set
    # display): the value is made concrete first, with the alternatives explored.
    return id(x) if x.stored else hash(realize(x))


def realize(x):
    """A concrete value equal to x on this path; the alternatives are explored
    (up to MAX_REALIZE of them, beyond which the path is marked truncated)."""
    if not is_sym(x):
        return x
    e = E()
    kind = type(x)
    if kind is SymBool:
        return e.decide(x.t)
    if kind is SymInt or kind is SymReal:
        for i in range(MAX_REALIZE):
            v = e.pick(x.t)
            if v is None:
                break
            if e.decide(x.t == v):
                return v.as_long() if kind is SymInt else float(v.numerator_as_long()) / float(v.denominator_as_long())
        e.truncated = True
        e.notes.add('a symbolic number was concretised beyond the limit')
        v = e.pick(x.t)
        if v is None:
            return 0
        e.assume(x.t == v)
        return v.as_long() if kind is SymInt else float(v.numerator_as_long()) / float(v.denominator_as_long())
    if kind is SymStr:
        return x._realize()
    if kind is SymText:
        return x._realize()
    raise TypeError(kind)


def deep_realize(x, depth=0):
    if is_sym(x):
        return realize(x)
    if depth > 4:
        return x
    if type(x) is list:
        return [deep_realize(i, depth + 1) for i in x]
    if type(x) is tuple:
        return tuple(deep_realize(i, depth + 1) for i in x)
    if type(x) is dict:
        return {deep_realize(k, depth + 1): deep_realize(v, depth + 1) for k, v in x.items()}
    return x


def has_sym(x, depth=0):
    if is_sym(x):
        return True
    if depth > 3:
        return False
    t = type(x)
    if t is list or t is tuple:
        return any(has_sym(i, depth + 1) for i in x)
    if t is dict:
        return any(is_sym(k) or has_sym(v, depth + 1) for k, v in x.items())
    return False


# --------------------------------------------------------------------------- strings
def _chars(x):
    if type(x) is SymStr:
        return x.c
    if isinstance(x, str):
        return tuple(x)
    if type(x) is SymText:
        return tuple(x._realize())
    return None


def _ceq(a, b):
    """z3 Bool or Python bool: two characters are equal."""
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    ta = z3.IntVal(ord(a)) if isinstance(a, str) else a
    tb = z3.IntVal(ord(b)) if isinstance(b, str) else b
    return ta == tb


def _in_class(c, chars):
    """Is the character c (z3 Int) one of `chars` (concrete)?"""
    if isinstance(c, str):
        return c in chars
    codes = sorted(ord(x) for x in chars)
    ranges = []
    for k in codes:
        if ranges and ranges[-1][1] == k - 1:
            ranges[-1][1] = k
        else:
            ranges.append([k, k])
    return E().decide(z3.Or([z3.And(c >= a, c <= b) for a, b in ranges])) if ranges else False


ASCII = [chr(i) for i in range(128)]
WS = frozenset(x for x in ASCII if x.isspace())
DIGITS = frozenset('0123456789')
ID_START = frozenset(x for x in ASCII if x.isidentifier())
ID_CONT = frozenset(x for x in ASCII if ('a' + x).isidentifier())
UPPER = frozenset('ABCDEFGHIJKLMNOPQRSTUVWXYZ')
LOWER = frozenset('abcdefghijklmnopqrstuvwxyz')
ALPHA = UPPER | LOWER


def _str_eq_term(a, b):
    a, b = _chars(a), _chars(b)
    if len(a) != len(b):
        return False
    parts = []
    for x, y in zip(a, b):
        r = _ceq(x, y)
        if r is False:
            return False
        if r is not True:
            parts.append(r)
    if not parts:
        return True
    return z3.And(parts)


def mk_str(chars):
    chars = tuple(chars)
    if all(isinstance(c, str) for c in chars):
        return ''.join(chars)
    return SymStr(chars)


class SymStr(Sym):
    """A string of known length whose characters are symbolic (ASCII) or concrete."""
    __slots__ = ('c', 'stored')
    _pytype = str

    def __init__(self, chars, stored=False):
        self.c = tuple(chars)
        self.stored = stored      # a key stored in a dict: hashed by identity

    def _realize(self):
        e = E()
        out = []
        for ch in self.c:
            if isinstance(ch, str):
                out.append(ch)
            else:
                v = realize(SymInt(ch))
                out.append(chr(v))
        return ''.join(out)

    def __eq__(self, other):
        if _chars(other) is None:
            return False
        r = _str_eq_term(self, other)
        return r if isinstance(r, bool) else mk_bool(r)

    def __ne__(self, other):
        r = self.__eq__(other)
        return mk_bool(z3.Not(r.t)) if type(r) is SymBool else not r

    def __hash__(self):
        return id(self) if self.stored else hash(self._realize())

    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return bool(self.c)

    def __str__(self):
        return self._realize()

    def __repr__(self):
        return repr(self._realize())

    def __format__(self, spec):
        return format(self._realize(), spec)

    def __add__(self, other):
        o = _chars(other)
        if o is None:
            raise TypeError('can only concatenate str (not "%s") to str' % type(other).__name__)
        return mk_str(self.c + o)

    def __radd__(self, other):
        o = _chars(other)
        if o is None:
            return NotImplemented
        return mk_str(o + self.c)

    def __mul__(self, n):
        return mk_str(self.c * realize(n))

    __rmul__ = __mul__

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mk_str(self.c[i])
        return mk_str((self.c[realize(i)],))

    def __iter__(self):
        for ch in self.c:
            yield mk_str((ch,))

    def __contains__(self, other):
        o = _chars(other)
        if o is None:
            raise TypeError("'in <string>' requires string as left operand")
        return self.find(other) >= 0

    def _lt(self, other):
        o = _chars(other)
        for a, b in zip(self.c, o):
            ta = z3.IntVal(ord(a)) if isinstance(a, str) else a
            tb = z3.IntVal(ord(b)) if isinstance(b, str) else b
            if E().decide(ta == tb):
                continue
            return E().decide(ta < tb)
        return len(self.c) < len(o)

    def __lt__(self, other):
        return self._lt(other)

    def __gt__(self, other):
        return not self._lt(other) and not bool(self == other)

    def __le__(self, other):
        return not self.__gt__(other)

    def __ge__(self, other):
        return not self._lt(other)

    def _match_at(self, o, i):
        r = _str_eq_term(mk_str(self.c[i:i + len(o)]), mk_str(o))
        return r if isinstance(r, bool) else E().decide(r)

    def find(self, sub, start=0, end=None):
        o = _chars(sub)
        end = len(self.c) if end is None else min(end, len(self.c))
        for i in range(start, end - len(o) + 1):
            if self._match_at(o, i):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rfind(self, sub):
        o = _chars(sub)
        for i in range(len(self.c) - len(o), -1, -1):
            if self._match_at(o, i):
                return i
        return -1

    def count(self, sub):
        o = _chars(sub)
        i = n = 0
        while i <= len(self.c) - len(o):
            if self._match_at(o, i):
                n += 1
                i += max(1, len(o))
            else:
                i += 1
        return n

    def startswith(self, prefix):
        if isinstance(prefix, tuple):
            return any(self.startswith(p) for p in prefix)
        o = _chars(prefix)
        return len(o) <= len(self.c) and self._match_at(o, 0)

    def endswith(self, suffix):
        if isinstance(suffix, tuple):
            return any(self.endswith(p) for p in suffix)
        o = _chars(suffix)
        return len(o) <= len(self.c) and self._match_at(o, len(self.c) - len(o))

    def split(self, sep=None, maxsplit=-1):
        out = []
        if sep is None:
            cur = []
            for k, ch in enumerate(self.c):
                if _in_class(ch, WS):
                    if cur:
                        out.append(mk_str(cur))
                        cur = []
                        if maxsplit >= 0 and len(out) >= maxsplit:
                            rest = mk_str(self.c[k + 1:])
                            rest = rest.lstrip()
                            if len(rest):
                                out.append(rest)
                            return out
                else:
                    cur.append(ch)
            if cur:
                out.append(mk_str(cur))
            return out
        o = _chars(sep)
        if not o:
            raise ValueError('empty separator')
        cur = []
        i = 0
        while i < len(self.c):
            if (maxsplit < 0 or len(out) < maxsplit) and i + len(o) <= len(self.c) and self._match_at(o, i):
                out.append(mk_str(cur))
                cur = []
                i += len(o)
            else:
                cur.append(self.c[i])
                i += 1
        out.append(mk_str(cur))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (mk_str(self.c), '', '')
        return (mk_str(self.c[:i]), sep, mk_str(self.c[i + len(sep):]))

    def replace(self, old, new, count=-1):
        o, n = _chars(old), _chars(new)
        if not o:
            return self._realize().replace(old, new)
        out = []
        i = done = 0
        while i < len(self.c):
            if (count < 0 or done < count) and i + len(o) <= len(self.c) and self._match_at(o, i):
                out.extend(n)
                i += len(o)
                done += 1
            else:
                out.append(self.c[i])
                i += 1
        return mk_str(out)

    def lstrip(self, chars=None):
        cls = WS if chars is None else frozenset(chars)
        i = 0
        while i < len(self.c) and _in_class(self.c[i], cls):
            i += 1
        return mk_str(self.c[i:])

    def rstrip(self, chars=None):
        cls = WS if chars is None else frozenset(chars)
        i = len(self.c)
        while i > 0 and _in_class(self.c[i - 1], cls):
            i -= 1
        return mk_str(self.c[:i])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def removeprefix(self, p):
        return mk_str(self.c[len(p):]) if self.startswith(p) else self

    def removesuffix(self, p):
        return mk_str(self.c[:len(self.c) - len(p)]) if len(p) and self.endswith(p) else self

    def _all(self, cls):
        return bool(self.c) and all(_in_class(ch, cls) for ch in self.c)

    def isdigit(self):
        return self._all(DIGITS)

    isdecimal = isdigit
    isnumeric = isdigit

    def isalpha(self):
        return self._all(ALPHA)

    def isalnum(self):
        return self._all(ALPHA | DIGITS)

    def isspace(self):
        return self._all(WS)

    def isascii(self):
        return True

    def isidentifier(self):
        if not self.c or not _in_class(self.c[0], ID_START):
            return False
        return all(_in_class(ch, ID_CONT) for ch in self.c[1:])

    def _case(self, cls, delta):
        out = []
        for ch in self.c:
            if isinstance(ch, str):
                out.append(ch.lower() if delta > 0 else ch.upper())
            else:
                lo, hi = min(map(ord, cls)), max(map(ord, cls))
                out.append(z3.simplify(z3.If(z3.And(ch >= lo, ch <= hi), ch + delta, ch)))
        return mk_str(out)

    def lower(self):
        return self._case(UPPER, 32)

    casefold = lower

    def upper(self):
        return self._case(LOWER, -32)

    def islower(self):
        return bool(self == self.lower()) and any(_in_class(ch, LOWER) for ch in self.c)

    def isupper(self):
        return bool(self == self.upper()) and any(_in_class(ch, UPPER) for ch in self.c)

    def join(self, items):
        out = []
        for k, item in enumerate(items):
            if k:
                out.extend(self.c)
            out.extend(_chars(item))
        return mk_str(out)

    def to_int(self):
        """int(self), with Python's rules for ASCII input in base 10."""
        s = self.strip()
        ch = list(_chars(s))
        sign = 1
        if ch and _in_class(ch[0], frozenset('+-')):
            if _in_class(ch[0], frozenset('-')):
                sign = -1
            ch = ch[1:]
        bad = ValueError('invalid literal for int() with base 10')
        if not ch:
            raise bad
        total = z3.IntVal(0)
        prev_us = True
        for k, c in enumerate(ch):
            if _in_class(c, DIGITS):
                d = z3.IntVal(ord(c) - 48) if isinstance(c, str) else c - 48
                total = total * 10 + d
                prev_us = False
            elif _in_class(c, frozenset('_')) and not prev_us and k < len(ch) - 1:
                prev_us = True
            else:
                raise bad
        if prev_us:
            raise bad
        return mk_num(total * sign)

    def encode(self, *a):
        return self._realize().encode(*a)

    def format(self, *a, **k):
        return self._realize().format(*a, **k)


class SymText(Sym):
    """Text assembled from concrete pieces and the str() of symbolic numbers:
    enough to compare, concatenate and store; made concrete when inspected."""
    __slots__ = ('parts', 'origin')
    _pytype = str

    def __init__(self, parts):
        out = []
        for p in parts:
            if type(p) is SymText:
                pieces = p.parts
            else:
                pieces = (p,)
            for q in pieces:
                if isinstance(q, str) and type(q) is str:
                    if not q:
                        continue
                    if out and type(out[-1]) is str:
                        out[-1] += q
                        continue
                out.append(q)
        self.parts = tuple(out)
        self.origin = None          # the structure this text is the JSON of

    def _realize(self):
        return ''.join(p if type(p) is str else str(realize(p)) for p in self.parts)

    def __eq__(self, other):
        if type(other) is SymText:
            if len(other.parts) == len(self.parts) and all((type(a) is str) == (type(b) is str) for a, b in zip(self.parts, other.parts)):
                # a sufficient structural match first; otherwise decide concretely
                conds = []
                for a, b in zip(self.parts, other.parts):
                    if type(a) is str:
                        if a != b:
                            break
                    else:
                        r = (a == b) if type(a) is type(b) else None
                        if r is None or (not isinstance(r, bool) and type(r) is not SymBool):
                            break
                        conds.append(r if isinstance(r, bool) else r.t)
                else:
                    if len(self.parts) <= 1 or sum(type(a) is not str for a in self.parts) <= 1:
                        return mk_bool(z3.And([z3.BoolVal(c) if isinstance(c, bool) else c for c in conds])) if conds else True
                    if E().decide(z3.And([z3.BoolVal(c) if isinstance(c, bool) else c for c in conds])):
                        return True
            return self._realize() == other._realize()
        if isinstance(other, str) and type(other) is str:
            if len(self.parts) == 1 and type(self.parts[0]) is SymInt:
                try:
                    v = int(other)
                except ValueError:
                    return False
                return self.parts[0] == v if str(v) == other else False
            return self._realize() == other
        if type(other) is SymStr:
            return self._realize() == other
        return False

    def __ne__(self, other):
        r = self.__eq__(other)
        return mk_bool(z3.Not(r.t)) if type(r) is SymBool else not r

    def __add__(self, other):
        if _is_str(other):
            return SymText((self, other))
        return NotImplemented

    def __radd__(self, other):
        if _is_str(other):
            return SymText((other, self))
        return NotImplemented

    def __hash__(self):
        return hash(self._realize())

    def __bool__(self):
        return bool(self.parts)

    def __str__(self):
        return self._realize()

    def __repr__(self):
        return repr(self._realize())

    def __format__(self, spec):
        return format(self._realize(), spec)

    def __len__(self):
        return len(self._realize())

    def __iter__(self):
        return iter(self._realize())

    def __getitem__(self, i):
        return self._realize()[i]

    def __contains__(self, x):
        return realize(x) in self._realize()

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self._realize(), name)


def _is_str(x):
    return isinstance(x, str)


def text(x):
    """str(x) for a symbolic x."""
    k = type(x)
    if k is SymStr or k is SymText:
        return x
    if k is SymInt or k is SymReal:
        return SymText((x,))
    if k is SymBool:
        return 'True' if bool(x) else 'False'
    return str(realize(x))
