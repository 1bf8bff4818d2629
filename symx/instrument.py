"""
Import hook that loads `polog` (and the harnesses) from source with the
operations Python would resolve in C turned into calls of models that accept
symbolic values: calls of builtins and of builtin methods, `in`, `is`,
subscripting and f-strings.  Everything else (arithmetic, comparisons, truth
tests, iteration) already dispatches to the proxies' own methods.

The transformation is purely syntactic and local, so whatever the current
source of /repo says is what gets executed.
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import json
import os
import sys
import types

from symx import proxies as px
from symx.proxies import Sym, SymBool, SymInt, SymReal, SymStr, SymText, is_sym, realize, has_sym, deep_realize
from symx.core import Engine
from symx import conc

SKIP_CALLS = {'super', 'locals', 'globals', 'vars', 'eval', 'exec', 'dir', '__import__', '__cx_point__', '__cx_op__', '__cx_round__'}


class Transformer(ast.NodeTransformer):
    def __init__(self, modname, record=True):
        self.modname = modname
        self.record = record
        self.stack = []

    def name(self, n):
        return ast.Name(id=n, ctx=ast.Load())

    # ------------------------------------------------------------ functions
    def _function(self, node):
        self.stack.append(node.name)
        qual = '.'.join(self.stack)
        node.args = self.visit(node.args)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        body = []
        for st in node.body:
            r = self.visit(st)
            body.extend(r if isinstance(r, list) else [r])
        if self.record:
            mark = ast.Expr(ast.Call(self.name('__sx_enter__'), [ast.Constant(self.modname + ':' + qual)], []))
            pos = 1 if (body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant)
                        and isinstance(body[0].value.value, str)) else 0
            anchor = body[min(pos, len(body) - 1)]
            ast.copy_location(mark, anchor)
            ast.fix_missing_locations(mark)
            body.insert(pos, mark)
        node.body = body
        self.stack.pop()
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    # ------------------------------------------------------------ expressions
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in SKIP_CALLS:
            return node
        node.func = ast.copy_location(ast.Call(self.name('__sx_f__'), [node.func], []), node.func)
        return ast.fix_missing_locations(node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) != 1:
            return node
        op = node.ops[0]
        fn = {ast.In: '__sx_in__', ast.NotIn: '__sx_notin__', ast.Is: '__sx_is__', ast.IsNot: '__sx_isnot__'}.get(type(op))
        if fn is None:
            return node
        new = ast.Call(self.name(fn), [node.left, node.comparators[0]], [])
        return ast.fix_missing_locations(ast.copy_location(new, node))

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            return node
        new = ast.Call(self.name('__sx_gi__'), [node.value, self._index(node.slice)], [])
        return ast.fix_missing_locations(ast.copy_location(new, node))

    def _index(self, s):
        if isinstance(s, ast.Slice):
            none = ast.Constant(None)
            return ast.Call(self.name('__sx_slice__'), [s.lower or none, s.upper or none, s.step or none], [])
        if isinstance(s, ast.Tuple):
            return ast.Tuple([self._index(e) for e in s.elts], ast.Load())
        return s

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            new = ast.Expr(ast.Call(self.name('__sx_si__'), [node.value, t.value, self._index(t.slice)], []))
            return ast.fix_missing_locations(ast.copy_location(new, node))
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                new = ast.Expr(ast.Call(self.name('__sx_di__'), [t.value, self._index(t.slice)], []))
            else:
                new = ast.Delete([t])
            out.append(ast.fix_missing_locations(ast.copy_location(new, node)))
        return out

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                value = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple([value, ast.Constant(v.conversion), spec], ast.Load()))
        new = ast.Call(self.name('__sx_fs__'), parts, [])
        return ast.fix_missing_locations(ast.copy_location(new, node))

    # annotations are not executed symbolically
    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def visit_Match(self, node):
        node.subject = self.visit(node.subject)
        for c in node.cases:
            if c.guard is not None:
                c.guard = self.visit(c.guard)
            body = []
            for st in c.body:
                r = self.visit(st)
                body.extend(r if isinstance(r, list) else [r])
            c.body = body
        return node


# ------------------------------------------------------------------------------- models
def sx_enter(name):
    e = Engine.current
    if e is not None:
        e.functions.add(name)


def sx_is(a, b):
    if type(a) is SymBool and (b is True or b is False):
        return Engine.current.decide(a.t) == b
    if type(b) is SymBool and (a is True or a is False):
        return Engine.current.decide(b.t) == a
    return a is b


def sx_isnot(a, b):
    return not sx_is(a, b)


def _dict_has_sym(d):
    for k in d:
        if is_sym(k) or (type(k) is tuple and has_sym(k)):
            return True
    return False


HASHED = (dict, set, frozenset)


def _find_key(d, key):
    """The stored key equal to `key` (forking), or None with found=False."""
    for k in list(d):
        if k is key:
            return True, k
        if is_sym(k) or is_sym(key) or type(k) is tuple or type(key) is tuple:
            r = k == key if not is_sym(key) else key == k
            if r if isinstance(r, bool) else bool(r):
                return True, k
        elif k == key:
            return True, k
    return False, None


def _needs_scan(d, key):
    return is_sym(key) or (type(key) is tuple and has_sym(key)) or (len(d) < 200 and _dict_has_sym(d))


def sx_in(item, container):
    t = type(container)
    if t in HASHED or t is types.MappingProxyType or (isinstance(container, HASHED) and not is_sym(container) and t.__contains__ in (dict.__contains__, set.__contains__, frozenset.__contains__)):
        if _needs_scan(container, item):
            return _find_key(container, item)[0]
        return item in container
    if t is str and is_sym(item):
        return item in SymStr(container)
    if t in (type({}.keys()), ):
        if is_sym(item) or _dict_has_sym(container):
            return _find_key(container, item)[0]
    if t in (list, tuple):
        for x in container:
            if x is item:
                return True
            r = x == item if not is_sym(item) else item == x
            if r if isinstance(r, bool) else bool(r):
                return True
        return False
    return item in container


def sx_notin(item, container):
    return not sx_in(item, container)


def sx_gi(obj, key):
    if isinstance(obj, dict) and type(obj).__getitem__ is dict.__getitem__:
        if _needs_scan(obj, key):
            found, k = _find_key(obj, key)
            if not found:
                if hasattr(type(obj), '__missing__'):
                    return type(obj).__missing__(obj, key)
                raise KeyError(key)
            return _raw_get(obj, k)
        return obj[key]
    if is_sym(key) and type(obj) in (list, tuple, str, bytes):
        return obj[realize(key)]
    if type(key) is slice and type(obj) in (list, tuple, str) and has_sym((key.start, key.stop, key.step)):
        return obj[slice(*[realize(x) for x in (key.start, key.stop, key.step)])]
    return obj[key]


def _raw_get(d, k):
    for kk, v in dict.items(d):
        if kk is k:
            return v
    return dict.__getitem__(d, k)


def sx_si(value, obj, key):
    if isinstance(obj, dict) and type(obj).__setitem__ is dict.__setitem__:
        if _needs_scan(obj, key):
            found, k = _find_key(obj, key)
            _raw_set(obj, k if found else key, value)
            return
        obj[key] = value
        return
    if is_sym(key) and type(obj) is list:
        obj[realize(key)] = value
        return
    obj[key] = value


def _raw_set(d, k, v):
    if is_sym(k):
        # store by rebuilding: symbolic keys hash by their concrete value only
        # when C code asks; here insertion order and identity are what counts.
        d[_IdKey.wrap(k)] = v
    else:
        d[k] = v


class _IdKey:
    @staticmethod
    def wrap(k):
        if type(k) is SymStr:
            return SymStr(k.c, stored=True)
        if type(k) in (SymInt, SymReal, SymBool):
            return type(k)(k.t, stored=True)
        return realize(k)


def sx_di(obj, key):
    if isinstance(obj, dict) and type(obj).__delitem__ is dict.__delitem__:
        if _needs_scan(obj, key):
            found, k = _find_key(obj, key)
            if not found:
                raise KeyError(key)
            _raw_del(obj, k)
            return
        del obj[key]
        return
    if is_sym(key) and type(obj) is list:
        del obj[realize(key)]
        return
    del obj[key]


def _raw_del(d, k):
    if is_sym(k):
        items = [(a, b) for a, b in d.items() if a is not k]
        d.clear()
        for a, b in items:
            d[a] = b
    else:
        del d[k]


def sx_slice(a, b, c):
    return slice(realize(a), realize(b), realize(c))


def sx_fs(*parts):
    symbolic = False
    out = []
    for p in parts:
        if type(p) is str:
            out.append(p)
            continue
        v, conv, spec = p
        if is_sym(v):
            if conv == 114:   # !r
                v = "'" + v + "'" if type(v) in (SymStr, SymText) else px.text(v)
            elif type(spec) is str and spec == '':
                v = px.text(v)
            else:
                out.append(format(realize(v), realize(spec)))
                continue
            symbolic = symbolic or is_sym(v)
            out.append(v)
            continue
        if conv == 114:
            v = m_repr(v)
        elif conv == 115:
            v = m_str(v)
        elif conv == 97:
            v = ascii(v)
        if is_sym(v):
            symbolic = True
            out.append(v)
        elif type(v) is str and spec == '':
            out.append(v)
        elif spec == '' and type(v).__format__ is object.__format__:
            s = m_str(v)
            symbolic = symbolic or is_sym(s)
            out.append(s)
        else:
            out.append(format(v, realize(spec)))
    if symbolic:
        if all(type(o) is str or type(o) is SymStr for o in out):
            chars = []
            for o in out:
                chars.extend(px._chars(o))
            return px.mk_str(chars)
        return SymText(out)
    return ''.join(out)


def m_isinstance(obj, cls):
    if is_sym(obj):
        return issubclass(type(obj)._pytype, cls)
    return isinstance(obj, cls)


def m_type(*args):
    if len(args) == 1:
        if is_sym(args[0]):
            return type(args[0])._pytype
        return type(args[0])
    return type(*args)


def m_len(x):
    cls = type(x)
    if is_sym(x):
        return len(x)
    f = cls.__dict__.get('__len__')
    if isinstance(f, types.FunctionType):
        r = f(x)
        if is_sym(r):
            return r
        return len(x) if not isinstance(r, int) else r
    return len(x)


def m_hash(x):
    if type(x) in (SymInt, SymBool, SymReal):
        import z3
        t = px.as_z3_num(x)
        if t.sort() == z3.RealSort():
            return SymInt(_HASH_R(t))
        return SymInt(_HASH_I(t))
    if is_sym(x):
        return hash(x)
    f = getattr(type(x), '__hash__', None)
    if isinstance(f, types.FunctionType):
        return f(x)
    if type(x) is tuple and has_sym(x):
        return hash(deep_realize(x))
    return hash(x)


import z3 as _z3
_HASH_I = _z3.Function('hash_int', _z3.IntSort(), _z3.IntSort())
_HASH_R = _z3.Function('hash_real', _z3.RealSort(), _z3.IntSort())


def m_str(*args, **kw):
    if len(args) == 1 and not kw:
        x = args[0]
        if is_sym(x):
            return px.text(x)
        f = getattr(type(x), '__str__', None)
        if isinstance(f, types.FunctionType):
            r = f(x)
            if is_sym(r):
                return r
            if not isinstance(r, str):
                raise TypeError('__str__ returned non-string (type %s)' % type(r).__name__)
            return r
        if isinstance(x, BaseException) and type(x).__str__ is BaseException.__str__ and len(x.args) == 1 and is_sym(x.args[0]):
            return px.text(x.args[0])
        if f is object.__str__ or type(x) in (list, tuple, dict):
            return m_repr(x)
    return str(*args, **kw)


def m_repr(x):
    if is_sym(x):
        return px.text(x) if type(x) in (SymInt, SymBool) else repr(realize(x))
    f = getattr(type(x), '__repr__', None)
    if isinstance(f, types.FunctionType):
        r = f(x)
        if not is_sym(r) and not isinstance(r, str):
            raise TypeError('__repr__ returned non-string (type %s)' % type(r).__name__)
        return r
    if type(x) in (list, tuple, dict) and has_sym(x):
        return _container_repr(x)
    return repr(x)


def _container_repr(x):
    out = []
    if type(x) is dict:
        for n, (k, v) in enumerate(x.items()):
            out += [', ' if n else '{', m_repr(k), ': ', m_repr(v)]
        out.append('}' if out else '{}')
    else:
        a, b = '[]' if type(x) is list else '()'
        for n, v in enumerate(x):
            out += [', ' if n else a, m_repr(v)]
        out.append((',' if type(x) is tuple and len(x) == 1 else '') + b)
    return SymText(out)


def m_int(*args, **kw):
    if len(args) == 1 and not kw and is_sym(args[0]):
        x = args[0]
        if type(x) is SymInt:
            return x
        if type(x) is SymBool:
            return px.mk_num(px.as_z3_num(x))
        if type(x) is SymStr:
            return x.to_int()
        if type(x) is SymReal:
            return px.mk_num(_z3.If(x.t >= 0, _z3.ToInt(x.t), -_z3.ToInt(-x.t)))
        if type(x) is SymText and len(x.parts) == 1 and type(x.parts[0]) is SymInt:
            return x.parts[0]
        return int(realize(x))
    return int(*[realize(a) for a in args], **kw)


def m_float(*args):
    if len(args) == 1 and is_sym(args[0]):
        x = args[0]
        if type(x) is SymReal:
            return x
        if type(x) in (SymInt, SymBool):
            return SymReal(_z3.ToReal(px.as_z3_num(x)))
        return float(realize(x))
    return float(*args)


def m_bool(*args):
    if len(args) == 1 and type(args[0]) is SymBool:
        return args[0]
    if len(args) == 1 and type(args[0]) in (SymInt, SymReal):
        return px.mk_bool(args[0].t != 0)
    return bool(*args)


def m_callable(x):
    if is_sym(x):
        return False
    return callable(x)


def m_range(*args):
    if any(is_sym(a) for a in args):
        args = list(args)
        if len(args) == 1:
            return _sym_range(0, args[0], 1)
        if len(args) == 2:
            return _sym_range(args[0], args[1], 1)
        return range(*[realize(a) for a in args])
    return range(*args)


def _sym_range(a, b, step):
    i = a
    while i < b:
        yield i
        i = i + step


def m_chr(x):
    if type(x) is SymInt:
        return SymStr((x.t,))
    return chr(x)


def m_ord(x):
    if type(x) is SymStr and len(x) == 1:
        return px.mk_num(x.c[0]) if not isinstance(x.c[0], str) else ord(x.c[0])
    return ord(x)


def m_getattr(obj, name, *default):
    return getattr(obj, realize(name), *default)


def m_hasattr(obj, name):
    return hasattr(obj, realize(name))


def m_print(*args, **kw):
    return print(*[realize(a) for a in args], **kw)


def m_passthrough(f):
    return f


def m_set(*args):
    return set(*[deep_realize(list(a)) if not isinstance(a, (str, SymStr)) else a for a in args])


def m_format(v, spec=''):
    return sx_fs((v, -1, spec))


def _json_parts(x, out, depth=0):
    if depth > 30:
        raise ValueError('too deep')
    if is_sym(x):
        if type(x) is SymBool:
            out.append('true' if bool(x) else 'false')
        elif type(x) is SymInt:
            out.append(x)
        elif type(x) is SymStr:
            out.append('"')
            for ch in x.c:
                if isinstance(ch, str):
                    out.append(json.dumps(ch)[1:-1])
                else:
                    if Engine.current.decide(_z3.Or(ch == 34, ch == 92)):
                        out.append('\\')
                    elif Engine.current.decide(_z3.Or(ch < 32, ch > 126)):
                        out.append(json.dumps(realize(SymStr((ch,))))[1:-1])
                        continue
                    out.append(SymStr((ch,)))
            out.append('"')
        elif type(x) is SymText:
            out.append('"')
            for q in x.parts:
                _json_text(q, out)
            out.append('"')
        else:
            out.append(json.dumps(realize(x)))
    elif isinstance(x, dict):
        out.append('{')
        for n, (k, v) in enumerate(x.items()):
            out.append(', ' if n else '')
            _json_parts(k if isinstance(k, str) else m_str(k), out, depth + 1)
            out.append(': ')
            _json_parts(v, out, depth + 1)
        out.append('}')
    elif isinstance(x, (list, tuple)):
        out.append('[')
        for n, v in enumerate(x):
            out.append(', ' if n else '')
            _json_parts(v, out, depth + 1)
        out.append(']')
    else:
        out.append(json.dumps(x))


def _json_text(q, out):
    if type(q) is str:
        out.append(json.dumps(q)[1:-1])
    elif type(q) is SymInt:
        out.append(q)
    else:
        sub = []
        _json_parts(q, sub)
        out.extend(sub[1:-1] if sub and sub[0] == '"' else sub)


def _json_copy(x):
    if is_sym(x):
        return x
    if isinstance(x, dict):
        return {k: _json_copy(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_json_copy(v) for v in x]
    return x


def m_json_dumps(obj, *args, **kw):
    if args or kw or not has_sym(obj):
        return json.dumps(deep_realize(obj), *args, **kw)
    out = []
    _json_parts(obj, out)
    if all(type(o) is str or type(o) is SymStr for o in out):
        out = [px.mk_str([c for o in out for c in px._chars(o)])]
    r = SymText(out)
    r.origin = _json_copy(obj)
    return r


def m_json_loads(text, *args, **kw):
    if type(text) is SymText and text.origin is not None and not args and not kw:
        return _json_copy(text.origin)
    return json.loads(realize(text), *args, **kw)


BUILTINS = {
    id(json.dumps): m_json_dumps, id(json.loads): m_json_loads,
    id(isinstance): m_isinstance, id(type): m_type, id(len): m_len, id(hash): m_hash,
    id(str): m_str, id(repr): m_repr, id(int): m_int, id(float): m_float, id(bool): m_bool,
    id(callable): m_callable, id(range): m_range, id(chr): m_chr, id(ord): m_ord,
    id(getattr): m_getattr, id(hasattr): m_hasattr, id(print): m_print, id(format): m_format,
}
# builtins that only use dunder protocols of their arguments and work natively
NATIVE = {id(x) for x in (max, min, any, all, sorted, sum, abs, iter, next, list, tuple, dict, enumerate,
                          zip, map, filter, reversed, id, divmod, setattr, delattr, property, staticmethod,
                          classmethod, object, issubclass, open, input)}


def _dict_method(d, name):
    if name == 'get':
        def get(key, default=None):
            if _needs_scan(d, key):
                found, k = _find_key(d, key)
                return _raw_get(d, k) if found else default
            return dict.get(d, key, default)
        return get
    if name == 'pop':
        def pop(key, *default):
            if _needs_scan(d, key):
                found, k = _find_key(d, key)
                if not found:
                    if default:
                        return default[0]
                    raise KeyError(key)
                v = _raw_get(d, k)
                _raw_del(d, k)
                return v
            return dict.pop(d, key, *default)
        return pop
    if name == 'setdefault':
        def setdefault(key, default=None):
            if _needs_scan(d, key):
                found, k = _find_key(d, key)
                if found:
                    return _raw_get(d, k)
                _raw_set(d, key, default)
                return default
            return dict.setdefault(d, key, default)
        return setdefault
    if name == '__contains__':
        return lambda key: sx_in(key, d)
    if name == '__getitem__':
        return lambda key: sx_gi(d, key)
    return None


def _set_method(s, name):
    if name == 'add':
        def add(x):
            if is_sym(x) or _dict_has_sym(s):
                if not _find_key(s, x)[0]:
                    set.add(s, _IdKey.wrap(x))
                return
            set.add(s, x)
        return add
    if name in ('__contains__',):
        return lambda x: sx_in(x, s)
    return None


GUARDED_MODULES = {'json', 'datetime', 'os', 'posixpath', 'shutil', 'pathlib', 're', 'email', 'textwrap', 'string'}


def sx_f(f):
    t = type(f)
    if t is types.FunctionType or t is types.MethodType:
        if f is json.dumps:
            return m_json_dumps
        if f is json.loads:
            return m_json_loads
        if (f.__module__ or '').split('.')[0] in GUARDED_MODULES:
            return _guarded(f)
        return f
    m = BUILTINS.get(id(f))
    if m is not None:
        return m
    if t is types.BuiltinFunctionType:
        if id(f) in NATIVE:
            return f
        owner = f.__self__
        if isinstance(owner, types.ModuleType) or owner is None:
            mod = owner.__name__ if owner is not None else ''
            if mod in ('_contextvars', '_weakref', '_thread', 'itertools', '_functools', '_operator', 'atexit', 'sys', 'gc'):
                return f
            return _guarded(f)
        ot = type(owner)
        if isinstance(owner, dict):
            r = _dict_method(owner, f.__name__)
            return r if r is not None else f
        if ot is set:
            r = _set_method(owner, f.__name__)
            return r if r is not None else f
        if ot in (list, tuple, type({}.items())):
            return f
        if ot is str:
            return _str_method(owner, f)
        if ot.__name__ in ('ContextVar', 'Context', 'generator', 'coroutine', 'frame', 'lock', 'RLock'):
            return f
        if isinstance(owner, type):
            return _guarded(f)
        if ot.__module__.split('.')[0] in ('polog', 'harness', '_weakref', 'weakref', '_io', 'collections'):
            return f if ot.__module__ != '_io' else _guarded(f)
        return _guarded(f)
    return f


def _str_method(owner, f):
    name = f.__name__

    def call(*args, **kw):
        if not any(is_sym(a) for a in args) and not (name == 'join'):
            if name == 'format' and (has_sym(list(args)) or has_sym(dict(kw))):
                return f(*deep_realize(list(args)), **deep_realize(dict(kw)))
            return f(*args, **kw)
        if name == 'join':
            items = list(args[0])
            if not any(is_sym(i) for i in items):
                return f(items)
            out = []
            for k, i in enumerate(items):
                if k:
                    out.append(owner)
                if not isinstance(i, str):
                    return f(items)
                out.append(i)
            if all(type(o) is str or type(o) is SymStr for o in out):
                return px.mk_str([c for o in out for c in px._chars(o)])
            return SymText(out)
        if name == 'format':
            return f(*[realize(a) for a in args], **deep_realize(dict(kw)))
        return getattr(SymStr(owner), name)(*args, **kw)
    return call


def _guarded(f):
    def call(*args, **kw):
        if any(has_sym(a) for a in args) or any(has_sym(v) for v in kw.values()):
            Engine.current.notes.add('symbolic value made concrete for %s' % getattr(f, '__qualname__', f))
            return f(*[deep_realize(a) for a in args], **{k: deep_realize(v) for k, v in kw.items()})
        return f(*args, **kw)
    return call


NAMESPACE = {
    '__sx_f__': sx_f, '__sx_in__': sx_in, '__sx_notin__': sx_notin, '__sx_is__': sx_is, '__sx_isnot__': sx_isnot,
    '__sx_gi__': sx_gi, '__sx_si__': sx_si, '__sx_di__': sx_di, '__sx_slice__': sx_slice, '__sx_fs__': sx_fs,
    '__sx_enter__': sx_enter,
}


class Loader(importlib.machinery.SourceFileLoader):
    record = True
    codes = {}

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        if path in self.codes:
            return self.codes[path]
        with open(path, 'rb') as fh:
            src = fh.read()
        tree = ast.parse(src, path)
        if fullname.startswith('polog') and conc.wanted(fullname, conc.Loader.prefixes):
            tree = conc.transform(tree)
        tree = Transformer(fullname, record=fullname.startswith('polog')).visit(tree)
        ast.fix_missing_locations(tree)
        self.codes[path] = compile(tree, path, 'exec', dont_inherit=True)
        return self.codes[path]

    def exec_module(self, module):
        module.__dict__.update(NAMESPACE)
        module.__dict__.update(conc.NAMESPACE)
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots      # package name -> directory holding it

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split('.')[0]
        if top not in self.roots:
            return None
        base = os.path.join(self.roots[top], *fullname.split('.'))
        if os.path.isfile(os.path.join(base, '__init__.py')):
            file, pkg = os.path.join(base, '__init__.py'), True
        elif os.path.isfile(base + '.py'):
            file, pkg = base + '.py', False
        else:
            return None
        loader = Loader(fullname, file)
        spec = importlib.util.spec_from_file_location(fullname, file, loader=loader,
                                                      submodule_search_locations=[base] if pkg else None)
        return spec


def install(repo='/repo', verif='/verif'):
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder({'polog': repo, 'harness': verif}))
