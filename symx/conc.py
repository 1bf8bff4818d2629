"""
Threads under a symbolic scheduler.

The threads of the code under test are real threads, but only the one that holds the baton runs.  Scheduling points are
put before every statement of the chosen modules that touches an attribute, an item or a call, between reading and
writing in one statement, and at every operation of the stand-ins for locks, queues, events, threads, sleeping and files.

The schedule is a vector of symbolic integers: `preempt<i> after` is the number of scheduling points after the last forced
switch at which the running thread is forced to give the baton away, `preempt<i> to` the thread that gets it; when a thread blocks or ends, the next
one is one more choice variable.  At each scheduling point the solver decides whether this is a chosen one, so every
schedule with at most that many forced switches is one path (forced switches are bounded, voluntary ones are not).

A replay runs the plain source with the same scheduling points and the values found by the solver.
"""
import _thread
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import operator
import os
import queue
import sys
import threading
import time
import traceback

from symx.text import trace

REAL_SLEEP = time.sleep
NO_PROGRESS = 60


class Deadlock(BaseException):
    pass


class Managed:
    def __init__(self, number, function, name, daemon):
        self.number, self.function, self.name, self.daemon = number, function, name, daemon
        self.baton = _thread.allocate_lock()
        self.baton.acquire()
        self.state = 'ready'        # ready, blocked, idle, finished
        self.condition = None       # for blocked and idle with a condition
        self.timed_out = False
        self.error = None
        self.turn = 0
        self.interrupted = False    # KeyboardInterrupt is raised when it gets the baton


class Scheduler:
    current = None

    def __init__(self, sx, preemptions, horizon, free):
        self.sx = sx
        self.free = free            # how many times another thread than the first ready one may be chosen (None: always)
        self.threads = []
        self.running = None
        self.by_ident = {}
        self.points = 0
        self.switches = 0
        self.choices = 0
        self.idle_rounds = 0
        self.turns = 0
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.outcome = None
        self.log = []
        self.over = False
        self.quiet = True
        self.preempt = []
        for i in range(preemptions):
            self.preempt.append([sx.int('preempt%d after' % i, 1, horizon), 'preempt%d to' % i])

    # ---------------------------------------------------------------- threads
    def add(self, function, name, daemon=False):
        t = Managed(len(self.threads), function, name, daemon)
        self.threads.append(t)
        _thread.start_new_thread(self._body, (t,))
        return t

    def _body(self, t):
        t.baton.acquire()
        self.by_ident[_thread.get_ident()] = t
        if self.over:
            return
        try:
            t.function()
        except BaseException as e:
            t.error = e
            t.trace = trace()
        self._check_over()
        t.state = 'finished'
        self.log.append((t.name, 'ends'))
        self._next(t)

    def _check_over(self):
        """A thread that is left when the run is over stands still for ever, so that nothing is unwound."""
        if self.over:
            lock = _thread.allocate_lock()
            lock.acquire()
            lock.acquire()

    def me(self):
        return self.by_ident.get(_thread.get_ident())

    # ---------------------------------------------------------------- choosing
    def _live(self):
        return [t for t in self.threads if t.state != 'finished']

    def _ready(self, but=None):
        out = []
        for t in self.threads:
            if t is but or t.state == 'finished':
                continue
            if t.state == 'ready' or t.interrupted or (t.condition is not None and t.condition()):
                out.append(t)
        return out

    def _idle(self, but=None):
        return [t for t in self.threads if t is not but and t.state == 'idle' and not t.interrupted and not (t.condition is not None and t.condition())]

    def _give(self, me, other):
        """Pass the baton; returns when it comes back."""
        if other.state in ('blocked', 'idle'):
            other.timed_out = not (other.condition is not None and other.condition())
            other.state, other.condition = 'ready', None
        self.turns += 1
        other.turn = self.turns
        if other is me:
            return
        self.switches += 1
        self.running = other
        other.baton.release()
        if me is not None and me.state != 'finished':
            me.baton.acquire()
            self._check_over()

    def _end(self, outcome):
        self.over = True
        self.outcome = outcome
        self.main.release()
        self._check_over()

    def _next(self, me):
        """The running thread cannot or will not go on: choose another."""
        if all(t.state == 'finished' for t in self.threads if not t.daemon):
            self._end('done')
        ready = self._ready()
        if ready:
            self.idle_rounds = 0
            other = min(ready, key=lambda t: t.turn) if self.quiet else ready[0]
            if len(ready) > 1 and not self.quiet and self.free != 0:
                self.choices += 1
                other = self.sx.choice('next%d' % self.choices, ready)
                if other is not ready[0] and self.free is not None:
                    self.free -= 1
            return self._give(me, other)
        idle = self._idle()
        if not idle:
            self._end('deadlock')
        self.idle_rounds += 1
        if self.idle_rounds > NO_PROGRESS:
            self._end('no progress')
        self._give(me, min(idle, key=lambda t: t.turn))

    # ---------------------------------------------------------------- what the stand-ins call
    def point(self, what=''):
        me = self.me()
        if self.quiet or me is None or self.over or me is not self.running:
            return
        self.points += 1
        if not self.preempt:
            return
        others = self._ready(me) + self._idle(me)
        if not others:
            return
        after, to = self.preempt[0]
        if after == self.points:
            self.preempt.pop(0)
            self.points = 0
            self.log.append((me.name, 'preempted at %s' % (what,)))
            other = self.sx.choice(to, others)
            self.idle_rounds = 0
            self._give(me, other)
            self._interrupt(me)

    def wait(self, condition, timed=False, what=''):
        """Until the condition; False when the time is out."""
        me = self.me()
        if condition():
            return True
        if me is None:
            if timed:
                return False
            raise Deadlock(what)
        self._check_over()
        me.condition = condition
        me.state = 'idle' if timed else 'blocked'
        self._next(me)
        self._interrupt(me)
        return not me.timed_out

    def _interrupt(self, me):
        if me.interrupted:
            me.interrupted = False
            raise KeyboardInterrupt()

    def sleep(self):
        me = self.me()
        if me is None:
            return
        self._check_over()
        me.condition = None
        me.state = 'idle'
        self._next(me)
        self._interrupt(me)

    def run(self, functions, before, after):
        def director():
            if before is not None:
                before()
            writers = [self.add(f, getattr(f, '__name__', 'writer %d' % i)) for i, f in enumerate(functions)]
            self.quiet = False
            self.wait(lambda: all(t.state == 'finished' for t in writers), False, 'the threads')
            self.quiet = True
            if after is not None:
                after()
        self.running = self.add(director, 'director')
        self.running.baton.release()
        self.main.acquire()
        return self.outcome


def scheduler():
    return Scheduler.current


def point(what=''):
    s = Scheduler.current
    if s is not None:
        s.point(what)


def _wait(condition, timed=False, what=''):
    s = Scheduler.current
    if s is None:
        if condition():
            return True
        if timed:
            return False
        raise Deadlock(what)
    return s.wait(condition, timed, what)


def _who():
    s = Scheduler.current
    t = s.me() if s is not None else None
    return t if t is not None else 'main'


# -------------------------------------------------------------------- stand-ins
class Lock:
    def __init__(self):
        self.owner = None

    def acquire(self, blocking=True, timeout=-1):
        point('acquire')
        if not blocking:
            if self.owner is not None:
                return False
        elif not _wait(lambda: self.owner is None, timeout is not None and timeout >= 0, 'a lock'):
            return False
        self.owner = _who()
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.owner = None

    def locked(self):
        return self.owner is not None

    def _at_fork_reinit(self):
        self.owner = None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class RLock:
    def __init__(self):
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _who()
        if self.owner is me:
            self.count += 1
            return True
        point('acquire')
        if not blocking:
            if self.owner is not None:
                return False
        elif not _wait(lambda: self.owner is None, timeout is not None and timeout >= 0, 'a lock'):
            return False
        self.owner = me
        self.count = 1
        return True

    def release(self):
        if self.owner is not _who():
            raise RuntimeError('cannot release un-acquired lock')
        self.count -= 1
        if not self.count:
            self.owner = None

    def _at_fork_reinit(self):
        self.owner, self.count = None, 0

    def _is_owned(self):
        return self.owner is _who()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class Semaphore:
    bounded = False

    def __init__(self, value=1):
        self.value = self.start = value

    def acquire(self, blocking=True, timeout=None):
        point('acquire')
        if not blocking:
            if not self.value:
                return False
        elif not _wait(lambda: self.value > 0, timeout is not None, 'a semaphore'):
            return False
        self.value -= 1
        return True

    def release(self, n=1):
        if self.bounded and self.value + n > self.start:
            raise ValueError('Semaphore released too many times')
        self.value += n

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class BoundedSemaphore(Semaphore):
    bounded = True


class Event:
    def __init__(self):
        self.flag = False

    def is_set(self):
        point('event')
        return self.flag

    isSet = is_set

    def set(self):
        point('event')
        self.flag = True

    def clear(self):
        point('event')
        self.flag = False

    def wait(self, timeout=None):
        point('event')
        return _wait(lambda: self.flag, timeout is not None, 'an event')


class Condition:
    def __init__(self, lock=None):
        self.lock = lock if lock is not None else RLock()
        self.acquire, self.release = self.lock.acquire, self.lock.release
        self.tickets = []

    def __enter__(self):
        return self.lock.__enter__()

    def __exit__(self, *a):
        return self.lock.__exit__(*a)

    def wait(self, timeout=None):
        ticket = [False]
        self.tickets.append(ticket)
        count = getattr(self.lock, 'count', 1)
        self.lock.owner = None
        ok = _wait(lambda: ticket[0], timeout is not None, 'a condition')
        if ticket in self.tickets:
            self.tickets.remove(ticket)
        _wait(lambda: self.lock.owner is None, False, 'a lock')
        self.lock.owner = _who()
        if hasattr(self.lock, 'count'):
            self.lock.count = count
        return ok

    def wait_for(self, predicate, timeout=None):
        result = predicate()
        while not result:
            if not self.wait(timeout) and timeout is not None:
                return predicate()
            result = predicate()
        return result

    def notify(self, n=1):
        for ticket in self.tickets[:n]:
            ticket[0] = True
        del self.tickets[:n]

    def notify_all(self):
        self.notify(len(self.tickets))

    notifyAll = notify_all


class Queue:
    def __init__(self, maxsize=0):
        self.maxsize = maxsize
        self.items = []
        self.unfinished_tasks = 0

    def _put(self, item):
        self.items.append(item)

    def _get(self):
        return self.items.pop(0)

    def qsize(self):
        point('queue')
        return len(self.items)

    def empty(self):
        point('queue')
        return not self.items

    def full(self):
        point('queue')
        return 0 < self.maxsize <= len(self.items)

    def put(self, item, block=True, timeout=None):
        point('put')
        room = lambda: not self.maxsize or self.maxsize < 0 or len(self.items) < self.maxsize
        if not block:
            if not room():
                raise queue.Full
        elif not _wait(room, timeout is not None, 'a place in the queue'):
            raise queue.Full
        self._put(item)
        self.unfinished_tasks += 1

    def get(self, block=True, timeout=None):
        point('get')
        if not block:
            if not self.items:
                raise queue.Empty
        elif not _wait(lambda: bool(self.items), timeout is not None, 'an item of the queue'):
            raise queue.Empty
        return self._get()

    def put_nowait(self, item):
        return self.put(item, block=False)

    def get_nowait(self):
        return self.get(block=False)

    def task_done(self):
        point('task')
        if self.unfinished_tasks <= 0:
            raise ValueError('task_done() called too many times')
        self.unfinished_tasks -= 1

    def join(self):
        point('join')
        _wait(lambda: not self.unfinished_tasks, False, 'the queue')


class LifoQueue(Queue):
    def _get(self):
        return self.items.pop()


class Thread:
    number = 0
    started = []

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        Thread.number += 1
        self.target, self.args, self.kwargs = target, args, dict(kwargs or {})
        self.name = name or 'thread %d' % Thread.number
        self.daemon = bool(daemon)
        self.managed = None
        self.ident = None

    def run(self):
        if self.target is not None:
            self.target(*self.args, **self.kwargs)

    def start(self):
        if self.managed is not None:
            raise RuntimeError('threads can only be started once')
        s = Scheduler.current
        if s is None:
            raise RuntimeError('a thread is started outside of the scheduler')
        # a thread that the code under test starts does not keep the run going: leaving it alive is checked separately
        self.managed = s.add(self.run, self.name, daemon=True)
        self.managed.mine = self
        Thread.started.append(self)
        self.ident = 100000 + self.managed.number

    def is_alive(self):
        point('alive')
        return self.managed is not None and self.managed.state != 'finished'

    def join(self, timeout=None):
        if self.managed is None:
            raise RuntimeError('cannot join thread before it is started')
        point('join')
        _wait(lambda: self.managed.state == 'finished', timeout is not None, 'the end of a thread')

    def setDaemon(self, daemon):
        self.daemon = daemon


class Timer(Thread):
    """If `fires`, may fire at any moment after its start when the thread 'main' waits or sleeps; otherwise never."""
    fires = False

    def __init__(self, interval, function, args=None, kwargs=None):
        Thread.__init__(self, target=self.wait, name='timer')
        self.function, self.function_args, self.function_kwargs = function, args or (), kwargs or {}
        self.cancelled = False

    def wait(self):
        while not _wait(lambda: self.cancelled, True, 'a timer'):
            if any(t.name == 'main' and t.state in ('idle', 'blocked') for t in Scheduler.current.threads):
                self.function(*self.function_args, **self.function_kwargs)
                break

    def start(self):
        if self.fires:
            Thread.start(self)

    def cancel(self):
        self.cancelled = True


def interrupt_main(*a):
    """The thread named 'main' is interrupted."""
    s = Scheduler.current
    for t in s.threads if s is not None else ():
        if t.name == 'main' and t.state != 'finished':
            t.interrupted = True


def sleep(seconds):
    s = Scheduler.current
    if s is not None:
        s.sleep()


def install():
    """Before the code under test is imported."""
    for name in ('Lock', 'RLock', 'Semaphore', 'BoundedSemaphore', 'Event', 'Condition', 'Thread', 'Timer'):
        setattr(threading, name, globals()[name])
    queue.Queue, queue.LifoQueue, queue.SimpleQueue = Queue, LifoQueue, Queue
    time.sleep = sleep
    _thread.interrupt_main = interrupt_main
    _thread.stack_size(32 * 1024 * 1024)


class Result:
    def __init__(self, outcome, errors, scheduler):
        self.outcome, self.errors, self.scheduler = outcome, errors, scheduler

    def __str__(self):
        where = []
        frames = sys._current_frames()
        for ident, t in self.scheduler.by_ident.items():
            if t.state != 'finished' and ident in frames and self.outcome != 'done':
                stack = [f for f in traceback.extract_stack(frames[ident]) if 'polog' in f.filename]
                where.append('%s in %s' % (t.name, ' < '.join('%s:%d' % (f.name, f.lineno) for f in reversed(stack[-3:]))))
        return '%s; %s; %s' % (self.outcome, self.scheduler.log[-12:], where)


def run(sx, functions, preemptions=2, horizon=100000, check=True, before=None, after=None, free=None):
    """Run the functions as threads under every schedule; checks that they all end without exceptions.

    `before` and `after` run in a thread of their own, alone: threads they leave waiting get no choice of the schedule.
    """
    s = Scheduler(sx, preemptions, horizon, free)
    Scheduler.current = s
    try:
        outcome = s.run(functions, before, after)
    finally:
        Scheduler.current = None
    errors = [(t.name, t.error) for t in s.threads if t.error is not None]
    result = Result(outcome, errors, s)
    if check:
        sx.check(outcome != 'deadlock', 'no schedule ends in a deadlock', result)
        sx.check(outcome != 'no progress', 'no schedule waits for ever', result)
        sx.check(not errors, 'no schedule ends in an exception', '%s %s' % ([(n, type(e).__name__) for n, e in errors], s.log[-8:]))
    if outcome == 'done':
        sx.mark('done')
    return result


# -------------------------------------------------------------------- scheduling points in the source
MUTATORS = {'append', 'appendleft', 'add', 'clear', 'discard', 'extend', 'insert', 'pop', 'popitem', 'popleft', 'remove', 'setdefault', 'update', 'sort', 'reverse', '__setitem__', '__delitem__'}
REFLECTION = {'hasattr', 'getattr', 'setattr', 'delattr'}


def _base(node):
    """The name under which an object is reached: the last attribute or the variable."""
    while isinstance(node, (ast.Subscript, ast.Call)):
        node = node.value if isinstance(node, ast.Subscript) else node.func
    return node.attr if isinstance(node, ast.Attribute) else node.id if isinstance(node, ast.Name) else None


class Changed(ast.NodeVisitor):
    """Names of attributes (and module variables) that change after their object was made."""

    def __init__(self, init):
        self.names = set()
        self.init = init            # do changes in constructors count?
        self.functions = []
        self.locals = [set()]

    def visit_FunctionDef(self, node):
        self.functions.append(node.name)
        a = node.args
        own = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                own.add(n.id)
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                self.names.update(n.names)
        self.locals.append(self.locals[-1] | own)
        self.generic_visit(node)
        self.locals.pop()
        self.functions.pop()

    visit_AsyncFunctionDef = visit_FunctionDef

    def counts(self, node):
        if not self.functions:
            return False
        if isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name) and node.value.id == 'self' and self.functions[-1] in ('__init__', '__new__'):
            return self.init
        return True

    def add(self, node):
        name = _base(node)
        if name and not (isinstance(node, ast.Name) and name in self.locals[-1]):
            self.names.add(name)

    def visit_Attribute(self, node):
        if not isinstance(node.ctx, ast.Load) and self.counts(node):
            self.names.add(node.attr)
        self.generic_visit(node)

    def visit_Subscript(self, node):
        if not isinstance(node.ctx, ast.Load) and self.counts(node.value):
            self.add(node.value)
        self.generic_visit(node)

    def visit_Call(self, node):
        if isinstance(node.func, ast.Attribute) and node.func.attr in MUTATORS and self.counts(node.func.value):
            self.add(node.func.value)
        self.generic_visit(node)


def changed(repo, prefixes, init):
    names = set()
    for folder, _, files in os.walk(os.path.join(repo, 'polog')):
        for file in files:
            if file.endswith('.py'):
                path = os.path.join(folder, file)
                module = os.path.relpath(path, repo)[:-3].replace(os.sep, '.')
                module = module[:-9] if module.endswith('.__init__') else module
                if wanted(module, prefixes):
                    with open(path, 'rb') as fh:
                        visitor = Changed(init)
                        visitor.visit(ast.parse(fh.read(), path))
                        names |= visitor.names
    return names


def _shared(node):
    """Does an expression touch anything another thread can change?"""
    if node is None:
        return False
    for n in ast.walk(node):
        if isinstance(n, ast.Attribute) and n.attr in Loader.names:
            return True
        if isinstance(n, ast.Name) and (n.id in Loader.names or n.id in REFLECTION):
            return True
    return False


def _call(name='__cx_point__', *args):
    return ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=list(args), keywords=[])


class Points(ast.NodeTransformer):
    """Puts the calls of the scheduler into function bodies."""

    def __init__(self):
        self.depth = 0
        self.temp = 0

    def _function(self, node):
        self.depth += 1
        docstring = []
        body = node.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            docstring, body = body[:1], body[1:]
        node.body = docstring + self._block(body)
        self.depth -= 1
        return node

    visit_FunctionDef = visit_AsyncFunctionDef = _function

    def visit_ClassDef(self, node):
        depth, self.depth = self.depth, 0
        self.generic_visit(node)
        self.depth = depth
        return node

    def _point(self, node):
        p = ast.Expr(value=_call('__cx_point__', ast.Constant(value=node.lineno)))
        return ast.copy_location(p, node)

    def _block(self, statements):
        out = []
        for st in statements:
            if not self.depth:
                out.append(self.visit(st))
                continue
            header = {ast.If: 'test', ast.While: 'test', ast.For: 'iter', ast.Return: 'value', ast.Expr: 'value', ast.Assert: 'test', ast.Raise: 'exc'}.get(type(st))
            shared = False
            if header:
                shared = _shared(getattr(st, header))
            elif isinstance(st, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete)):
                shared = _shared(st)
            if shared:
                out.append(self._point(st))
                self._comprehensions(st, getattr(st, header) if header else st)
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.append(self.visit(st))
                continue
            if shared and isinstance(st, ast.AugAssign) and isinstance(st.target, (ast.Attribute, ast.Subscript)):
                out.extend(self._split_aug(st))
                continue
            if shared and isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], (ast.Attribute, ast.Subscript)) and (_shared(st.value) or any(isinstance(n, (ast.Call, ast.Subscript)) for n in ast.walk(st.value))):
                out.extend(self._split(st))
                continue
            for name in ('body', 'orelse', 'finalbody'):
                if getattr(st, name, None) and isinstance(getattr(st, name), list):
                    setattr(st, name, self._block(getattr(st, name)))
            if isinstance(st, (ast.While, ast.For)) and shared:
                st.body.insert(0, self._point(st))
            for handler in getattr(st, 'handlers', []):
                handler.body = self._block(handler.body)
            for case in getattr(st, 'cases', []):
                case.body = self._block(case.body)
            out.append(st)
        return out

    def _comprehensions(self, st, expression):
        """Another thread can run between two rounds of a comprehension."""
        for n in ast.walk(expression):
            if isinstance(n, ast.comprehension) and _shared(n.iter) and not n.is_async:
                n.ifs.insert(0, ast.copy_location(_call('__cx_round__', ast.Constant(value=st.lineno)), n.iter))

    def _name(self):
        self.temp += 1
        return '__cx_t%d' % self.temp

    def _split(self, st):
        name = self._name()
        first = ast.Assign(targets=[ast.Name(id=name, ctx=ast.Store())], value=st.value)
        second = ast.Assign(targets=st.targets, value=ast.Name(id=name, ctx=ast.Load()))
        return [ast.copy_location(first, st), self._point(st), ast.copy_location(second, st)]

    def _split_aug(self, st):
        name = self._name()
        target = st.target
        load = ast.parse(ast.unparse(target), mode='eval').body
        first = ast.Assign(targets=[ast.Name(id=name, ctx=ast.Store())], value=load)
        second = ast.Assign(targets=[target], value=_call('__cx_op__', ast.Constant(value=type(st.op).__name__), ast.Name(id=name, ctx=ast.Load()), st.value))
        return [ast.copy_location(first, st), self._point(st), ast.copy_location(second, st)]


OPS = {'Add': operator.iadd, 'Sub': operator.isub, 'Mult': operator.imul, 'Div': operator.itruediv, 'FloorDiv': operator.ifloordiv, 'Mod': operator.imod, 'Pow': operator.ipow,
       'BitOr': operator.ior, 'BitAnd': operator.iand, 'BitXor': operator.ixor, 'LShift': operator.ilshift, 'RShift': operator.irshift, 'MatMult': operator.imatmul}


def op(name, a, b):
    return OPS[name](a, b)


def turn(what=''):
    point(what)
    return True


NAMESPACE = {'__cx_point__': point, '__cx_op__': op, '__cx_round__': turn}


def transform(tree):
    tree = Points().visit(tree)
    ast.fix_missing_locations(tree)
    return tree


def wanted(name, prefixes):
    return any(name == p or name.startswith(p + '.') for p in prefixes)


class Loader(importlib.machinery.SourceFileLoader):
    """For replays: the plain source with scheduling points only."""
    prefixes = ()
    names = set()

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, 'rb') as fh:
            tree = ast.parse(fh.read(), path)
        if wanted(fullname, self.prefixes):
            tree = transform(tree)
        return compile(tree, path, 'exec', dont_inherit=True)

    def exec_module(self, module):
        module.__dict__.update(NAMESPACE)
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, repo):
        self.repo = repo

    def find_spec(self, fullname, path=None, target=None):
        if fullname.split('.')[0] != 'polog':
            return None
        base = os.path.join(self.repo, *fullname.split('.'))
        if os.path.isfile(os.path.join(base, '__init__.py')):
            file, pkg = os.path.join(base, '__init__.py'), True
        elif os.path.isfile(base + '.py'):
            file, pkg = base + '.py', False
        else:
            return None
        return importlib.util.spec_from_file_location(fullname, file, loader=Loader(fullname, file), submodule_search_locations=[base] if pkg else None)


def prepare(repo, meta):
    """From the declarations of a harness: YIELD_IN (modules with scheduling points), YIELD_INIT (do attributes that only constructors set
    count as shared?), YIELD_NOT (attributes that nothing changes once the run has begun)."""
    Loader.prefixes = tuple(meta.get('YIELD_IN') or ())
    Loader.names = changed(repo, Loader.prefixes, meta.get('YIELD_INIT', False)) - set(meta.get('YIELD_NOT', ())) if Loader.prefixes else set()


def install_finder(repo):
    sys.meta_path.insert(0, Finder(repo))


def alive():
    """Names of the threads of the code under test that still run."""
    return [t.name for t in Thread.started if t.managed.state != 'finished']
