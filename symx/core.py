"""
Symbolic execution core: path exploration by process forking, decided by z3.

A harness is an ordinary Python function `harness(sx)`.  In symbolic mode the
inputs it asks `sx` for are proxies over z3 terms; every branch the *real* code
of /repo takes on such a value reaches `Engine.decide`, which asks the solver
which outcomes are feasible under the current path condition and, when both
are, forks the process: one copy assumes the condition, the other its negation.
Every path is therefore executed exactly once, with nothing re-run, and the set
of leaves is the set of feasible paths within the stated bounds.

An assertion (`sx.check`) is a query: is `path condition and not assertion`
satisfiable?  A model is a counterexample; it is written out by input name and
later replayed on the pristine code by the runner.
"""
import errno
import fcntl
import json
import mmap
import os
import signal
import struct
import sys
import time
import traceback

import z3

from symx.text import trace

MAX_REALIZE = 64
HANG_S = 45
HANG = 'the operation never finishes'


class Engine:
    """One per process tree; the fork()ed copies share only files and an mmap."""

    current = None

    def __init__(self, out_path, jobs=8, deadline=None, max_paths=200000, rlimit=40000000, prefix=None, alternatives=None, known=()):
        # Threads do not survive a fork, so a run with threads is executed anew for every path: `prefix` is the list of
        # the decisions to repeat, and the other outcomes found after it go to the file `alternatives`.
        self.prefix = prefix
        self.taken = []
        self.found = []
        self.alternatives = alternatives
        self.solver = z3.Solver()
        self.solver.set('rlimit', rlimit)
        self.model = None           # a model of the current path condition, if known
        self.inputs = {}            # name -> proxy or (kind, payload)
        self.order = []
        self.trace = []             # decisions of this path, for samples
        self.marks = set()
        self.functions = set()
        self.functions_known = set(known)
        self.violations = []
        self.notes = set()
        self.q_sat = self.q_unsat = self.q_unknown = 0
        self.q_branch = self.q_assert = 0
        self.assert_discharged = 0
        self.solver_s = 0.0
        self.forks = 0
        self.truncated = False
        self.children = []
        self.owns_token = False
        self.deadline = deadline
        self.max_paths = max_paths
        self.out = os.open(out_path, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o644)
        self.shared = mmap.mmap(-1, 64)
        self.tok_r, self.tok_w = os.pipe()
        os.set_blocking(self.tok_r, False)
        os.write(self.tok_w, b'x' * max(0, jobs - 1))
        self.root = True
        self.quiet = False
        self.main_pid = None

    # ---------------------------------------------------------------- hangs
    def arm(self):
        signal.signal(signal.SIGALRM, self._hang)
        signal.setitimer(signal.ITIMER_REAL, HANG_S)

    def disarm(self):
        signal.setitimer(signal.ITIMER_REAL, 0)

    def _hang(self, *a):
        self.notes.add('a path was cut because it did not finish')
        self.violation(HANG, kind='hang', detail=''.join(traceback.format_stack(limit=8)))
        self.finish()

    # ---------------------------------------------------------------- shared counters
    def _count_path(self):
        fcntl.lockf(self.out, fcntl.LOCK_EX)
        try:
            n, = struct.unpack_from('q', self.shared, 0)
            struct.pack_into('q', self.shared, 0, n + 1)
        finally:
            fcntl.lockf(self.out, fcntl.LOCK_UN)
        return n + 1

    def _over_budget(self):
        n, = struct.unpack_from('q', self.shared, 0)
        if n >= self.max_paths:
            return True
        return self.deadline is not None and time.time() > self.deadline

    # ---------------------------------------------------------------- solver
    def query(self, *extra):
        t = time.perf_counter()
        r = self.solver.check(*extra)
        self.solver_s += time.perf_counter() - t
        if r == z3.sat:
            self.q_sat += 1
        elif r == z3.unsat:
            self.q_unsat += 1
        else:
            self.q_unknown += 1
            self.truncated = True
            self.notes.add('solver returned unknown')
        return r

    def assume(self, expr):
        self.solver.add(expr)
        if self.model is not None and not z3.is_true(self.model.eval(expr, model_completion=True)):
            self.model = None

    def ensure_model(self):
        if self.model is None:
            if self.query() == z3.sat:
                self.model = self.solver.model()
        return self.model

    def feasible(self):
        return self.ensure_model() is not None

    def decide(self, expr, label=None):
        """The truth value of a z3 Bool on this path; forks when both are feasible."""
        expr = z3.simplify(expr)
        if z3.is_true(expr):
            return True
        if z3.is_false(expr):
            return False
        if self.prefix is not None and len(self.taken) < len(self.prefix):
            answer = self.prefix[len(self.taken)]
            assert isinstance(answer, bool), 'the execution is not repeatable'
            self.taken.append(answer)
            self.solver.add(expr if answer else z3.Not(expr))
            self.model = None
            self.trace.append((answer, expr, label))
            return answer
        model = self.ensure_model()
        if model is None:            # infeasible or unknown: keep going, the leaf is marked
            self.truncated = True
            return self._forced(True)
        guess = z3.is_true(model.eval(expr, model_completion=True))
        likely = expr if guess else z3.Not(expr)
        other = z3.Not(expr) if guess else expr
        if self.truncated and self._over_budget():
            self.solver.add(likely)
            return self._forced(guess)
        self.q_branch += 1
        r = self.query(other)
        if r == z3.unsat:
            self.solver.add(likely)  # implied; helps simplification
            return self._forced(guess)
        if r == z3.unknown:
            self.solver.add(likely)
            return self._forced(guess)
        other_model = self.solver.model()
        if self._over_budget():
            self.truncated = True
            self.notes.add('path or time budget reached')
            self.solver.add(likely)
            return self._forced(guess)
        if self.prefix is not None:
            self.found.append(len(self.taken))
            self.taken.append(guess)
            self.solver.add(likely)
            self.trace.append((guess, expr, label))
            return guess
        if self._fork():
            # child: the other side
            self.solver.add(other)
            self.model = other_model
            self.trace.append((not guess, expr, label))
            return not guess
        self.solver.add(likely)
        self.trace.append((guess, expr, label))
        return guess

    def _forced(self, answer):
        if self.prefix is not None:
            self.taken.append(answer)
        return answer

    def pick(self, term):
        """A value the term can have on this path (None when there is none)."""
        if self.prefix is not None and len(self.taken) < len(self.prefix):
            value = self.prefix[len(self.taken)]
            assert not isinstance(value, bool), 'the execution is not repeatable'
            self.taken.append(value)
            if value is None:
                return None
            return z3.BoolVal(value == ['True']) if z3.is_bool(term) else z3.RealVal(value[0]) if z3.is_real(term) else z3.IntVal(value[0])
        model = self.ensure_model()
        value = None if model is None else model.eval(term, model_completion=True)
        if self.prefix is not None:
            self.taken.append(None if value is None else [str(value)])
        return value

    # ---------------------------------------------------------------- forking
    def _fork(self):
        """True in the child."""
        self.forks += 1
        try:
            token = os.read(self.tok_r, 1)
        except BlockingIOError:
            token = b''
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            self.arm()
            self.root = False
            self.children = []
            self.owns_token = bool(token)
            self.q_sat = self.q_unsat = self.q_unknown = 0
            self.q_branch = self.q_assert = self.assert_discharged = 0
            self.solver_s = 0.0
            self.forks = 0
            self.violations = []
            self.functions_known = set(self.functions)
            return True
        if token:
            self.children.append(pid)
        else:
            self.disarm()
            self._reap(pid)
            self.arm()
        return False

    def _reap(self, pid):
        while True:
            try:
                _, status = os.waitpid(pid, 0)
                break
            except OSError as e:
                if e.errno != errno.EINTR:
                    return
        if status != 0:
            self._write({'kind': 'crash', 'status': status})

    def _write(self, record):
        data = (json.dumps(record) + '\n').encode()
        fcntl.lockf(self.out, fcntl.LOCK_EX)
        try:
            os.write(self.out, data)
        finally:
            fcntl.lockf(self.out, fcntl.LOCK_UN)

    def finish(self, error=None):
        """Called once at the end of every path; never returns."""
        try:
            self.disarm()
            n = self._count_path()
            if error is not None:
                self.violation('exception escaped from the harness', detail=error, kind='error')
            feasible = self.feasible()
            rec = {'kind': 'path', 'feasible': feasible, 'truncated': self.truncated,
                   'marks': sorted(self.marks), 'notes': sorted(self.notes),
                   'q_sat': self.q_sat, 'q_unsat': self.q_unsat, 'q_unknown': self.q_unknown,
                   'q_branch': self.q_branch, 'q_assert': self.q_assert,
                   'discharged': self.assert_discharged,
                   'solver_s': self.solver_s, 'forks': self.forks,
                   'violations': self.violations}
            rec['functions'] = sorted(self.functions - self.functions_known)
            if (n <= 3 and not (self.prefix and len(self.prefix) > 60)) or self.violations:
                rec['sample'] = {'decisions': _text(self.trace[-60:]),
                                 'inputs': self.assignment(self.model) if feasible else None}
            self._write(rec)
            if self.alternatives is not None:
                with open(self.alternatives, 'w') as fh:
                    json.dump([self.taken, self.found, rec['functions'], bool(self.violations)], fh)
            for pid in self.children:
                self._reap(pid)
            if self.owns_token:
                os.write(self.tok_w, b'x')
            sys.stdout.flush()
            sys.stderr.flush()
        except BaseException:
            try:
                sys.stderr.write(trace())
            finally:
                os._exit(7)
        os._exit(0)

    # ---------------------------------------------------------------- inputs and results
    def register(self, name, kind, term, default=None):
        if name in self.inputs:
            raise RuntimeError('symbolic input %r created twice' % name)
        self.inputs[name] = (kind, term, default)
        self.order.append(name)

    def assignment(self, model):
        out = {}
        for name in self.order:
            kind, term, _ = self.inputs[name]
            if kind == 'bool':
                out[name] = z3.is_true(model.eval(term, model_completion=True))
            elif kind == 'int':
                out[name] = model.eval(term, model_completion=True).as_long()
            elif kind == 'real':
                v = model.eval(term, model_completion=True)
                out[name] = [v.numerator_as_long(), v.denominator_as_long()]
            elif kind == 'str':
                out[name] = ''.join(chr(model.eval(c, model_completion=True).as_long()) if not isinstance(c, str) else c
                                    for c in term())
        return out

    def violation(self, label, model=None, detail=None, kind='violation'):
        if model is None:
            model = self.ensure_model()
        if model is None:
            return
        self.violations.append({'label': label, 'kind': kind, 'detail': detail,
                                'inputs': self.assignment(model),
                                'decisions': _text(self.trace[-80:])})


def _short(expr, label=None):
    s = label or str(expr).replace('\n', ' ')
    return s if len(s) < 160 else s[:157] + '...'


def _text(trace):
    return [('' if answer else 'not ') + _short(expr, label) for answer, expr, label in trace]


def engine():
    return Engine.current
