"""
Runs one property: every case of its harness symbolically, replays the
counterexamples on the pristine code, writes the evidence, prints the verdict.
"""
import gc
import glob
import importlib
import json
import os
import select
import shutil
import subprocess
import sys
import tempfile
import time

from symx.text import trace

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYMX_REPO', '/repo')
OUT = os.path.join(VERIF, 'out')


def load_meta(pid):
    """The harness module's declarations, read without importing polog or running it."""
    import ast
    path = os.path.join(VERIF, 'harness', pid + '.py')
    with open(path) as fh:
        tree = ast.parse(fh.read())
    meta = {}
    for st in tree.body:
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            name = st.targets[0].id
            if name.isupper():
                try:
                    meta[name] = ast.literal_eval(st.value)
                except ValueError:
                    pass
    return meta


def run_symbolic(pid, case, tier, scratch, deadline, jobs, max_paths, meta):
    """Fork a fresh process, load the instrumented code, explore every path."""
    out_path = os.path.join(scratch, '%s.paths' % case)
    err_path = os.path.join(scratch, '%s.stderr' % case)
    sys.stdout.flush()
    sys.stderr.flush()
    pid_ = os.fork()
    if pid_ == 0:
        try:
            err = os.open(err_path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
            os.dup2(err, 2)
            os.dup2(err, 1)
            work = os.path.join(scratch, 'cwd_' + case)
            os.makedirs(work, exist_ok=True)
            os.chdir(work)
            sys.setrecursionlimit(3000)
            me = os.getpid()
            os.getpid = lambda: me      # the copies made at branches are one process to the code
            from symx import core, instrument, api, conc
            conc.prepare(REPO, meta)
            instrument.install(REPO, VERIF)
            mod = importlib.import_module('harness.' + pid)
            gc.collect()
            gc.freeze()
            gc.disable()
            prefix, alternatives, known = None, None, ()
            if meta.get('YIELD_IN') is not None:
                prefix, alternatives, known = reruns(scratch, case, jobs, deadline, max_paths, out_path)
            eng = core.Engine(out_path, jobs=jobs, deadline=deadline, max_paths=max_paths, prefix=prefix, alternatives=alternatives, known=known)
            core.Engine.current = eng
            sx = api.SymbolicSx(eng, tier)
            eng.arm()
            error = None
            try:
                getattr(mod, case)(sx)
            except Exception:
                error = trace()
            eng.finish(error)
        except BaseException:
            sys.stderr.write(trace())
            sys.stderr.flush()
        finally:
            os._exit(9)
    _, status = os.waitpid(pid_, 0)
    records = []
    if os.path.exists(out_path):
        with open(out_path) as fh:
            for line in fh:
                try:
                    records.append(json.loads(line))
                except ValueError:
                    records.append({'kind': 'crash', 'status': -1})
    stderr_tail = ''
    if os.path.exists(err_path):
        with open(err_path, errors='replace') as fh:
            stderr_tail = fh.read()[-3000:]
    return status, records, stderr_tail


def reruns(scratch, case, jobs, deadline, max_paths, out_path):
    """One fresh process per path: returns (the decisions to repeat, the file for the other outcomes) in each of them.

    Threads cannot be copied by fork(), so every path is executed from the start.  This process keeps the list of the
    prefixes to do; its workers fork a process per prefix and report the alternatives it found.  It ends when there are
    none left.
    """
    workers = []
    for i in range(jobs):
        ask_r, ask_w = os.pipe()
        tell_r, tell_w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        if os.fork() == 0:
            for other in workers:
                os.close(other[0])
                os.close(other[1].fileno())
            os.close(ask_w)
            os.close(tell_r)
            with os.fdopen(ask_r) as asks:
                known = set()
                alternatives = os.path.join(scratch, '%s.alt%d' % (case, i))
                for line in iter(asks.readline, ''):
                    prefix, functions = json.loads(line)
                    known.update(functions)
                    child = os.fork()
                    if child == 0:
                        os.close(tell_w)
                        return prefix, alternatives, known
                    os.waitpid(child, 0)
                    try:
                        with open(alternatives) as fh:
                            answer = fh.read()
                        os.unlink(alternatives)
                    except OSError:
                        answer = 'null'
                    data = (answer.replace('\n', ' ') + '\n').encode()
                    while data:
                        data = data[os.write(tell_w, data):]
            os._exit(0)
        os.close(ask_r)
        os.close(tell_w)
        workers.append((ask_w, os.fdopen(tell_r)))
    todo, started, crashed, cut, failed, known = [[]], 0, 0, False, 0, set()
    free, busy = list(workers), []
    told = {w[0]: 0 for w in workers}
    news = []
    while todo or busy:
        while todo and free:
            if started >= max_paths or time.time() > deadline:
                cut = True
                todo = []
                break
            w = free.pop()
            started += 1
            data = (json.dumps([todo.pop(), news[told[w[0]]:]]) + '\n').encode()
            told[w[0]] = len(news)
            while data:
                data = data[os.write(w[0], data):]
            busy.append(w)
        if not busy:
            break
        ready, _, _ = select.select([w[1] for w in busy], [], [])
        for w in [w for w in busy if w[1] in ready]:
            answer = json.loads(w[1].readline() or 'null')
            busy.remove(w)
            free.append(w)
            if answer is None:
                crashed += 1
                continue
            taken, found, functions, bad = answer
            failed += bad
            if failed >= 12 and not cut:
                cut, todo = True, []
                continue
            news.extend(f for f in functions if f not in known)
            known.update(functions)
            for at in found if failed < 12 else ():
                todo.append(taken[:at] + [not taken[at]])
    with open(out_path, 'a') as fh:
        if crashed:
            fh.write(json.dumps({'kind': 'crash', 'status': -2}) + '\n')
        if cut:
            fh.write(json.dumps({'kind': 'cut'}) + '\n')
    os._exit(0)


def replay(pid, case, inputs, tier, scratch, timeout=40):
    """Run the harness on the pristine code with the inputs of a counterexample."""
    fd, path = tempfile.mkstemp(dir=scratch, suffix='.json')
    with os.fdopen(fd, 'w') as fh:
        json.dump({'property': pid, 'case': case, 'inputs': inputs, 'tier': tier}, fh)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    try:
        p = subprocess.run([sys.executable, os.path.join(VERIF, 'run.py'), '--replay', path],
                           cwd=scratch, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 'timeout', []
    tail = p.stdout.decode(errors='replace')
    for line in tail.splitlines():
        if line.startswith('REPLAY '):
            r = json.loads(line[7:])
            return ('violated' if r else 'held'), r
    return 'error', [tail[-2000:]]


def replay_main(path):
    with open(path) as fh:
        spec = json.load(fh)
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    sys.path.insert(0, VERIF)
    scratch = tempfile.mkdtemp(prefix='symx_replay_')
    os.chdir(scratch)
    try:
        from symx.api import ConcreteSx
        meta = load_meta(spec['property'])
        if meta.get('YIELD_IN') is not None:
            from symx import conc
            conc.prepare(REPO, meta)
            conc.install_finder(REPO)
        mod = importlib.import_module('harness.' + spec['property'])
        import polog
        assert os.path.realpath(polog.__file__).startswith(os.path.realpath(REPO)), polog.__file__
        sx = ConcreteSx(spec['inputs'], spec.get('tier', 'quick'))
        try:
            getattr(mod, spec['case'])(sx)
        except Exception:
            sx.failures.append({'label': 'exception escaped from the harness', 'detail': trace()[-1500:]})
        print('REPLAY ' + json.dumps(sx.failures))
        sys.stdout.flush()
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)
    os._exit(1 if sx.failures else 0)


def load_known(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as fh:
        return [k for k in json.load(fh).get('known', []) if k['property'] == pid]


def matches_known(k, case, failure, inputs):
    if k.get('case') and k['case'] != case:
        return False
    if k.get('label') and k['label'] not in failure.get('label', ''):
        return False
    for name, want in (k.get('inputs') or {}).items():
        if inputs.get(name) != want:
            return False
    return True


def main(pid, tier, seed, only=None, jobs=8):
    t0 = time.time()
    meta = load_meta(pid)
    cases = meta.get('CASES') if tier == 'quick' else meta.get('THOROUGH_CASES', meta.get('CASES'))
    if only:
        cases = [c for c in cases if c in only]
    budget = 700 if tier == 'quick' else 6000
    scratch = tempfile.mkdtemp(prefix='symx_%s_' % pid)
    os.makedirs(os.path.join(OUT, 'replay'), exist_ok=True)
    for old in glob.glob(os.path.join(OUT, 'replay', pid + '-*')):
        os.unlink(old)
    tot = dict(paths=0, infeasible=0, truncated=0, q_sat=0, q_unsat=0, q_unknown=0, q_branch=0, q_assert=0,
               discharged=0, solver_s=0.0, forks=0, crashes=0)
    functions, notes, marks = set(), set(), {}
    per_case, samples, errors, confirmed, unconfirmed, known_hit = {}, [], [], [], [], {}
    known = load_known(pid)
    try:
        for idx, case in enumerate(cases):
            left = budget - (time.time() - t0)
            deadline = time.time() + max(20, left / max(1, len(cases) - idx) * (1.6 if idx < len(cases) - 1 else 1))
            c0 = time.time()
            status, records, tail = run_symbolic(pid, case, tier, scratch, deadline, jobs,
                                                 meta.get('MAX_PATHS', 60000 if tier == 'quick' else 600000), meta)
            paths = [r for r in records if r['kind'] == 'path']
            crashes = [r for r in records if r['kind'] == 'crash']
            if status != 0 or not paths:
                errors.append('case %s: the symbolic run ended with status %s\n%s' % (case, status, tail))
            cm = set()
            viol = []
            for r in paths:
                if not r['feasible']:
                    tot['infeasible'] += 1
                tot['paths'] += 1
                tot['truncated'] += bool(r['truncated'])
                for k in ('q_sat', 'q_unsat', 'q_unknown', 'q_branch', 'q_assert', 'discharged', 'solver_s', 'forks'):
                    tot[k] += r[k]
                functions.update(r['functions'])
                notes.update(r['notes'])
                cm.update(r['marks'])
                if r.get('sample') and len(samples) < 12 and not r['violations']:
                    samples.append(dict(case=case, **r['sample']))
                for v in r['violations']:
                    viol.append(v)
            tot['crashes'] += len(crashes)
            if any(r['kind'] == 'cut' for r in records):
                tot['truncated'] += 1
                notes.add('path or time budget reached')
            if crashes:
                errors.append('case %s: %d path processes crashed\n%s' % (case, len(crashes), tail))
            want = set((meta.get('MARKS') or {}).get(case, ()))
            marks[case] = {'reached': sorted(cm), 'expected_missing': sorted(want - cm)}
            per_case[case] = {'paths': len(paths), 'truncated': sum(bool(r['truncated']) for r in paths),
                              'cut': any(r['kind'] == 'cut' for r in records), 'wall_s': round(time.time() - c0, 2), 'counterexamples': len(viol)}
            if not paths:
                # the code could not be executed symbolically at all: does it run as it is?
                verdict, failures = replay(pid, case, {}, tier, scratch)
                if verdict == 'violated' and not [k for f in failures for k in known if matches_known(k, case, f, {})]:
                    viol.append({'label': failures[0]['label'], 'kind': 'error', 'detail': failures[0].get('detail'),
                                 'inputs': {}, 'decisions': []})
            # replay, one per label first
            seen, ordered, rest = set(), [], []
            for v in viol:
                if v['label'] not in seen:
                    seen.add(v['label'])
                    ordered.append(v)
                else:
                    rest.append(v)
            for v in (ordered + rest)[:24]:
                if len(confirmed) >= 5:
                    break
                if v in rest and confirmed:
                    break
                verdict, failures = replay(pid, case, v['inputs'], tier, scratch)
                if verdict == 'timeout' and v['kind'] == 'hang':
                    verdict, failures = 'violated', [{'label': v['label'], 'detail': v.get('detail')}]
                if verdict == 'violated':
                    fresh = []
                    for f in failures:
                        hit = [k for k in known if matches_known(k, case, f, v['inputs'])]
                        if hit:
                            known_hit.setdefault(hit[0]['id'], hit[0])
                        else:
                            fresh.append(f)
                    if not fresh:
                        continue
                    n = len(confirmed) + 1
                    path = os.path.join(OUT, 'replay', '%s-%d.json' % (pid, n))
                    with open(path, 'w') as fh:
                        json.dump({'property': pid, 'case': case, 'inputs': v['inputs'], 'tier': tier,
                                   'label': v['label'], 'observed': fresh, 'decisions': v['decisions'],
                                   'how_to_replay': 'cd /verif && python3-vt run.py --replay ' + path}, fh, indent=1)
                    confirmed.append((path, fresh[0]))
                else:
                    unconfirmed.append({'case': case, 'label': v['label'], 'inputs': v['inputs'], 'verdict': verdict,
                                        'detail': v.get('detail'), 'replay': failures[:1]})
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    wall = time.time() - t0
    exhaustive = tot['truncated'] == 0 and tot['crashes'] == 0 and not errors and not unconfirmed
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'wall_s': round(wall, 2),
        'violations': len(confirmed),
        'coverage': {
            'explanation': ('Bounded symbolic execution of the current source of /repo/polog: inputs are z3 terms, every '
                            'branch on them is decided by the solver, every feasible path within the bounds is executed '
                            'once, and each assertion is a query for a violating assignment under the path condition.'),
            'bounds': meta.get('BOUNDS', ''),
            'outside_the_bounds': meta.get('OUTSIDE', ''),
            'paths': tot['paths'], 'paths_truncated': tot['truncated'], 'exhaustive': exhaustive,
            'queries': {'branch': tot['q_branch'], 'assertion': tot['q_assert'], 'assertions_discharged': tot['discharged'],
                        'sat': tot['q_sat'], 'unsat': tot['q_unsat'], 'unknown': tot['q_unknown']},
            'solver_s': round(tot['solver_s'], 2),
            'cases': per_case,
            'reachability_witnesses': marks,
            'functions_encoded': sorted(functions),
            'concretisations': sorted(notes),
            'counterexamples_not_reproduced': unconfirmed[:5],
            'engine_errors': [e[-600:] for e in errors[:5]],
            'samples': samples[:8],
        },
        'assumptions': meta.get('ASSUMPTIONS', []),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    print('%s %s: %d paths, %d truncated, %d queries (%.1f s solver), %d functions, %.1f s' % (
        pid, tier, tot['paths'], tot['truncated'], tot['q_sat'] + tot['q_unsat'] + tot['q_unknown'], tot['solver_s'],
        len(functions), wall))
    for case, m in marks.items():
        if m['expected_missing']:
            print('NOTE %s: never reached: %s' % (case, ', '.join(m['expected_missing'])))
    for k in known_hit.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if confirmed:
        for path, f in confirmed:
            print('  %s %s' % (f['label'], (f.get('detail') or '').strip().splitlines()[-1:] or ''))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    strict = os.environ.get('SYMX_STRICT') or not tot['paths']
    if unconfirmed:
        print('INCOMPLETE: %d counterexample(s) did not reproduce on the pristine code' % len(unconfirmed))
        print(json.dumps(unconfirmed[0], indent=1)[:3000])
    if errors:
        print('INCOMPLETE: ' + errors[0][-3000:])
    if (errors or unconfirmed) and strict:
        return 2
    return 0
