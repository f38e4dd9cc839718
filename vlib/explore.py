"""Path exploration of one harness instance, discharge of its checks, counterexample search and replay."""
import math
import os
import random
import resource
import signal
import sys
import time
import traceback
import zlib
from fractions import Fraction as Fr

from . import sym
from .concrete import Client
from .ctx import Cond, SymCtx
from .harness_api import get_harness
from .loader import REPO
from .stubs import Stop
from .sym import Abort, Engine, Stats, Sym, SymBool, scheck, z3

FUNCS = set()


def watch_functions():
    """Record which functions of /repo are executed symbolically."""
    mon = sys.monitoring
    try:
        mon.use_tool_id(mon.PROFILER_ID, 'verif')
    except ValueError:
        return

    def start(code, off):
        if code.co_filename.startswith(REPO + '/') and code.co_name != '<module>':
            FUNCS.add(os.path.relpath(code.co_filename, REPO) + ':' + code.co_qualname)
        return mon.DISABLE

    here = os.path.dirname(os.path.abspath(__file__)) + '/'

    def raised(code, off, exc):
        # an error of the encoding itself must not be swallowed by an except clause of the code under test
        if isinstance(exc, (AssertionError, NameError, z3.Z3Exception)) and code.co_filename.startswith(here) and sym.E is not None \
                and sym.E.aborted is None and 'canceled' not in str(exc):
            tb = exc.__traceback__
            while tb is not None and tb.tb_next is not None:
                tb = tb.tb_next
            if tb is not None and tb.tb_frame.f_code.co_filename.startswith(REPO + '/'):
                return                      # raised by the code under test
            sym.E.aborted = Abort('internal', '%s: %s in %s:%s' % (type(exc).__name__, exc, os.path.basename(code.co_filename), code.co_name))
    mon.register_callback(mon.PROFILER_ID, mon.events.PY_START, start)
    mon.register_callback(mon.PROFILER_ID, mon.events.RAISE, raised)
    mon.set_events(mon.PROFILER_ID, mon.events.PY_START | mon.events.RAISE)


class Violation(Exception):
    def __init__(self, job, res, how):
        Exception.__init__(self)
        self.job, self.res, self.how = job, res, how


def tofloat(fr):
    try:
        return float(fr)
    except OverflowError:
        return math.copysign(1e300, fr)


class Task:
    def __init__(self, hname, params, seed, deadline, tier, client):
        self.h = get_harness(hname)
        self.hname, self.params, self.deadline, self.tier, self.client = hname, params, deadline, tier, client
        self.rng = random.Random(zlib.crc32(repr((hname, sorted(params.items()), seed)).encode()))
        self.stats = Stats()
        self.paths = self.decisions = self.infeasible = self.cut = 0
        self.obligations = self.discharged = self.normal_form = 0
        self.inconclusive = []
        self.labels = {}
        self.concrete_labels = set()
        self.validated = self.mismatch = self.replays = 0
        self.samples = []
        self.cuts = set()
        self.ce_tries = {}
        self.unknown_branches = 0
        self.maxpaths = self.h.opts.get('paths', 4000)
        self.nvalidate = self.h.opts.get('validate', 6 if tier == 'quick' else 24)
        self.fallback = self.h.opts.get('fallback', True)

    # ------------------------------------------------------------------ driver
    def run(self):
        pending = [[]]
        sym.E = None
        npath = 0
        while pending:
            if time.time() > self.deadline:
                self.note('time', '%d paths unexplored' % len(pending))
                break
            if npath >= self.maxpaths:
                self.note('budget', 'more than %d paths' % self.maxpaths)
                break
            npath += 1
            prefix = pending.pop()
            eng = Engine(prefix, self.stats, self.deadline, self.h.opts.get('forks', 600))
            sym.set_engine(eng)
            ctx = SymCtx(self.params, eng, self)
            end = None
            try:
                ctx.start_logging()
                try:
                    self.h.fn(ctx)
                    eng.check_abort()
                    end = 'done'
                except Stop:
                    end = 'done' if eng.aborted is None else None
                    if end is None:
                        raise Abort(eng.aborted.kind, eng.aborted.msg)
            except Abort as a:
                end = a.kind
                msg = a.msg
            except Violation:
                raise
            except Exception:
                end, msg = 'harness', traceback.format_exc()[-1800:]
            finally:
                try:
                    ctx.finish()
                except Exception:
                    pass
            pending.extend(eng.pending)
            self.decisions += sum(1 for d in eng.decisions[len(prefix):])
            self.unknown_branches += eng.unknown_branch
            if end == 'done':
                self.paths += 1
                self.validate(ctx, eng)
            elif end == 'infeasible':
                self.infeasible += 1
            elif end == 'bound':
                self.cut += 1
                self.cuts.add(msg)
            else:
                self.note(end, msg)
                if self.fallback:
                    self.concolic(ctx, eng)
        if self.paths and not self.validated and self.h.opts.get('need_validation', True) and not self.inconclusive:
            self.note('vacuity', 'no explored path could be reproduced on the real code')

    def note(self, kind, msg):
        if len(self.inconclusive) < 20:
            self.inconclusive.append((kind, str(msg)))

    # ------------------------------------------------------------------ checks
    def on_check(self, ctx, label, cond, detail):
        eng = ctx.eng
        self.obligations += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        t = cond.t
        if t is True:
            self.discharged += 1
            self.normal_form += 1
            return
        if isinstance(t, SymBool) and t.rel is not None:
            hit = eng.conscache.get((sym.pkey(t.q), t.rel))
            if hit is True:
                self.discharged += 1
                self.normal_form += 1
                return
        neg = z3.Not(t.z) if isinstance(t, SymBool) else None
        ex = [neg] if neg is not None else []
        ms = self.h.opts.get('check_ms', 10000)
        res, model = eng.check(ex, ms=ms, final=True)
        facts = []
        if res != 'unsat' and eng.lazy:
            facts = [b.z for b in eng.lazy]
            r2, m2 = eng.check(ex + facts, ms=ms, final=True)
            if r2 == 'unsat' or res == 'unknown' or r2 == 'sat':
                res, model = r2, m2
        if res == 'unsat':
            self.discharged += 1
            if t is False:
                eng.abort('infeasible', 'unsatisfiable path')
            if t.rel is not None:
                n = ~t
                eng._note((sym.pkey(t.q), t.rel), (sym.pkey(n.q), n.rel), True)
            return
        k = (label, res)
        self.ce_tries[k] = self.ce_tries.get(k, 0) + 1
        if self.ce_tries[k] <= 4:
            self.search(ctx, label, cond, detail, facts, model, res)
        self.note('sat-unreproduced' if res == 'sat' else 'unknown',
                  '%s: %s%s' % (label, 'counterexample did not reproduce' if res == 'sat' else 'solver gave no answer',
                                ' (%s)' % str(detail)[:200] if detail else ''))
        if t is False:
            raise Stop()
        eng.assume(t)

    # ------------------------------------------------------------------ models
    def values(self, ctx, eng, model, rnd=True):
        memo = {}
        out = {}
        for n, s in eng.inputs.items():
            if not isinstance(s, Sym):
                out[n] = s
                continue
            (m, _), = s.p.items()
            a = eng.atoms[m[0][0]]
            if a.z is None or model is None:
                lo, hi = ctx.soft[n][0]
                v = lo + (hi - lo) * self.rng.randint(1, 31) / 32.0
                v = round(v * 16) / 16.0 or v
                if a.kind == 'int':
                    v = self.rng.randint(int(lo), int(hi))
                memo[a.id] = Fr(v)
                out[n] = float(v)
            else:
                out[n] = tofloat(eng.eval_sym(s, model, memo))
        return out

    def nice_model(self, ctx, eng, extra, budget=4.0, soften=True, tame=True):
        """A model of path + extra with tame values for the inputs."""
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', 1500)
        # logarithms of constants at their values
        known = []
        logs = []
        for a in eng.atoms:
            if a.kind == 'uf:log' and a.z is not None:
                v = sym.const_of(a.poly)
                if v is None:
                    logs.append(a)
                elif v > 0:
                    known.append((a.z, z3.RealVal(str(Fr(math.log(v)).limit_denominator(10 ** 6)))))
        if known:
            s.add(*[z3.substitute(x, *known) for x in list(eng.cons) + list(extra)])
        else:
            s.add(*eng.cons)
            s.add(*extra)
        ins = []
        for n, x in eng.inputs.items():
            if isinstance(x, Sym):
                (m, _), = x.p.items()
                a = eng.atoms[m[0][0]]
                if a.z is not None:
                    ins.append((n, a))
        if str(scheck(s, 1500)) != 'sat':
            r, m = eng.check(extra, ms=3000, final=True)
            if r != 'sat':
                # pin inputs at random and retry: the rest is often linear then
                m = None
                for k in range(6):
                    if time.time() - t0 > budget:
                        return None
                    s.push()
                    s.set('timeout', 700)
                    for n, a in ins:
                        if self.rng.random() < 0.7 and not ctx.soft[n][1]:
                            s.add(a.z == self.pick(ctx, n))
                    if str(scheck(s, 1500)) == 'sat':
                        m = s.model()
                    s.pop()
                    if m is not None:
                        break
                if m is None:
                    return None
        else:
            m = s.model()
        if not soften:
            return m
        s.set('timeout', 400)
        # soft ranges
        s.push()
        for n, a in ins:
            lo, hi = ctx.soft[n][0]
            s.add(a.z >= lo, a.z <= hi)
        if str(scheck(s, 1500)) == 'sat':
            m = s.model()
        else:
            s.pop()
        # inputs under a logarithm first, then the logarithms at their true values, then the rest
        logs = logs[:200]
        under = set()
        for a in logs:
            eng.support(a.poly, under)
        order = [x for x in ins if not ctx.soft[x[0]][1]]
        self.rng.shuffle(order)
        rest = [x for x in ins if ctx.soft[x[0]][1]]
        self.rng.shuffle(rest)
        order += rest
        first = [x for x in order if x[1].id in under]
        for n, a in first + [(None, None)] * bool(logs) + [x for x in order if x[1].id not in under]:
            if time.time() - t0 > budget:
                break
            if n is None:
                memo = {}
                s.push()
                try:
                    for l in logs:
                        v = tofloat(eng.eval_sym(Sym(l.poly), m, memo))
                        if v > 0:
                            s.add(l.z == z3.RealVal(str(Fr(math.log(v)).limit_denominator(10 ** 6))))
                except (ValueError, OverflowError, ZeroDivisionError):
                    pass
                if str(scheck(s, 1500)) == 'sat':
                    m = s.model()
                else:
                    s.pop()
                continue
            cur = sym.zval(m.eval(a.z, model_completion=True))
            cands = []
            if self.rng.random() < 0.6 or cur == 0:
                cands.append(self.pick(ctx, n))
            cands += [Fr(round(cur * k), k) for k in (1, 2, 16, 256)] if abs(cur) < 10 ** 7 else []
            cands.append(cur)
            for c in cands:
                pin = a.z == z3.RealVal(str(c))
                s.push()
                s.add(pin)
                if str(scheck(s, 1500)) == 'sat':
                    m = s.model()
                    break
                s.pop()
        return m

    def pick(self, ctx, n):
        lo, hi = ctx.soft[n][0]
        q = self.rng.choice((1, 1, 2, 4))
        while math.ceil(lo * q) > math.floor(hi * q):
            q *= 4
        v = Fr(self.rng.randint(math.ceil(lo * q), math.floor(hi * q)), q)
        return v

    # ------------------------------------------------------------------ replay
    def job(self, vals, variant='float', strict=False):
        strict = strict and self.h.opts.get('strict', True)
        return {'harness': self.hname, 'params': self.params, 'values': vals, 'variant': variant, 'strict': strict,
                'timeout': self.h.opts.get('replay_timeout', 20)}

    def replay(self, job):
        self.replays += 1
        r = self.client.run(job)
        if r['status'] == 'pass':
            self.concrete_labels.update(r['labels'])
        return r

    def bad(self, r):
        return r['status'] == 'fail' or (r['status'] == 'hang' and self.h.opts.get('hang', False))

    def search(self, ctx, label, cond, detail, facts, model, res):
        """Turn a satisfiable (or undecided) negation into a failing run of the real code."""
        eng = ctx.eng
        tried = 0
        t0 = time.time()
        lim = self.h.opts.get('search_s', 40)
        tight = res == 'sat' and self.polynomial(eng, cond.t)
        for m, strict in ((1, False), (Fr(1, 50), False), (1, False), (Fr(1, 5000), False), (None, False), (None, True), (None, True)):
            if time.time() - t0 > lim:
                break
            if isinstance(cond.t, SymBool):
                c = cond.rf(m) if m is not None else sym.bnot(cond.t)
                if c is False:
                    continue
                ex = [] if c is True else [c.z]
            else:
                ex = []
            try:
                mod = self.nice_model(ctx, eng, ex + facts)
            except z3.Z3Exception:
                mod = None
            if mod is None and facts:
                try:
                    mod = self.nice_model(ctx, eng, ex)
                except z3.Z3Exception:
                    mod = None
            if mod is None:
                continue
            vals = self.values(ctx, eng, mod)
            if strict and any(not self.dyadic(v) for n, v in vals.items() if n in ctx.soft and not ctx.soft[n][1]):
                pass
            for variant in ('float', 'int'):
                j = self.job(vals, variant, strict)
                r = self.replay(j)
                tried += 1
                if os.environ.get('VERIF_DEBUG'):
                    print('CE', label, 'margin', m, strict, variant, {k: round(v, 6) for k, v in vals.items()}, r['status'], r['label'], r['detail'][:300], file=sys.stderr)
                if self.bad(r):
                    raise Violation(j, r, 'solver counterexample to: ' + label)
                if not strict:
                    break
            if tight and (strict or eng.lossy):
                # a difference below the usual tolerance: this very assertion, compared closely, on full-precision values too
                for k in range(4 if eng.lossy else 1):
                    j = dict(self.job(self.rough(ctx, vals) if k else vals, 'float', False), tight=True)
                    r = self.replay(j)
                    if self.bad(r) and r['label'] == label:
                        raise Violation(j, r, 'solver counterexample to: ' + label)
        if model is not None:
            vals = self.values(ctx, eng, model)
            for strict in (False, True):
                j = self.job(vals, 'float', strict)
                r = self.replay(j)
                if self.bad(r):
                    raise Violation(j, r, 'solver counterexample to: ' + label)
        # uninterpreted logarithms and inexact arithmetic: points of the path whose check fails numerically
        for k in range(6):
            if time.time() - t0 > lim:
                break
            try:
                mod = self.nice_model(ctx, eng, [], budget=2.0)
            except z3.Z3Exception:
                mod = None
            if mod is None:
                break
            j = self.job(self.values(ctx, eng, mod), 'float')
            r = self.replay(j)
            if self.bad(r):
                raise Violation(j, r, 'path witness after undecided: ' + label)

    @staticmethod
    def polynomial(eng, t):
        """Is the condition free of uninterpreted functions?"""
        todo, sup = [t], set()
        while todo:
            b = todo.pop()
            if isinstance(b, SymBool):
                if b.rel is None:
                    todo += list(b.kids)
                else:
                    eng.support(b.q, sup)
        return not any(eng.atoms[i].kind.startswith('uf:') for i in sup)

    def rough(self, ctx, vals):
        return {n: v if n in ctx.soft and ctx.soft[n][1] or not isinstance(v, float) or v == 0 else v * (1 + self.rng.random() * 1e-3)
                for n, v in vals.items()}

    @staticmethod
    def dyadic(v):
        return abs(v) <= 2 ** 20 and float(v) * 1024 == int(float(v) * 1024)

    VARIANTS = ('float', 'int', 'np')

    def validate(self, ctx, eng):
        if self.validated + self.mismatch >= self.nvalidate:
            # later paths: thin out
            if self.rng.random() > self.h.opts.get('thin', 0.05):
                return
        if time.time() > self.deadline - 1:
            return
        try:
            mod = self.nice_model(ctx, eng, [], budget=1.5)
        except (z3.Z3Exception, Abort):
            mod = None
        if mod is None:
            if not eng.cons:
                pass
            else:
                return
        vals = self.values(ctx, eng, mod)
        variant = self.VARIANTS[(self.validated + self.mismatch) % 3] if self.h.opts.get('variants', True) else 'float'
        j = self.job(vals, variant)
        r = self.replay(j)
        if os.environ.get('VERIF_DEBUG') and r['status'] not in ('pass',):
            print('VAL', vals, r, file=sys.stderr)
        if r['status'] == 'pass':
            self.validated += 1
            if len(self.samples) < 3:
                self.samples.append({'harness': self.hname, 'params': self.params, 'values': {k: vals[k] for k in list(vals)[:40]}})
        elif self.bad(r):
            self.confirm(ctx, eng, j, r, variant)
        elif r['status'] in ('error', 'undefined'):
            self.note('replay-' + r['status'], r['detail'][-700:])

    def confirm(self, ctx, eng, j, r, variant):
        """A real run failed although the path's checks were discharged: believe it only if it keeps failing."""
        self.mismatch += 1
        bad = 1
        n = 1
        for k in range(5):
            try:
                mod = self.nice_model(ctx, eng, [], budget=1.5)
            except (z3.Z3Exception, Abort):
                mod = None
            if mod is None and eng.cons:
                continue
            r2 = self.replay(self.job(self.values(ctx, eng, mod), variant))
            if r2['status'] in ('pass', 'fail', 'hang'):
                n += 1
                bad += self.bad(r2)
        if bad >= 3 and bad * 3 >= n * 2:
            raise Violation(j, r, 'real run of an explored path fails repeatedly (%d of %d)' % (bad, n))
        self.note('mismatch', 'a real run disagrees with the encoding: %s %s' % (r['label'], r['detail'][:200]))

    def concolic(self, ctx, eng):
        """The path could not be followed to its end symbolically: run the real code on models of its prefix."""
        if self.ce_tries.get('concolic', 0) >= 6 or time.time() > self.deadline + 20:
            return
        self.ce_tries['concolic'] = self.ce_tries.get('concolic', 0) + 1
        ab, dl = eng.aborted, eng.deadline
        eng.aborted, eng.deadline = None, time.time() + 30
        bad = n = 0
        first = None
        for k in range(6):
            try:
                mod = self.nice_model(ctx, eng, [], budget=1.5)
            except (z3.Z3Exception, Abort):
                mod = None
            if mod is None and eng.cons:
                break
            j = self.job(self.values(ctx, eng, mod), 'float')
            r = self.replay(j)
            if r['status'] in ('pass', 'fail', 'hang'):
                n += 1
                if self.bad(r):
                    bad += 1
                    first = first or (j, r)
            if n >= 4 and bad == 0:
                break
        eng.aborted, eng.deadline = ab, dl
        if bad >= 2 and bad * 3 >= n:
            raise Violation(first[0], first[1], 'real run on a model of a path that could not be encoded to its end (%d of %d)' % (bad, n))

    def report(self):
        return dict(harness=self.hname, params=self.params, paths=self.paths, decisions=self.decisions, infeasible=self.infeasible,
                    cut=self.cut, cuts=sorted(self.cuts), obligations=self.obligations, discharged=self.discharged,
                    normal_form=self.normal_form, inconclusive=self.inconclusive, labels=self.labels,
                    concrete_labels=sorted(self.concrete_labels), validated=self.validated, mismatch=self.mismatch,
                    replays=self.replays, samples=self.samples, queries=self.stats.queries, solver_s=round(self.stats.solver_s, 3),
                    unknown=self.stats.unknown, unknown_branches=self.unknown_branches, by=self.stats.by, functions=sorted(FUNCS))


def worker(conn, tier, seed, deadline):
    """Process: receives (hname, params, seconds), sends reports."""
    import logging
    import warnings
    warnings.simplefilter('ignore')
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(20000)
    sys.set_int_max_str_digits(0)
    watch_functions()
    import tempfile
    os.chdir(tempfile.mkdtemp(prefix='verif_work_'))
    os.mkdir('logs')
    client = Client()
    client.start()
    child = [0]

    def stop(*_):
        if child[0]:
            try:
                os.kill(child[0], signal.SIGKILL)
            except OSError:
                pass
        client.close()
        os._exit(1)
    signal.signal(signal.SIGTERM, stop)
    try:
        while True:
            msg = conn.recv()
            if msg is None:
                break
            # one process per task, so that no task depends on what ran before it
            sys.stdout.flush()
            sys.stderr.flush()
            child[0] = pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    signal.signal(signal.SIGTERM, signal.SIG_DFL)
                    die_with_parent()
                    client.lent = True
                    one_task(conn, msg, tier, seed, deadline, client)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    client.end_loan()
                    sys.stdout.flush()
                    os._exit(code)
            limit = min(deadline, time.time() + msg[2]) + 45
            status = None
            while status is None:
                got, st = os.waitpid(pid, os.WNOHANG)
                if got:
                    status = st
                elif time.time() > limit:
                    os.kill(pid, signal.SIGKILL)
                    _, status = os.waitpid(pid, 0)
                    status = status or 9
                else:
                    time.sleep(0.02)
            child[0] = 0
            if status:
                conn.send(('ok', {'harness': msg[0], 'params': msg[1], 'inconclusive': [('crash', 'task ended with status %d' % status)]}))
    except EOFError:
        pass
    finally:
        client.close()


def die_with_parent():
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, 9)
    except Exception:
        pass


def one_task(conn, msg, tier, seed, deadline, client):
    hname, params, secs = msg
    t0 = time.time()
    FUNCS.clear()
    sys.monitoring.restart_events()
    task = None
    try:
        task = Task(hname, params, seed, min(deadline, t0 + secs), tier, client)
        try:
            task.run()
            out = ('ok', task.report())
        except Violation as v:
            out = ('violation', task.report(), v.job, v.res, v.how)
    except MemoryError:
        rep = task.report() if task else {}
        rep.setdefault('inconclusive', []).append(('memory', 'out of memory'))
        out = ('ok', rep)
    except BaseException:
        rep = task.report() if task else {'harness': hname, 'params': params}
        rep.setdefault('inconclusive', []).append(('crash', traceback.format_exc()[-1500:]))
        out = ('ok', rep)
    out[1]['wall'] = round(time.time() - t0, 2)
    conn.send(out)
