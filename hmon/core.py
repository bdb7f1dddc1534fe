"""Runner: executes seeded workloads under monitors and turns what the
monitors saw into a verdict, an evidence file and replay files.

Verdicts are three-valued.  Exit 0: every monitored execution satisfied the
property.  Exit 1: some execution violated it (a VIOLATION line is printed).
Exit 2: the monitors did not see enough to decide.
"""
import collections
import concurrent.futures as cf
import faulthandler
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(VERIF, 'evidence')
REPLAYS = os.path.join(VERIF, 'replays')
KNOWN = os.path.join(VERIF, 'known_findings.json')

# CPU seconds one case may burn before it counts as not returning.  Ordinary
# cases take milliseconds, so this is a step budget, not a speed limit.
CASE_CPU_S = 60
# The same in wall clock time, for cases stuck inside native code that no
# Python signal handler can interrupt: the worker process is given up.
CASE_WALL_S = 200
# Wall clock budget of a whole run; reaching it stops the run early and the
# verdict is taken on what was observed so far.
WALL_S = {'quick': 700, 'thorough': 10000}


class Violation(Exception):
    """An oracle rejected an observed execution."""

    def __init__(self, key, msg, data=None):
        super().__init__(f'{key}: {msg}')
        self.key, self.msg, self.data = key, msg, data or {}


class Known(Exception):
    """An observed execution matches a listed known finding exactly."""

    def __init__(self, key):
        super().__init__(key)
        self.key = key


class NoReturn(BaseException):
    pass


class Skip(Exception):
    """The generated input lies outside the property's stated domain."""


class Monitor:
    """Collects what one worker observed."""

    def __init__(self, prop):
        self.prop = prop
        self.events = collections.Counter()     # monitored API calls
        self.evals = collections.Counter()      # oracle comparisons per kind
        self.skips = collections.Counter()
        self.seen = set()                       # digests of nontrivial inputs
        self.shapes = collections.Counter()     # structural buckets
        self.known = collections.Counter()
        self.samples = []
        self.worst = {}

    # -- observing ---------------------------------------------------------
    def call(self, name, fn, *args, **kw):
        """Run one API call under observation."""
        self.events[name] += 1
        return fn(*args, **kw)

    def result(self, name, fn, *args, key=None, **kw):
        """An API call that the property says must succeed."""
        self.events[name] += 1
        try:
            return fn(*args, **kw)
        except NoReturn:
            raise
        except Violation:
            raise
        except Exception as e:
            raise Violation(key or f'{name}:raises:{kind_of(e)}',
                            f'{name} raised {type(e).__name__}: {e}',
                            {'args': [describe(a) for a in args],
                             'kw': {k: describe(v) for k, v in kw.items()},
                             'trace': traceback.format_exc()[-1500:]})

    def rejected(self, name, fn, *args, exc=(ValueError,), key=None, **kw):
        """An API call the property says must be refused."""
        # keywords go to the call: one a lambda does not know would look like
        # a refusal
        assert not kw or getattr(fn, '__name__', '') != '<lambda>', name
        self.events[name] += 1
        self.evals['rejected'] += 1
        exc = (exc,) if isinstance(exc, type) else exc
        try:
            r = fn(*args, **kw)
        except exc:
            return
        except NoReturn:
            raise
        except Exception as e:
            raise Violation(key or f'{name}:wrong-exception',
                            f'{name} raised {type(e).__name__}: {e} instead '
                            f'of {[x.__name__ for x in exc]}',
                            {'args': [describe(a) for a in args]})
        raise Violation(key or f'{name}:accepted',
                        f'{name} accepted input it must refuse; returned '
                        f'{describe(r)}',
                        {'args': [describe(a) for a in args],
                         'kw': {k: describe(v) for k, v in kw.items()}})

    # -- deciding ----------------------------------------------------------
    def check(self, cond, key, msg='', **data):
        self.evals[key.split(':')[0]] += 1
        if not cond:
            raise Violation(key, msg, {k: describe(v)
                                       for k, v in data.items()})

    def close(self, got, want, key, rtol=1e-6, atol=0., scale=None, **data):
        """got and want agree up to rtol*scale + atol (scale: max |want|)."""
        import numpy as np
        self.evals[key.split(':')[0]] += 1
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            raise Violation(key + ':shape',
                            f'shape {got.shape} instead of {want.shape}',
                            {'got': describe(got), 'want': describe(want),
                             **{k: describe(v) for k, v in data.items()}})
        if got.size == 0:
            return 0.
        if scale is None:
            scale = np.max(np.abs(want))
        bound = rtol*scale + atol
        with np.errstate(all='ignore'):
            err = np.abs(got - want)
            ratio = np.max(np.where(err == 0, 0., err/bound)) \
                if np.all(np.isfinite(err)) else np.inf
        if ratio > self.worst.get(key, 0.):
            self.worst[key] = float(ratio)
        if not ratio <= 1.:
            raise Violation(key, f'off by {float(np.max(err)):.3e}, allowed '
                            f'{float(np.max(bound)):.3e}',
                            {'got': describe(got), 'want': describe(want),
                             **{k: describe(v) for k, v in data.items()}})
        return ratio

    def nontrivial(self, *parts, bucket=None, sample=None):
        """Record the (non-trivial) input a verdict was reached on."""
        h = hashlib.blake2b(digest_size=8)
        for p in parts:
            h.update(digest_bytes(p))
        self.seen.add(h.digest())
        if bucket is not None:
            self.shapes[str(bucket)] += 1
        if sample is not None and len(self.samples) < 3:
            self.samples.append(sample)

    def finding(self, key):
        """This execution is exactly the listed known finding `key`."""
        self.known[key] += 1
        raise Known(key)


def kind_of(e):
    head = ''.join(ch for ch in str(e)[:48] if not ch.isdigit())
    return f'{type(e).__name__}:{head}'


def digest_bytes(p):
    import numpy as np
    if isinstance(p, np.ndarray):
        return p.dtype.str.encode() + str(p.shape).encode() + p.tobytes()
    if isinstance(p, (list, tuple)):
        return b'[' + b','.join(digest_bytes(x) for x in p) + b']'
    return repr(p).encode()


def describe(x, depth=0):
    """JSON-able description of anything that can show up in a replay."""
    import numpy as np
    if isinstance(x, np.ndarray):
        if x.size > 400:
            return {'ndarray': list(x.shape), 'head': describe(x.ravel()[:40])}
        if np.iscomplexobj(x):
            return {'shape': list(x.shape),
                    'complex': [repr(complex(v)) for v in x.ravel()]}
        return {'dtype': str(x.dtype), 'array': x.tolist()}
    if isinstance(x, (np.floating, np.integer)):
        return x.item()
    if isinstance(x, complex):
        return repr(x)
    if isinstance(x, (bool, int, float, str)) or x is None:
        return x
    if isinstance(x, (list, tuple)) and depth < 5:
        return [describe(v, depth+1) for v in x[:50]]
    if isinstance(x, dict):
        return {str(k): describe(v, depth+1) for k, v in x.items()}
    t = type(x).__name__
    if t == 'State':
        return {'State': [describe(np.array(m)) for m in x.matrices],
                'dt': x.SamplingPeriod}
    if t == 'Transfer':
        return {'Transfer': [describe(x.num), describe(x.den)],
                'dt': x.SamplingPeriod}
    return repr(x)[:300]


class Workload:
    """A named family of executions; `fn(rng, mon)` runs one of them."""

    def __init__(self, name, fn, quick, thorough=None, need=None):
        self.name, self.fn = name, fn
        self.counts = {'quick': quick, 'thorough': thorough or quick*20}
        # minimum number of verdicts reached, as a fraction of the cases
        self.need = 0.2 if need is None else need


def load(prop):
    return importlib.import_module(f'hmon.props.{prop.lower()}')


def known_keys(prop):
    try:
        with open(KNOWN) as f:
            data = json.load(f)
    except FileNotFoundError:
        return {}
    return {e['key']: e['what'] for e in data.get('findings', [])
            if e['property'] == prop}


def _alarm(*_):
    raise NoReturn()


def from_harold(e):
    """Raised inside harold, or about something public its models lack?"""
    import harold
    here = os.path.dirname(os.path.abspath(harold.__file__)) + os.sep
    for f, _ in traceback.walk_tb(e.__traceback__):
        if os.path.abspath(f.f_code.co_filename).startswith(here):
            return True
    return isinstance(e, AttributeError) and \
        isinstance(e.obj, (harold.State, harold.Transfer)) and \
        not str(e.name).startswith('_')


def unreadable(e):
    """Is this how a check fails that was handed something else than what the
    function returns (an array of other dimensions, None, ...)?"""
    import numpy as np
    if isinstance(e, AttributeError):
        return not str(e.name).startswith('_')
    return isinstance(e, (TypeError, ValueError, IndexError, KeyError,
                          np.linalg.LinAlgError))


def run_case(mod, mon, wl, seed, index):
    """Run one case; returns None or a violation record."""
    import numpy as np
    widx = [w.name for w in mod.WORKLOADS].index(wl.name)
    ss = [int(seed) & 0x7fffffff, widx, index,
          int(hashlib.sha1(mod.ID.encode()).hexdigest()[:6], 16)]
    rng = np.random.default_rng(ss)
    # harold itself draws from numpy's global generator in a few places
    np.random.seed(int(rng.integers(0, 2**32 - 1)))
    before = sum(mon.events.values())
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                wl.fn(rng, mon)
        return None
    except Skip as e:
        mon.skips[f'{wl.name}:{e}'] += 1
        return None
    except Known:
        return None
    except Violation as v:
        rec = {'key': v.key, 'msg': v.msg, 'data': v.data}
    except NoReturn:
        rec = {'key': f'{wl.name}:no-return', 'data': {},
               'msg': f'no answer after {CASE_CPU_S} CPU seconds'}
    except Exception as e:
        # errors of the checks themselves are no verdict about harold
        what = 'raises' if from_harold(e) else 'malformed' \
            if sum(mon.events.values()) > before and unreadable(e) else None
        if what is None:
            raise
        rec = {'key': f'{wl.name}:{what}:{kind_of(e)}',
               'msg': f'{type(e).__name__}: {e}',
               'data': {'trace': traceback.format_exc()[-1500:]}}
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    rec.update(workload=wl.name, seed=int(seed), index=index,
               property=mod.ID)
    return rec


def quiet_stdout():
    """Workers keep what harold and LAPACK print off the verdict stream."""
    if mp.parent_process() is not None:
        sys.stdout.flush()
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        os.close(null)


class Watchdog:
    """Leaves a note about the running case where the parent finds it."""

    def __init__(self, where):
        self.note = self.trace = None
        if where is not None:
            base = os.path.join(where, str(os.getpid()))
            self.note = open(base + '.case', 'wb', buffering=0)
            self.trace = open(base + '.trace', 'w')

    def start(self, wname, index):
        if self.note is not None:
            os.pwrite(self.note.fileno(), f'{wname} {index:12d}\n'.encode(),
                      0)
            faulthandler.dump_traceback_later(CASE_WALL_S, exit=True,
                                              file=self.trace)

    def stop(self):
        if self.note is not None:
            faulthandler.cancel_dump_traceback_later()

    def close(self):
        if self.note is not None:
            self.note.close()
            self.trace.close()


def stuck(where, prop, seed):
    """Violation records for the cases whose worker was given up."""
    out = []
    for f in sorted(os.listdir(where)):
        if f.endswith('.trace') and os.path.getsize(os.path.join(where, f)):
            with open(os.path.join(where, f)) as t:
                trace = t.read()
            with open(os.path.join(where, f[:-5] + 'case')) as c:
                wname, index = c.readline().split()
            out.append({'key': f'{wname}:no-return', 'property': prop,
                        'msg': f'no answer after {CASE_WALL_S} seconds',
                        'workload': wname, 'seed': int(seed),
                        'index': int(index), 'data': {'trace': trace[:3000]}})
    return out


def _chunk(prop, wname, seed, lo, hi, deadline, where=None):
    mod = load(prop)
    dog = Watchdog(where)
    signal.signal(signal.SIGPROF, _alarm)
    quiet_stdout()
    mon = Monitor(prop)
    wl = [w for w in mod.WORKLOADS if w.name == wname][0]
    bad, done, errors = [], 0, []
    for i in range(lo, hi):
        if time.time() > deadline:
            break
        before = sum(mon.evals.values())
        dog.start(wname, i)
        try:
            rec = run_case(mod, mon, wl, seed, i)
        except BaseException:
            # the monitor itself failed: not a verdict about harold
            errors.append(f'{wname}[{i}]: ' + traceback.format_exc()[-1200:])
            continue
        finally:
            dog.stop()
        if rec is not None:
            bad.append(rec)
            if len(bad) >= 20:
                break
        if sum(mon.evals.values()) > before:
            done += 1
    dog.close()
    return {'events': mon.events, 'evals': mon.evals, 'skips': mon.skips,
            'seen': mon.seen, 'shapes': mon.shapes, 'known': mon.known,
            'samples': mon.samples, 'worst': mon.worst, 'bad': bad,
            'decided': {wname: done}, 'errors': errors}


def run(prop, tier, seed, jobs=None, scale=1.0, only=None):
    t0 = time.time()
    deadline = t0 + WALL_S[tier]
    mod = load(prop)
    jobs = jobs or max(1, min(8, len(os.sched_getaffinity(0))))
    tasks = []
    for wl in mod.WORKLOADS:
        if only and wl.name not in only:
            continue
        n = max(1, int(round(wl.counts[tier]*scale)))
        step = max(1, min(200, -(-n//(jobs*4))))
        tasks += [(wl.name, lo, min(n, lo+step)) for lo in range(0, n, step)]
    tot = {k: collections.Counter() for k in
           ('events', 'evals', 'skips', 'shapes', 'known', 'decided')}
    seen, samples, worst, bad, errors = set(), [], {}, [], []
    broken = None

    def merge(r):
        for k in tot:
            tot[k].update(r[k])
        seen.update(r['seen'])
        for s in r['samples']:
            if len(samples) < 8:
                samples.append(s)
        for k, v in r['worst'].items():
            worst[k] = max(worst.get(k, 0.), v)
        bad.extend(r['bad'])
        errors.extend(r['errors'])

    if jobs == 1:
        for w, lo, hi in tasks:
            merge(_chunk(prop, w, seed, lo, hi, deadline))
    else:
        ctx = mp.get_context('fork')
        where = tempfile.mkdtemp(prefix='hmon-')
        try:
            with cf.ProcessPoolExecutor(jobs, mp_context=ctx) as ex:
                futs = [ex.submit(_chunk, prop, w, seed, lo, hi, deadline,
                                  where) for w, lo, hi in tasks]
                for f in futs:
                    try:
                        merge(f.result())
                    except Exception as e:
                        broken = broken or f'{type(e).__name__}: {e}'
            if broken:
                bad.extend(stuck(where, prop, seed))
        finally:
            shutil.rmtree(where, ignore_errors=True)
    return finish(mod, tier, seed, tot, seen, samples, worst, bad, errors,
                  broken, t0, scale, only)


def finish(mod, tier, seed, tot, seen, samples, worst, bad, errors, broken,
           t0, scale, only):
    prop = mod.ID
    listed = known_keys(prop)
    os.makedirs(EVIDENCE, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    # a known finding that is not listed is a violation like any other
    unlisted = {k: n for k, n in tot['known'].items() if k not in listed}
    ev = {
        'property': prop, 'tier': tier, 'seed': int(seed),
        'level': 'exploration',
        'coverage': {
            'evaluations': int(sum(tot['evals'].values())),
            'distinct_nontrivial': len(seen),
            'rule': mod.RULE,
            'samples': samples or ['none recorded'],
            'monitored_calls': dict(sorted(tot['events'].items())),
            'oracle_comparisons': dict(sorted(tot['evals'].items())),
            'structural_buckets': len(tot['shapes']),
            'cases_decided': dict(sorted(tot['decided'].items())),
            'out_of_domain': dict(sorted(tot['skips'].items())),
            'known_finding_hits': dict(sorted(tot['known'].items())),
            'worst_error_over_tolerance': {
                k: float(f'{v:.3g}') for k, v in sorted(worst.items())},
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'violations': len(bad) + len(unlisted),
        'wall_s': round(time.time() - t0, 2),
    }
    path = os.path.join(EVIDENCE, prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(path + '.tmp', path)

    for key in sorted(k for k in listed if tot['known'][k]):
        print(f'KNOWN-FINDING: property={prop} {listed[key]}')
    status = 0
    groups = {}
    for b in bad:
        groups.setdefault(b['key'], []).append(b)
    for i, (key, recs) in enumerate(sorted(groups.items())):
        rp = os.path.join(REPLAYS, f'{prop}-{i}.json')
        with open(rp, 'w') as f:
            json.dump({'occurrences': len(recs), **recs[0]}, f, indent=1)
        print(f'VIOLATION property={prop} replay={rp}')
        print(f'  {key} ({len(recs)}x): {recs[0]["msg"][:300]} '
              f'[{recs[0]["workload"]} #{recs[0]["index"]}]')
        status = 1
    for key, n in sorted(unlisted.items()):
        rp = os.path.join(REPLAYS, f'{prop}-unlisted.json')
        with open(rp, 'w') as f:
            json.dump({'property': prop, 'key': key, 'count': n}, f)
        print(f'VIOLATION property={prop} replay={rp}')
        print(f'  {key} ({n}x)')
        status = 1
    if status == 0:
        short = []
        for wl in mod.WORKLOADS:
            if only and wl.name not in only:
                continue
            want = wl.need*wl.counts[tier]*min(1., scale)
            if tot['decided'][wl.name] < want and \
                    ev['wall_s'] < WALL_S[tier]:
                short.append(f'{wl.name}: {tot["decided"][wl.name]} of '
                             f'{wl.counts[tier]}')
        if errors or broken or short or not ev['coverage']['evaluations']:
            print(f'INCONCLUSIVE property={prop}')
            for e in ([broken] if broken else []) + short + errors[:3]:
                print('  ' + str(e))
            return 2
    print(f'{prop} {tier} seed={seed}: {"held" if status == 0 else "FAILED"} '
          f'on {ev["coverage"]["evaluations"]} oracle comparisons over '
          f'{len(seen)} distinct inputs, {sum(tot["events"].values())} '
          f'monitored calls, {ev["wall_s"]} s')
    if errors:
        print(f'  ({len(errors)} monitor errors, first: {errors[0]})')
    return status


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    mod = load(rec['property'])
    signal.signal(signal.SIGPROF, _alarm)
    wl = [w for w in mod.WORKLOADS if w.name == rec['workload']][0]
    out = run_case(mod, Monitor(mod.ID), wl, rec['seed'], rec['index'])
    if out is None:
        print('replay: the property held')
        return 0
    print(json.dumps(out, indent=1))
    print(f'VIOLATION property={mod.ID} replay={path}')
    return 1
