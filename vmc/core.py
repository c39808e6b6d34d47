# coding: utf-8
"""Runner of the bounded exhaustive checks.

A check module (vmc/checks/cNN.py) gives
    ID, RULE, ASSUMPTIONS
    units(tier)        -> list of JSON-able work units that partition the space
    run(unit, R)       -> explores the whole unit, reporting to the Recorder R

Exit 0: the property held everywhere.  Exit 1 + "VIOLATION ...": broken.
Exit 2: the check itself could not run (no memory, no disk...).
"""
import argparse
import importlib
import io
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import contextlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VMC_REPO', '/repo')
UNIT_LIMIT = {'quick': 400, 'thorough': 6 * 3600}
TOTAL_LIMIT = {'quick': 840, 'thorough': 12 * 3600}


class Violation(Exception):
    def __init__(self, what, data=None):
        Exception.__init__(self, what)
        self.what = what
        self.data = data


class UnitTimeout(BaseException):
    pass


class Recorder(object):
    """Counts what one unit covered."""

    def __init__(self, tier, seed):
        self.tier = tier
        self.seed = seed
        self.quick = tier == 'quick'
        self._states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.samples = []
        self.known = []
        self.notes = {}

    def state(self, *key):
        """One state (input, history or configuration) of the explored space."""
        h = hash(key)
        if h in self._states:
            return False
        self._states.add(h)
        return True

    def trans(self, n=1):
        """Calls / steps of the real code that were compared with the model."""
        self.transitions += n

    def trace(self, n=1):
        """A complete model trace whose every observation the code reproduced."""
        self.traces += n

    def outcome(self, *key):
        self.outcomes.add(hash(key))

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def note(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    def fail(self, what, data=None):
        raise Violation(what, data)

    def check(self, cond, what, data=None):
        if not cond:
            raise Violation(what, data() if callable(data) else data)


# ------------------------------------------------------------------ nondeterminism seams
def install_seams():
    """A progress bar that shows nothing: it is no part of any property (and the
    installed one cannot count with numpy floats on this interpreter)."""
    import types
    m = types.ModuleType('progressbar')

    class ProgressBar(object):
        def __init__(self, *a, **k):
            pass

        def __call__(self, it, *a, **k):
            return iter(it)

        def start(self, *a, **k):
            return self

        def update(self, *a, **k):
            return None

        def finish(self, *a, **k):
            return None
    m.ProgressBar = ProgressBar
    m.progressbar = lambda it, *a, **k: iter(it)
    m.UnknownLength = -1
    m.NullBar = ProgressBar
    sys.modules['progressbar'] = m


_mod = None
_tier = None
_seed = 0


def _alarm(*a):
    raise UnitTimeout()


class _Sink(io.TextIOBase):
    def write(self, s):
        return len(s)

    def writable(self):
        return True


def _work(item):
    idx, unit = item
    R = Recorder(_tier, _seed)
    t0 = time.time()
    res = {'idx': idx, 'unit': unit, 'error': None}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(UNIT_LIMIT[_tier])
    try:
        with contextlib.redirect_stdout(_Sink()):
            _mod.run(unit, R)
    except Violation as e:
        res['error'] = {'what': e.what, 'data': e.data}
    except UnitTimeout:
        res['error'] = {'what': 'no answer within %d s (does not terminate)'
                                % UNIT_LIMIT[_tier], 'data': None}
    except MemoryError:
        res['fatal'] = traceback.format_exc()
    except (KeyboardInterrupt,):
        raise
    except OSError as e:
        if e.errno in (28, 12, 24):          # ENOSPC, ENOMEM, EMFILE
            res['fatal'] = traceback.format_exc()
        else:
            res['error'] = {'what': 'exception: %r' % e,
                            'data': traceback.format_exc()}
    except (Exception, SystemExit) as e:
        res['error'] = {'what': 'exception: %s: %s' % (type(e).__name__, e),
                        'data': traceback.format_exc()}
    finally:
        signal.alarm(0)
    res.update(states=len(R._states), transitions=R.transitions, traces=R.traces,
               outcomes=len(R.outcomes), samples=R.samples, known=R.known,
               notes=R.notes, wall=time.time() - t0)
    return res


def plain(o):
    """A JSON-able picture of anything."""
    from fractions import Fraction
    if isinstance(o, dict):
        return {k if isinstance(k, str) else str(k): plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [plain(x) for x in o]
    if isinstance(o, (set, frozenset)):
        return [plain(x) for x in sorted(o, key=repr)]
    if o is None or isinstance(o, (bool, str)) or type(o) in (int, float):
        return o
    if isinstance(o, Fraction):
        return str(o)
    if hasattr(o, 'tolist'):
        return plain(o.tolist())
    return repr(o)


def _json(o):
    from fractions import Fraction
    if isinstance(o, Fraction):
        return str(o)
    if isinstance(o, (set, frozenset)):
        return sorted(o, key=repr)
    if hasattr(o, 'tolist'):
        return o.tolist()
    return repr(o)


def load_known():
    """Known findings: lines 'property=<id> key=<key> <text>' of known_findings.txt."""
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith('known: '):
                    parts = line[len('known: '):].split(' ', 2)
                    pid = parts[0].split('=', 1)[1]
                    key = parts[1].split('=', 1)[1]
                    out.setdefault(pid, {})[key] = parts[2] if len(parts) > 2 else ''
    return out


def main(argv=None):
    global _mod, _tier, _seed
    ap = argparse.ArgumentParser()
    ap.add_argument('check')
    ap.add_argument('tier', nargs='?', default=None)
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=0)
    ap.add_argument('--profile', action='store_true')
    ns = ap.parse_args(argv)
    tier = ns.tier or os.environ.get('VERIF_TIER') or 'quick'
    if tier not in UNIT_LIMIT:
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    pid = ns.check.upper()
    t0 = time.time()
    out = os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(out, 'replay'), exist_ok=True)
    replay_path = os.path.join(out, 'replay', '%s.json' % pid)
    _tier, _seed = tier, seed
    install_seams()

    def violation(what, data, unit):
        data = plain(data)
        with open(replay_path, 'w') as f:
            json.dump({'property': pid, 'tier': tier, 'unit': unit, 'what': what,
                       'data': data,
                       'replay_cmd': './run.sh %s %s --replay %s' % (pid, tier, replay_path)},
                      f, default=_json, indent=1)
        print('%s: %s' % (pid, what))
        if isinstance(data, str):
            print(data[-3000:])
        elif data is not None:
            print(json.dumps(data, default=_json)[:3000])
        print('VIOLATION property=%s replay=%s' % (pid, replay_path))

    tb = None
    try:
        _mod = importlib.import_module('vmc.checks.%s' % pid.lower())
        units = _mod.units(tier)
        import ababe
        src = os.path.realpath(os.path.dirname(ababe.__file__ or list(ababe.__path__)[0]))
        if not src.startswith(os.path.realpath(REPO)):
            print('ababe is not imported from %s but %s' % (REPO, src))
            return 2
    except Exception:
        tb = traceback.format_exc()
    if tb is not None:
        # the public modules of the code under test cannot be imported
        if os.path.realpath(REPO) + '/ababe' in tb or "'ababe" in tb:
            violation('ababe cannot be imported', tb, None)
            return 1
        print(tb)
        return 2

    if ns.replay:
        with open(ns.replay) as f:
            units = [json.load(f)['unit']]
    if ns.jobs == 1 or ns.replay:
        results = (_work(x) for x in enumerate(units))
        pool = None
    else:
        pool = mp.get_context('fork').Pool(min(ns.jobs or 8, max(1, len(units))))
        results = pool.imap_unordered(_work, list(enumerate(units)))
    agg = {'states': 0, 'transitions': 0, 'traces': 0, 'outcomes': 0}
    notes, samples, known, errs, fatal, prof = {}, [], [], [], None, []
    done = 0
    timed_out = False
    it = iter(results)
    while True:
        try:
            if pool is not None:
                left = TOTAL_LIMIT[tier] - (time.time() - t0)
                r = it.next(max(1, left))
            else:
                r = next(it)
        except StopIteration:
            break
        except mp.TimeoutError:
            timed_out = True
            break
        done += 1
        for k in agg:
            agg[k] += r[k]
        for k, v in r['notes'].items():
            notes[k] = notes.get(k, 0) + v
        samples.extend((r['idx'], s) for s in r['samples'])
        known.extend(r['known'])
        prof.append((r['wall'], r['unit'], r['states']))
        if r.get('fatal'):
            fatal = r['fatal']
            break
        if r['error']:
            errs.append(r)
            break
    if pool is not None:
        pool.terminate()
        pool.join()
    wall = time.time() - t0
    if ns.profile:
        for w, u, s in sorted(prof, key=lambda x: -x[0])[:12]:
            print('%7.2f s  %6d states  %s' % (w, s, json.dumps(u, default=_json)[:140]))
    if fatal:
        print(fatal)
        return 2

    samples.sort(key=lambda x: x[0])
    step = max(1, len(samples) // 6)
    listed = load_known().get(pid, {})
    cov = {'states': agg['states'], 'transitions': agg['transitions'],
           'traces_validated_against_impl': agg['traces'],
           'samples': [s for _, s in samples[::step]][:6],
           'exhaustive': not errs and not timed_out and not ns.replay,
           'units': done, 'units_total': len(units),
           'distinct_observed_outcomes': agg['outcomes'],
           'rule': _mod.RULE[tier] if isinstance(_mod.RULE, dict) else _mod.RULE}
    if notes:
        cov['detail'] = notes
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': cov, 'assumptions': list(_mod.ASSUMPTIONS),
          'wall_s': round(wall, 2),
          'violations': len(errs) + (1 if timed_out else 0)}
    seen_keys = set()
    extra = []
    for key, text in known:
        if key in listed:
            seen_keys.add(key)
        else:
            extra.append((key, text))
    if known:
        ev['coverage']['known_findings_seen'] = sorted(seen_keys)
    if not ns.replay:
        with open(os.path.join(out, '%s.json' % pid), 'w') as f:
            json.dump(plain(ev), f, default=_json, indent=1)
    for key in sorted(seen_keys):
        print('KNOWN-FINDING: property=%s %s' % (pid, listed[key] or key))
    if errs:
        r = errs[0]
        violation(r['error']['what'], r['error']['data'], r['unit'])
        return 1
    if extra:
        violation(extra[0][1], extra[0][0], None)
        return 1
    if timed_out:
        violation('no answer within %d s' % TOTAL_LIMIT[tier], None, None)
        return 1
    if not ns.replay and agg['states'] == 0:
        print('nothing was explored')
        return 2
    print('%s %s: held; states=%d transitions=%d traces=%d outcomes=%d units=%d wall=%.1fs'
          % (pid, tier, agg['states'], agg['transitions'], agg['traces'],
             agg['outcomes'], done, wall))
    return 0


if __name__ == '__main__':
    # one module object for the runner and the checks
    from vmc import core
    sys.exit(core.main())
