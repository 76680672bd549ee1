"""Contracts registry and the driver that proves / replays / cross-checks them."""
import json
import os
import sys
import time
import traceback
import multiprocessing as mp
import numpy as np

CONTRACTS = {}
EXPECT = set()


class Contract(object):
    def __init__(self, pid, name, fn, funcs, sym, paths, cases, timeout, fixed_dims, budget, stubs, note):
        self.pid, self.name, self.fn, self.funcs = pid, name, fn, funcs
        self.sym, self.paths, self.cases, self.timeout = sym, paths, cases, timeout
        self.fixed_dims, self.budget, self.stubs, self.note = fixed_dims, budget, stubs, note


def contract(pid, name, funcs=(), sym=True, paths=300, cases=300, timeout=6.0, fixed_dims=None, budget=240, stubs=None, note=''):
    def deco(fn):
        CONTRACTS.setdefault(pid, []).append(Contract(pid, name, fn, list(funcs), sym, paths, cases, timeout, fixed_dims, budget, stubs, note))
        return fn
    return deco


class Log(object):
    def __init__(self):
        self.by = {}
        self.models = []
        self.total = 0
        self.fails = []
        self.seen = {}

    def obligation(self, name, res, goal):
        from .sym import ENG
        self.total += 1
        d = self.by.setdefault(name, {'n': 0, 'ok': 0, 'how': {}})
        d['n'] += 1
        if res.ok:
            d['ok'] += 1
            d['how'][res.how] = d['how'].get(res.how, 0) + 1
        else:
            self.fails.append((name, res.how, res.detail))
            d.setdefault('fail', []).append(res.how)

    def model(self, name, m):
        if len(self.models) < 12:
            self.models.append((name, m))


def run_symbolic(c, deadline):
    from . import engine as G, shim, world
    from .expr import Unsupported, FALSE as E_FALSE
    log = Log()
    out = {'paths': 0, 'unsupported': [], 'completed': 0, 'infeasible': 0}
    ex = G.Explorer(c.paths, deadline)

    def on_path(st, fn):
        w = world.SymWorld(log, c.timeout)
        w.fixed_dims = c.fixed_dims
        try:
            fn(w)
            out['completed'] += 1
        except G.Infeasible:
            out['infeasible'] += 1
        except world.Skip:
            out['infeasible'] += 1
        except Unsupported as e:
            out['unsupported'].append(str(e)[:200])
        except RecursionError:
            out['unsupported'].append('recursion')
        except Exception as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            # an exception on a path that no input takes is no exception
            try:
                if G.prove(E_FALSE, 3.).ok:
                    out['infeasible'] += 1
                    return
            except Exception:
                pass
            out['unsupported'].append('%s: %s at %s' % (type(e).__name__, str(e)[:160], ['%s:%d' % (os.path.basename(t.filename), t.lineno) for t in tb[-3:]]))
        if len(out['unsupported']) > 6:
            raise G.PathLimit('outside the verifier subset')
    try:
        with shim.symbolic_mode(c.stubs() if c.stubs else None):
            ex.run(lambda w: c.fn(w), on_path)
    except G.PathLimit as e:
        out['unsupported'].append(str(e))
    out['paths'] = ex.npaths
    out['log'] = log.by
    out['total'] = log.total
    out['fails'] = log.fails[:50]
    out['models'] = log.models
    out['z3'] = dict(G.STATS)
    return out


def private_gone(e, tb):
    """the contract itself reached for a private name (or its old signature)
    that the code no longer has: the contract says nothing about such code"""
    import re
    if not tb or os.sep + 'contracts' + os.sep not in tb[-1].filename:
        return False
    if isinstance(e, (AttributeError, ImportError)):
        return re.search(r"(attribute|name) '_[a-z]\w*'", str(e)) is not None
    if isinstance(e, TypeError):
        return re.match(r"(\w+\.)*_[a-z]\w*\(\) (got|missing|takes)", str(e)) is not None
    return False


def run_concrete(c, seed, cases, budget, hints=(), stop=True):
    """random / hinted concrete executions of the same contract on the real code"""
    from . import world
    t0 = time.time()
    st = {'cases': 0, 'checks': 0, 'skipped': 0, 'distinct': set(), 'sample': None, 'violations': [], 'known': {}}
    k = 0
    hints = list(hints)
    crc = sum((i + 1) * ord(ch) for i, ch in enumerate(c.pid + c.name)) % (2 ** 31)
    while k < cases and time.time() - t0 < budget:
        rng = np.random.default_rng([seed, crc, k])
        h = hints[k % len(hints)][1] if hints and k < 40 * len(hints) else None
        w = world.ConWorld(rng, hints=h)
        state = np.random.get_state()
        np.random.seed((seed * 7919 + k) % (2 ** 31))
        try:
            with np.errstate(all='ignore'):
                c.fn(w)
            st['cases'] += 1
            st['checks'] += w.checks
            key = repr(sorted(w.record.items(), key=str))[:4000]
            st['distinct'].add(hash(key))
            if st['sample'] is None or k == 7:
                st['sample'] = {str(a): b for a, b in w.record.items()}
        except world.Skip:
            st['skipped'] += 1
        except world.Known as v:
            st['cases'] += 1
            st['checks'] += w.checks
            st['known'][v.id] = st['known'].get(v.id, 0) + 1
        except world.Violation as v:
            st['cases'] += 1
            st['violations'].append({'obligation': v.name, 'detail': v.detail[:2000], 'inputs': w.record, 'case': k, 'seed': seed})
            if stop:
                break
        except Exception as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            if private_gone(e, tb):
                st['skipped'] += 1
                st['gone'] = str(e)
                break
            st['cases'] += 1
            st['violations'].append({'obligation': 'no exception', 'detail': '%s: %s\n%s' % (type(e).__name__, str(e)[:500], ''.join(traceback.format_tb(sys.exc_info()[2])[-3:])), 'inputs': w.record, 'case': k, 'seed': seed,
                                     'where': ['%s:%d' % (t.filename, t.lineno) for t in tb[-2:]]})
            if stop:
                break
        finally:
            np.random.set_state(state)
        k += 1
    st['distinct'] = len(st['distinct'])
    return st


def run_contract(args):
    pid, name, tier, seed, deadline = args
    c = [x for x in CONTRACTS[pid] if x.name == name][0]
    t0 = time.time()
    res = {'name': name, 'funcs': c.funcs, 'note': c.note}
    mult = 1 if tier == 'quick' else 12
    if c.sym:
        try:
            res['sym'] = run_symbolic(c, min(deadline, time.time() + c.budget * (1 if tier == 'quick' else 3)))
        except Exception as e:
            res['sym'] = {'paths': 0, 'completed': 0, 'unsupported': ['engine: ' + traceback.format_exc()[-800:]], 'log': {}, 'total': 0, 'fails': [], 'models': [], 'z3': {}}
    if c.sym and c.name in EXPECT and (res['sym']['fails'] or res['sym']['total'] == 0) and not res['sym']['unsupported'] and time.time() < deadline - 120:
        # discharged on the committed tree, not now: once more with longer solver limits
        keep, c.timeout = c.timeout, 5 * c.timeout
        try:
            res['sym'] = run_symbolic(c, min(deadline - 60, time.time() + 2 * c.budget))
        finally:
            c.timeout = keep
    hints = res['sym']['models'] if c.sym else []
    proved = c.sym and not res['sym']['unsupported'] and not res['sym']['fails'] and res['sym']['total'] > 0
    res['proved'] = bool(proved)
    # an obligation that was discharged on the committed tree now fails inside
    # the verifier's subset (leaving the subset is no failure: bounded fallback)
    res['regressed'] = bool(c.sym and not proved and c.name in EXPECT and res['sym']['fails'] and not res['sym']['unsupported'])
    cases = c.cases * mult
    if c.sym and not proved:
        cases *= 10 if c.name in EXPECT else 3
    left = max(10., deadline - time.time())
    res['con'] = run_concrete(c, seed, cases, min(left, 60. * mult), hints)
    res['wall'] = time.time() - t0
    return res
