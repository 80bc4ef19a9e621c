"""Run the obligations of one property, write the evidence, report."""
import json
import os
import signal
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor
import multiprocessing

ROOT = os.environ.get('FCA_ROOT', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class TimeOut(Exception):
    pass


def _alarm(*a):
    raise TimeOut('time limit of the obligation')


def finding(key, where, msg, **kw):
    d = dict(key=key, where=where, msg=msg)
    d.update(kw)
    return d


def result(name, status, findings=(), why='', **counts):
    return dict(name=name, status=status, findings=list(findings), why=why, counts=counts)


def _one(args):
    ob, root, tier, limit = args
    t = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(limit))
    try:
        r = ob.decide(root, tier)
    except TimeOut as e:
        r = [result(ob.name, 'undecided', why=str(e))]
    except RecursionError:
        r = [result(ob.name, 'undecided', why='recursion limit')]
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        r = [result(ob.name, 'undecided', why='%s: %s (%s:%s)' % (
            type(e).__name__, str(e)[:120], os.path.basename(tb.filename), tb.lineno))]
    finally:
        signal.alarm(0)
    if isinstance(r, dict):
        r = [r]
    for x in r:
        x['wall'] = round((time.time() - t) / max(1, len(r)), 3)
    return r


def known(pid):
    out = {}
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid) and ' key=' in l:
                k = l.split(' key=', 1)[1]
                k, _, what = k.partition(' -- ')
                out[k.strip()] = what.strip()
    return out


def main(pid, tier, registry, root=None):
    root = root or ROOT
    t0 = time.time()
    spec = registry[pid]
    obs = spec['obligations'](root)
    limit = spec.get('limit', 100) if tier == 'quick' else spec.get('limit', 100) * 4
    res = []
    n = int(os.environ.get('FCA_JOBS', '8'))
    if n <= 1 or len(obs) == 1:
        for ob in obs:
            res += _one((ob, root, tier, limit))
    else:
        # the obligations reach the workers by fork, results come back pickled
        global _OBS
        _OBS = obs
        cx = multiprocessing.get_context('fork')
        with ProcessPoolExecutor(n, mp_context=cx) as ex:
            fs = [ex.submit(_idx, i, root, tier, limit) for i in range(len(obs))]
            for i, f in enumerate(fs):
                try:
                    res += f.result()
                except Exception as e:
                    res.append(result(obs[i].name, 'undecided', why='worker: %s' % e))
    return report(pid, tier, spec, res, time.time() - t0, root)


_OBS = None


def _idx(i, root, tier, limit):
    return _one((_OBS[i], root, tier, limit))


def report(pid, tier, spec, res, wall, root):
    kn = known(pid)
    new, seen = [], {}
    for r in res:
        for f in r['findings']:
            if f['key'] in kn:
                seen[f['key']] = kn[f['key']]
            else:
                new.append((r, f))
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(os.path.join(ev, 'replay'), exist_ok=True)
    st = {}
    for r in res:
        st[r['status']] = st.get(r['status'], 0) + 1
    tot = {}
    for r in res:
        for k, v in r['counts'].items():
            if isinstance(v, (int, float)):
                tot[k] = tot.get(k, 0) + v
    cov = dict(
        obligations=len(res),
        discharged=st.get('holds', 0),
        undecided=st.get('undecided', 0),
        violated=st.get('violated', 0),
        explanation=spec['rule'],
        measured=tot,
        decided=[dict(obligation=r['name'], status=r['status'], why=r['why'][:300], **r['counts'])
                 for r in res][:400],
        trusted_base=['the abstract interpreter in /verif/sa and its models of Python built-ins '
                      'and numpy', 'CPython ast parser'],
    )
    e = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1),
             level=spec.get('level', 'other'), coverage=cov,
             assumptions=spec.get('assumptions', []), wall_s=round(wall, 2),
             violations=len(new))
    with open(os.path.join(ev, pid + '.json'), 'w') as fh:
        json.dump(e, fh, indent=1, sort_keys=True, default=str)
        fh.write('\n')
    for k in sorted(seen):
        print('KNOWN-FINDING: property=%s %s -- %s' % (pid, k, seen[k]))
    print('%s: %d obligations, %s, %.1f s' % (
        pid, len(res), ', '.join('%d %s' % (v, k) for k, v in sorted(st.items())), wall))
    if os.environ.get('FCA_VERBOSE'):
        for r in res:
            if r['status'] != 'holds' or os.environ['FCA_VERBOSE'] == '2':
                print('   %-9s %s %s %s' % (r['status'], r['name'], r['why'][:160], r.get('wall')))
    done = set()
    for i, (r, f) in enumerate(new):
        if f['key'] in done:
            continue
        done.add(f['key'])
        p = os.path.join(ev, 'replay', '%s-%d.txt' % (pid, len(done)))
        with open(p, 'w') as fh:
            fh.write('property: %s\nobligation: %s\nconstruct: %s\nfinding: %s\nkey: %s\n' % (
                pid, r['name'], f['where'], f['msg'], f['key']))
            for k in sorted(f):
                if k not in ('where', 'msg', 'key'):
                    fh.write('%s: %s\n' % (k, f[k]))
        print('  %s: %s [%s]' % (f['where'], f['msg'][:400], f['key']))
        print('VIOLATION property=%s replay=%s' % (pid, p))
    sys.stdout.flush()
    if new:
        return 1
    if res and not st.get('holds') and not seen and spec.get('must', True):
        print('ANALYSIS-BROKEN property=%s: no obligation could be decided' % pid)
        return 2
    return 0
