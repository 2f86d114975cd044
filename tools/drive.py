"""Run the abstract interpreter on a root for every codec configuration, in parallel processes."""
import os, resource, time, traceback, multiprocessing as mp
import ana, absint, terms as T
from absint import Interp, State, Stuck, Budget
from run import Hooks

JOBS = 8
LIMIT = 240         # seconds per configuration


class Timeout(Exception):
    pass


def labels(P):
    ip = Interp(P, Hooks())
    return [l for l, _ in ana.configs(ip, ana.codec_ty(P))]


def _alarm(sec):
    import signal

    def h(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, h)
    signal.alarm(sec)


def one(P, root, i, mkhooks, post, steps, limit):
    """Runs one configuration in this process. Returns a list of results from post."""
    T.reset()
    hooks = mkhooks()
    ip = Interp(P, hooks, steps=steps)
    hooks.ip = ip
    ip.peel = getattr(hooks, 'peel', 0)
    ip.peel_floor = steps // 2
    st = State()
    args = []
    fid = root if isinstance(root, int) else ana.root(P, root)
    f = P.fns[fid]
    lab = None
    if i is not None:
        lab, b = ana.configs(ip, ana.codec_ty(P))[i]
        args.append(('r', ip.new_obj(st, b(st), 'codec'), (), None))
    for j in range(len(args), f['body']['nargs']):
        args.append(('t', f['body']['locals'][j + 1], 'arg%d' % j))
    if hasattr(hooks, 'prepare'):
        args = hooks.prepare(ip, st, args, f) or args
    outs, why = [], None
    try:
        outs = ip.exec_fn(fid, args, st)
    except Stuck as e:
        why = 'analysis stopped: %s in %s' % (e, (getattr(e, 'trace', None) or ['?'])[-1])
    except Budget:
        why = 'analysis stopped: step budget exhausted'
    except Timeout:
        why = 'analysis stopped: time limit'
    except RecursionError:
        why = 'analysis stopped: recursion'
    except MemoryError:
        why = 'analysis stopped: memory'
    except Exception as e:
        why = 'analysis stopped: internal error %s: %s @ %s' % (type(e).__name__, e, traceback.format_exc(limit=-2).split('\n')[-4:-2])
    import signal
    signal.alarm(0)
    return post(ip, lab, outs, why)


def _child(fn, j, limit, q):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (9 << 30, 9 << 30))
    except (ValueError, OSError):
        pass
    try:
        _alarm(limit)
        r = fn(j)
    except BaseException as e:
        r = [('und', 'job %s' % (j,), 'internal error %r %s' % (e, traceback.format_exc(limit=-2).split('\n')[-4:-2]))]
    q.send(r)
    q.close()


def run(P, jobs, mkhooks, post, steps=400000, limit=LIMIT):
    """jobs: [(root, config index or None)]. Returns {job: [results]}."""
    return pool(jobs, lambda j: one(P, j[0], j[1], mkhooks, post, steps, limit), limit)


def pool(jobs, fn, limit=LIMIT, first=False):
    """Runs fn(job) -> [results] for every job, each in a process of its own. Returns {job: [results]}. first: no further job once one found a violation."""
    ctx = mp.get_context('fork')
    pend = list(jobs)
    live = {}
    res = {}
    while pend or live:
        while pend and len(live) < JOBS:
            j = pend.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_thread, args=((fn, j, limit, b),))
            p.start()
            b.close()
            live[j] = (p, a, time.time())
        for j, (p, a, t0) in list(live.items()):
            if a.poll(0.02):
                try:
                    res[j] = a.recv()
                except EOFError:
                    res[j] = [('und', str(j), 'the analysis process ended')]
                p.join()
                del live[j]
                if first and any(x[0] == 'viol' for x in res[j]):
                    for p, _, _ in live.values():
                        p.kill()
                        p.join()
                    return res
            elif time.time() - t0 > limit + 30:
                p.kill(); p.join()
                res[j] = [('und', str(j), 'the analysis process hung')]
                del live[j]
    return res


def _thread(a):
    # forked from a thread with a large stack: keep running on it
    _child(*a)


def all_configs(P, r, root, mkhooks, post, steps=400000, limit=LIMIT, only=None):
    labs = labels(P)
    jobs = [(root, i) for i in range(len(labs)) if only is None or only(labs[i])]
    res = run(P, jobs, mkhooks, post, steps, limit)
    for j in jobs:
        for x in res[j]:
            apply(r, x)
    r.count('configurations analysed', len(jobs))


def apply(r, x):
    if x[0] == 'ok':
        r.ok(x[1])
    elif x[0] == 'und':
        r.undecide('%s: %s' % (x[1], x[2]))
    elif x[0] == 'viol':
        r.violation(x[1], x[2])
    elif x[0] == 'fn':
        r.funcs.update(x[1])
    elif x[0] == 'count':
        r.count(x[1], x[2])


def frames(act):
    out = []
    while act is not None and len(out) < 30:
        out.append(act.f['path'])
        act = act.up
    return out


def user_frame(fr):
    for p in fr:
        if 'cniic' in p and '__vp' not in p:
            return p
    return fr[0] if fr else '?'
