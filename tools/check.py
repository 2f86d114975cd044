"""Entry point: python3 tools/check.py <property id> [--thorough]"""
import importlib, os, resource, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def main():
    import threading
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        lim = 14 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except (ValueError, OSError):
        pass
    import dump
    from report import Report
    try:
        import ana
        P = ana.prog()
    except dump.DumpError as e:
        print(e)
        return 2
    r = Report(pid, tier)
    m = importlib.import_module('props.' + pid.lower())
    try:
        m.check(P, r)
    except Exception as e:
        traceback.print_exc()
        r.undecide('internal error %s: %s' % (type(e).__name__, e))
    return r.finish()


if __name__ == '__main__':
    import threading
    threading.stack_size(512 << 20)
    res = [2]

    def go():
        try:
            res[0] = main()
        except BaseException:
            traceback.print_exc()
            res[0] = 2
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(res[0])
