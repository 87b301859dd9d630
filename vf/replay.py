#!/usr/bin/env python
"""Runs harnesses concretely against /repo's source, unmodified, in the project's own interpreter.

    /opt/venv/bin/python /verif/vf/replay.py CASES.json   (a file with {"cases": [...]}, or one case)

A case is {"property", "scenario", "tier", "values"}.  Prints one JSON line per case.
"""
import io
import json
import os
import resource
import signal
import sys
import traceback

REPO = os.environ.get('VF_REPO', '/repo')
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != os.path.join(HERE, 'vf')]
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)


class Timeout(BaseException):
    pass


def run_case(case, limit):
    import importlib
    from vf import ctx as C
    mod = importlib.import_module('vf.checks.' + case['property'].lower())
    sc = next((s for s in mod.scenarios(case.get('tier', 'quick')) if s['name'] == case['scenario']), None)
    if sc is None:
        sc = next(s for s in mod.scenarios('thorough') if s['name'] == case['scenario'])
    cx = C.ConcCtx(case['values'])

    def onalarm(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(limit)
    status, detail = 'ok', ''
    try:
        sc['fn'](cx, **sc.get('params', {}))
    except C.Skip:
        status = 'skip'
    except Timeout:
        status, detail = 'hang', f'no result within {limit} s'
    except MemoryError:
        status, detail = 'hang', 'memory limit reached'
    except (Exception, SystemExit) as e:
        status, detail = 'crash', ''.join(traceback.format_exception(e))[-1500:]
    finally:
        signal.alarm(0)
        cx.cleanup()
    if status == 'ok' and cx.failed:
        status = 'fail'
    return dict(status=status, detail=detail, failed=cx.failed, passed=cx.passed, obs=cx.obs)


def main():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    with open(sys.argv[1]) as f:
        d = json.load(f)
    cases = d['cases'] if 'cases' in d else [d]
    real_out = sys.stdout
    for c in cases:
        sys.stdout = io.StringIO()
        try:
            r = run_case(c, int(d.get('limit', 20)))
        finally:
            sys.stdout = real_out
        print(json.dumps(r), flush=True)
    if 'cases' not in d:
        sys.exit(0 if r['status'] in ('ok', 'skip') else 1)


if __name__ == '__main__':
    main()
