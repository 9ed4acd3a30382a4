#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: decide one property of /repo's current source"""
import os
import resource
import signal
import sys
import tempfile
import threading
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'sa'))
sys.setrecursionlimit(200000)
threading.stack_size(1 << 30)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    if '--thorough' in sys.argv:
        os.environ['VERIF_TIER'] = 'thorough'
    elif '--quick' in sys.argv:
        os.environ['VERIF_TIER'] = 'quick'
    import core
    import props
    if not args:
        print('properties:', ' '.join(sorted(props.ALL)))
        return 2
    rc = 0
    for a in args:
        rc = max(rc, supervised(a, core, props))
    return rc


def supervised(pid, core, props):
    """decide the property in a process of its own, so that running out of time or memory still gives an answer"""
    fd, log = tempfile.mkstemp(prefix='rq-')
    os.close(fd)
    try:
        sys.stdout.flush()
        kid = os.fork()
        if not kid:
            os.environ['RQ_LOG'] = log
            in_thread(lambda: one(core, lambda: props.run(pid)))
        end = time.time() + core.LIMIT + 100
        while True:
            k, st = os.waitpid(kid, os.WNOHANG)
            if k and os.WIFEXITED(st) and os.WEXITSTATUS(st) in (0, 1, 2):
                return os.WEXITSTATUS(st)
            if k:
                break
            if time.time() > end:
                os.kill(kid, signal.SIGKILL)
                os.waitpid(kid, 0)
                break
            time.sleep(.05)
        return one(core, lambda: props.resume(pid, log))
    finally:
        os.unlink(log)


def one(core, f):
    try:
        return f()
    except core.BuildError as x:
        print(x)
        return 2


def in_thread(f):
    box = [3]

    def go():
        box[0] = f()
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(box[0])


if __name__ == '__main__':
    sys.exit(main())
