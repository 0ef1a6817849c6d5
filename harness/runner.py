"""Run histories in forked children: python runner.py PROFILE SEED N OUT [JOBS]"""
import json
import os
import random
import resource
import signal
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

import logging  # noqa: E402
import gc  # noqa: E402

import executor  # noqa: E402
import gen  # noqa: E402
import profiles  # noqa: E402

CPU = 20


def child(fd, make, limit_events, session):
    """In the child: run a history, and send its events as lines."""
    out = os.fdopen(fd, 'w')
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter('ignore')
    resource.setrlimit(resource.RLIMIT_CPU, (CPU, CPU + 2))
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    gc.freeze()
    sess = session()
    nxt = make(sess)
    n = 0
    while limit_events is None or n < limit_events:
        try:
            cmd = nxt()
        except Exception:       # the state of the library is not what the generator relies on
            import traceback
            out.write(json.dumps(dict(stop='generator: %s' % traceback.format_exc()[-600:])) + '\n')
            break
        if cmd is None:
            break
        out.write(json.dumps(dict(start=cmd)) + '\n')
        out.flush()
        try:
            ev = sess.run(cmd)
        except Exception:       # unobservable state
            import traceback
            out.write(json.dumps(dict(broken='observation: %s' % traceback.format_exc()[-600:], start=None)) + '\n')
            break
        out.write(json.dumps(dict(ev=ev)) + '\n')
        n += 1
    out.flush()
    out.close()


def run_one(make, limit_events=None, session=executor.Session):
    """Events of a history; a command that does not end gives an event with the result `hang` or `died`."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rd)
            child(wr, make, limit_events, session)
        except BaseException:
            import traceback
            with open(os.environ.get('VH_ERR', '/dev/null'), 'a') as f:
                traceback.print_exc(file=f)
            code = 3
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(rd) as f:
        lines = f.read().splitlines()
    _, st = os.waitpid(pid, 0)
    events, started, more = [], None, {}
    for line in lines:
        try:
            x = json.loads(line)
        except ValueError:
            continue
        if 'stop' in x:
            more['stop'] = x['stop']
            started = None
        elif 'broken' in x:
            more['broken'] = '%s at %s' % (x['broken'], json.dumps(started))
            started = None
        elif 'start' in x:
            started = x['start']
        else:
            events.append(x['ev'])
            started = None
    if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGXCPU, signal.SIGKILL, signal.SIGSEGV):
        if started is not None:
            started.setdefault('dpost', started.get('desc', []))
            started.setdefault('map', {})
            events.append(dict(started, res=dict(k='hang'), obs=dict(fp={}, col={}, lv={}, set={}, obj={}, prx={})))
    elif not os.WIFEXITED(st) or os.WEXITSTATUS(st):
        return dict(ev=events, broken='harness status %s at %s' % (st, json.dumps(started)))
    return dict(more, ev=events)


def random_history(profile, seed):
    def make(sess):
        rng = random.Random(seed)
        g = gen.Gen(rng, profile)
        n = rng.randint(*g.p['events'])
        left = [n]

        def nxt():
            if left[0] == 0:
                return None
            left[0] -= 1
            return g.next(sess)
        return nxt
    return run_one(make)


def replay_history(cmds):
    def make(sess):
        it = iter(cmds)
        return lambda: next(it, None)
    return run_one(make)


def strip(ev):
    """The command of an event."""
    return {k: v for k, v in ev.items() if k not in ('res', 'obs', 'dpost', 'map')}


def main():
    """runner.py PROFILE SEED N FIRST OUT, or runner.py PROFILE --replay COMMANDS OUT"""
    name, out = sys.argv[1], sys.argv[-1]
    hist = []
    if sys.argv[2] == '--replay':
        with open(sys.argv[3]) as f:
            for n, cmds in enumerate(json.load(f)):
                h = replay_history(cmds)
                h['id'] = '%s/replay/%d' % (name, n)
                hist.append(h)
    else:
        seed, n, first = (int(x) for x in sys.argv[2:5])
        profs = profiles.PROFILES[name]
        for i in range(first, first + n):
            h = random_history(profs[i % len(profs)], '%s/%d/%d' % (name, seed, i))
            h['id'] = '%s/%d/%d' % (name, seed, i)
            hist.append(h)
    with open(out, 'w') as f:
        json.dump(hist, f)


if __name__ == '__main__':
    main()
