"""Histories of the small models: python small.py MODEL SEED N FIRST OUT, or small.py MODEL --replay COMMANDS OUT.

A model is a module m_<MODEL>.py with a class Session (run: command -> event) and a function commands(rng, session, n)
which gives the successive commands of a random history.
"""
import importlib
import json
import random
import sys

sys.dont_write_bytecode = True

import runner  # noqa: E402


def main():
    name, out = sys.argv[1], sys.argv[-1]
    model = importlib.import_module('m_' + name)
    hist = []
    if sys.argv[2] == '--replay':
        with open(sys.argv[3]) as f:
            for n, cmds in enumerate(json.load(f)):
                h = runner.run_one(lambda sess, it=iter(cmds): lambda: next(it, None), session=model.Session)
                h['id'] = '%s/replay/%d' % (name, n)
                hist.append(h)
    else:
        seed, n, first = (int(x) for x in sys.argv[2:5])
        for i in range(first, first + n):
            def make(sess, i=i):
                it = model.commands(random.Random('%s/%d/%d' % (name, seed, i)), sess, i)
                return lambda: next(it, None)
            h = runner.run_one(make, session=model.Session)
            h['id'] = '%s/%d/%d' % (name, seed, i)
            hist.append(h)
    with open(out, 'w') as f:
        json.dump(hist, f)


if __name__ == '__main__':
    main()
