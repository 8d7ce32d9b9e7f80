"""Produces observations of the real yargy (one JSON per line). Run with the project's interpreter."""
import sys, os, json, random, resource, time, itertools
resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def pick(rng, fams):
    x = rng.random() * sum(w for _, w in fams)
    for f, w in fams:
        x -= w
        if x <= 0: return f
    return fams[-1][0]


def main():
    job = json.loads(sys.argv[1])
    import importlib
    mod, fn = job['fn'].split('.')
    sys.setrecursionlimit(20000) if job.get('deep') else None
    f = getattr(importlib.import_module(mod), fn)
    with open(job['out'] + '.tmp', 'w') as out:
        def emit(x):
            out.write(json.dumps(x) + '\n')
        stats = f(job, emit) or {}
    os.rename(job['out'] + '.tmp', job['out'])
    print('STATS ' + json.dumps(stats))


if __name__ == '__main__':
    main()
