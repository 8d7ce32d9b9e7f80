#!/usr/bin/env python3
"""check.py <property> <quick|thorough>: drives the specification checks of one property.

Observations are produced by workers running the real code; verdicts are TLC's. This file only
starts processes, collects verdicts and writes the evidence."""
import sys, os, json, subprocess, tempfile, time, shutil, re, glob, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, 'spec')
PY = '/opt/venv/bin/python'
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
NPROC = max(2, min(8, os.cpu_count() or 2))


class Broken(Exception):
    """the machinery (not the code under test) failed"""


class TlcResult(object):
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.search(r'(?m)^(\d{1,12}) states generated, (\d{1,12}) distinct states', out)
        self.states, self.distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        self.ok = 'No error has been found' in out


class Check(object):
    def __init__(self, prop, tier):
        self.prop, self.tier, self.t0 = prop, tier, time.time()
        self.tmp = tempfile.mkdtemp(prefix='verif_%s_' % prop)
        self.bad = []            # (what, replay object)
        self.known = []
        self.states = self.transitions = self.traces = self.evals = self.nontrivial = 0
        self.samples, self.parts = [], []
        self.findings = load_findings(prop)

    def quick(self): return self.tier == 'quick'
    def n(self, q, t): return q if self.quick() else t
    def left(self): return 780 - (time.time() - self.t0)

    # ---- processes
    def tlc(self, spec, cfg=None, env=None, timeout=600, workers=NPROC, args=(), heap='8g', simulate=False):
        meta = tempfile.mkdtemp(dir=self.tmp)
        cmd = ['java', '-XX:+UseParallelGC', '-Xss128m', '-Xmx' + heap, '-Djava.io.tmpdir=' + self.tmp, '-cp', JAR, 'tlc2.TLC', '-workers', str(workers), '-nowarning',
               '-metadir', meta, '-config', (cfg or spec) + '.cfg'] + list(args) + [spec + '.tla']
        e = dict(os.environ, **(env or {}))
        e.pop('JAVA_TOOL_OPTIONS', None)
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        shutil.rmtree(meta, ignore_errors=True)
        r = TlcResult(p.stdout.decode('utf8', 'replace'), p.returncode)
        return r

    def workers(self, jobs, env=None, timeout=600):
        """run worker jobs in parallel; returns list of (job, path or None, stderr tail, stats)"""
        queue, running, done = list(jobs), [], []
        for k, j in enumerate(queue):
            j['out'] = os.path.join(self.tmp, 'obs_%d_%d.ndjson' % (len(os.listdir(self.tmp)), k))
        queue.reverse()
        while queue or running:
            while queue and len(running) < NPROC:
                j = queue.pop()
                e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1',
                         PYTHONPYCACHEPREFIX='/nonexistent', **(env or {}))
                e.update(j.get('env', {}))
                err, so = open(j['out'] + '.err', 'wb'), open(j['out'] + '.std', 'wb')
                p = subprocess.Popen([PY, '-W', 'ignore', os.path.join(HERE, 'worker.py'), json.dumps(j)],
                                     stdout=so, stderr=err, env=e, cwd=self.tmp)
                running.append((j, p, time.time()))
            time.sleep(.02)
            for r in list(running):
                j, p, t = r
                if p.poll() is None:
                    if time.time() - t > timeout: p.kill(); p.wait()
                    else: continue
                running.remove(r)
                stderr = open(j['out'] + '.err', 'rb').read().decode('utf8', 'replace')
                std = open(j['out'] + '.std', 'rb').read().decode('utf8', 'replace')
                m = re.search(r'STATS (.*)', std)
                stats = json.loads(m.group(1)) if m else {}
                if p.returncode != 0 or not os.path.exists(j['out']):
                    done.append((j, None, stderr[-2000:], stats))
                else:
                    done.append((j, j['out'], stderr, stats))
        return done

    # ---- judged observations
    def judge(self, paths, spec='Conform', chunk=5000, describe=None, env=None):
        """TLC judges every observation in the files. Returns list of (observation, failing clauses)."""
        lines = []
        for p in paths:
            with open(p) as f: lines += f.readlines()
        bad = []
        for a in range(0, len(lines), chunk):
            part = lines[a:a + chunk]
            if self.left() < 30:
                self.note('stopped early: %d observations not judged' % (len(lines) - a)); break
            bad += self.judge_lines(part, spec, env)
            if len(bad) > 40: break
        return bad

    def judge_lines(self, part, spec, env=None):
        f = tempfile.NamedTemporaryFile('w', dir=self.tmp, suffix='.json', delete=False)
        for k, l in enumerate(part):
            o = json.loads(l); o['id'] = k + 1
            f.write(json.dumps(o) + '\n')
        f.close()
        r = self.tlc(spec, env=dict(env or {}, YCASES=f.name))
        os.unlink(f.name)
        res = {}
        # long values are wrapped by TLC
        for m in re.finditer(r'<<\s*"RES",\s*(\d+),\s*<<([^<>]*)>>,\s*(-?\d+),\s*(-?\d+),\s*(TRUE|FALSE)\s*>>', r.out):
            res[int(m.group(1))] = (re.findall(r'"([^"]*)"', m.group(2)), int(m.group(3)), int(m.group(4)), m.group(5) == 'TRUE')
        if len(res) < len(part):
            if len(part) == 1:
                if 'evaluating' in r.out or 'Error' in r.out:
                    log = r.out[-1500:]
                    return [(json.loads(part[0]), ['not a behaviour the specification can describe'], log)]
                raise Broken('TLC failed:\n' + r.out[-3000:])
            if len(part) > 64 and not res and 'Parsing or semantic analysis failed' in r.out: raise Broken(r.out[-3000:])
            # an observation outside of the vocabulary of the specification: find it
            out, judged = [], []
            todo = [l for k, l in enumerate(part) if k + 1 not in res]
            rest = [(k, l) for k, l in enumerate(part) if k + 1 in res]
            for k, l in rest:
                if res[k + 1][0]: out.append((json.loads(l), res[k + 1][0], ''))
            self.account(rest, res, r)
            if len(todo) > 1:
                h = (len(todo) + 1) // 2
                out += self.judge_lines(todo[:h], spec, env)
                if not out: out += self.judge_lines(todo[h:], spec, env)
            else:
                out += self.judge_lines(todo, spec, env)
            return out
        self.account(list(enumerate(part)), res, r)
        return [(json.loads(part[k - 1]), v[0], '') for k, v in sorted(res.items()) if v[0]]

    def account(self, rest, res, r):
        self.states += r.distinct
        self.transitions += r.states - r.distinct if r.states >= r.distinct else 0
        self.transitions += 0
        for k, l in rest:
            self.traces += 1
            v = res[k + 1]
            if v[1] > 0: self.nontrivial += 1
            if len(self.samples) < 3 and v[1] > 0 and not v[0] and len(l) < 6000:
                self.samples.append(sample_of(json.loads(l), v))

    def model(self, spec, cfg=None, expect_ok=True, timeout=600, args=(), env=None):
        """model checking of a design module (does not involve the code)"""
        r = self.tlc(spec, cfg, timeout=timeout, args=args, env=env)
        if r.ok != expect_ok: raise Broken('model %s: %s' % (spec, r.out[-3000:]))
        self.states += r.distinct
        self.transitions += r.states
        self.note('model %s%s: %d distinct states, %d transitions' % (spec, '/' + cfg if cfg else '', r.distinct, r.states))
        return r

    def note(self, s): self.parts.append(s)

    def violation(self, what, obj):
        self.bad.append((what, obj))

    # ---- random conformance
    def conform(self, fams, chk, q, t, spec='Conform', fn='conform.random_cases', salt=0, extra=None, env=None):
        n = self.n(q, t)
        per = max(1, n // (NPROC * (1 if self.quick() else 4)))
        jobs = []
        for k in range(max(1, n // per)):
            jobs.append(dict(fn=fn, fams=fams, chk=chk, n=per, base=k * per, seed=SEED * 100003 + k * 1009 + salt * 7919 + crc(self.prop), budget=60 if self.quick() else 300))
            jobs[-1].update(extra or {})
        done = self.workers(jobs)
        paths = self.collect(done)
        b = self.judge(paths, spec, env=env)
        self.report(b, chk)
        tot = {}
        for _, _, _, st in done:
            for k, v in st.items():
                if isinstance(v, int): tot[k] = tot.get(k, 0) + v
        self.note('random %s: %s' % (','.join('%s' % f for f, _ in fams), tot))

    def replay(self, jobs, spec, what, env=None, chunk=5000, tlcenv=None):
        """run worker jobs, have TLC judge what they recorded"""
        done = self.workers(jobs, env=env)
        b = self.judge(self.collect(done), spec, chunk=chunk, env=tlcenv)
        self.report(b)
        tot = {}
        for _, _, _, st in done:
            for k, v in st.items():
                if isinstance(v, int): tot[k] = tot.get(k, 0) + v
        self.note('%s: %s' % (what, tot))

    def histories(self, spec, cfg, want, simulate=None, timeout=300):
        """behaviours of a generator specification, printed by TLC as JSON"""
        import random
        args = ['-simulate', 'num=%d' % simulate[0], '-depth', str(simulate[1]), '-seed', str(SEED)] if simulate else []
        r = self.tlc(spec, cfg, args=args, timeout=timeout)
        if not r.ok and not simulate or 'Error' in r.out: raise Broken('%s: %s' % (spec, r.out[-2000:]))
        hs = sorted({json.dumps(json.loads(json.loads('"' + h + '"')), sort_keys=True) for h in re.findall(r'"HIST (.*)"', r.out)})
        self.states += r.distinct; self.transitions += r.states
        total = len(hs)
        random.Random(SEED).shuffle(hs)
        hs = hs[:want]
        self.note('%s: %d behaviours generated by TLC%s, %d taken' % (cfg, total, '' if simulate else ' (all of that depth)', len(hs)))
        return [json.loads(h) for h in hs]

    def sessions(self, fams, chk, q, t):
        hs = self.histories('SessGen', 'SessGen', self.n(*q[:1], *t[:1]))
        hs += self.histories('SessGen', 'SessLong', self.n(q[1], t[1]), simulate=(max(40, self.n(q[1], t[1]) // 8), 16))
        f = self.file('hists.json', hs)
        self.replay(self.spread('session.run', 1, 1, fams=fams, chk=chk, hists=f), 'SessTrace', 'sessions replayed', chunk=2500)

    def processes(self, fn, seeds, variants, **kw):
        """the same job in processes that differ; one observation per piece of work, with what each reported"""
        jobs = [dict(kw, fn=fn, seed=s, variant=v, group=g, env=dict(PYTHONHASHSEED=str(v * 7919 % 4294967), **({'PYTHONMALLOC': 'malloc'} if v % 3 == 2 else {})))
                for g, s in enumerate(seeds) for v in range(variants)]
        done = self.workers(jobs)
        groups = {}
        for j, p, err, st in done:
            if p is None: self.collect([(j, p, err, st)]); continue
            groups.setdefault(j['group'], []).append((j['variant'], [json.loads(l) for l in open(p)]))
        f = os.path.join(self.tmp, 'same_%s.ndjson' % crc(fn))
        n = 0
        with open(f, 'w') as out:
            for g, rs in sorted(groups.items()):
                rs = [r for _, r in sorted(rs, key=lambda x: x[0])]
                for k in range(len(rs[0])):
                    out.write(json.dumps(dict(fam=rs[0][k]['fam'], group=g, k=k, outs=[r[k]['out'] for r in rs])) + '\n'); n += 1
        self.report(self.judge([f], 'SameTrace', chunk=1500))
        self.note('%d programs, each in %d processes' % (n, variants))

    def file(self, name, obj):
        f = os.path.join(self.tmp, name)
        json.dump(obj, open(f, 'w'))
        return f

    def shared(self, fn, **kw):
        """a file made by a worker that observations refer to"""
        d = self.workers([dict(kw, fn=fn, seed=SEED)])
        if d[0][1] is None: raise Broken(d[0][2])
        return d[0][1]

    def spread(self, fn, q, t, **kw):
        """worker jobs that share n pieces of work"""
        n = self.n(q, t)
        k = NPROC * (1 if self.quick() else 3)
        return [dict(kw, fn=fn, n=max(1, n // k), base=i * max(1, n // k), part=i, parts=k,
                     seed=SEED * 100003 + i * 1009 + crc(self.prop + fn)) for i in range(k)]

    def collect(self, done):
        paths = []
        for j, p, err, st in done:
            if p is None:
                if 'ImportError' in err or 'SyntaxError' in err or 'ModuleNotFoundError' in err:
                    raise Broken('worker failed: ' + err)
                # the code under test took the interpreter down (or hung in an uninterruptible place)
                self.violation('worker ended abnormally: ' + err[-300:], dict(job=j, err=err))
            else: paths.append(p)
        return paths

    def report(self, bad, chk=None):
        for o, clauses, log in bad:
            what = '%s: %s' % (o.get('fam', o.get('kind', '')), ', '.join(clauses))
            if o.get('obs', {}) and isinstance(o.get('obs'), dict) and o['obs'].get('err'): what += ' (%s)' % o['obs']['err']
            self.violation(what, dict(case=o, clauses=clauses, log=log, key=[o['key'], clauses] if 'key' in o else None))

    # ---- end
    def finish(self):
        shutil.rmtree(self.tmp, ignore_errors=True)
        fresh = []
        for what, obj in self.bad:
            k = matching(self.findings, obj)
            if k: self.known.append(k)
            else: fresh.append((what, obj))
        for k in sorted({f['id'] + ' ' + f['what'] for f in self.known}):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        path = None
        if fresh:
            fresh.sort(key=lambda x: len(json.dumps(x[1])))
            d = os.path.join(VERIF, 'replays'); os.makedirs(d, exist_ok=True)
            what, obj = fresh[0]
            obj = dict(obj, property=self.prop, what=what, tier=self.tier, seed=SEED)
            s = json.dumps(obj, ensure_ascii=False, indent=1)
            path = os.path.join(d, '%s-%s.json' % (self.prop, hashlib.sha1(s.encode()).hexdigest()[:10]))
            open(path, 'w').write(s)
            for w, _ in fresh[:10]: print('  ' + w[:300])
        meta = LEVELS[self.prop]
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples or ['none'], evaluations=self.traces, distinct_nontrivial=self.nontrivial,
                   rule='an observation of the real code judged by TLC; non-trivial: the specification expects at least one reported item',
                   parts=self.parts)
        ev = dict(property=self.prop, tier=self.tier, seed=SEED, level=meta['level'], coverage=cov,
                  assumptions=meta['assumptions'], wall_s=round(time.time() - self.t0, 2), violations=len(fresh))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f: json.dump(ev, f, ensure_ascii=False, indent=1)
        for p in self.parts: print('  ' + p)
        print('%s %s: %d observations of the code judged (%d non-trivial), %d model states, %.1f s' % (
            self.prop, self.tier, self.traces, self.nontrivial, self.states, time.time() - self.t0))
        if fresh:
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        return 0


def crc(s): return int(hashlib.sha1(s.encode()).hexdigest()[:6], 16)


def sample_of(o, v):
    s = json.dumps({k: o[k] for k in o if k not in ('T', 'chk', 'nf', 'lex', 'CL')}, ensure_ascii=False)
    return dict(observation=s[:1800], expected_runs=v[1], expected_items=v[2], verdict='accepted')


def load_findings(prop):
    p = os.path.join(VERIF, 'known-findings.jsonl')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('property') == prop and d.get('status') == 'known': out.append(d)
    return out


def matching(findings, obj):
    for f in findings:
        if obj.get('key') and f.get('match') and json.dumps(obj.get('key')) == json.dumps(f['match']): return f
    return None


def main():
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.path.insert(0, HERE)
    import props
    c = Check(prop, tier)
    try:
        props.CHECKS[prop](c)
        rc = c.finish()
    except Broken as e:
        shutil.rmtree(c.tmp, ignore_errors=True)
        print('BROKEN ' + str(e))
        rc = 2
    except Exception:
        import traceback
        shutil.rmtree(c.tmp, ignore_errors=True)
        traceback.print_exc()
        print('BROKEN')
        rc = 2
    except BaseException:
        shutil.rmtree(c.tmp, ignore_errors=True)
        raise
    sys.exit(rc)


from levels import LEVELS

if __name__ == '__main__':
    main()
