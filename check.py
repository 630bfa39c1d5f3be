#!/usr/bin/env python3
"""Decides one property of /repo: check.py C01 [--tier quick|thorough] [--replay FILE]

Builds the exploration harness against /repo's working tree in a scratch
directory, runs it as several shard processes, confirms what they report and
writes evidence/<id>.json.
"""
import argparse, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
NPROC = min(8, os.cpu_count() or 8)
RACE = {'C12'}          # also built with the race detector
INSTR = {'C12'}         # explored under the controlled scheduler
TRACED = {'C21'}        # built so that it reports branches taken and indices
LEVEL = {'C10': 'fault_enumeration'}
START = time.time()


def log(*a):
    print(*a, flush=True)


def goenv():
    e = dict(os.environ)
    e.update(HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', GOSUMDB='off',
             GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod')
    e.setdefault('GOCACHE', '/root/.cache/go-build')
    return e


class BuildError(Exception):
    pass


def sources():
    return sorted(p for p in glob.glob(REPO + '/*.go') if not p.endswith('_test.go'))


def prepare(work):
    """Copies the harness and gives it a go.mod that uses /repo."""
    src = os.path.join(work, 'src')
    shutil.copytree(HARNESS, src, ignore=shutil.ignore_patterns('go.mod', 'go.sum', '*_test.go'))
    reqs = re.findall(r'^\s*(?:require\s+)?([a-zA-Z0-9./_-]+\.[a-z]+/[^\s()]+)\s+(v\S+)', open(REPO + '/go.mod').read(), re.M)
    with open(src + '/go.mod', 'w') as f:
        f.write('module verifharness\n\ngo 1.24\n\nrequire github.com/proximax-storage/go-xpx-crypto v0.0.0\n')
        for m, v in reqs:
            f.write('require %s %s\n' % (m, v))
        f.write('replace github.com/proximax-storage/go-xpx-crypto => %s\n' % REPO)
    if os.path.exists(REPO + '/go.sum'):
        shutil.copy(REPO + '/go.sum', src + '/go.sum')
    return src


def gobuild(src, out, overlay, extra=(), pkg='./mc'):
    ov = out + '.overlay.json'
    json.dump({'Replace': overlay}, open(ov, 'w'))
    r = subprocess.run(['go', 'build', '-overlay', ov, '-gcflags=-e', '-o', out, *extra, pkg], cwd=src, env=goenv(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0, r.stdout


def build(work, src, name, extra=(), replace=None, adapters=True):
    """Builds the harness; adapters that do not fit this tree are left out."""
    over = dict(replace or {})
    names = sorted(glob.glob(src + '/adapters/*.go.txt')) if adapters else [src + '/adapters/base.go.txt']
    files = {}
    for p in names:
        files['%s/zz_verif_%s' % (REPO, os.path.basename(p)[:-4])] = p
    g = genglobals(work, src)
    if g:
        files['%s/zz_verif_globals.go' % REPO] = g
    dropped = []
    for _ in range(len(files) + 1):
        ov = dict(over)
        ov.update(files)
        ok, outp = gobuild(src, os.path.join(work, name), ov, extra)
        if ok:
            return os.path.join(work, name), dropped
        bad = {f for f in files for b in (os.path.basename(f), os.path.basename(files[f]))
               if re.search(r'(^|[/\s])' + re.escape(b) + r':\d+', outp, re.M)}
        bad = {f for f in bad if not f.endswith('_base.go')}
        if not bad:
            raise BuildError(outp)
        for f in bad:
            dropped.append(os.path.basename(f)[len('zz_verif_'):-3])
            del files[f]
    raise BuildError(outp)


_tools = {}


def tool(work, src, name):
    if name not in _tools:
        out = os.path.join(work, 'tool_' + name)
        r = subprocess.run(['go', 'build', '-o', out, './tools/' + name], cwd=src, env=goenv(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError(r.stdout)
        _tools[name] = out
    return _tools[name]


def genglobals(work, src):
    """A generated adapter that lists the package-level variables."""
    if not os.path.isdir(src + '/tools/globals'):
        return None
    out = os.path.join(work, 'globals.go.txt')
    r = subprocess.run([tool(work, src, 'globals'), *sources()], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        return None
    open(out, 'w').write(r.stdout)
    return out


class Shard:
    def __init__(self, work, binary, prop, tier, k, n, deadline, args=(), env=None, tag=''):
        self.base = os.path.join(work, 'sh%s_%d' % (tag, k))
        self.k, self.n = k, n
        self.cmd = [binary, '-prop', prop, '-tier', tier, '-shard', str(k), '-nshards', str(n), '-deadline', str(deadline),
                    '-out', self.base + '.json', '-hashes', self.base + '.h', *args]
        self.env = dict(os.environ, GOMAXPROCS='2', GOTRACEBACK='all', GOMEMLIMIT='3GiB')
        self.env.update(env or {})

    def run(self, timeout):
        for x in ('.json', '.h'):
            if os.path.exists(self.base + x):
                os.remove(self.base + x)
        with open(self.base + '.out', 'w') as o, open(self.base + '.err', 'w') as e:
            p = subprocess.Popen(self.cmd, stdout=o, stderr=e, env=self.env, start_new_session=True)
            try:
                self.rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                self.rc = 'timeout'
        self.out = open(self.base + '.out').read()
        self.err = open(self.base + '.err', errors='replace').read()
        self.res = None
        if os.path.exists(self.base + '.json'):
            try:
                self.res = json.load(open(self.base + '.json'))
            except ValueError:
                pass
        return self


def runall(shards, timeout):
    with ThreadPoolExecutor(len(shards)) as ex:
        return list(ex.map(lambda s: s.run(timeout), shards))


def single(work, binary, prop, tier, rep, timeout, env=None):
    """Runs one case again in a fresh process; returns (failed, text)."""
    args = ['-only', '%s#%d' % (rep['section'], rep['index']), '-hang', '45']
    if rep.get('prefix'):
        args.append('-prefix')
    s = Shard(work, binary, prop, tier, rep.get('shard', 0), rep.get('nshards', 1), timeout, args, env, tag='single')
    s.run(timeout + 90)
    if s.rc == 1:
        return True, s.out.strip()
    if s.rc == 4:
        return True, 'the operation does not return (hang)'
    if s.rc == 2 and 'self-check' in s.err:
        return False, s.err
    if s.rc != 0:
        return True, 'the process died: rc=%s\n%s' % (s.rc, s.err[:3000])
    return False, ''


def load_known():
    """known_findings.txt: 'finding: property=<id> key=<key> <text>' lines count; 'fixed:' lines do not."""
    known = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+)\s*(.*)', l)
            if m:
                known[(m.group(1), m.group(2))] = m.group(3).strip()
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--replay')
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    work = tempfile.mkdtemp(prefix='verif_%s_' % a.prop)
    try:
        try:
            rc = check(a, tier, work)
        except BuildError as e:
            log('BUILD FAILED\n' + str(e)[:6000])
            rc = 2
    finally:
        if a.keep:
            log('kept', work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def check(a, tier, work):
    prop = a.prop
    src = prepare(work)
    if prop == 'setup':  # only shows that everything builds
        build(work, src, 'mc')
        instrumented_plans(work, src, tier, [])
        traced_plan(work, src, 'C21', [])
        return 0
    notes, plans, dropped = [], [], []
    if prop in INSTR:
        plans = instrumented_plans(work, src, tier, notes)
    elif prop in TRACED:
        plans, dropped = traced_plan(work, src, prop, notes)
    else:
        binary, dropped = build(work, src, 'mc')
        plans = [dict(name='', binary=binary, prop=prop, env={})]
    if dropped:
        notes.append('adapters that do not fit this tree: ' + ', '.join(sorted(dropped)))
    tbuild = time.time() - START

    if a.replay:
        rep = json.load(open(a.replay))
        pl = next((p for p in plans if p['name'] == rep.get('plan', '')), plans[0])
        bad, text = single(work, pl['binary'], pl['prop'], rep['tier'], rep, 600, pl['env'])
        log(text if bad else 'the case passes')
        if bad:
            log('VIOLATION property=%s replay=%s' % (prop, a.replay))
        return 1 if bad else 0

    budget = 400 if tier == 'quick' else 720
    found, sections, samples = [], {}, []
    trans = traces = states = 0
    exhaustive = True
    for pl in plans:
        left = max(20, budget - (time.time() - START))
        dl = left if pl is plans[-1] else left * pl.get('share', 0.5)
        n = pl.get('nshards', NPROC)
        shards = [Shard(work, pl['binary'], pl['prop'], tier, k, n, dl, pl.get('args', ()), pl['env'], tag=pl['name']) for k in range(n)]
        runall(shards, dl + 200)
        for s in shards:
            if s.rc == 2 and 'self-check' in s.err or s.rc == 2 and 'no check for' in s.err:
                log(s.err)
                return 2
            if s.rc not in (0, 1):
                # one crash or hang that happens again is enough
                v = crashed(work, pl, tier, s, dl, notes) if not any(x.get('confirmed') for x in found) else None
                exhaustive = exhaustive and s.rc == 0
                if v:
                    found.append(v)
            if s.res:
                for v in s.res['violations'] or []:
                    v.update(plan=pl['name'], shard=s.k, nshards=s.n, tier=tier)
                    found.append(v)
                for x in s.res['sections'] or []:
                    d = sections.setdefault((pl['name'] + ':' if pl['name'] else '') + x['name'],
                                            dict(bound=x.get('bound', ''), cases=0, distinct_outcomes=0))
                    d['cases'] += x['cases']
                    d['distinct_outcomes'] = max(d['distinct_outcomes'], x['distinct_outcomes'])
                    if x.get('skipped'):
                        d['skipped'] = x['skipped']
                    if x['capped']:
                        d['capped'] = True
                        exhaustive = False
                trans += s.res['transitions']
                traces += s.res['traces']
                samples += s.res['samples'] or []
                for m in s.res['notes'] or []:
                    if m not in notes:
                        notes.append(m)
            if pl.get('race'):
                v = racereport(s)
                if v:
                    v.update(plan=pl['name'], shard=s.k, nshards=s.n, tier=tier)
                    found.append(v)
        hs = [s.base + '.h' for s in shards if os.path.exists(s.base + '.h')]
        if hs:
            states += int(subprocess.run([pl['binary'], '-merge', *hs], stdout=subprocess.PIPE, text=True).stdout or 0)

    known = load_known()
    findings, violations = {}, []
    for v in found:
        k = (prop, v.get('key') or '')
        if v.get('key') and k in known:
            findings[k] = known[k]
        else:
            violations.append(v)
    rc = 0
    for k, text in sorted(findings.items()):
        log('KNOWN-FINDING: property=%s %s' % (prop, text or k[1]))
    if violations:
        rc = 1
        violations.sort(key=lambda v: (v['section'], v['index']))
        v = violations[0]
        for cand in violations[:3]:
            if confirm(work, plans, prop, cand):
                v = cand
                break
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', '%s_%s.json' % (prop, tier))
        json.dump(dict(v, property=prop), open(path, 'w'), indent=1)
        for x in violations[:6]:
            log('  %s#%s: %s' % (x['section'], x['index'], x['msg']))
        log('confirmation: ' + v.get('confirmed', ''))
        log('VIOLATION property=%s replay=%s' % (prop, path))
    level = LEVEL.get(prop, 'model_checking')
    cov = dict(states=states, transitions=trans, traces_validated_against_impl=traces, samples=samples[:12], exhaustive=exhaustive,
               sections=sections)
    if level == 'fault_enumeration':
        cov.update(evaluations=traces, distinct_nontrivial=states,
                   rule='a case is one operation sequence together with one answer pattern of the random source; distinct and '
                        'non-trivial are those whose visited state (operations, answers given, bytes delivered, results) differs')
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED') or 1), level=level, coverage=cov, wall_s=round(time.time() - START, 2),
              violations=len(violations),
              assumptions=['the reference model (harness/ref) is checked against known answers and algebraic identities at every start',
                           'bounds: see coverage.sections'] + notes)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    for name, d in sections.items():
        log('  %-28s %9d cases %s%s' % (name, d['cases'], 'CAPPED ' if d.get('capped') else '', 'skipped: ' + d['skipped'] if d.get('skipped') else ''))
    for m in notes:
        log('  note: ' + m)
    log('%s %s: %s; %d cases, %d operations, %d states, build %.1f s, total %.1f s' % (
        prop, tier, 'VIOLATED' if rc else 'held', traces, trans, states, tbuild, time.time() - START))
    return rc


def confirm(work, plans, prop, v):
    pl = next(p for p in plans if p['name'] == v['plan'])
    if v.get('confirmed'):
        return True
    if pl.get('race') and v.get('racereport'):
        v['confirmed'] = 'reported by the race detector'
        return True
    for prefix in (False, True):
        for i in range(3):
            bad, _ = single(work, pl['binary'], pl['prop'], v['tier'], dict(v, prefix=prefix), 200, pl['env'])
            if bad:
                v['prefix'] = prefix
                v['confirmed'] = 'reproduced %s in a fresh process' % ('after the cases before it' if prefix else 'alone')
                return True
            if time.time() - START > 500:
                break
    v['confirmed'] = 'seen once, not reproduced in a fresh process'
    return False


def crashed(work, pl, tier, s, dl, notes):
    """A shard that hung or died: find the case and see whether it does so again."""
    if s.rc == 4:
        m = re.search(r'^HANG (.*)#(\d+)', s.out, re.M)
        v = dict(section=m.group(1), index=int(m.group(2)), plan=pl['name'], shard=s.k, nshards=s.n, tier=tier)
        for prefix in (False, True):
            v['prefix'] = prefix
            bad, text = single(work, pl['binary'], pl['prop'], tier, v, dl if prefix else 100, pl['env'])
            if bad:
                v['msg'] = text
                v['confirmed'] = 'reproduced %s in a fresh process' % ('after the cases before it' if prefix else 'alone')
                return v
            if time.time() - START > 450:
                break
        notes.append('a case of %s took very long but returned when run again' % v['section'])
        return None
    if s.rc == 'timeout':
        notes.append('shard %d did not end in time' % s.k)
        return None
    trace = s.base + '.trace'
    t = Shard(work, pl['binary'], pl['prop'], tier, s.k, s.n, dl, list(pl.get('args', ())) + ['-trace', trace], pl['env'], tag=pl['name'])
    first = s.err
    t.run(dl + 200)
    if t.rc in (0, 1):
        s.rc, s.res = t.rc, t.res
        notes.append('a shard process died once and did not when run again: ' + first[:300])
        return None
    last = open(trace).read().strip() if os.path.exists(trace) else ''
    m = re.match(r'(.*)#(\d+)$', last)
    if not m:
        notes.append('a shard process dies at start: ' + t.err[:500])
        return dict(section='start', index=0, msg='the process dies: ' + t.err[:2000], plan=pl['name'], shard=s.k, nshards=s.n, tier=tier)
    return dict(section=m.group(1), index=int(m.group(2)), msg='the process dies (rc=%s): %s' % (t.rc, t.err[:2500]), plan=pl['name'],
                shard=s.k, nshards=s.n, tier=tier)


def racereport(s):
    if 'WARNING: DATA RACE' not in s.err:
        return None
    i = s.err.index('WARNING: DATA RACE')
    return dict(section='race', index=0, racereport=True, msg=s.err[i:i + 2500])


def instrumented_plans(work, src, tier, notes):
    """C12: the instrumented build under the controlled scheduler, and a plain build with the race detector."""
    plans = []
    try:
        out = os.path.join(work, 'instr')
        os.makedirs(out)
        r = subprocess.run([tool(work, src, 'instr'), out, *sources()], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=goenv())
        if r.returncode:
            raise BuildError(r.stderr)
        binary, _ = build(work, src, 'mc_sched', replace={p: os.path.join(out, os.path.basename(p)) for p in sources()})
        plans.append(dict(name='', binary=binary, prop='C12', env={}, share=0.8))
        notes.append('%s scheduling points in the source' % r.stdout.strip())
    except BuildError as e:
        notes.append('the controlled scheduler does not apply to this tree, only the free-running part ran: ' + str(e)[:300])
    binary, _ = build(work, src, 'mc_race', extra=('-race',))
    plans.append(dict(name='race', binary=binary, prop='C12R', env=dict(GORACE='exitcode=0 halt_on_error=0', GOMAXPROCS='4'), race=True))
    return plans


def traced_plan(work, src, prop, notes):
    """C21: the package reports branches taken, indices and entries of functions."""
    try:
        out = os.path.join(work, 'traced')
        os.makedirs(out)
        r = subprocess.run([tool(work, src, 'trace'), out, *sources()], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=goenv())
        if r.returncode:
            raise BuildError(r.stderr)
        binary, dropped = build(work, src, 'mc_trace', replace={p: os.path.join(out, os.path.basename(p)) for p in sources()})
        notes.append('%s points report' % r.stdout.strip())
        return [dict(name='', binary=binary, prop=prop, env=dict(VERIF_TRACE_POINTS=os.path.join(out, 'points.txt')))], dropped
    except BuildError as e:
        notes.append('the package could not be instrumented: ' + str(e)[:600])
    binary, dropped = build(work, src, 'mc')
    return [dict(name='', binary=binary, prop=prop, env={})], dropped


if __name__ == '__main__':
    main()
