#!/usr/bin/env python3
"""check.py <property>: decides one property of go-iproto for the current tree of /repo.

1. builds the harness against the current tree, with scheduling points added by an overlay;
2. lets it run the real code (scenarios of the property, schedules explored by pauses);
3. lets TLC check the design models of the property exhaustively, meanwhile;
4. lets TLC decide whether every recorded trace is a behaviour of the specification;
5. writes evidence/<property>.json, prints VIOLATION lines, exits 0 or 1 (2: the check itself failed).
"""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from props import PROPS
REPO = os.environ.get('VERIF_REPO', '/repo')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = os.cpu_count() or 8

class CheckError(Exception):
    pass

def go_env():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', HOME=e.get('HOME', '/root'))
    e.setdefault('GOCACHE', '/root/.cache/go-build')
    return e

def run(cmd, cwd=None, env=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout

def build(work, dirs):
    env = go_env()
    ov = os.path.join(work, 'ov')
    os.makedirs(ov)
    rc, out = run(['go', 'build', '-o', os.path.join(work, 'instr'), '.'], cwd=os.path.join(V, 'tools/instr'), env=env)
    if rc:
        raise CheckError('instrumenter does not build:\n' + out)
    mod = open(os.path.join(V, 'harness/go.mod')).read().replace('=> /repo', '=> ' + REPO)
    open(os.path.join(work, 'go.mod'), 'w').write(mod)
    open(os.path.join(work, 'go.sum'), 'w').close()
    notes = []
    for extra in ([], ['-plain']):
        rc, out = run([os.path.join(work, 'instr'), '-repo', REPO, '-out', ov, '-dirs', dirs,
                       '-sched', os.path.join(V, 'tools/instr/sched.go.txt')] + extra)
        if rc == 0:
            rc, out = run(['go', 'build', '-modfile', os.path.join(work, 'go.mod'), '-overlay', os.path.join(ov, 'overlay.json'),
                           '-o', os.path.join(work, 'drv'), '.'], cwd=os.path.join(V, 'harness'), env=env)
        if rc == 0:
            return notes
        notes.append('build %s failed: %s' % (extra, out[-2000:]))
    raise CheckError('the harness does not build against %s:\n%s' % (REPO, '\n'.join(notes)))

def tlc(work, name, module, cfg, workers=1, env=None, extra=(), timeout=800, mem='1400m'):
    """runs TLC; gives (return code, output, seconds)"""
    meta = os.path.join(work, 'meta-' + name)
    cfgf = os.path.join(work, name + '.cfg')
    open(cfgf, 'w').write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-Xmx' + mem, '-Xss32m', '-cp', JAR, '-Djava.io.tmpdir=' + work,
           '-DTLA-Library=' + os.path.join(V, 'spec'), 'tlc2.TLC', '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE',
           '-config', cfgf] + list(extra) + [os.path.join(V, 'spec', module + '.tla')]
    t = time.time()
    try:
        rc, out = run(cmd, cwd=work, env=e, timeout=timeout)
    except subprocess.TimeoutExpired:
        rc, out = 99, 'timeout'
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out, time.time() - t

def stats(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

def design(work, d, tier):
    cfg = d['cfg']
    consts = dict(d.get('quick', {}))
    if tier == 'thorough':
        consts.update(d.get('thorough', {}))
    text = 'CONSTANTS ' + ' '.join('%s = %s' % kv for kv in consts.items()) + '\n' + cfg if consts else cfg
    rc, out, dur = tlc(work, 'design-' + d['name'], d['module'], text, workers=d.get('workers', 3), extra=d.get('args', []),
                       timeout=d.get('timeout', 800), mem='6g')
    gen, dist = stats(out)
    return dict(name=d['name'], module=d['module'], constants=consts, rc=rc, states=dist, transitions=gen, wall_s=round(dur, 1),
                tail=out[-3000:] if rc else '')

def validate(work, spec, prop, tier, cfg_extra):
    """TLC decides which traces are behaviours of the specification."""
    tf = os.path.join(work, spec + '.traces')
    lines = open(tf).read().splitlines()
    # spread the work evenly
    nchunk = max(1, min(NCPU, (len(lines) + 19) // 20))
    chunks, load = [[] for _ in range(nchunk)], [0] * nchunk
    for k in sorted(range(len(lines)), key=lambda k: (-len(lines[k]), k)):
        c = load.index(min(load))
        chunks[c].append(k)
        load[c] += len(lines[k]) ** 1.5
    chunks = [sorted(c) for c in chunks]
    cfg = 'SPECIFICATION Spec\nCONSTRAINT Progress\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\nCONSTANT PROP = "%s"\n%s\n' % (prop, cfg_extra)
    bad, gen, dist = [], 0, 0
    singles = []
    def one(tag, idx):
        if len(singles) >= 6:
            return [], 0, 0
        f = os.path.join(work, '%s-%s.chunk' % (spec, tag))
        with open(f, 'w') as o:
            for k in idx:
                o.write(lines[k] + '\n')
        rc, out, dur = tlc(work, '%s-%s' % (spec, tag), spec, cfg, env={'TRACES': f})
        m = re.search(r'<<"TRACES", (\d+)', out)
        g, d = stats(out)
        if rc == 0 and m and int(m.group(1)) == len(idx):
            rej = [(idx[int(a) - 1], int(b)) for a, b in re.findall(r'<<"REJECTED", (\d+), (\d+)>>', out)]
            return rej, g, d
        if rc in (99, 137, -9) or 'OutOfMemory' in out or 'StackOverflow' in out:
            raise CheckError('TLC on %s: %s' % (spec, out[-1500:]))
        if 'not completely specified' in out or 'Parsing or semantic' in out or 'Unknown operator' in out:
            raise CheckError('TLC on %s: %s' % (spec, out[-3000:]))
        if len(idx) == 1:
            # the specification cannot even evaluate this trace
            singles.append(idx[0])
            return [(idx[0], -1)], g, d
        h = len(idx) // 2
        if not re.search(r'Error|exception', out):
            raise CheckError('TLC on %s: %s' % (spec, out[-1500:]))
        if os.environ.get('VERIF_DEBUG'):
            print(out[-3000:])
        a, b = one(tag + 'a', idx[:h]), one(tag + 'b', idx[h:])
        return a[0] + b[0], a[1] + b[1], a[2] + b[2]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for rej, g, d in ex.map(lambda kv: one(str(kv[0]), kv[1]), enumerate(chunks)):
            bad += rej
            gen += g
            dist += d
    return lines, sorted(bad), gen, dist

def known():
    """histories listed as known findings: property -> list of signatures"""
    res = []
    f = os.path.join(V, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'finding: property=(\S+) signature=(\S+) (.*)', l.strip())
            if m:
                res.append(m.groups())
    return res

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    conf = PROPS[prop]
    t0 = time.time()
    base = os.environ.get('VERIF_TMP')
    work = tempfile.mkdtemp(prefix='verif-%s-' % prop, dir=base)
    evdir = os.path.join(V, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    try:
        notes = build(work, conf.get('dirs', '.,net,net/client,net/client/connection,net/server'))
        tb = time.time()
        with cf.ThreadPoolExecutor(8) as ex:
            # design models first take the processors, the driver mostly sleeps
            ds = [ex.submit(design, work, d, tier) for d in conf.get('design', []) if tier == 'thorough' or not d.get('thorough_only')]
            budget = conf.get('budget', {}).get(tier, 8 if tier == 'quick' else 180)
            cmd = [os.path.join(work, 'drv'), '-prop', prop, '-seed', str(seed), '-tier', tier, '-budget', '%ds' % budget,
                   '-dir', work, '-sites', os.path.join(work, 'ov', 'sites.json'), '-workers', str(conf.get('workers', 16)), '-max', str(conf.get('max', {}).get(tier, 16000 if tier == 'quick' else 100000))]
            env = dict(os.environ)
            env['TMPDIR'] = work
            try:
                rc, out = run(cmd, cwd=work, env=env, timeout=budget + 400)
            except subprocess.TimeoutExpired:
                raise CheckError('driver did not finish')
            if rc:
                raise CheckError('driver failed (%d): %s' % (rc, out[-3000:]))
            dres = [d.result() for d in ds]
        td = time.time()
        summ = json.load(open(os.path.join(work, 'sum.json')))
        for d in dres:
            if d['rc'] != 0:
                raise CheckError('design model %s fails:\n%s' % (d['name'], d['tail']))
        fatal = [e for e in summ.get('errors') or [] if not e.startswith('crash')]
        viol, samples, ntr, gen, dist = [], [], 0, sum(d['transitions'] for d in dres), sum(d['states'] for d in dres)
        tgen = tdist = 0
        knownf = known()
        said = set()
        perspec = {}
        for spec in sorted(summ['specs']):
            lines, bad, g, d = validate(work, spec, prop, tier, conf.get('cfg', {}).get(spec, ''))
            jobs = open(os.path.join(work, spec + '.jobs')).read().splitlines()
            ntr += len(lines) - len(bad)
            tgen += g
            tdist += d
            perspec[spec] = dict(traces=len(lines), rejected=len(bad), states=d)
            for k in (0, len(lines) // 2):
                s = json.loads(lines[k])['ev']
                samples.append(dict(spec=spec, job=json.loads(jobs[k]), events=s[:12], of=len(s)))
            for k, at in bad:
                ev = json.loads(lines[k])['ev']
                sig = signature(spec, ev, at)
                kf = [x for x in knownf if x[0] == prop and x[1] == sig]
                if kf:
                    if sig not in said:
                        said.add(sig)
                        print('KNOWN-FINDING: property=%s %s' % (prop, kf[0][2]))
                    continue
                viol.append(dict(property=prop, spec=spec, job=json.loads(jobs[k]), unexplained_event=at, signature=sig,
                                 event=ev[at - 1] if 0 < at <= len(ev) else None, events=ev))
        if ntr + len(viol) == 0:
            raise CheckError('no traces: %s' % summ)
        if fatal and not viol:
            raise CheckError('workers died: %s' % fatal[:2])
        paths = []
        for n, v in enumerate(viol[:5]):
            p = os.path.join(evdir, 'replay-%s-%d.json' % (prop, n))
            json.dump(v, open(p, 'w'))
            paths.append(p)
        cov = dict(states=dist + tdist, transitions=gen + tgen, traces_validated_against_impl=ntr, samples=samples[:4],
                   evaluations=summ['runs'], events=summ['events'], distinct_nontrivial=summ['traces'],
                   rule='runs of the real code under explored schedules and generated inputs; distinct event sequences are validated by TLC',
                   scheduling_points_hit=summ['sites'], single_pauses_left=summ['unexplored'], runs_per_scenario=summ['scenarios'],
                   counters=summ['note'], per_trace_spec=perspec,
                   design_models=[{k: v for k, v in d.items() if k != 'tail'} for d in dres],
                   seconds=dict(build=round(tb - t0, 1), explore=round(td - tb, 1), validate=round(time.time() - td, 1)))
        if notes:
            cov['build_notes'] = notes
        ev = dict(property=prop, tier=tier, seed=seed, level=conf.get('level', 'model_checking'), coverage=cov,
                  assumptions=conf.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(viol))
        json.dump(ev, open(os.path.join(evdir, prop + '.json'), 'w'), indent=1)
        for v, p in list(zip(viol, paths))[:1]:
            print('VIOLATION property=%s replay=%s' % (prop, p))
            print('  %d of %d traces are no behaviour of %s; first: %s, event %d: %s' % (
                len(viol), ntr + len(viol), v['spec'], json.dumps(v['job']), v['unexplained_event'], json.dumps(v['event'])[:600]))
            for e in (summ.get('errors') or [])[:1]:
                print('  ' + e[:1500])
        if not viol:
            print('OK property=%s: %d traces of %d runs (%d events) are behaviours of %s; design models: %s; %.1f s' % (
                prop, ntr, summ['runs'], summ['events'], ', '.join(sorted(summ['specs'])),
                ', '.join('%s %d states' % (d['name'], d['states']) for d in dres) or 'none', time.time() - t0))
        return 1 if viol else 0
    except CheckError as e:
        print('CHECK ERROR property=%s: %s' % (prop, e))
        return 2
    finally:
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(work, ignore_errors=True)
        else:
            print('kept', work)

def signature(spec, ev, at):
    e = ev[at - 1] if 0 < at <= len(ev) else {}
    return '%s:%s:%s' % (spec, e.get('e', '-'), e.get('sig', e.get('what', '-')))

if __name__ == '__main__':
    sys.exit(main())
