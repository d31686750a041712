#!/usr/bin/env python3
"""Checks one property of smiz/adevs:  check.py PROPERTY [quick|thorough]

For each property this runs (1) TLC on small exhaustive configurations of the
specification and (2) harnesses that drive the code of /repo and record what it
does, and TLC on these recordings with the trace specification.  See DESIGN.md.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, fcntl

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(HERE, 'spec')
HARN = os.path.join(HERE, 'harness')
BUILD = os.path.join(HERE, 'build')
EVID = os.path.join(HERE, 'evidence')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
sys.path.insert(0, os.path.join(HERE, 'tools'))
import registry

class ToolError(Exception):
    pass

def sh(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=cwd,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        return None, out.decode(errors='replace')
    return p.returncode, out.decode(errors='replace')

# ---------------------------------------------------------------- building
def sources_hash(extra):
    h = hashlib.sha256()
    files = sorted(glob.glob(REPO + '/include/**/*.h', recursive=True) + glob.glob(REPO + '/src/*.cpp')
                   + glob.glob(HARN + '/**/*', recursive=True))
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode() + b'\0')
            h.update(open(f, 'rb').read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]

def build(name):
    """Compile one harness variant from /repo's working tree; returns its path."""
    src, flags = registry.binary(name)
    os.makedirs(BUILD, exist_ok=True)
    cmd = ['g++', '-std=c++17', '-O1', '-g', '-fno-omit-frame-pointer', '-w'] + registry.san(name) + \
          ['-I' + HARN, '-I' + REPO + '/include'] + flags + \
          [os.path.join(HARN, src), REPO + '/src/adevs.cpp'] + registry.libs(name)
    tag = sources_hash(cmd)
    safe = re.sub(r'[^A-Za-z0-9]+', '_', name)
    out = os.path.join(BUILD, safe + '-' + tag)
    with open(os.path.join(BUILD, safe + '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        for old in glob.glob(os.path.join(BUILD, safe + '-*')):
            os.remove(old)
        tmp = out + '.tmp'
        rc, text = sh(cmd + ['-o', tmp], 600)
        if rc != 0:
            raise ToolError('cannot build %s:\n%s' % (name, text[-4000:]))
        os.rename(tmp, out)
    return out

# ---------------------------------------------------------------- TLC
def tlc(module, cfg, env=None, workers='1', heap='3g', timeout=3000, extra=()):
    meta = tempfile.mkdtemp(prefix='tlc', dir=scratch())
    cmd = ['java', '-XX:+UseParallelGC' if workers != '1' else '-XX:+UseSerialGC', '-Xmx' + heap, '-Xss64m', '-Djava.io.tmpdir=' + meta, '-cp', CP,
           'tlc2.TLC', '-noGenerateSpecTE', '-workers', workers, '-metadir', meta, '-config', cfg] + list(extra) + [module]
    rc, out = sh(cmd, timeout, env, SPEC)
    shutil.rmtree(meta, ignore_errors=True)
    if rc is None:
        raise ToolError('TLC timed out on %s %s' % (module, cfg))
    return rc, out

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='adevs-verif-')
    return _scratch

def counts(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct', out.replace(',', ',').replace(' states generated,', ' states generated,'))
    if not m:
        return 0, 0
    return int(m[-1][0]), int(m[-1][1])

VIOL = re.compile(r'<<"VIOLATED", (\d+), \{(.*?)\}, "(\w+)">>', re.S)

def generate(gen):
    """Let TLC explore a configuration whose behaviours are printed as scripts.  Returns a record with the
    path of the file of scripts; the file is kept for as long as the specification does not change."""
    module, cfg, limit = gen
    h = hashlib.sha256()
    for f in sorted(glob.glob(SPEC + '/*.tla')) + [os.path.join(SPEC, cfg)]:
        h.update(os.path.basename(f).encode() + b'\0' + open(f, 'rb').read())
    base = os.path.join(BUILD, 'gen-' + cfg[:-4])
    out = '%s-%s' % (base, h.hexdigest()[:16])
    os.makedirs(BUILD, exist_ok=True)
    with open(base + '.lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(out + '.json'):
            for old in glob.glob(base + '-*'):
                os.remove(old)
            rc, text = tlc(module, cfg, workers='4', heap='6g')
            if rc != 0 or 'No error has been found' not in text:
                raise ToolError('the specification itself fails %s %s:\n%s' % (module, cfg, text[-4000:]))
            scripts = sorted(set(re.findall(r'SCRIPT (.*?)"?$', text, re.M)))
            # Neighbours are similar: spread them evenly
            scripts.sort(key=lambda x: hashlib.md5(x.encode()).digest())
            with open(out + '.txt', 'w') as f:
                f.write('\n'.join(scripts) + '\n')
            states, distinct = counts(text)
            with open(out + '.json', 'w') as f:
                json.dump(dict(scripts=len(scripts), transitions=states, states=distinct), f)
    r = json.load(open(out + '.json'))
    r.update(path=out + '.txt', module=module, cfg=cfg)
    if limit:
        r['scripts'] = min(limit, r['scripts'])
    return r

def judge(spec, path, lines, res, job, tries=6):
    """Broken rules of a recording: line -> (rules, kind of event).  An event that the specification cannot even be
    evaluated for, such as a call with something that does not exist, breaks the rule "malformed"; its scenario is then
    taken out and the rest is judged."""
    viol, at = {}, 1
    starts = [i for i, line in enumerate(lines, 1) if line.startswith('{"e":"Reset"')] + [len(lines) + 1]
    for attempt in range(tries):
        keep = [i for i, line in enumerate(lines, 1) if line and i >= at]
        p = path
        if at > 1:
            p = path + '.rest'
            with open(p, 'w') as f:
                f.write(''.join(lines[i - 1] + '\n' for i in keep))
        rc, out = tlc(spec + '.tla', spec + '.cfg', {'TRACE': p})
        for a, b, c in VIOL.findall(out):
            viol[keep[int(a) - 1]] = (sorted(x.strip().strip('"') for x in b.split(',')), c)
        done = re.findall(r'<<"COMPLETE", (\d+), (\d+)>>', out)
        gen, dist = counts(out)
        res['states'] += dist
        res['transitions'] += gen - 1
        if rc == 0 and done and int(done[-1][0]) == len(keep):
            return viol
        last = re.findall(r'^/\\ l = (\d+)', out, re.M)
        if not last or 'OutOfMemory' in out or int(last[-1]) > len(keep) or \
                not ('TLC threw an unexpected exception' in out or 'Error: Evaluating' in out or 'StackOverflow' in out):
            raise ToolError('TLC failed on a recording of %s (%s lines, rc %s):\n%s' % (job, len(keep), rc, out[-4000:]))
        bad = keep[int(last[-1]) - 1]
        kind = lines[bad - 1][6:lines[bad - 1].index('"', 6)]
        if kind == 'Reset':
            raise ToolError('TLC cannot evaluate the beginning of a scenario in %s:\n%s' % (job, out[-4000:]))
        viol.setdefault(bad, (['malformed'], kind))
        # Go on with the next scenario
        at = min(i for i in starts if i > bad)
        if at > len(lines):
            break
    return viol

def launch(binary, _known={}):
    """How to start a harness: ThreadSanitizer may need a fixed layout of memory"""
    if 'tsan' not in os.path.basename(binary).split('-')[0]:
        return [binary]
    if binary not in _known:
        for how in ([binary], ['setarch', '-R', binary]):
            if sh(how + ['worlds', '1', '0', '0', '/dev/null'], 60)[0] == 0:
                break
        _known[binary] = how
    return _known[binary]

def run_trace(job, binary, tier, seed, lo, hi, keep=None):
    """Record scenarios lo..hi-1 and check them.  Returns a result record."""
    path = keep or os.path.join(scratch(), 'trace-%s.ndjson' % hashlib.md5(repr((job, seed, lo, hi, time.time())).encode()).hexdigest())
    env = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0',
           'UBSAN_OPTIONS': 'halt_on_error=1:print_stacktrace=0'}
    env['TSAN_OPTIONS'] = 'halt_on_error=1:report_signal_unsafe=0'
    env.update(job.get('env', {}))
    rc, text = sh(launch(binary) + [job['prof'], str(seed), str(lo), str(hi), path], 600, env)
    if rc != 0:
        raise ToolError('harness %s failed (%s): %s' % (job, rc, text[-2000:]))
    spec = job.get('spec', 'DevsTrace')
    res = dict(job=job, lo=lo, hi=hi, events=0, states=0, transitions=0, scenarios=0, violations=[], kinds={})
    lines = open(path).read().split('\n')
    viol = judge(spec, path, lines, res, job)
    scn, start = None, 0
    for i, line in enumerate(lines, 1):
        if not line:
            continue
        res['events'] += 1
        k = line[6:line.index('"', 6)]
        res['kinds'][k] = res['kinds'].get(k, 0) + 1
        if k == 'Reset':
            scn, start = json.loads(line).get('n'), i
            res['scenarios'] += 1
        if i in viol:
            labels, kind = viol[i]
            if 'pre' in labels:
                if any(v['scn'] == scn for v in res['violations']):
                    # The user was misled by what was wrong before
                    continue
                raise ToolError('the harness made an illegal request in %s scenario %s line %d: %s' % (job, scn, i, line[:300]))
            res['violations'].append(dict(scn=scn, line=i, labels=labels, kind=kind, event=line[:2000],
                                          text='\n'.join(lines[start - 1:i])))
    if not keep:
        # A few recorded events as samples
        res['sample'] = [l[:300] for l in lines[:3]]
        os.remove(path)
    return res

def alone(job, binary, tier, seed, scn, v):
    """Does the simulation that broke a rule break it, too, if there is no other?"""
    u = json.loads(v['event']).get('u') if v['kind'] not in ('Crash', 'Hang') else None
    for w in [u] if u else range(1, 5):
        r = run_trace(dict(job, env={'VERIF_ALONE': str(w)}), binary, tier, seed, scn, scn + 1)
        if any(set(x['labels']) & set(v['labels']) for x in r['violations']):
            return True
    return False

# ---------------------------------------------------------------- main
def setup():
    """Compile all harness variants, so that checks on an unchanged tree need not"""
    names = sorted({j['bin'] for p in registry.PROPS.values() for j in p['jobs']('quick')})
    with cf.ThreadPoolExecutor(8) as ex:
        gens = sorted({j['gen'] for p in registry.PROPS.values() for j in p['jobs']('quick') if 'gen' in j})
        todo = [(str(g), ex.submit(generate, g)) for g in gens] + [(n, ex.submit(build, n)) for n in names]
        for n, f in todo:
            f.result()
            print(n)
    return 0

def main():
    if sys.argv[1] == '--setup':
        return setup()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    spec = registry.PROPS[prop]
    labels = set(spec['labels'])
    jobs = spec['jobs'](tier)
    mcs = spec.get('mc', lambda tier: [])(tier)
    names = sorted({j['bin'] for j in jobs})
    os.makedirs(EVID, exist_ok=True)
    with cf.ThreadPoolExecutor(8) as ex:
        bins = dict(zip(names, ex.map(build, names)))
        mcf = []
        for m in mcs:
            mcf.append((m, ex.submit(tlc, m['module'], m['cfg'], m.get('env'), m.get('workers', '2'), m.get('heap', '4g'),
                                     m.get('timeout', 3000), m.get('extra', ()))))
        fut = []
        gens = {j['gen']: ex.submit(generate, j['gen']) for j in jobs if 'gen' in j}
        for j in sorted(jobs, key=lambda j: 'gen' in j):
            parts = j.get('parts', 1)
            if 'gen' in j:
                g = gens[j['gen']].result()
                size = -(-g['scripts'] // parts)
                j = dict(j, env={'VERIF_SCRIPT': g['path']})
                for lo in range(0, g['scripts'], size):
                    fut.append((j, ex.submit(run_trace, j, bins[j['bin']], tier, seed, lo, min(lo + size, g['scripts']))))
                continue
            for k in range(parts):
                lo, hi = j['n'] * k, j['n'] * (k + 1)
                fut.append((j, ex.submit(run_trace, j, bins[j['bin']], tier, seed, lo, hi)))
        results, mcres = [], []
        for m, f in mcf:
            rc, out = f.result()
            if rc != 0 or 'No error has been found' not in out and '-simulate' not in m.get('extra', ()):
                raise ToolError('the specification itself fails %s %s:\n%s' % (m['module'], m['cfg'], out[-4000:]))
            gen, dist = counts(out)
            mcres.append(dict(module=m['module'], cfg=m['cfg'], states=dist, transitions=gen,
                              what=m.get('what', '')))
        for g in gens.values():
            g = g.result()
            mcres.append(dict(module=g['module'], cfg=g['cfg'], states=g['states'], transitions=g['transitions'],
                              scripts=g['scripts'], what='explored completely; its behaviours are run by the code'))
        for j, f in fut:
            results.append(f.result())
        # Which of the rejected recordings break this property?
        found, known = [], []
        for r in results:
            for v in r['violations']:
                if labels & set(v['labels']) and ('after' not in r['job'] or re.search(r['job']['after'], v['text'], re.S)):
                    found.append((r['job'], r['lo'], v))
        confirmed = []
        seen = set()
        for j, lo, v in found:
            key = (j['bin'], j['prof'], tuple(v['labels']), v['kind'])
            if key in seen or len(seen) > 12:
                continue
            keep = os.path.join(scratch(), 'again.ndjson')
            first = v['scn']
            r2 = run_trace(j, bins[j['bin']], tier, seed, first, v['scn'] + 1, keep)
            again = [w for w in r2['violations'] if labels & set(w['labels'])]
            if not again and lo < first:
                # It may depend on what the scenarios before it left in memory
                first = lo
                r2 = run_trace(j, bins[j['bin']], tier, seed, first, v['scn'] + 1, keep)
                again = [w for w in r2['violations'] if labels & set(w['labels'])]
            if not again or j.get('alone') and alone(j, bins[j['bin']], tier, seed, v['scn'], again[0]):
                continue
            seen.add(key)
            rdir = os.path.join(EVID, 'replay')
            os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, '%s-%d.txt' % (prop, len(confirmed) + 1))
            with open(rp, 'w') as f:
                f.write('property %s is violated: rules %s broken by event %s\n' % (prop, ' '.join(again[0]['labels']), again[0]['kind']))
                f.write('repeat: %s %s %d %d %d OUT.ndjson; then TLC on spec/%s with TRACE=OUT.ndjson\n' % (
                    j['bin'], j['prof'], seed, first, v['scn'] + 1, j.get('spec', 'DevsTrace')))
                f.write('events of the scenario up to the rejected one:\n' + again[0]['text'] + '\n')
            confirmed.append(dict(replay=rp, labels=again[0]['labels'], event=again[0]['event'], prof=j['prof'],
                                  binary=j['bin'], scenario=v['scn']))
    kinds = {}
    for r in results:
        for k, c in r['kinds'].items():
            kinds[k] = kinds.get(k, 0) + c
    evidence = dict(
        property=prop, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=sum(r['states'] for r in results) + sum(m['states'] for m in mcres),
            transitions=sum(r['transitions'] for r in results) + sum(m['transitions'] for m in mcres),
            traces_validated_against_impl=sum(r['scenarios'] for r in results),
            recorded_events=sum(r['events'] for r in results),
            recorded_event_kinds=kinds,
            exhaustive_configurations=mcres,
            rules=sorted(labels),
            recordings=[dict(binary=r['job']['bin'], profile=r['job']['prof'], spec=r['job'].get('spec', 'DevsTrace'),
                             scenarios=r['scenarios'], events=r['events']) for r in results],
            samples=[s for r in results[:3] for s in r.get('sample', [])][:9]),
        wall_s=round(time.time() - t0, 2),
        violations=[dict(replay=os.path.relpath(c['replay'], HERE), labels=c['labels'], event=c['event'][:500]) for c in confirmed],
        assumptions=spec.get('assumes', registry.ASSUMES))
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    other = sorted({x for r in results for v in r['violations'] for x in v['labels']} - labels)
    print('%s %s: %d recorded executions, %d events, %d states; exhaustive: %s; %.1f s' % (
        prop, tier, evidence['coverage']['traces_validated_against_impl'], evidence['coverage']['recorded_events'],
        evidence['coverage']['states'],
        ', '.join('%s %d states' % (m['cfg'], m['states']) for m in mcres) or 'none', time.time() - t0))
    if other:
        print('note: recordings also break rules of other properties: ' + ' '.join(other))
    for c in confirmed:
        print('VIOLATION property=%s replay=%s rules=%s profile=%s/%s' % (prop, c['replay'], ','.join(c['labels']), c['binary'], c['prof']))
    return 1 if confirmed else 0

if __name__ == '__main__':
    try:
        rc = main()
    except ToolError as e:
        print('ERROR: %s' % e)
        rc = 2
    finally:
        if _scratch:
            shutil.rmtree(_scratch, ignore_errors=True)
    sys.exit(rc)
