#!/usr/bin/env python3
"""Shows that the recordings are bound to the specification: changes one recorded field in each scenario and counts how
often the recording is rejected.   binding.py BIN PROFILE SPEC SCENARIOS [rounds]
Prints one line per kind of event and field:  kind.field  rejected/changed"""
import sys, os, json, random, re, subprocess, tempfile, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H); sys.argv0 = sys.argv[0]
import check

def change(v, rnd):
    if isinstance(v, bool): return not v
    if isinstance(v, int): return v + rnd.choice([-1, 1])
    if isinstance(v, str): return v + '?'
    if isinstance(v, list):
        if not v: return None
        w = list(v); i = rnd.randrange(len(w))
        c = change(w[i], rnd)
        if c is None or rnd.random() < .3: del w[i]
        else: w[i] = c
        return w
    if isinstance(v, dict):
        if not v: return None
        k = rnd.choice(sorted(v)); c = change(v[k], rnd)
        return None if c is None else dict(v, **{k: c})
    return None

def main():
    b, prof, spec, n = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4])
    rounds = int(sys.argv[5]) if len(sys.argv) > 5 else 6
    rnd = random.Random(5)
    d = tempfile.mkdtemp(prefix='bind')
    binp = check.build(b)
    t = d + '/t.nd'
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1')
    subprocess.run([binp, prof, '1', '0', str(n), t], check=True, env=env)
    lines = open(t).read().split('\n')[:-1]
    scn, cur = [], None
    for i, l in enumerate(lines):
        if l.startswith('{"e":"Reset"'):
            cur = []; scn.append(cur)
        else: cur.append(i)
    tot, rej = {}, {}
    for r in range(rounds):
        new, what = list(lines), {}
        for s in scn:
            if not s: continue
            # Kinds that are rare get their share
            kinds = {}
            for i in s: kinds.setdefault(lines[i][6:lines[i].index('"', 6)], []).append(i)
            i = rnd.choice(kinds[rnd.choice(sorted(kinds))])
            ev = json.loads(lines[i]); f = rnd.choice(sorted(ev))
            if f == 'e': continue
            c = change(ev[f], rnd)
            if c is None: continue
            ev[f] = c
            new[i] = json.dumps(ev, separators=(',', ':')); what[i] = '%s.%s' % (ev['e'], f)
        p = d + '/c.nd'
        open(p, 'w').write('\n'.join(new) + '\n')
        res = dict(states=0, transitions=0)
        try:
            viol = judge_all(spec, p, new, res)
        except check.ToolError as e:
            print('tool error', str(e)[-300:]); continue
        bounds = [i for i, l in enumerate(lines) if l.startswith('{"e":"Reset"')] + [len(lines)]
        hit = sorted(v - 1 for v in viol)
        import bisect
        for i, k in what.items():
            tot[k] = tot.get(k, 0) + 1
            e = bounds[bisect.bisect_right(bounds, i)]
            if any(i <= h < e for h in hit): rej[k] = rej.get(k, 0) + 1
    for k in sorted(tot): print('%-20s %d/%d' % (k, rej.get(k, 0), tot[k]))
    print('all %d/%d' % (sum(rej.values()), sum(tot.values())))
    shutil.rmtree(d)

def judge_all(spec, p, lines, res):
    old = check.tlc
    for _ in range(1):
        return check.judge(spec, p, lines, res, dict(prof=p), 300)
main()
