#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE] [--only SCENARIO]
Builds the harness of one property from /repo's working tree, explores, writes evidence/ID.json.
Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken. Anything else: error."""
import sys, os, re, json, subprocess, time, glob, hashlib, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__)); R = os.environ.get('VERIF_REPO', '/repo')
BASE_FLAGS = '-std=c++14 -g1 -O1 -U_FORTIFY_SOURCE -w -fno-omit-frame-pointer'.split()
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all']
LIBSTD = ['-pthread', '-lrt']

def die(msg, code=2):
    print(msg); sys.exit(code)

def parse(path):
    d = {}
    for l in open(path):
        m = re.match(r'//\s*@(\w+):\s*(.*?)\s*$', l)
        if m: d.setdefault(m.group(1), []).append(m.group(2))
        elif not l.startswith('//'): break
    return {k: ' '.join(v) for k, v in d.items()}

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def compile_one(src, obj, flags):
    r = run(['g++'] + flags + ['-c', src, '-o', obj])
    return (src, r.returncode, r.stdout)

def build(pid, bdir, harness, variant=''):
    d = parse(harness)
    incs = ['-I' + R, '-I' + V + '/lib', '-I' + V + '/harness', '-I' + V + '/shim/include'] + ['-I' + p for p in sorted(glob.glob(R + '/ecl_*/include'))] + ['-I/usr/include/eigen3']
    defs = d.get('FLAGS', '').split()
    san = [] if d.get('NOSAN') else list(SAN)
    if d.get('SAN'): san = d['SAN'].split()
    flags = BASE_FLAGS + san + incs + defs + (['-DNDEBUG'] if variant == 'release' else [])
    srcs = []
    for pat in d.get('SOURCES', '').split():
        m = sorted(glob.glob(os.path.join(R, pat)))
        if not m: die('ERROR: no source matches ' + pat)
        srcs += [s for s in m if not re.search(r'(_w32|_win)\.cpp$', s)]
    tsan = d.get('INSTRUMENT', '').split()   # extra flags for /repo sources and harness only
    jobs = []
    for i, s in enumerate(srcs): jobs.append((s, '%s/r%d_%s.o' % (bdir, i, os.path.basename(s)), flags + tsan))
    jobs.append((harness, bdir + '/harness.o', flags + tsan))
    for x in d.get('EXTRA', '').split(): jobs.append((os.path.join(V, x), '%s/x_%s.o' % (bdir, os.path.basename(x)), flags + (tsan if 'harness/' in x else [])))
    jobs.append((V + '/lib/mc.cpp', bdir + '/mc.o', flags))
    with cf.ThreadPoolExecutor(8) as ex:
        for src, rc, out in ex.map(lambda j: compile_one(*j), jobs):
            if rc: die('ERROR: cannot compile %s\n%s' % (src, out[-4000:]))
    wraps = ['-Wl,--wrap=' + w for w in d.get('WRAP', '').split()]
    r = run(['g++'] + san + [j[1] for j in jobs] + wraps + d.get('LDFLAGS', '').split() + LIBSTD + ['-o', bdir + '/h'])
    if r.returncode: die('ERROR: cannot link\n' + r.stdout[-4000:])
    return d

def known_findings(pid):
    keys, fixed = [], []
    p = V + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'known: property=(\S+) key=(\S+)\s+(.*)', l)
            if m and m.group(1) == pid: keys.append((m.group(2), m.group(3)))
    return keys

def main():
    a = sys.argv[1:]; pid = a[0]; tier = os.environ.get('VERIF_TIER', 'quick'); replay = None; only = None; workers = os.environ.get('VERIF_WORKERS', '8')
    i = 1
    while i < len(a):
        if a[i] == '--tier': tier = a[i + 1]; i += 2
        elif a[i] == '--replay': replay = a[i + 1]; i += 2
        elif a[i] == '--only': only = a[i + 1]; i += 2
        else: die('bad argument ' + a[i])
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    bdir = '%s/build/%s' % (V, pid)
    shutil.rmtree(bdir, ignore_errors=True); os.makedirs(bdir)
    harness = V + '/harness/%s.cpp' % pid
    pyh = V + '/harness/%s.py' % pid
    if os.path.exists(pyh):   # properties decided by a dedicated driver (e.g. over generated programs)
        sys.path.insert(0, V + '/harness'); sys.path.insert(0, V)
        mod = __import__(pid); res = mod.explore(tier, bdir, R, [k for k, _ in known_findings(pid)]); d = {}
        if replay: print(json.dumps(res['violations'], indent=1)); sys.exit(1 if res['violations'] else 0)
    else:
        # The builds to explore: as configured by default, and (@BUILDS: release) with debug checks compiled out.
        builds = [('', bdir)] + [(v, bdir + '/' + v) for v in parse(harness).get('BUILDS', '').split()]
        if replay: m = re.search(r'^build: (\w+)', open(replay).read(), re.M); want = m.group(1).replace('default', '') if m else ''; builds = [b for b in builds if b[0] == want]
        for v, b in builds: os.makedirs(b, exist_ok=True); d = build(pid, b, harness, v)
        tb = time.time() - t0
        known = known_findings(pid)
        res = None
        budget = float((d.get('BUDGET', '300 2400').split() + ['2400'])[0 if tier == 'quick' else 1])
        for v, b in builds:
            open(b + '/known', 'w').write(''.join(k + '\n' for k, _ in known))
            cmd = [b + '/h', '--tier', tier, '--workers', workers, '--scratch', b + '/scratch', '--known', b + '/known', '--budget', str(budget), '--result', b + '/result.json']
            if only: cmd += ['--only', only]
            if replay:
                r = subprocess.run(cmd + ['--replay', replay]); sys.exit(r.returncode)
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode not in (0, 1) or not os.path.exists(b + '/result.json'): die('ERROR: explorer ended with %d\n%s' % (r.returncode, r.stdout[-3000:]), 3)
            one = json.load(open(b + '/result.json'))
            for x in one['violations'] + one['scenarios']: x['build'] = v or 'default'
            if res is None: res = one
            else:
                for k in ('states', 'transitions', 'validated', 'executions', 'distinct_traces'): res[k] += one[k]
                for k in ('scenarios', 'known', 'warnings', 'samples', 'violations'): res[k] = list(res[k] or []) + list(one[k] or [])
                res['complete'] = bool(res['complete'] and one['complete']); res['budget_out'] = res.get('budget_out') or one.get('budget_out')
            if res['violations']: break
        res['build_s'] = tb
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(res['violations']),
              coverage=dict(states=res['states'], transitions=res['transitions'], traces_validated_against_impl=res['validated'], executions=res['executions'],
                            distinct_observed_traces=res['distinct_traces'], exhaustive=bool(res['complete']), scenarios=res['scenarios'],
                            known_finding_hits=res['known'], warnings=res['warnings'],
                            samples=res['samples'] or [dict(note='run stopped at a violation', violation=res['violations'][:1])]),
              assumptions=[x.strip() for x in d.get('ASSUME', res.get('assume', '')).split(';;') if x.strip()])
    if res.get('budget_out'): ev['coverage']['cap'] = 'time budget reached; scenarios with complete=false were not finished'
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open(V + '/evidence/%s.json' % pid, 'w'), indent=1)
    for w in res['warnings']: print('WARNING: ' + w[:400])
    hits = {}
    for k in res['known']: hits[k['key']] = hits.get(k['key'], 0) + k['hits']
    for k, desc in known_findings(pid):
        if k in hits: print('KNOWN-FINDING: property=%s %s [%s, %d histories]' % (pid, desc, k, hits[k]))
    c = ev['coverage']
    print('%s %s: %d executions, %d transitions, %d states, %d distinct traces, exhaustive=%s, %.1fs' % (pid, tier, c['executions'], c['transitions'], c['states'], c['distinct_observed_traces'], c['exhaustive'], ev['wall_s']))
    if os.environ.get('VERIF_VERBOSE'):
        for s in res['scenarios']: print('   ', s)
    if res['violations']:
        v = res['violations'][0]
        os.makedirs(V + '/replays', exist_ok=True)
        rp = V + '/replays/%s.txt' % pid
        open(rp, 'w').write('property: %s\nbuild: %s\nscenario: %s\nkey: %s\nmessage: %s\nchoices: %s\nreplay with: cd /verif && python3 check.py %s --replay %s\ntrace:\n%s\n' % (pid, v.get('build', 'default'), v['scenario'], v['key'], v['msg'].replace('\n', ' | '), v['choices'], pid, rp, v['trace']))
        for v in res['violations']: print('  %s / %s: %s\n%s' % (v['scenario'], v['key'], v['msg'], '\n'.join('    ' + t for t in v['trace'].split('\n')[-25:])))
        print('VIOLATION property=%s replay=%s' % (pid, rp)); sys.stdout.flush(); sys.exit(1)
    sys.exit(0)

main()
