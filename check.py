#!/usr/bin/env python3
"""check.py <property id>: builds the simulator from /repo's working tree and explores seeded runs of the property's harness.
Exit 0: held on everything explored; 1: VIOLATION (line on stdout, replay file written); 2: the check itself failed."""
import json, os, re, subprocess, sys, time, shutil, bisect, struct
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B
from props import PROPS

def read_known():
    known = {}
    for line in open(f'{HERE}/known_findings.txt'):
        m = re.match(r'known: property=(\S+) key=(\S+)\s+(.*)', line)
        if m: known.setdefault(m[1], {})[m[2]] = m[3]
    return known

class Symbols:
    def __init__(self, exe):
        self.a, self.n = [], []
        try:
            out = subprocess.run(['nm', '-C', '--defined-only', '-n', exe], stdout=subprocess.PIPE, text=True, timeout=60).stdout
            for l in out.splitlines():
                p = l.split(' ', 2)
                if len(p) == 3 and p[1] in 'tTwWuV': self.a.append(int(p[0], 16)); self.n.append(p[2])
        except Exception: pass
    def __call__(self, m):
        x = int(m[1], 16); i = bisect.bisect_right(self.a, x) - 1
        if i < 0 or x - self.a[i] > 1 << 20: return m[0]
        n = re.sub(r'<[^<>]*>', '<>', self.n[i])
        while True:
            k = re.sub(r'<[^<>]+>', '<>', n)
            if k == n: break
            n = k
        return f'<{n[:120]}+{x - self.a[i]:#x}>'

def main():
    prop = sys.argv[1]; P = PROPS[prop]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    if '--thorough' in sys.argv: tier = 'thorough'
    t_start = time.time()
    exe, t_build = B.build(P['harness'])
    budget = P['quick_s'] if tier == 'quick' else P['thorough_s']
    if os.environ.get('SIM_TIME'): budget = float(os.environ['SIM_TIME'])
    nw = max(1, min(8, len(os.sched_getaffinity(0))))
    work = f"{B.BUILD}/run_{prop}"
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    rep_dir = f'{HERE}/replays'; os.makedirs(rep_dir, exist_ok=True)
    known = read_known().get(prop, {})
    env = dict(os.environ); env['SIM_FOCUS'] = P.get('focus', '')
    env.update(P.get('env', {}))
    common = [f'tier={1 if tier == "thorough" else 0}', 'known=' + ','.join(known), 'ignore=' + ','.join(P.get('ignore', []))]
    procs = []
    t0 = time.time()
    for w in range(nw):
        procs.append(subprocess.Popen([exe, 'explore', f'seed={seed}', f'from={w}', f'stride={nw}', f'time={budget}', f'out={work}/w{w}'] + common,
                                      env=env, cwd=work, stdout=subprocess.DEVNULL, stderr=open(f'{work}/w{w}.err', 'w')))
    rcs = [None] * nw
    grace = None
    while any(r is None for r in rcs):
        time.sleep(0.05)
        for w, p in enumerate(procs):
            if rcs[w] is None: rcs[w] = p.poll()
        if grace is None and 1 in rcs: grace = time.time() + 2
        if (grace and time.time() > grace) or time.time() > t0 + budget + 250:
            for w, p in enumerate(procs):
                if rcs[w] is None: p.terminate(); p.wait(); rcs[w] = -1
    tot = {k: 0 for k in ('runs', 'inconclusive', 'steps', 'switches', 'preemptions', 'threads', 'sim_s', 'determinism_checked', 'nondeterministic')}
    counters, known_seen, why, other, samples, viol, nondet, unrep = {}, {}, {}, {}, [], [], [], []
    sets = [set(), set(), set()]
    for w in range(nw):
        try: lines = open(f'{work}/w{w}').read().splitlines()
        except OSError: lines = []
        for l in lines:
            if l.startswith('violation '):
                _, idx, same, over, cls = l.split(' ', 4); viol.append((int(idx), int(same), int(over), cls, f'{work}/w{w}.replay'))
            elif l.startswith('nondeterministic '): nondet.append(int(l.split()[1]))
            elif l.startswith('unreproducible '): unrep.append(l)
            elif l.startswith('summary '):
                j = json.loads(l[8:])
                for k in tot: tot[k] += j[k]
                for src, dst in ((j['counters'], counters), (j['known'], known_seen), (j['inconclusive_why'], why), (j['other'], other)):
                    for k, v in src.items(): dst[k] = dst.get(k, 0) + v
                samples.append(j['sample'])
        try:
            data = open(f'{work}/w{w}.hashes', 'rb').read(); i = 0
            for (h,) in struct.iter_unpack('<Q', data):
                if h == 0 and i < 2: i += 1
                else: sets[i].add(h)
        except OSError: pass
    for w, r in enumerate(rcs):
        if r not in (0, 1, -1) or (r == -1 and not grace):
            sys.stderr.write(f'worker {w} ended with {r}: ' + open(f'{work}/w{w}.err').read()[-2000:] + '\n')
            if not viol: return 2
    wall = time.time() - t0
    report, gate_note = None, []
    for idx, same, over, cls, path in sorted(viol):
        if not same: gate_note.append(f'idx {idx}: {cls} did not repeat'); continue
        p = subprocess.run([exe, 'replay', path] + common, env=env, cwd=work, stdout=subprocess.PIPE, text=True)
        if p.returncode != 1: gate_note.append(f'idx {idx}: replay of {cls} in a fresh process: {p.stdout[-300:]}'); continue
        final = path
        if not over:
            mn = path + '.min'
            subprocess.run([exe, 'minimise', path, f'out={mn}', f"time={20 if tier == 'quick' else 120}", f'origin=seed={seed} idx={idx}'] + common,
                           env=env, cwd=work, stdout=subprocess.PIPE)
            if os.path.exists(mn) and subprocess.run([exe, 'replay', mn] + common, env=env, cwd=work, stdout=subprocess.PIPE).returncode == 1: final = mn
        dst = f'{rep_dir}/{prop}-seed{seed}-{idx}.replay'
        text = open(final, errors='replace').read()
        open(dst, 'w').write(text)
        msg = [l for l in text.splitlines() if l.startswith('message ')]
        report = (idx, cls, dst, msg[0][8:] if msg else '')
        break
    faults = {k[6:]: v for k, v in counters.items() if k.startswith('fault.')}
    probes = {k[6:]: v for k, v in counters.items() if k.startswith('probe.')}
    rest = {k: v for k, v in counters.items() if not k.startswith(('fault.', 'probe.'))}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': P.get('level', 'exploration'), 'wall_s': round(time.time() - t_start, 2),
          'violations': 1 if report else 0,
          'assumptions': P['assumptions'],
          'coverage': {
            'evaluations': tot['runs'], 'distinct_nontrivial': len(sets[1]),
            'rule': P['rule'] + ' Distinct: runs whose complete event history (operations, results, scheduling decisions) hashes differently.',
            'samples': samples[:4],
            'runs_per_hour': int(tot['runs'] / max(wall, .001) * 3600), 'seeds_per_hour': int(tot['runs'] / max(wall, .001) * 3600),
            'simulated_seconds': round(tot['sim_s'], 3), 'simulated_threads': tot['threads'],
            'scheduler_events': tot['steps'], 'context_switches': tot['switches'], 'preemptions': tot['preemptions'],
            'distinct_interleavings': len(sets[0]), 'distinct_abstract_states': len(sets[2]),
            'faults_injected': faults, 'rare_conditions_hit': probes, 'counters': rest,
            'inconclusive_runs': tot['inconclusive'], 'inconclusive_reasons': why, 'findings_of_other_properties': other,
            'determinism_checked': tot['determinism_checked'], 'nondeterministic': len(nondet), 'not_reproducible': (gate_note + unrep)[:5],
            'known_findings_seen': known_seen,
            'real_code': P['real'], 'stubbed': P['stub'], 'build_s': round(t_build, 1), 'workers': nw}}
    os.makedirs(f'{HERE}/evidence', exist_ok=True)
    json.dump(ev, open(f'{HERE}/evidence/{prop}.json', 'w'), indent=1)
    print(f"{prop}: {tot['runs']} runs in {wall:.1f}s ({len(sets[0])} distinct interleavings, {tot['inconclusive']} inconclusive), build {t_build:.1f}s")
    for k in known: print(f"KNOWN-FINDING: property={prop} {known[k]}")
    if report:
        idx, cls, dst, msg = report
        msg = re.sub(r'<0x([0-9a-f]+)>', Symbols(exe), msg)
        open(dst, 'a').write('symbolised ' + msg + '\n')
        print(f'class {cls}: {msg[:3000]}')
        print(f'replay with: {exe} replay {dst}')
        print(f'VIOLATION property={prop} replay={dst}')
        return 1
    # reported for the record, but nothing that does not repeat is believed
    if gate_note or unrep: sys.stderr.write('NOTE: violations that do not repeat: ' + '; '.join(gate_note + unrep) + '\n')
    if nondet: sys.stderr.write(f'NOTE: runs whose repetition differed: {nondet}\n')
    if tot['runs'] == 0: sys.stderr.write('no run completed\n'); return 2
    return 0

if __name__ == '__main__':
    try: rc = main()
    except SystemExit: raise
    except BaseException as e:
        import traceback; traceback.print_exc(); rc = 2
    sys.exit(rc)
