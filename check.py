#!/usr/bin/env python3
"""check.py ID [quick|thorough]   decides one property on the working tree of /repo.

Builds the generator of the tree, lets it generate the corpus, compiles the
monitors together with what it generated, runs them, and writes
evidence/<ID>.json. Exit 0: held on everything explored. Exit 1 with a
VIOLATION line otherwise.
"""
import json
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.dont_write_bytecode = True
import corpus  # noqa: E402
import genmon  # noqa: E402
import special  # noqa: E402
from pipeline import BuildError, Work  # noqa: E402
from props import PROPS  # noqa: E402

EVID = os.path.join(HERE, 'evidence')
MONITOR_LIMIT = {'quick': 600, 'thorough': 7200}


class Outcome:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.counts = {}
        self.samples = []
        self.viol = []
        self.known = {}
        self.nviol = 0
        self.per = {}

    def add(self, monitor, rep, knownset):
        for k, v in rep['counts'].items():
            if k == 'types':
                self.counts['types'] = max(self.counts.get('types', 0), v)
            elif k in ('evaluations', 'distinct'):
                self.counts[k] = self.counts.get(k, 0) + v
                self.per.setdefault(monitor, {})[k] = self.per.get(monitor, {}).get(k, 0) + v
            else:
                key = monitor + '.' + k
                self.counts[key] = self.counts.get(key, 0) + v
        for s in (rep['samples'] or [])[:20]:
            if len(self.samples) < 60:
                self.samples.append(monitor + ': ' + s)
        for f in rep['finds'] or []:
            if f['kind'] == 'violation':
                f = dict(f, monitor=monitor)
                if len(self.viol) < 500:
                    self.viol.append(f)
        self.nviol += rep['violations']
        for k, n in (rep['known'] or {}).items():
            self.known[k] = self.known.get(k, 0) + n

    def violation(self, monitor, what, **kw):
        self.nviol += 1
        self.viol.append(dict({'kind': 'violation', 'monitor': monitor, 'what': what}, **kw))


def load_known(pid):
    p = os.path.join(HERE, 'known-findings.json')
    data = json.load(open(p))
    return [f for f in data['findings'] if f['property'] == pid]


def run_monitor(work, binp, name, seed, scale, known, tier, oc, race=False):
    env = dict(work.env)
    env['GORACE'] = 'halt_on_error=0 exitcode=66 log_path=stderr'
    env['GOTRACEBACK'] = 'all'
    args = [binp, '-prop', name, '-seed', str(seed), '-scale', str(scale), '-known', ','.join(known)]
    mon = name + ('+race' if race else '')
    try:
        r = subprocess.run(args, cwd=work.dir, env=env, capture_output=True, text=True, errors='replace',
                           timeout=MONITOR_LIMIT[tier])
    except subprocess.TimeoutExpired:
        oc.violation(mon, 'the monitored code does not come to an end (limit %d s)' % MONITOR_LIMIT[tier], input=' '.join(args[1:]))
        return
    races = r.stderr.count('WARNING: DATA RACE')
    if race:
        oc.counts['race_detector_runs'] = oc.counts.get('race_detector_runs', 0) + 1
        oc.counts['races'] = oc.counts.get('races', 0) + races
    if races:
        i = r.stderr.index('WARNING: DATA RACE')
        oc.violation(mon, 'data race', input=' '.join(args[1:]), got=r.stderr[i:i + 4000])
    rep = None
    for line in r.stdout.split('\n'):
        if line.startswith('{'):
            try:
                rep = json.loads(line)
            except ValueError:
                pass
    if rep is None:
        m = re.search(r'^(fatal error|panic|runtime): .*', r.stderr, re.M)
        if r.returncode == 3 and not m:
            raise BuildError('monitor %s: %s' % (name, r.stderr[-500:]))
        oc.violation(mon, 'the process running generated code died: ' + (m.group(0) if m else 'exit %s' % r.returncode),
                     input=' '.join(args[1:]), got=r.stderr[:6000])
        return
    oc.add(mon, rep, known)
    return rep


def go_checks(work, spec, tier, seed, known, oc):
    quick = tier == 'quick'
    combos = spec.get('combos', 12) if quick else 60
    pkgs = genmon.all_packages(seed, combos)
    work.build_vgen()
    work.generate(pkgs)
    binp = work.compile(corpus) if not spec.get('race_only') else None
    lost = len(work.gen_fail) + len(work.build_fail)
    oc.counts['packages'] = len(pkgs)
    oc.counts['packages_lost'] = lost
    if lost:
        oc.samples.append('not monitored (not generated or not compiled): ' + ', '.join(sorted(list(work.gen_fail) + list(work.build_fail)))[:300])
    about = re.compile(spec.get('about', '.'))
    for p in pkgs:
        why = work.gen_fail.get(p['name']) or work.build_fail.get(p['name'])
        if why and any(about.search(t) for f, t in p['files'].items() if f.endswith('.go')):
            oc.violation('build', 'declarations this property speaks about are not generated or do not compile',
                         type=p['name'], input=genmon.pkg_text(pkgs, p['name']), got=why[:2000])
    if lost > len(pkgs) // 2:
        oc.violation('build', 'most of the corpus is not generated or does not compile',
                     got=json.dumps(dict(list(work.gen_fail.items())[:3] + list(work.build_fail.items())[:3]))[:3000])
        return
    seeds = [seed] if quick else [seed + k for k in range(spec.get('thorough_seeds', 4))]
    for name in spec['monitors']:
        for s in seeds:
            run_monitor(work, binp, name, s, spec.get('scale', 1) if quick else spec.get('thorough_scale', 6), known, tier, oc)
            if oc.nviol:
                break
    races = spec.get('race', []) if quick else spec.get('race', []) + spec.get('race_thorough', [])
    if races:
        rb = work.compile(corpus, race=True, out='monitor-race')
        for name in races:
            run_monitor(work, rb, name, seed, 1 if quick else 3, known, tier, oc, race=True)


def gen_checks(work, spec, tier, seed, known, oc, findings, pid):
    quick = tier == 'quick'
    for name in spec.get('gen', []):
        rec = genmon.Rec()
        if name == 'compile':
            pkgs = genmon.all_packages(seed, 40 if quick else 300)
            work.build_vgen()
            work.generate(pkgs)
            binp = work.compile(corpus)
            genmon.mon_compile(work, rec, pkgs)
            oc.add('compile', rec.report(), known)
            if work.pkgs:
                run_monitor(work, binp, 'methods', seed, 1, known, tier, oc)
        elif name == 'determinism':
            pkgs = genmon.all_packages(seed, 6 if quick else 30)
            work.build_vgen()
            genmon.mon_determinism(work, rec, pkgs, 4 if quick else 24)
            oc.add('determinism', rec.report(), known)
        elif name == 'meta':
            pkgs = genmon.all_packages(seed, 4 if quick else 60)
            work.build_vgen()
            genmon.mon_meta(work, rec, pkgs, seed, not quick)
            oc.add('meta', rec.report(), known)
        elif name == 'files':
            pkgs = genmon.all_packages(seed, 8 if quick else 60)
            work.build_vgen()
            genmon.mon_files(work, rec, pkgs)
            genmon.mon_command(work, rec)
            oc.add('files', rec.report(), known)
        elif name == 'unsupported':
            pkgs = genmon.unsup_packages()
            work.build_vgen()
            work.generate(pkgs)
            binp = work.compile(corpus)

            def run(mon):
                sub = Outcome(pid, tier, seed)
                rep = run_monitor(work, binp, mon, seed, 1 if quick else 4, known, tier, sub)
                if sub.nviol and rep is None:
                    oc.viol += sub.viol
                    oc.nviol += sub.nviol
                return rep
            hits = genmon.mon_unsupported(work, rec, [f for f in findings if 'shape' in f], pkgs, run)
            for k, n in hits.items():
                oc.known[k] = oc.known.get(k, 0) + n
            oc.add('unsupported', rec.report(), known)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = PROPS[pid]
    t0 = time.time()
    oc = Outcome(pid, tier, seed)
    findings = load_known(pid)
    known = sorted({f['id'] for f in findings})
    try:
        with Work() as work:
            if spec.get('monitors') or spec.get('race'):
                go_checks(work, spec, tier, seed, known, oc)
            if spec.get('gen'):
                gen_checks(work, spec, tier, seed, known, oc, findings, pid)
    except BuildError as e:
        oc.violation('build', 'the tree under test cannot be built and monitored', got=str(e)[:4000])
    ev = oc.counts.get('evaluations', 0)
    if not oc.nviol and ev < spec.get('min', 100):
        oc.violation('reach', 'the monitors observed only %d cases, expected at least %d' % (ev, spec.get('min', 100)))
    for key, low in spec.get('min_counts', {}).items():
        if not oc.nviol and oc.counts.get(key, 0) < low:
            oc.violation('reach', 'the monitors saw %s only %d times, expected at least %d' % (key, oc.counts.get(key, 0), low))
    os.makedirs(EVID, exist_ok=True)
    wall = round(time.time() - t0, 1)
    replay = os.path.join(EVID, pid + '.violations.json')
    if os.path.exists(replay):
        os.remove(replay)
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': ev,
            'distinct_nontrivial': oc.counts.get('distinct', 0),
            'rule': spec['rule'],
            'observed': {k: v for k, v in oc.counts.items() if k not in ('evaluations', 'distinct')},
            **({'per_monitor': oc.per} if len(oc.per) > 1 else {}),
            'samples': oc.samples[:40],
            'known_findings_observed': oc.known,
        },
        'wall_s': wall,
        'assumptions': spec.get('assumptions', []),
        'violations': [short(v) for v in oc.viol[:20]],
    }
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, ensure_ascii=False)
        f.write('\n')
    for f in findings:
        print('KNOWN-FINDING: property=%s %s: %s (observed %d times in this run)' % (pid, f['id'], f['what'], oc.known.get(f['id'], 0)))
    print('%s %s seed=%d: %d evaluations, %d distinct, %d types, %.1f s' % (
        pid, tier, seed, ev, oc.counts.get('distinct', 0), oc.counts.get('types', 0), wall))
    if oc.nviol:
        with open(replay, 'w') as f:
            json.dump({'property': pid, 'seed': seed, 'tier': tier, 'count': oc.nviol, 'violations': oc.viol}, f, indent=1, ensure_ascii=False)
            f.write('\n')
        for v in oc.viol[:5]:
            print('  ' + short(v)[:600])
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    return 0


def short(v):
    return ' | '.join('%s=%s' % (k, str(v[k])[:300]) for k in ('monitor', 'type', 'what', 'input', 'got') if v.get(k))


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException as e:  # the machinery itself broke: say so as a violation, never stay silent
        import traceback
        traceback.print_exc()
        pid = sys.argv[1] if len(sys.argv) > 1 else '?'
        os.makedirs(EVID, exist_ok=True)
        rp = os.path.join(EVID, pid + '.violations.json')
        json.dump({'property': pid, 'violations': [{'what': 'machinery failure', 'got': traceback.format_exc()}]}, open(rp, 'w'))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        rc = 1
    sys.exit(rc)
