#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property.

Exits with 0 if the property held on everything explored, 1 with a VIOLATION line
if it did not, 2 if the check could not be run (for instance if /repo does not
compile).
"""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build
import config

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED') or '1')
    scale = os.environ.get('VERIF_SCALE')
    start = time.time()
    spec = config.PROPERTIES[prop]
    try:
        binaries = build.build([t for t, _ in spec], config, print)
    except build.BuildError as e:
        print('the harness of %s does not build:\n%s' % (prop, e))
        return 2
    built = time.time()
    replays = os.path.join(VERIF, 'replays', prop)
    os.makedirs(replays, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    scratch = os.path.join(build.BUILD, 'scratch', prop)
    os.makedirs(scratch, exist_ok=True)
    subs = []
    violations = []
    known = {}
    failed = False
    for target, only in spec:
        if target.endswith('_fma') and not build.has_fma():
            print('%s: skipped, this CPU has no FMA' % target)
            continue
        out = os.path.join(scratch, target + '.json')
        if os.path.exists(out):
            os.remove(out)
        command = [binaries[target], '--seed', str(seed), '--tier', tier,
                   '--out', out, '--replays', replays]
        if only:
            command += ['--only', only]
        if scale:
            command += ['--scale', scale]
        sys.stdout.flush()
        env = dict(os.environ, PRINCIPIA_REPO=build.REPO, TMPDIR=scratch)
        r = subprocess.run(command, cwd=scratch, env=env)
        if r.returncode not in (0, 1) or not os.path.exists(out):
            print('%s: internal error, status %d' % (target, r.returncode))
            failed = True
            continue
        j = json.load(open(out))
        subs += j['subs']
        for v in j['violations']:
            violations.append(v)
        for k in j.get('known', []):
            known.setdefault(k['id'], k['what'])
    listed = {}
    for line in open(os.path.join(VERIF, 'KNOWN_FINDINGS.jsonl')):
        line = line.strip()
        if line and not line.startswith(('#', 'fixed:')):
            f = json.loads(line)
            if f['property'] == prop:
                listed[f['id']] = f
    for k, what in sorted(known.items()):
        if k in listed:
            print('KNOWN-FINDING: property=%s %s' % (prop, listed[k]['what']))
        else:
            # A harness may only report a known failure if it is on the list.
            path = os.path.join(replays, k + '.txt')
            with open(path, 'w') as f:
                f.write(what + '\n')
            violations.append({'sub': k, 'replay': path, 'what': what})
    vacuous = [s['name'] for s in subs
               if s['evaluations'] > 0 and s['distinct_nontrivial'] == 0]
    samples = []
    for s in subs:
        for t in s['samples'][:2]:
            samples.append({'sub_property': s['name'], 'case': t})
    evidence = {
        'property': prop,
        'tier': tier,
        'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': sum(s['evaluations'] for s in subs),
            'distinct_nontrivial': sum(s['distinct_nontrivial'] for s in subs),
            'rule': ' | '.join('%s: %s' % (s['name'], s['rule'])
                               for s in subs),
            'samples': samples[:40],
            'sub_properties': [
                {k: s[k] for k in ('name', 'evaluations', 'planned',
                                   'discarded', 'skipped', 'assertions',
                                   'distinct_nontrivial', 'labels')}
                for s in subs],
            'vacuous_sub_properties': vacuous,
        },
        'assumptions': config.ASSUMPTIONS,
        'wall_s': round(time.time() - start, 2),
        'build_s': round(built - start, 2),
        'violations': [
            {'sub_property': v['sub'], 'replay': v['replay'],
             'what': v['what']} for v in violations],
        'known_findings': sorted(known),
    }
    path = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(evidence, f, indent=1)
    os.replace(path + '.tmp', path)
    print('%s %s: build %.1f s, run %.1f s' %
          (prop, tier, built - start, time.time() - built))
    if vacuous:
        print('no non-trivial case in: ' + ', '.join(vacuous))
    if violations:
        for v in violations:
            print('VIOLATION property=%s replay=%s' % (prop, v['replay']))
        return 1
    return 2 if failed else 0

if __name__ == '__main__':
    sys.exit(main())
