#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: decide one property for the tree in /repo."""
import argparse
import json
import os
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, as_completed

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'py'))
sys.dont_write_bytecode = True

import build  # noqa: E402
import props  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--setup', action='store_true', help='build the tool that reads the compiler output')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.setup:
        build.irdump()
        return
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    pr = props.PROPS[a.prop]
    try:
        build.irdump()
        jobs = pr.jobs(a.tier)
        # explorations that are not done by then end, what they covered is in the evidence
        os.environ['HSMV_DEADLINE'] = str(t0 + (3600 if a.tier == 'thorough' else 540))
        results = []
        with ProcessPoolExecutor(min(8, max(1, len(jobs)))) as ex:
            fs = {ex.submit(props.run_job, j): j for j in jobs}
            for f in as_completed(fs):
                results.append((fs[f], f.result()))
        results.sort(key=lambda x: jobs.index(x[0]))
        errors = [(j, r['error']) for j, r in results if r.get('error')]
        findings = pr.select(results)
        known = props.known_findings()
        alarms = []
        seen_known = {}
        for f in findings:
            k = props.match_known(known, a.prop, f)
            if k:
                seen_known.setdefault(k['id'], []).append(f)
            elif k is None:
                alarms.append(f)
        cov = pr.coverage(results)
        wall = time.time() - t0
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        ev = {'property': a.prop, 'tier': 'thorough' if a.tier == 'thorough' else 'quick', 'seed': seed, 'level': pr.level,
              'coverage': cov, 'wall_s': round(wall, 2), 'violations': len(alarms), 'assumptions': pr.assumptions()}
        with open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
        if alarms:
            rp = os.path.join('evidence', a.prop + '.violation.txt')
            with open(os.path.join(HERE, rp), 'w') as fh:
                for f in alarms:
                    fh.write(props.describe(f) + '\n')
            for f in alarms[:4]:
                print(props.describe(f))
            if len(alarms) > 4:
                print('... %d further findings in %s' % (len(alarms) - 4, rp))
            print('VIOLATION property=%s replay=%s' % (a.prop, rp))
            sys.exit(1)
        for j, e in errors:
            print('not analysed: %s: %s' % (j, e), file=sys.stderr)
        if 2 * len(errors) > len(jobs):
            # too little is left to speak of a decision
            sys.exit(2)
        for k in known:
            if k['id'] in seen_known:
                print('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))
        vac = pr.vacuous([(j, r) for j, r in results if not r.get('error')])
        if vac:
            print('analysis error: %s' % vac, file=sys.stderr)
            sys.exit(2)
        print('%s: holds (%s) %.1fs' % (a.prop, pr.summary(cov), wall))
        sys.exit(0)
    except build.AnalysisError as e:
        print('analysis error: %s' % e, file=sys.stderr)
        sys.exit(2)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)


if __name__ == '__main__':
    main()
