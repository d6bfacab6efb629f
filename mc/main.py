"""Entry point: python -m mc.main ID [--tier T] [--replay FILE] [--repo DIR] [--jobs N]"""

import argparse
import importlib
import json
import logging
import os
import re
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')


def known_findings(pid):
    """[(pattern, text)] of the unrepaired findings listed for this property."""
    out = []
    with open(KNOWN) as ff:
        for line in ff:
            mm = re.match(r'known: property=(\S+) match=(\S+) (.*)', line.strip())
            if mm and mm.group(1) == pid:
                out.append((mm.group(2), mm.group(3)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--budget', type=float)
    args = ap.parse_args()
    t0 = time.time()
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1

    sys.path.insert(0, os.path.abspath(args.repo))
    from mc import rng
    rng.install()
    import kalepy
    where = os.path.dirname(os.path.abspath(kalepy.__file__))
    if os.path.dirname(where) != os.path.abspath(args.repo):
        print('ERROR: kalepy imported from {}, not from {}'.format(where, args.repo))
        return 2
    logging.disable(logging.CRITICAL)

    from mc import core
    mod = importlib.import_module('mc.checks.' + args.id.lower())
    if hasattr(mod, 'setup'):
        mod.setup(args.tier)

    if args.replay:
        with open(args.replay) as ff:
            case = json.load(ff)['case']
        rec = core.Recorder(mod)
        bad = core.run_case(mod, case, rec)
        if bad is None:
            print('replay: no violation (transitions={})'.format(rec.transitions))
            return 0
        print(json.dumps(bad, indent=1))
        return 1

    budget = args.budget or (780 if args.tier == 'quick' else 6*3600)
    tot = core.explore(mod, args.tier, args.jobs, budget)

    known = known_findings(mod.ID)
    out = os.path.join(ROOT, 'out')
    os.makedirs(out, exist_ok=True)
    violations, seen_known = [], {}
    for bad in tot['fails']:
        text = json.dumps(bad['case']) + ' ' + bad['detail']['what']
        for pat, desc in known:
            if re.search(pat, text):
                seen_known.setdefault((pat, desc), bad)
                break
        else:
            violations.append(bad)

    for (pat, desc) in known:
        print('KNOWN-FINDING: property={} {}{}'.format(
            mod.ID, desc, '' if (pat, desc) in seen_known else ' (not reached in this run)'))

    wall = time.time() - t0
    exhaustive = (tot['done'] == tot['cases']) and not tot['capped'] and not tot['dead'] and not tot['fails']
    cov = dict(
        states=tot['states'], transitions=tot['transitions'],
        traces_validated_against_impl=tot['traces'],
        cases_enumerated=tot['done'], cases_in_bounded_space=tot['cases'],
        exhaustive=exhaustive,
        bounds=mod.BOUNDS[args.tier], samples=tot['samples'],
    )
    cov.update(tot['extra'])
    if tot['notes']:
        cov['notes'] = sorted(tot['notes'])
    evid = dict(property=mod.ID, tier=args.tier, seed=seed, level='model_checking', coverage=cov,
                assumptions=mod.ASSUMPTIONS, wall_s=round(wall, 2), violations=len(violations))
    if os.path.abspath(args.repo) == '/repo':
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', mod.ID + '.json'), 'w') as ff:
            json.dump(evid, ff, indent=1, default=core._default)
            ff.write('\n')

    print('{} [{}] cases={}/{} states={} transitions={} traces={} {} wall={:.1f}s'.format(
        mod.ID, args.tier, tot['done'], tot['cases'], tot['states'], tot['transitions'], tot['traces'],
        ' '.join('{}={}'.format(*kv) for kv in sorted(tot['extra'].items())), wall))
    for nn in sorted(tot['notes']):
        print('note:', nn)

    for num, bad in enumerate(violations[:5]):
        path = os.path.join(out, '{}-{}.json'.format(mod.ID, num))
        with open(path, 'w') as ff:
            json.dump(dict(property=mod.ID, replay_cmd='bin/check {} --replay {}'.format(mod.ID, path),
                           **bad), ff, indent=1, default=core._default)
        print(json.dumps(bad['case'])[:400])
        detail = {kk: vv for kk, vv in bad['detail'].items() if kk != 'traceback'}
        print(json.dumps(detail, default=core._default)[:600])
        print('VIOLATION property={} replay={}'.format(mod.ID, path))
    if violations:
        return 1
    if tot['dead']:
        # a case that cannot be interrupted (stuck in compiled code) or that takes the process down
        path = os.path.join(out, mod.ID + '-dead.json')
        with open(path, 'w') as ff:
            json.dump(dict(property=mod.ID, dead=tot['dead'], cases=tot['samples']), ff)
        print(tot['dead'])
        print('VIOLATION property={} replay={}'.format(mod.ID, path))
        return 1
    if tot['transitions'] == 0 or tot['traces'] == 0:
        print('ERROR: nothing was explored')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
