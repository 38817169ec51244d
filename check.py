#!/usr/bin/env python3
"""python3 check.py ID   decides property ID on /repo's working tree.
Exit 0: held on everything explored; 1: violated (VIOLATION line); 2: tool error."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import core, checks

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    res = checks.Result(pid, tier, seed)
    try:
        checks.CHECKS[pid](res)
    except core.ToolError as e:
        print('ERROR: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        core.cleanup()
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': dict({'states': core.STATS['states'], 'transitions': core.STATS['transitions'],
                            'traces_validated_against_impl': res.validated, 'tlc_runs': core.STATS['tlc_runs'],
                            'samples': res.samples, 'forged_recordings_rejected': core.STATS.get('forged', 0)}, **res.extra),
          'assumptions': res.assumptions, 'wall_s': round(time.time() - t0, 1), 'violations': len(res.violations)}
    os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(core.VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if res.violations:
        out = os.path.join(core.VERIF, 'evidence', 'replay')
        os.makedirs(out, exist_ok=True)
        for n, (what, replay) in enumerate(res.violations[:5]):
            path = os.path.join(out, '%s-%d.json' % (pid, n))
            with open(path, 'w') as f:
                json.dump(dict(replay, property=pid, what=what), f, indent=1)
            print('%s: %s: %r' % (pid, what, str(replay.get('input', replay.get('args', replay.get('word', '')))))[:200])
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    print('%s held: %d recorded runs validated, %d states, %.0f s' % (pid, res.validated, core.STATS['states'], time.time() - t0))
    return 0

sys.exit(main())
