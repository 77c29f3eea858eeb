#!/usr/bin/env python3
"""check.py <property> quick|thorough: decides one property on /repo's current tree."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vp'))
import core, props

LIMIT = {'quick': 780, 'thorough': 3 * 3600}


def main():
    pid, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    p = props.PROPS[pid]
    groups = p['f'](tier)
    only = os.environ.get('VP_ONLY')
    if only:
        groups = [(o, [j for j in js if only in j['id']]) for o, js in groups]
    return core.run_check(pid, tier, groups, p, LIMIT[tier])


if __name__ == '__main__':
    sys.exit(main())
