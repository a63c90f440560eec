#!/usr/bin/env python3
"""check.py <property> [quick|thorough] -- build the simulator from the repository and search.

Exit 0: property held.  Exit 1: violation (line VIOLATION property=... replay=...).  Else: error.
"""
import os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + '/sim')
import build  # noqa: E402

# number of simulated runs per tier; the time is a safety limit only
RUNS = {
    'C01': (22000, 1200000),
    'C02': (28000, 1200000),
    'C03': (40000, 2000000),
    'C04': (40000, 2000000),
    'C05': (80000, 3000000),
    'C06': (500000, 20000000),
    'C07': (60000, 3000000),
    'C08': (180000, 8000000),
    'C09': (350000, 14000000),
    'C10': (1500000, 40000000),
    'C11': (500000, 12000000),
    'C12': (500000, 20000000),
    'C13': (130000, 6000000),
    'C14': (600000, 25000000),
    'C15': (280000, 12000000),
    'C16': (110000, 5000000),
    'C17': (1200000, 50000000),
    'C18': (450000, 18000000),
    'C20': (20000, 900000),
    'C21': (1500000, 60000000),
    'C19': (45000, 1500000),
}
LIMIT = {'quick': 240, 'thorough': 3000}


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in LIMIT:
        tier = 'quick'
    seed = os.environ.get('VERIF_SEED', '1')
    if not seed.isdigit():
        seed = '1'
    try:
        exe = build.build()
    except build.BuildError as e:
        sys.stderr.write('build of the simulator failed:\n%s\n' % e)
        return 2
    os.makedirs(HERE + '/evidence', exist_ok=True)
    runs = RUNS[prop][0 if tier == 'quick' else 1]
    cmd = [exe, 'search', prop, '--runs', str(runs), '--time', str(LIMIT[tier]), '--seed', seed, '--tier', tier,
           '--out', HERE + '/replays', '--evidence', HERE + '/evidence/%s.json' % prop, '--known', HERE + '/known-findings.txt',
           '--workers', str(min(8, os.cpu_count() or 8))]
    return subprocess.run(cmd).returncode


if __name__ == '__main__':
    rc = main()
    sys.exit(rc if rc in (0, 1) else 2)
