"""Developer entry: python3-vt bin/dv.py C07[,C01] [-v] [substring]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dv import pool
import multiprocessing.connection
args = [a for a in sys.argv[1:] if a != '-v']
verbose = '-v' in sys.argv
for prop in args[0].split(','):
    for r in pool.run_units(prop.upper(), only=args[1] if len(args) > 1 else None, tier='thorough'):
        n = sum(o['status'] == 'proved' for o in r['obls'])
        print('%-10s %-60s obl=%d/%d paths=%d reached=%d %.1fs %s' % (r['status'], prop + ' ' + r['name'], n, len(r['obls']), r['paths'], r['reached'], r['wall'], (r['error'] or '')[:300]))
        for o in [o for o in r['obls'] if o['status'] != 'proved'][:3]:
            print('    ', o['status'], o['obligation'][:150], o['path'][:20], str(o['model'])[:400])
        if verbose and r['error']:
            print('\n'.join(l for l in '\n'.join(r['notes'])[-1500:].split('\n') if not l.strip().startswith('^') and '~' not in l)[-700:])
