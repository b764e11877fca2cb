#!/usr/bin/env python3
"""python3 run.py <property id>: runs the check of one property (VERIF_SEED, VERIF_TIER from the environment)."""
import importlib, os, signal, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import common


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        common.TIER = sys.argv[2]
    limit = 840 if common.TIER == 'quick' else 6 * 3600

    def on_alarm(*_):
        raise common.HarnessError('the check ran out of its own %d s' % limit)
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(limit)
    mod = importlib.import_module('checks.' + pid.lower())
    rc = common.main(pid, mod.run, getattr(mod, 'LEVEL', 'exploration'))
    sys.stdout.flush()
    os._exit(rc)


main()
