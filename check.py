#!/usr/bin/env python3
"""check.py <id> [--replay FILE]   (tier from VERIF_TIER, seed from VERIF_SEED)"""
import json, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import vlib
import checks

def main():
    if len(sys.argv) < 2 or sys.argv[1] not in checks.ALL:
        print('usage: check.py ID [--replay FILE]; ids: ' + ' '.join(sorted(checks.ALL)))
        return 2
    pid = sys.argv[1]
    try:
        if len(sys.argv) > 3 and sys.argv[2] == '--replay':
            return checks.replay(json.load(open(sys.argv[3])))
        return checks.ALL[pid]()
    except vlib.CheckError as e:
        print('CHECK-ERROR %s: %s' % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        return 3
    finally:
        vlib.cleanup()
if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
