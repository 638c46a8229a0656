"""python3 -m wsa <property id> [--tier quick|thorough]"""

import importlib
import os
import sys
import traceback

from .core import Check, AnalysisError


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    chk = Check(pid, tier, seed)
    try:
        mod = importlib.import_module('wsa.checks.' + pid.lower())
        mod.run(chk)
        return chk.finish()
    except AnalysisError as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % pid)
        return 2


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
