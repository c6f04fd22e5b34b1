#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [-v]: decide one property from /repo's current source."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.setrecursionlimit(20000)
import ctx
if __name__ == '__main__':
    try:
        r = ctx.main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc(file=sys.stdout)
        print('ERROR analysis crashed')
        r = 2
    sys.exit(r)
