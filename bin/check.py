#!/usr/bin/env python3
"""check.py <property>: decide one property. See DESIGN.md."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib


def main():
    pid = sys.argv[1]
    n = int(pid[1:])
    if n <= 16:
        import server as mod
    elif n <= 21:
        import core as mod
    elif n <= 23:
        import scp as mod
    elif n == 24:
        import sshd as mod
    elif n == 25:
        import fresh as mod
    elif n == 26:
        import fair as mod
    else:
        import held as mod
    ck = lib.Check(pid)
    try:
        mod.run(ck)
        return ck.finish()
    except Exception as e:
        print('ERROR', e) if isinstance(e, lib.ToolError) else traceback.print_exc()
        # what was found before stays found
        return ck.finish() if ck.violations else 2


sys.exit(main())
