"""Entry point: python3 -m vf.run <property>"""
import sys, importlib, traceback, shutil
from . import core, tlc, build

def main():
    pid = sys.argv[1]
    mod = importlib.import_module("vf.checks." + pid.lower())
    c = core.Check(pid, mod.LEVEL)
    try:
        mod.check(c)
        code = c.finish()
    except core.Violation as v:
        c.violation(v.what, v.case); code = c.finish()
    except core.Crash as x:
        c.violation("call crashed or hung: " + str(x)); code = c.finish()
    except BaseException:
        if c.viol:            # a violation found before the machinery failed still counts
            traceback.print_exc(); code = c.finish()
        else:
            traceback.print_exc(); print("ERROR: the check itself failed"); code = 2
    shutil.rmtree(c.scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)
main()
