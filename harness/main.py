import importlib
import os
import sys
import traceback

from . import core


def main():
    prop = sys.argv[1]
    sys.setrecursionlimit(4000)
    code = 2
    rep = None
    try:
        mod = importlib.import_module("harness." + prop.lower())
        rep = core.Report(prop)
        mod.run(rep)
        code = rep.finish()
    except Exception as e:
        text = str(e) if isinstance(e, (core.MachineryError, core.CodeError)) else traceback.format_exc()
        print("%s: %s" % (prop, text))
        if isinstance(e, core.CodeError) or not isinstance(e, core.MachineryError) and core.raised_by_code(e):
            rep = rep or core.Report(prop)
            rep.violation("exception:" + text.strip().splitlines()[-1][:60], "exception", dict(line=text[-3000:], clause="exception"))
        # what was found before is reported, else there is no answer
        try:
            if rep and rep.violations and rep.finish():
                code = 1
        except core.MachineryError:
            pass
    except BaseException:
        traceback.print_exc()
    finally:
        core.cleanup()
    sys.stdout.flush()
    os._exit(code)


if __name__ == "__main__":
    main()
