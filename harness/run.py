import importlib
import os
import sys
import traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    prop = sys.argv[1]
    mod = importlib.import_module("check_" + prop.lower())
    import core
    try:
        return mod.main()
    except Exception as e:
        # What the checks do outside core.attempt() the code under test must
        # be able to do (make a model from a good file, say): if it fails,
        # that is a violation.  Anything else is a fault of the machinery.
        traceback.print_exc()
        frames = traceback.extract_tb(e.__traceback__)
        package = os.path.realpath(os.path.join(core.REPO, "taupy")) + os.sep
        if isinstance(e, core.CodeFailed) or (frames and os.path.realpath(
                frames[-1].filename).startswith(package)):
            c = core.Check(prop, "model_checking")
            c.violation("failed", {"error": repr(e)[:500]})
            return c.finish()
        return 2


if __name__ == "__main__":
    sys.exit(main())
