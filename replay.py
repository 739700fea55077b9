"""replay.py [--json] <replay file>: run a recorded execution again, exactly."""
import atexit
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

if __name__ == "__main__":
    from check import pin

    pin()
    os.chdir(HERE)
    from simkit import runner

    args = [a for a in sys.argv[1:] if a != "--json"]
    try:
        code = runner.replay(args[0], "--json" in sys.argv)
    except BaseException:
        import traceback

        traceback.print_exc()
        code = 2
    atexit._run_exitfuncs()
    sys.stdout.flush()
    os._exit(code)
