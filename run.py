import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

if __name__ == '__main__':
    from vlib import core
    try:
        code = core.main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc(file=sys.stdout)
        code = core.EXIT_ERROR
    sys.stdout.flush()
    sys.exit(code)
