import os
import sys


def main():
    cmd, argv = sys.argv[1], sys.argv[2:]
    from . import runner
    if cmd == "check":
        try:
            code = runner.check(argv[0], argv[1:])
        except BaseException:
            import traceback
            traceback.print_exc()
            code = 2        # an error of the check, never a verdict
        sys.exit(code)
    if cmd == "worker":
        return runner.worker_main(argv)
    if cmd == "minimise":
        return runner.minimise_main(argv)
    if cmd == "sibling":
        from . import p_ambient
        return p_ambient.sibling_main()
    if cmd == "replay":
        return runner.replay_main(argv)
    raise SystemExit("unknown command " + cmd)


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    main()
